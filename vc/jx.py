"""Engine B: verification conditions from jaxprs of the real functions.

The function under contract is traced by jax itself (`jax.make_jaxpr`) on
symbolically shaped arguments, so every batch size, length and vocabulary size
is covered at once.  The jaxpr is then evaluated over *symbolic arrays*: a
shape (Python ints and z3 integer terms), a dtype, and a map from index terms
to z3 element terms.  `while`/`scan` equations are cut with invariants;
reductions over symbolic dimensions become sum/max objects with the lemma
instances the contract asks for; primitives without a semantics here become
unconstrained arrays (recorded, and refutations that may depend on them are
reported as undecided).

Floats are exact reals unless the interpreter is created with fp=True
(IEEE binary32); integers are mathematical unless bv=True (32-bit vectors).
"""

import functools
import math
from fractions import Fraction

import numpy as np
import z3

from vc import core
from vc.core import Unsupported, PathEnd, ctx

EXPAND = 40          # concrete dimensions up to this size are expanded


def _jax():
  import jax
  return jax


# ------------------------------------------------------------------ terms
def I(x):
  """z3 Int of an index-like value."""
  x = core.term(x)
  if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, (bool, np.bool_)):
    return z3.IntVal(int(x))
  return x


def simp(t):
  return z3.simplify(t)


def cint(t):
  """Python int of a constant term, else None."""
  if isinstance(t, (int, np.integer)):
    return int(t)
  t = z3.simplify(t)
  return t.as_long() if z3.is_int_value(t) else None


def T(x):
  """term of contract-level value (bool/int/float/SymX/z3)."""
  x = core.term(x)
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, (float, np.floating)):
    return core.zreal(float(x))
  return x


def R(x):
  t = T(x)
  return z3.ToReal(t) if z3.is_int(t) else t


def ite(c, a, b):
  c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(c)
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
    return a
  return z3.If(c, a, b)


class Dims:
  """Named symbolic dimensions of one unit."""

  def __init__(self, c, *names, lo=1, cons=(), **fixed):
    from jax import export
    self.names = names
    los = lo if isinstance(lo, dict) else {n: lo for n in names}
    cons = [f'{n} >= {los[n]}' for n in names if los.get(n, 1) > 1] + list(cons)
    self.sym = dict(zip(names, export.symbolic_shape(','.join(names), constraints=cons))) if names else {}
    self.term = {}
    for n in names:
      self.term[n] = c.int(n, los.get(n, 1)).t
    c.user['dims'] = self

  def __getitem__(self, n):
    return self.sym[n]

  def t(self, n):
    return self.term[n]


def dim_term(d, env):
  """z3 term (or int) of a jax dimension."""
  if isinstance(d, (int, np.integer)):
    return int(d)
  if not hasattr(d, '_sorted_terms'):
    raise Unsupported(f'dimension {d!r}')
  tot = z3.IntVal(0)
  for mon, coef in d._sorted_terms:
    p = z3.IntVal(int(coef))
    for fac, exp in mon._factors:
      if fac.var is not None:
        v = env[fac.var]
      else:
        ops = [dim_term(o, env) for o in fac.operands]
        op = str(fac.operation)
        a, b = [I(o) for o in ops]
        if op == 'floordiv':
          v = a / b
        elif op == 'mod':
          v = a % b
        elif op == 'max':
          v = z3.If(a >= b, a, b)
        elif op == 'min':
          v = z3.If(a <= b, a, b)
        else:
          raise Unsupported(f'dimension operation {op}')
      for _ in range(exp):
        p = p * v
    tot = tot + p
  tot = z3.simplify(tot)
  c = cint(tot)
  return tot if c is None else c


def deq(a, b):
  """Are two dims equal (syntactically)?"""
  ca, cb = cint(a), cint(b)
  if ca is not None or cb is not None:
    return ca == cb
  return z3.simplify(I(a) - I(b)).eq(z3.IntVal(0))


# ------------------------------------------------------------------ arrays
class SArr:
  """Symbolic array: shape, dtype, element map."""
  __slots__ = ('shape', 'dtype', 'fn', 'memo', 'name')

  def __init__(self, shape, dtype, fn, name=''):
    self.shape = tuple(shape)
    self.dtype = dtype
    self.fn = fn
    self.memo = {}
    self.name = name

  @property
  def ndim(self):
    return len(self.shape)

  def at(self, *idx):
    if len(idx) == 1 and isinstance(idx[0], (tuple, list)):
      idx = tuple(idx[0])
    if len(idx) != len(self.shape):
      raise Unsupported(f'index arity {len(idx)} for rank {len(self.shape)}')
    idx = tuple(z3.simplify(I(i)) for i in idx)
    key = tuple(i.get_id() for i in idx)
    r = self.memo.get(key)
    if r is None:
      r = (idx, self.fn(*idx))
      self.memo[key] = r
    return r[1]

  def __repr__(self):
    return f'SArr{self.shape}:{self.dtype}'


def kind(dtype):
  s = str(dtype)
  if s == 'bool':
    return 'b'
  if s.startswith('int') or s.startswith('uint'):
    return 'i'
  if s.startswith('float') or s.startswith('bfloat'):
    return 'f'
  return 'k'   # PRNG keys and the like


def is_unsigned(dtype):
  return str(dtype).startswith('uint')


def narrow(t, dtype):
  """Wrap-around of 8 and 16 bit integers (wider ones are mathematical)."""
  s = str(dtype)
  if s not in ('int8', 'int16', 'uint8', 'uint16'):
    return t
  n = 2 ** int(s.lstrip('uint'))
  lo = 0 if s[0] == 'u' else -n // 2
  v = cint(t)
  if v is not None and lo <= v < lo + n:
    return t
  return (t - lo) % n + lo


def inb(idx, shape):
  """index within the shape."""
  return z3.And(*[z3.And(I(i) >= 0, I(i) < I(d)) for i, d in zip(idx, shape)]) if shape else z3.BoolVal(True)


# ------------------------------------------------------------- reductions
class Sum:
  """A sum over symbolic dimensions: value(idx) of body(idx, k)."""

  def __init__(self, name, dims, body, nout, sort, out_is_real=True):
    self.name, self.dims, self.body, self.nout = name, tuple(dims), body, nout
    self.sort = sort
    self.uf = z3.Function(name, *([z3.IntSort()] * nout), sort) if nout else z3.Const(name, sort)
    self.seen = {}

  def at(self, *idx):
    idx = tuple(z3.simplify(I(i)) for i in idx)
    t = self.uf(*idx) if self.nout else self.uf
    self.seen[tuple(i.get_id() for i in idx)] = idx
    return t

  def val(self, idx, k):
    return self.body(tuple(I(i) for i in idx), tuple(I(j) for j in k))


def new_sum(c, dims, body, nout, sort, tag='sum'):
  nm = c.fresh_name(tag)
  s = Sum(nm, dims, body, nout, sort)
  c.user.setdefault('sums', []).append(s)
  return s


def sum_spec(c, dims, body, sort=None):
  """Spec-side sum over the given dims of body(*k)."""
  dims = [core.term(d) for d in (dims if isinstance(dims, (list, tuple)) else [dims])]
  s = new_sum(c, dims, lambda idx, k: body(*k), 0, z3.RealSort() if sort is None else sort, 'spec')
  return s


def lemma_linear(c, parts, rel='=='):
  """(exists k in range: not sum_j a_j*body_j(k) rel 0) or sum_j a_j*S_j rel 0.

  parts: list of (coefficient term, Sum, idx).  All sums range over the same
  dimensions.  A valid formula for every finite sum, by induction.
  """
  s0 = parts[0][1]
  for _, s, _ in parts:
    if len(s.dims) != len(s0.dims) or not all(deq(a, b) for a, b in zip(s.dims, s0.dims)):
      return z3.BoolVal(True)
  w = [z3.Int(c.fresh_name('w')) for _ in s0.dims]
  def lin(vals):
    tot = None
    for (a, _, _), v in zip(parts, vals):
      x = R(a) * R(v) if not (isinstance(a, int) and a == 1) else R(v)
      tot = x if tot is None else tot + x
    return tot
  body = lin([s.val(idx, w) for _, s, idx in parts])
  tot = lin([s.at(*idx) for _, s, idx in parts])
  z = z3.RealVal(0)
  def relz(t):
    return {'==': t == z, '>=': t >= z, '<=': t <= z}[rel]
  return z3.Or(z3.And(inb(w, s0.dims), z3.Not(relz(body))), relz(tot))


def pair_lemmas(c, row=(), rel='==', limit=12):
  """Congruence of every two sums over the same dimensions, at index row[:nout]."""
  out = []
  ss = c.user.get('sums', [])[-limit:]
  for i, s in enumerate(ss):
    for t in ss[:i]:
      if s.nout > len(row) or t.nout > len(row) or len(s.dims) != len(t.dims):
        continue
      out.append(lemma_linear(c, [(1, s, row[:s.nout]), (-1, t, row[:t.nout])], rel))
  return out


def fubini(c, s):
  """s over (d0, d1, ...) as a sum over d0 of sums over the rest (finite sums)."""
  inner = new_sum(c, s.dims[1:], lambda idx, k: s.body(idx[:-1], (idx[-1],) + tuple(k)), s.nout + 1, s.sort, s.name + '.in')
  outer = new_sum(c, s.dims[:1], lambda idx, k: inner.at(*idx, k[0]), s.nout, s.sort, s.name + '.out')

  def fact(*idx):
    c._push(outer.at(*idx) == s.at(*idx))
  return outer, inner, fact


def unfold(c, s, idx):
  """Partial sums P(m) of a one-dimensional sum: returns P and an axiom maker.

  P(0) = 0, P(m+1) = P(m) + body(m) for m >= 0, s = P(max(n, 0)).
  """
  P = z3.Function(c.fresh_name(s.name + '.part'), z3.IntSort(), s.sort)
  n = I(s.dims[0])
  zero = z3.IntVal(0) if s.sort == z3.IntSort() else z3.RealVal(0)
  c._push(P(z3.IntVal(0)) == zero)
  c._push(s.at(*idx) == P(z3.If(n >= 0, n, z3.IntVal(0))))

  def step(m):
    v = s.val(idx, [m])
    c._push(z3.Implies(m >= 0, P(m + 1) == P(m) + v))
  return P, step


def lemma_strict(c, s, idx):
  """All terms > 0 and the range non-empty imply sum > 0."""
  w = [z3.Int(c.fresh_name('w')) for _ in s.dims]
  return z3.Or(z3.And(inb(w, s.dims), R(s.val(idx, w)) <= 0),
               z3.Or(*[I(d) <= 0 for d in s.dims]), R(s.at(*idx)) > 0)


def lemma_member(c, s, idx, k):
  """All terms >= 0 imply sum >= the k-th term."""
  w = [z3.Int(c.fresh_name('w')) for _ in s.dims]
  return z3.Or(z3.And(inb(w, s.dims), R(s.val(idx, w)) < 0), z3.Not(inb(k, s.dims)),
               R(s.at(*idx)) >= R(s.val(idx, k)))


def lemma_delta(c, s, idx, k):
  """All terms except the k-th are 0 imply sum == the k-th term."""
  w = [z3.Int(c.fresh_name('w')) for _ in s.dims]
  other = z3.Or(*[a != I(b) for a, b in zip(w, k)])
  return z3.Or(z3.And(inb(w, s.dims), other, R(s.val(idx, w)) != 0), z3.Not(inb(k, s.dims)),
               R(s.at(*idx)) == R(s.val(idx, k)))


class Ext:
  """max/min over symbolic dims."""

  def __init__(self, name, dims, body, nout, sort, is_max):
    self.name, self.dims, self.body, self.nout, self.is_max = name, tuple(dims), body, nout, is_max
    self.uf = z3.Function(name, *([z3.IntSort()] * nout), sort) if nout else z3.Const(name, sort)
    self.wit = [z3.Function(f'{name}.w{j}', *([z3.IntSort()] * nout), z3.IntSort()) if nout
                else z3.Int(f'{name}.w{j}') for j in range(len(dims))]
    self.done = set()

  def at(self, *idx):
    idx = tuple(z3.simplify(I(i)) for i in idx)
    t = self.uf(*idx) if self.nout else self.uf
    return t

  def witness(self, idx):
    return tuple(w(*idx) if self.nout else w for w in self.wit)

  def ax_attained(self, idx):
    idx = tuple(I(i) for i in idx)
    w = self.witness(idx)
    return z3.Implies(z3.And(*[I(d) >= 1 for d in self.dims]),
                      z3.And(inb(w, self.dims), self.at(*idx) == self.body(idx, w)))

  def ax_bound(self, idx, k):
    idx = tuple(I(i) for i in idx)
    v, m = self.body(idx, tuple(I(j) for j in k)), self.at(*idx)
    return z3.Implies(inb(k, self.dims), v <= m if self.is_max else v >= m)

  def ax_all(self, idx):
    c = ctx()
    ks = [z3.Int(c.fresh_name('k') + '#') for _ in self.dims]
    return z3.ForAll(ks, self.ax_bound(idx, ks))


# ------------------------------------------------------------ elementwise
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
ISNAN = z3.Function('isnan', z3.RealSort(), z3.BoolSort())
FDIV = z3.Function('fdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
_UF1 = {}


def inv_(y):
  """1/y as a multiplicative function (the inverse of zero is left open)."""
  y = z3.simplify(R(y))
  if z3.is_rational_value(y) and y.as_fraction() != 0:
    return z3.RealVal(1 / y.as_fraction())
  if z3.is_mul(y):
    r = z3.RealVal(1)
    for a in y.children():
      r = r * inv_(a)
    return r
  if z3.is_app(y) and y.decl().eq(core.INV):
    return y.arg(0)
  return core.INV(y)


def uf1(name):
  if name not in _UF1:
    _UF1[name] = z3.Function('f_' + name, z3.RealSort(), z3.RealSort())
  return _UF1[name]


def note_app(c, f, x):
  """Remembers applications of transcendental functions (for axioms)."""
  c.user.setdefault('apps', {}).setdefault(f, []).append(x)


def exp_(c, x):
  t = EXP(x)
  key = ('exp', t.get_id())
  if key not in c.names and not _has_free_q(x):
    c.names[key] = t
    c._push(t > 0)
    if z3.is_rational_value(z3.simplify(x)) and z3.simplify(x).as_fraction() == 0:
      c._push(t == 1)
  return t


def sqrt_(c, x):
  t = SQRT(x)
  key = ('sqrt', t.get_id())
  if key not in c.names and not _has_free_q(x):
    c.names[key] = t
    c._push(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
  return t


def _has_free_q(t):
  seen, st = set(), [t]
  while st:
    x = st.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '#' in x.decl().name():
      return True
    st.extend(x.children())
  return False


class Interp:

  def __init__(self, c, dims=None, bv=False, fp=False, loops=(), havoc_ok=(), contracts=None):
    self.c = c
    self.bv, self.fp = bv, fp
    self.dims = dict(dims.term) if dims is not None else {}
    self.finv = False
    self.udiv = False       # division as an uninterpreted function
    self.undef = None       # value of x/0 when the unit distinguishes it
    self.loops = list(loops)
    self.loop_no = 0
    self.havoced = []
    self.contracts = contracts or {}
    c.user['havoced'] = self.havoced

  # -- sorts and literals ---------------------------------------------------
  def sort(self, dtype):
    k = kind(dtype)
    if k == 'b':
      return z3.BoolSort()
    if k == 'i':
      return z3.BitVecSort(32) if self.bv else z3.IntSort()
    if k == 'f':
      return z3.Float32() if self.fp else z3.RealSort()
    return z3.IntSort()

  def lit(self, v, dtype):
    k = kind(dtype)
    if k == 'b':
      return z3.BoolVal(bool(v))
    if k == 'i':
      return z3.BitVecVal(int(v) & 0xffffffff, 32) if self.bv else z3.IntVal(int(v))
    if k == 'f':
      if self.fp:
        return z3.FPVal(float(v), z3.Float32())
      return core.zreal(float(v))
    return z3.IntVal(0)

  def shape(self, shp):
    return tuple(dim_term(d, self.dims) for d in shp)

  def fresh(self, shape, dtype, name):
    nm = self.c.fresh_name(name)
    n = len(shape)
    s = self.sort(dtype)
    if n == 0:
      t = z3.Const(nm, s)
      return SArr((), dtype, lambda: t, nm)
    f = z3.Function(nm, *([z3.IntSort()] * n), s)
    return SArr(shape, dtype, lambda *i: f(*i), nm)

  def const(self, v, dtype=None):
    if isinstance(v, SArr):
      return v
    if not isinstance(v, (bool, int, float, np.generic, np.ndarray)):
      dt = getattr(v, 'dtype', None)
      if dt is not None and kind(dt) == 'k':
        return self.fresh(getattr(v, 'shape', ()), dt, 'key')
    a = np.asarray(v)
    if dtype is not None and kind(dtype) != 'k' and a.dtype != dtype:
      a = a.astype(dtype)
    dt = a.dtype
    if a.ndim == 0:
      t = self.lit(a.item(), dt)
      return SArr((), dt, lambda: t)
    if a.size and (a == a.flat[0]).all():
      t = self.lit(a.flat[0].item(), dt)
      return SArr(a.shape, dt, lambda *i: t)

    def fn(*idx):
      cs = [cint(i) for i in idx]
      if all(x is not None for x in cs):
        return self.lit(a[tuple(cs)].item(), dt)
      if a.size > 4096:
        raise Unsupported('symbolic index into a large constant')
      r = None
      for pos in np.ndindex(*a.shape):
        v = self.lit(a[pos].item(), dt)
        r = v if r is None else ite(z3.And(*[i == p for i, p in zip(idx, pos)]), v, r)
      return r
    return SArr(a.shape, dt, fn)

  # -- evaluation -----------------------------------------------------------
  def call(self, fun, *args, static=()):
    """Traces fun on args (pytrees of SArr) and evaluates it."""
    jax = _jax()
    flat, tree = jax.tree_util.tree_flatten(args, is_leaf=lambda x: isinstance(x, SArr))
    specs, arrs = [], []
    for a in flat:
      a = a if isinstance(a, SArr) else self.const(a)
      arrs.append(a)
      specs.append(jax.ShapeDtypeStruct(self.jshape(a.shape), a.dtype))
    out_tree = []

    def wrapped(*xs):
      r = fun(*jax.tree_util.tree_unflatten(tree, xs))
      fl, tr = jax.tree_util.tree_flatten(r)
      out_tree.append(tr)
      return fl
    closed = trace(wrapped, specs)
    outs = self.eval(closed.jaxpr, closed.consts, arrs)
    return jax.tree_util.tree_unflatten(out_tree[-1], outs)

  def jshape(self, shape):
    """jax dims for a term shape (terms must come from named dims)."""
    out = []
    ds = self.c.user.get('dims')
    for d in shape:
      c = cint(d)
      if c is not None:
        out.append(c)
        continue
      j = getattr(self, '_jd', {}).get(I(d).sexpr())
      if j is None and ds is not None:
        for n, t in ds.term.items():
          if t.eq(I(d)):
            j = ds.sym[n]
      if j is None:
        raise Unsupported(f'no jax dimension for {d}')
      out.append(j)
    return tuple(out)

  def arg(self, name, shape, dtype, inp=True):
    """A fresh symbolic argument; shape of ints / dim names / jax dims."""
    ds = self.c.user.get('dims')
    ts = []
    self._jd = getattr(self, '_jd', {})
    for d in shape:
      if isinstance(d, str):
        ts.append(ds.t(d))
      elif isinstance(d, int):
        ts.append(d)
      else:
        t = dim_term(d, self.dims)
        if not isinstance(t, int):
          self._jd[t.sexpr()] = d
        ts.append(t)
    return self.fresh(ts, np.dtype(dtype) if isinstance(dtype, str) else dtype, name)

  def eval(self, jaxpr, consts, args):
    env = {}
    core_ = _jax().core

    def read(v):
      if hasattr(v, 'val'):
        return self.const(v.val, v.aval.dtype)
      return env[v]

    for v, x in zip(jaxpr.constvars, consts):
      env[v] = self.const(x, v.aval.dtype)
    for v, x in zip(jaxpr.invars, args):
      env[v] = x
    for eqn in jaxpr.eqns:
      if self.c.deadline:
        import time
        if time.time() > self.c.deadline:
          raise core.Timeout()
      ins = [read(v) for v in eqn.invars]
      outs = self.eqn(eqn, ins)
      for v, o in zip(eqn.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, eqn, ins):
    name = eqn.primitive.name
    con = self.contracts.get(name)
    if con is not None:
      r = con(self, eqn, ins)
      return r if isinstance(r, (list, tuple)) else [r]
    f = getattr(self, 'p_' + name.replace('-', '_'), None)
    if f is None and name in ELEMENTWISE:
      return [self.elementwise(name, eqn, ins)]
    if f is None:
      return self.havoc(eqn)
    r = f(eqn, ins)
    return r if isinstance(r, (list, tuple)) else [r]

  def havoc(self, eqn, why=''):
    self.havoced.append(eqn.primitive.name + why)
    return [self.fresh(self.shape(v.aval.shape), v.aval.dtype, 'h_' + eqn.primitive.name)
            for v in eqn.outvars]

  # -- elementwise ----------------------------------------------------------
  def elementwise(self, name, eqn, ins):
    out = eqn.outvars[0].aval
    shape = self.shape(out.shape)
    dts = [a.dtype for a in ins]
    ranks = {a.ndim for a in ins}
    if len(ranks) > 1:   # scalar operands are broadcast
      ins = [a if a.ndim else SArr(shape, a.dtype, lambda *i, a=a: a.at()) for a in ins]
    def unit(a):   # operands of size 1 are broadcast
      if a.ndim and any(cint(x) == 1 and cint(y) != 1 for x, y in zip(a.shape, shape)):
        return SArr(shape, a.dtype, lambda *i: a.at(*[z3.IntVal(0) if cint(x) == 1 else v for x, v in zip(a.shape, i)]))
      return a
    ins = [unit(a) for a in ins]
    op = functools.partial(self.op, name, dts, out.dtype, eqn.params)
    if not self.bv and kind(out.dtype) == 'i' and kind(dts[0]) == 'i' and name in ('add', 'sub', 'mul', 'neg', 'add_any'):
      return SArr(shape, out.dtype, lambda *i: narrow(op([a.at(*i) for a in ins]), out.dtype))
    return SArr(shape, out.dtype, lambda *i: op([a.at(*i) for a in ins]))

  def op(self, name, dts, odt, params, xs):
    k = kind(dts[0])
    if self.fp and k == 'f':
      return self.fp_op(name, dts, odt, params, xs)
    if self.bv and k == 'i':
      return self.bv_op(name, dts, odt, params, xs)
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None
    if name in ('copy', 'copy_p', 'stop_gradient', 'reduce_precision', 'real'):
      return x
    if name in ('add', 'add_any'):
      return x + y
    if name == 'sub':
      return x - y
    if name == 'mul':
      if k == 'b':
        return z3.And(x, y)
      return x * y
    if name == 'neg':
      return -x
    if name in ('div', 'rem') and k == 'i':
      qr = core.decomposed(x, y)
      if qr is not None:
        return qr[name == 'rem']
    if name == 'div':
      if k == 'i':
        q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -(-x / y), (-x) / (-y)))
        return q
      if self.finv:
        return x * inv_(y)
      if self.udiv and not z3.is_rational_value(z3.simplify(y)):
        return FDIV(x, y)      # an arbitrary function of both
      if self.undef is not None:
        return ite(y == 0, self.undef, x / y)
      return x / y
    if name == 'rem':
      if k == 'i':
        cy = cint(y)
        if cy is not None and cy > 0:
          return z3.If(x >= 0, x % y, -((-x) % y))
        q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -(-x / y), (-x) / (-y)))
        return x - q * y
      raise Unsupported('real rem')
    if name == 'max':
      if k == 'b':
        return z3.Or(x, y)
      if x.eq(core.NEG_INF):
        return y
      if y.eq(core.NEG_INF):
        return x
      return ite(x >= y, x, y)
    if name == 'min':
      if k == 'b':
        return z3.And(x, y)
      if x.eq(core.POS_INF):
        return y
      if y.eq(core.POS_INF):
        return x
      return ite(x <= y, x, y)
    if name == 'eq':
      return x == y
    if name == 'ne':
      if getattr(self, 'nans', False) and k == 'f' and x.eq(y):   # x != x: an abstract predicate
        return ISNAN(x)
      return x != y
    if name in ('lt', 'le', 'gt', 'ge'):
      if k == 'b':
        x, y = core.zint(x), core.zint(y)
      return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[name]
    if name in ('lt_to', 'le_to'):
      return x < y if name == 'lt_to' else x <= y
    if name == 'and':
      if k == 'b':
        return z3.And(x, y)
      return self.uf_int('and', x, y)
    if name == 'or':
      if k == 'b':
        return z3.Or(x, y)
      return self.uf_int('or', x, y)
    if name == 'xor':
      if k == 'b':
        return z3.Xor(x, y)
      return self.uf_int('xor', x, y)
    if name == 'not':
      if k == 'b':
        return z3.Not(x)
      return -x - 1
    if name == 'abs':
      return ite(x >= 0, x, -x)
    if name == 'sign':
      if k == 'i':
        return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
      return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
    if name == 'exp':
      return exp_(self.c, x)
    if name == 'log':
      sx = z3.simplify(x)
      if z3.is_rational_value(sx) and sx.as_fraction() == 1:
        return z3.RealVal(0)
      return LOG(x)
    if name == 'sqrt':
      return sqrt_(self.c, x)
    if name == 'rsqrt':
      return inv_(sqrt_(self.c, x)) if self.finv else 1 / sqrt_(self.c, x)
    if name == 'square':
      return x * x
    if name == 'integer_pow':
      n = params['y']
      r = z3.RealVal(1) if k == 'f' else z3.IntVal(1)
      for _ in range(abs(n)):
        r = r * x
      return (inv_(r) if self.finv and k == 'f' else 1 / r) if n < 0 else r
    if name == 'pow':
      sy = z3.simplify(R(y))
      if z3.is_rational_value(sy) and abs(sy.as_fraction()) == Fraction(1, 2):
        return sqrt_(self.c, x) if sy.as_fraction() > 0 else inv_(sqrt_(self.c, x)) if self.finv else 1 / sqrt_(self.c, x)
      return POW(x, R(y))
    if name in ('log1p', 'expm1', 'tanh', 'logistic', 'erf', 'sin', 'cos', 'cbrt', 'exp2', 'erf_inv', 'tan'):
      return uf1(name)(x)
    if name == 'floor':
      return z3.ToReal(z3.ToInt(x))
    if name == 'ceil':
      return -z3.ToReal(z3.ToInt(-x))
    if name == 'round':
      return uf1('round')(x)
    if name == 'is_finite':
      return z3.BoolVal(True)
    if name == 'nextafter':
      raise Unsupported('nextafter on reals')
    if name == 'convert_element_type':
      return self.convert(x, dts[0], odt)
    if name == 'clamp':
      lo, v, hi = xs
      return ite(v < lo, lo, ite(v > hi, hi, v))
    if name == 'shift_left':
      n = cint(y)
      if n is not None:
        return x * (2 ** n)
    if name in ('shift_right_logical', 'shift_right_arithmetic'):
      n = cint(y)
      if n is not None:
        return x / (2 ** n)
    raise Unsupported(f'elementwise {name}')

  def uf_int(self, name, x, y):
    return z3.Function('i_' + name, z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)

  def convert(self, x, src, dst):
    a, b = kind(src), kind(dst)
    if not self.bv and a in 'if' and b == 'i' and str(src) != str(dst):
      if a == 'f':
        x = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
      return narrow(x, dst)
    if a == b:
      return x
    if self.bv and (a == 'i' or b == 'i'):
      if a == 'b':
        return z3.If(x, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
      if b == 'b':
        return x != z3.BitVecVal(0, 32)
      raise Unsupported('bit-vector <-> float conversion')
    if a == 'b' and b == 'i':
      return ite(x, z3.IntVal(1), z3.IntVal(0))
    if a == 'b' and b == 'f':
      return ite(x, z3.RealVal(1), z3.RealVal(0)) if not self.fp else z3.If(x, z3.FPVal(1.0, z3.Float32()), z3.FPVal(0.0, z3.Float32()))
    if a == 'i' and b == 'f':
      return z3.ToReal(x)
    if a == 'f' and b == 'i':
      return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if b == 'b':
      return x != 0
    raise Unsupported(f'convert {src}->{dst}')

  def bv_op(self, name, dts, odt, params, xs):
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None
    u = is_unsigned(dts[0])
    T_ = {
        'add': lambda: x + y, 'add_any': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
        'neg': lambda: -x, 'not': lambda: ~x, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
        'eq': lambda: x == y, 'ne': lambda: x != y,
        'lt': lambda: z3.ULT(x, y) if u else x < y, 'le': lambda: z3.ULE(x, y) if u else x <= y,
        'gt': lambda: z3.UGT(x, y) if u else x > y, 'ge': lambda: z3.UGE(x, y) if u else x >= y,
        'max': lambda: z3.If(z3.UGE(x, y) if u else x >= y, x, y),
        'min': lambda: z3.If(z3.ULE(x, y) if u else x <= y, x, y),
        'shift_left': lambda: z3.If(z3.UGE(y, z3.BitVecVal(32, 32)), z3.BitVecVal(0, 32), x << y),
        'shift_right_logical': lambda: z3.LShR(x, y),
        'shift_right_arithmetic': lambda: x >> y,
        'abs': lambda: z3.If(x >= 0, x, -x),
        'convert_element_type': lambda: self.convert(x, dts[0], odt),
        'copy': lambda: x, 'copy_p': lambda: x, 'stop_gradient': lambda: x,
        'clamp': lambda: z3.If(y < x, x, z3.If(y > xs[2], xs[2], y)),
    }
    if name not in T_:
      raise Unsupported(f'bit-vector {name}')
    return T_[name]()

  def fp_op(self, name, dts, odt, params, xs):
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None
    rm = z3.RNE()
    T_ = {
        'neg': lambda: z3.fpNeg(x), 'add': lambda: z3.fpAdd(rm, x, y), 'sub': lambda: z3.fpSub(rm, x, y),
        'mul': lambda: z3.fpMul(rm, x, y), 'div': lambda: z3.fpDiv(rm, x, y), 'abs': lambda: z3.fpAbs(x),
        'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y), 'gt': lambda: z3.fpGT(x, y),
        'ge': lambda: z3.fpGEQ(x, y), 'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)),
        'copy': lambda: x, 'stop_gradient': lambda: x,
        'is_finite': lambda: z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x))),
        'convert_element_type': lambda: self.convert(x, dts[0], odt),
    }
    if name not in T_:
      raise Unsupported(f'floating-point {name}')
    return T_[name]()

  # -- shape primitives -----------------------------------------------------
  def out(self, eqn, fn, j=0):
    a = eqn.outvars[j].aval
    return SArr(self.shape(a.shape), a.dtype, fn)

  def p_dim_as_value(self, eqn, ins):
    d = dim_term(eqn.params['dim'], self.dims)
    t = I(d)
    if self.bv:
      t = z3.Int2BV(t, 32)
    return self.out(eqn, lambda: t)

  def p_broadcast_in_dim(self, eqn, ins):
    a, bd = ins[0], eqn.params['broadcast_dimensions']

    def fn(*i):
      return a.at(*[z3.IntVal(0) if cint(d) == 1 else i[b] for d, b in zip(a.shape, bd)])
    # a unit operand dim broadcast to a unit output dim is index 0 as well
    return self.out(eqn, fn)

  def p_squeeze(self, eqn, ins):
    a, ds = ins[0], set(d % ins[0].ndim for d in eqn.params['dimensions'])

    def fn(*i):
      it = iter(i)
      return a.at(*[z3.IntVal(0) if k in ds else next(it) for k in range(a.ndim)])
    return self.out(eqn, fn)

  def p_expand_dims(self, eqn, ins):
    a, ds = ins[0], set(eqn.params['dimensions'])
    return self.out(eqn, lambda *i: a.at(*[x for k, x in enumerate(i) if k not in ds]))

  def p_transpose(self, eqn, ins):
    a, p = ins[0], eqn.params['permutation']

    def fn(*i):
      src = [None] * len(p)
      for o, d in enumerate(p):
        src[d] = i[o]
      return a.at(*src)
    return self.out(eqn, fn)

  def p_rev(self, eqn, ins):
    a, ds = ins[0], eqn.params['dimensions']
    return self.out(eqn, lambda *i: a.at(*[I(a.shape[k]) - 1 - x if k in ds else x for k, x in enumerate(i)]))

  def p_reshape(self, eqn, ins):
    a = ins[0]
    if eqn.params.get('dimensions') is not None:
      raise Unsupported('reshape with dimensions')
    src, dst = list(a.shape), list(self.shape(eqn.outvars[0].aval.shape))
    # group factors: match prefix products
    groups = []   # (src positions, dst positions)
    i = j = 0

    def prod(xs):
      r = 1
      for x in xs:
        r = r * x if isinstance(r, int) and isinstance(x, int) else I(r) * I(x)
      return r if isinstance(r, int) else z3.simplify(r)
    while i < len(src) or j < len(dst):
      gi, gj = [], []
      if i < len(src) and cint(src[i]) == 1 and not (j < len(dst) and cint(dst[j]) == 1):
        groups.append(([i], []))
        i += 1
        continue
      if j < len(dst) and cint(dst[j]) == 1 and not (i < len(src) and cint(src[i]) == 1):
        groups.append(([], [j]))
        j += 1
        continue
      if i >= len(src) or j >= len(dst):
        raise Unsupported(f'reshape {src} -> {dst}')
      gi, gj = [i], [j]
      i += 1
      j += 1
      while not deq(prod([src[x] for x in gi]), prod([dst[x] for x in gj])):
        ps, pd = prod([src[x] for x in gi]), prod([dst[x] for x in gj])
        ps_c, pd_c = cint(ps), cint(pd)
        if ps_c is not None and pd_c is not None:
          grow_src = ps_c < pd_c
        else:
          # grow whichever side has fewer factors left to explain
          grow_src = self._divides(ps, pd)
        if grow_src and i < len(src):
          gi.append(i)
          i += 1
        elif j < len(dst):
          gj.append(j)
          j += 1
        elif i < len(src):
          gi.append(i)
          i += 1
        else:
          raise Unsupported(f'reshape {src} -> {dst}')
      groups.append((gi, gj))

    def fn(*idx):
      out = [None] * len(src)
      for gi, gj in groups:
        if len(gi) == 1 and len(gj) == 1:
          out[gi[0]] = idx[gj[0]]
          continue
        if not gj:
          out[gi[0]] = z3.IntVal(0)
          continue
        if not gi:
          continue
        lin = z3.IntVal(0)
        for x in gj:
          lin = lin * I(dst[x]) + idx[x]
        rest = lin
        for n, x in enumerate(reversed(gi)):
          if n == len(gi) - 1:
            out[x] = rest
          else:
            d = I(src[x])
            if cint(d) is None:
              q, r = core.divmod_t(rest, d)
              out[x], rest = r, q
            else:
              out[x] = rest % d
              rest = rest / d
        # simplify (b*n + k) / n when 0<=k<n is known structurally
        self._split_simplify(gi, gj, src, dst, idx, out)
      return a.at(*out)
    return self.out(eqn, fn)

  def _split_simplify(self, gi, gj, src, dst, idx, out):
    """Exact split when source and target factors coincide as sequences."""
    s = [x for x in gi if cint(src[x]) != 1]
    d = [x for x in gj if cint(dst[x]) != 1]
    if len(s) == len(d) and all(deq(src[a], dst[b]) for a, b in zip(s, d)):
      for x in gi:
        out[x] = z3.IntVal(0)
      for a, b in zip(s, d):
        out[a] = idx[b]

  def _divides(self, ps, pd):
    """Heuristic: does pd syntactically contain the factors of ps?"""
    def facs(t):
      t = I(t)
      if z3.is_mul(t):
        return [x.sexpr() for x in t.children()]
      return [t.sexpr()]
    a, b = facs(ps), facs(pd)
    return len(a) <= len(b) and all(x in b or cint(I(1)) is None for x in a)

  def p_slice(self, eqn, ins):
    a = ins[0]
    st = [dim_term(s, self.dims) for s in eqn.params['start_indices']]
    sd = eqn.params['strides'] or [1] * a.ndim
    return self.out(eqn, lambda *i: a.at(*[I(s) + x * I(dim_term(k, self.dims)) for s, x, k in zip(st, i, sd)]))

  def p_concatenate(self, eqn, ins):
    d = eqn.params['dimension']

    def fn(*i):
      off = z3.IntVal(0)
      pieces = []
      for a in ins:
        j = list(i)
        j[d] = i[d] - off
        pieces.append((off + I(a.shape[d]), a, tuple(j)))
        off = off + I(a.shape[d])
      ci = cint(i[d])
      r = None
      for end, a, j in reversed(pieces):
        if ci is not None and cint(end) is not None:
          if ci < cint(end) and cint(j[d]) >= 0:
            return a.at(*j)
          continue
        v = a.at(*j)
        r = v if r is None else ite(i[d] < end, v, r)
      return r
    return self.out(eqn, fn)

  def p_pad(self, eqn, ins):
    a, pv = ins
    cfg = [(dim_term(l, self.dims), dim_term(h, self.dims), n) for l, h, n in eqn.params['padding_config']]
    if any(n for _, _, n in cfg):
      raise Unsupported('interior padding')

    def fn(*i):
      j = [x - I(l) for x, (l, _, _) in zip(i, cfg)]
      return ite(inb(j, a.shape), a.at(*j), pv.at())
    return self.out(eqn, fn)

  def p_iota(self, eqn, ins):
    d = eqn.params['dimension']
    dt = eqn.params['dtype']

    def fn(*i):
      if kind(dt) == 'f':
        return z3.ToReal(i[d])
      return z3.Int2BV(i[d], 32) if self.bv else narrow(i[d], dt)
    return self.out(eqn, fn)

  def p_select_n(self, eqn, ins):
    p, cases = ins[0], ins[1:]

    def fn(*i):
      pv = p.at(*i) if p.ndim else p.at()
      if kind(p.dtype) == 'b':
        sp = z3.simplify(pv)
        if z3.is_true(sp):
          return cases[1].at(*i)
        if z3.is_false(sp):
          return cases[0].at(*i)
        return ite(pv, cases[1].at(*i), cases[0].at(*i))
      r = cases[-1].at(*i)
      for k in range(len(cases) - 2, -1, -1):
        r = ite(pv == k, cases[k].at(*i), r)
      return r
    return self.out(eqn, fn)

  def p_clamp(self, eqn, ins):
    lo, x, hi = [a if a.ndim or not self.shape(eqn.outvars[0].aval.shape) else
                 SArr(self.shape(eqn.outvars[0].aval.shape), a.dtype, lambda *i, a=a: a.at()) for a in ins]
    return self.out(eqn, lambda *i: ite(x.at(*i) < lo.at(*i), lo.at(*i), ite(x.at(*i) > hi.at(*i), hi.at(*i), x.at(*i))))

  def _idx(self, t):
    """An element used as an index (converts bit-vectors)."""
    return z3.BV2Int(t, is_signed=True) if self.bv and z3.is_bv(t) else t

  def p_dynamic_slice(self, eqn, ins):
    a, starts = ins[0], ins[1:1 + ins[0].ndim]
    sizes = [dim_term(s, self.dims) for s in eqn.params['slice_sizes']]

    def st(k):
      s = self._idx(starts[k].at())
      hi = I(a.shape[k]) - I(sizes[k])
      return ite(s < 0, z3.IntVal(0), ite(s > hi, hi, s))
    return self.out(eqn, lambda *i: a.at(*[st(k) + x for k, x in enumerate(i)]))

  def p_dynamic_update_slice(self, eqn, ins):
    a, u, starts = ins[0], ins[1], ins[2:2 + ins[0].ndim]

    def fn(*i):
      j = []
      for k, x in enumerate(i):
        s = self._idx(starts[k].at())
        hi = I(a.shape[k]) - I(u.shape[k])
        j.append(x - ite(s < 0, z3.IntVal(0), ite(s > hi, hi, s)))
      return ite(inb(j, u.shape), u.at(*j), a.at(*i))
    return self.out(eqn, fn)

  def p_gather(self, eqn, ins):
    a, ind = ins
    dn = eqn.params['dimension_numbers']
    sizes = [dim_term(s, self.dims) for s in eqn.params['slice_sizes']]
    mode = str(eqn.params['mode'])
    fill = eqn.params.get('fill_value')
    obd = tuple(getattr(dn, 'operand_batching_dims', ()))
    sbd = tuple(getattr(dn, 'start_indices_batching_dims', ()))
    rank_out = len(eqn.outvars[0].aval.shape)
    batch_out = [d for d in range(rank_out) if d not in dn.offset_dims]
    win = [d for d in range(a.ndim) if d not in dn.collapsed_slice_dims and d not in obd]

    def fn(*i):
      G = [i[d] for d in batch_out]
      S = [self._idx(ind.at(*(G + [z3.IntVal(k)]))) for k in range(len(dn.start_index_map))]
      full = [z3.IntVal(0)] * a.ndim
      ok = []
      for k, d in enumerate(dn.start_index_map):
        s = S[k]
        hi = I(a.shape[d]) - I(sizes[d])
        if 'CLIP' in mode:
          s = ite(s < 0, z3.IntVal(0), ite(s > hi, hi, s))
        elif 'FILL' in mode or 'None' in mode:
          ok.append(z3.And(s >= 0, s <= hi))
        full[d] = s
      for d, b in zip(obd, sbd):
        full[d] = G[b]
      for d, o in zip(win, dn.offset_dims):
        full[d] = full[d] + i[o]
      v = a.at(*full)
      if not ok:
        return v
      k = kind(a.dtype)
      if fill is None:
        if k == 'f':
          fv = core.ctx().user.setdefault('nan', z3.Const('VC_NAN', self.sort(a.dtype)))
        elif k == 'i':
          fv = self.lit(-2**31 if not is_unsigned(a.dtype) else 2**32 - 1, a.dtype)
        else:
          fv = z3.BoolVal(True) if k == 'b' else z3.IntVal(0)
      else:
        fv = self.lit(fill, a.dtype) if not (k == 'f' and fill != fill) else core.ctx().user.setdefault('nan', z3.Const('VC_NAN', self.sort(a.dtype)))
      return ite(z3.And(*ok), v, fv)
    return self.out(eqn, fn)

  def p_split(self, eqn, ins):
    a, ax = ins[0], eqn.params['axis']
    outs, off = [], 0
    for j, s in enumerate(eqn.params['sizes']):
      s = dim_term(s, self.dims)
      outs.append(self.out(eqn, lambda *i, off=off: a.at(*[x + I(off) if k == ax else x for k, x in enumerate(i)]), j))
      off = off + s
    return outs

  # -- reductions -----------------------------------------------------------
  def _reduce(self, eqn, ins, combine, symbolic):
    a = ins[0]
    axes = tuple(sorted(eqn.params['axes']))
    small = [x for x in axes if cint(a.shape[x]) is not None and cint(a.shape[x]) <= EXPAND]
    big = [x for x in axes if x not in small]
    keep = [x for x in range(a.ndim) if x not in axes]

    def full(out_idx, bigk, smallk):
      f = [None] * a.ndim
      for x, v in zip(keep, out_idx):
        f[x] = v
      for x, v in zip(big, bigk):
        f[x] = v
      for x, v in zip(small, smallk):
        f[x] = z3.IntVal(v)
      return a.at(*f)

    def inner(out_idx, bigk):
      r = None
      for pos in np.ndindex(*[cint(a.shape[x]) for x in small]):
        v = full(out_idx, bigk, pos)
        r = v if r is None else combine(r, v)
      return r
    if not big:
      if any(cint(a.shape[x]) == 0 for x in small):
        raise Unsupported('reduction over an empty axis')
      return self.out(eqn, lambda *i: inner(i, ()))
    dims = [a.shape[x] for x in big]
    return symbolic(dims, lambda idx, k: inner(idx, k), len(keep))

  def p_reduce_sum(self, eqn, ins):
    def symbolic(dims, body, nout):
      s = new_sum(self.c, dims, body, nout, self.sort(ins[0].dtype))
      return self.out(eqn, lambda *i: s.at(*i))
    return self._reduce(eqn, ins, lambda x, y: (x + y) if not (self.fp and kind(ins[0].dtype) == 'f') else z3.fpAdd(z3.RNE(), x, y), symbolic)

  def _ext(self, eqn, ins, is_max):
    def symbolic(dims, body, nout):
      e = Ext(self.c.fresh_name('max' if is_max else 'min'), dims, body, nout, self.sort(ins[0].dtype), is_max)
      self.c.user.setdefault('exts', []).append(e)
      return self.out(eqn, lambda *i: e.at(*i))
    return self._reduce(eqn, ins, (lambda x, y: ite(x >= y, x, y)) if is_max else (lambda x, y: ite(x <= y, x, y)), symbolic)

  def p_reduce_max(self, eqn, ins):
    return self._ext(eqn, ins, True)

  def p_reduce_min(self, eqn, ins):
    return self._ext(eqn, ins, False)

  def p_reduce_prod(self, eqn, ins):
    def symbolic(dims, body, nout):
      raise Unsupported('product over a symbolic dimension')
    return self._reduce(eqn, ins, lambda x, y: x * y, symbolic)

  def _quant(self, eqn, ins, is_all):
    def symbolic(dims, body, nout):
      def fn(*i):
        ks = [z3.Int(self.c.fresh_name('k') + '#') for _ in dims]
        b = body(tuple(i), tuple(ks))
        rng = inb(ks, dims)
        return z3.ForAll(ks, z3.Implies(rng, b)) if is_all else z3.Exists(ks, z3.And(rng, b))
      return self.out(eqn, fn)
    return self._reduce(eqn, ins, (lambda x, y: z3.And(x, y)) if is_all else (lambda x, y: z3.Or(x, y)), symbolic)

  def p_reduce_and(self, eqn, ins):
    return self._quant(eqn, ins, True)

  def p_reduce_or(self, eqn, ins):
    return self._quant(eqn, ins, False)

  def _arg(self, eqn, ins, is_max):
    a = ins[0]
    ax = eqn.params['axes'][0]
    n = a.shape[ax]
    nm = self.c.fresh_name('arg')
    nout = a.ndim - 1
    f = z3.Function(nm, *([z3.IntSort()] * nout), z3.IntSort()) if nout else z3.Int(nm)

    def full(i, k):
      i = list(i)
      return a.at(*(i[:ax] + [k] + i[ax:]))

    def fn(*i):
      t = f(*i) if nout else f
      c = self.c
      key = (nm, tuple(x.get_id() for x in i))
      if key not in c.names and not any(_has_free_q(x) for x in i):
        c.names[key] = i
        q = z3.Int(c.fresh_name('k') + '#')
        v = full(i, t)
        c._push(z3.And(t >= 0, t < I(n)))
        b = full(i, q)
        better = b <= v if is_max else b >= v
        strictly = b < v if is_max else b > v
        c._push(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < I(n)), better)))
        c._push(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t), strictly)))
      return t
    return self.out(eqn, fn)

  def p_argmax(self, eqn, ins):
    return self._arg(eqn, ins, True)

  def p_argmin(self, eqn, ins):
    return self._arg(eqn, ins, False)

  def p_cumsum(self, eqn, ins):
    a, ax, rev = ins[0], eqn.params['axis'], eqn.params['reverse']
    n = cint(a.shape[ax])

    def body_at(i, k):
      i = list(i)
      i[ax] = k
      return a.at(*i)
    if n is not None and n <= EXPAND:
      zero = self.lit(0, a.dtype)

      def fn(*i):
        tot = None
        for k in range(n):
          cond = z3.IntVal(k) >= i[ax] if rev else z3.IntVal(k) <= i[ax]
          v = ite(cond, body_at(i, z3.IntVal(k)), zero)
          tot = v if tot is None else tot + v
        return tot
      return self.out(eqn, fn)
    s = new_sum(self.c, [a.shape[ax]], lambda idx, k: ite(k[0] >= idx[ax] if rev else k[0] <= idx[ax], body_at(idx, k[0]), self.lit(0, a.dtype)), a.ndim, self.sort(a.dtype), 'cumsum')
    return self.out(eqn, lambda *i: s.at(*i))

  def p_dot_general(self, eqn, ins):
    a, b = ins
    (ca, cb), (ba, bb) = eqn.params['dimension_numbers']
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]

    def body(i, k):
      nb, na = len(ba), len(fa)
      A, B = [None] * a.ndim, [None] * b.ndim
      for d, v in zip(ba, i[:nb]):
        A[d] = v
      for d, v in zip(bb, i[:nb]):
        B[d] = v
      for d, v in zip(fa, i[nb:nb + na]):
        A[d] = v
      for d, v in zip(fb, i[nb + na:]):
        B[d] = v
      for d, e, v in zip(ca, cb, k):
        A[d] = v
        B[e] = v
      x, y = a.at(*A), b.at(*B)
      if kind(a.dtype) != kind(eqn.outvars[0].aval.dtype):
        x = self.convert(x, a.dtype, eqn.outvars[0].aval.dtype)
      if kind(b.dtype) != kind(eqn.outvars[0].aval.dtype):
        y = self.convert(y, b.dtype, eqn.outvars[0].aval.dtype)
      return x * y
    dims = [a.shape[d] for d in ca]
    cs = [cint(d) for d in dims]
    if all(x is not None and x <= EXPAND for x in cs):
      def fn(*i):
        tot = None
        for pos in np.ndindex(*cs):
          v = body(i, [z3.IntVal(p) for p in pos])
          tot = v if tot is None else tot + v
        return tot
      return self.out(eqn, fn)
    s = new_sum(self.c, dims, lambda idx, k: body(idx, k), len(eqn.outvars[0].aval.shape), self.sort(eqn.outvars[0].aval.dtype), 'dot')
    return self.out(eqn, lambda *i: s.at(*i))

  # sort: stable, by lexicographic keys, along one dimension -----------------
  def _perm(self, eqn, ins, dim, keys_le, tag):
    """Permutation function pi with sortedness/bijection axioms (quantified)."""
    a = ins[0]
    n = a.shape[dim]
    nm = self.c.fresh_name(tag)
    r = a.ndim
    pi = z3.Function(nm, *([z3.IntSort()] * r), z3.IntSort())
    inv = z3.Function(nm + '.inv', *([z3.IntSort()] * r), z3.IntSort())
    c = self.c

    def ax(rest):
      key = (nm, tuple(x.get_id() for x in rest))
      if key in c.names:
        return
      c.names[key] = rest
      if any(_has_free_q(x) for x in rest):
        raise Unsupported('sort under a quantifier')
      i, j = z3.Int(c.fresh_name('i') + '#'), z3.Int(c.fresh_name('j') + '#')
      at = lambda k: pi(*rest[:dim], k, *rest[dim:])
      ia = lambda k: inv(*rest[:dim], k, *rest[dim:])
      rg = lambda k: z3.And(k >= 0, k < I(n))
      c._push(z3.ForAll([i], z3.Implies(rg(i), z3.And(rg(at(i)), ia(at(i)) == i)), patterns=[at(i)]))
      c._push(z3.ForAll([i], z3.Implies(rg(i), z3.And(rg(ia(i)), at(ia(i)) == i)), patterns=[ia(i)]))
      c._push(z3.ForAll([i, j], z3.Implies(z3.And(rg(i), rg(j), i < j), keys_le(rest, at(i), at(j))),
                        patterns=[z3.MultiPattern(at(i), at(j))]))
    return pi, ax

  def p_sort(self, eqn, ins):
    d, nk = eqn.params['dimension'], eqn.params['num_keys']
    a0 = ins[0]
    n = cint(a0.shape[d])

    def get(a, rest, k):
      return a.at(*rest[:d], k, *rest[d:])

    def before(rest, p, q, strict_stable=True):
      """key(p) before key(q), ties by position."""
      r = p < q
      for a in reversed(ins[:nk]):
        x, y = get(a, rest, p), get(a, rest, q)
        lt = (x < y) if kind(a.dtype) != 'b' else z3.And(z3.Not(x), y)
        r = z3.Or(lt, z3.And(x == y, r))
      return r
    if n is not None and n <= 8:
      # rank of each element; output k is the element of rank k
      def fn_for(a):
        def fn(*i):
          rest, k = i[:d] + i[d + 1:], i[d]
          r = None
          for p in range(n - 1, -1, -1):
            rank = z3.Sum([z3.If(before(rest, z3.IntVal(q), z3.IntVal(p)), 1, 0) for q in range(n) if q != p] or [z3.IntVal(0)])
            v = get(a, rest, z3.IntVal(p))
            r = v if r is None else z3.If(rank == k, v, r)
          return r
        return fn
      return [self.out(eqn, fn_for(a), j) for j, a in enumerate(ins)]
    pi, ax = self._perm(eqn, ins, d, lambda rest, p, q: before(rest, p, q), 'perm')
    self.c.user.setdefault('perms', []).append((pi, d))

    def mk(a):
      def fn(*i):
        rest = i[:d] + i[d + 1:]
        ax(rest)
        return get(a, rest, pi(*i))
      return fn
    return [self.out(eqn, mk(a), j) for j, a in enumerate(ins)]

  def p_top_k(self, eqn, ins):
    a = ins[0]
    d = a.ndim - 1

    def before(rest, p, q):
      x, y = a.at(*rest, p), a.at(*rest, q)
      return z3.Or(x > y, z3.And(x == y, p < q))
    n = cint(a.shape[d])
    if n is not None and n <= 12:
      # rank of each element, ties by position
      def pick(of):
        def fn(*i):
          rest, k, r = i[:d], i[d], None
          for p in range(n - 1, -1, -1):
            rank = z3.Sum([z3.If(before(rest, z3.IntVal(q), z3.IntVal(p)), 1, 0) for q in range(n) if q != p] or [z3.IntVal(0)])
            v = of(rest, z3.IntVal(p))
            r = v if r is None else z3.If(rank == k, v, r)
          return r
        return fn
      return [self.out(eqn, pick(lambda rest, p: a.at(*rest, p)), 0), self.out(eqn, pick(lambda rest, p: p), 1)]
    pi, ax = self._perm(eqn, [a], d, before, 'topk')
    self.c.user.setdefault('perms', []).append((pi, d))

    def val(*i):
      ax(i[:d])
      return a.at(*i[:d], pi(*i))

    def idx(*i):
      ax(i[:d])
      return pi(*i)
    return [self.out(eqn, val, 0), self.out(eqn, idx, 1)]

  def p_bitcast_convert_type(self, eqn, ins):
    a = ins[0]
    src, dst = kind(a.dtype), kind(eqn.params['new_dtype'])
    if src == dst:
      return self.out(eqn, lambda *i: a.at(*i))
    if self.bv and self.fp and src == 'i' and dst == 'f':
      return self.out(eqn, lambda *i: z3.fpBVToFP(a.at(*i), z3.Float32()))
    if self.bv and self.fp and src == 'f' and dst == 'i':
      return self.out(eqn, lambda *i: z3.fpToIEEEBV(a.at(*i)))
    return self.havoc(eqn)

  # -- calls ----------------------------------------------------------------
  def _closed(self, j, ins):
    if hasattr(j, 'jaxpr'):
      return self.eval(j.jaxpr, j.consts, ins)
    return self.eval(j, [], ins)

  def p_pjit(self, eqn, ins):
    return self._closed(eqn.params['jaxpr'], ins)

  p_jit = p_pjit

  def p_closed_call(self, eqn, ins):
    return self._closed(eqn.params['call_jaxpr'], ins)

  p_core_call = p_closed_call
  p_remat_call = p_closed_call
  p_custom_jvp_call = p_closed_call

  def p_custom_vjp_call(self, eqn, ins):
    return self._closed(eqn.params.get('call_jaxpr') or eqn.params.get('fun_jaxpr'), ins)

  def p_custom_vjp_call_jaxpr(self, eqn, ins):
    return self._closed(eqn.params['fun_jaxpr'], ins)

  def p_checkpoint(self, eqn, ins):
    return self._closed(eqn.params['jaxpr'], ins)

  p_remat2 = p_checkpoint

  def p_optimization_barrier(self, eqn, ins):
    return list(ins)

  def p_cond(self, eqn, ins):
    p, args = ins[0], ins[1:]
    br = eqn.params['branches']
    pv = p.at()
    ci = None
    if kind(p.dtype) == 'b':
      s = z3.simplify(pv)
      ci = 1 if z3.is_true(s) else 0 if z3.is_false(s) else None
      sel = lambda k: pv if k == 1 else z3.Not(pv)
    else:
      if z3.is_bv(pv):
        pv = z3.BV2Int(pv, is_signed=True)
      pv = z3.simplify(pv)
      ci = cint(pv)
      if ci is not None:
        ci = max(0, min(len(br) - 1, ci))
      sel = lambda k: pv == k
    if ci is not None:
      return self._closed(br[ci], args)
    outs = [self._closed(b, args) for b in br]
    res = []
    for j, v in enumerate(eqn.outvars):
      def fn(*i, j=j):
        r = outs[-1][j].at(*i)
        for k in range(len(br) - 2, -1, -1):
          cnd = z3.Not(pv) if kind(p.dtype) == 'b' else (pv <= 0 if k == 0 else pv == k)
          r = ite(cnd, outs[k][j].at(*i), r)
        return r
      res.append(self.out(eqn, fn, j))
    return res

  # -- loops ----------------------------------------------------------------
  def _next_loop(self, what, nums):
    """The loop spec that says it matches this equation, else None."""
    k = self.loop_no
    self.loop_no += 1
    for sp in self.loops:
      if sp.match(k, what, nums):
        return sp
    return None

  def p_while(self, eqn, ins):
    P = eqn.params
    nc, nb = P['cond_nconsts'], P['body_nconsts']
    cc, bc, init = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
    cond = lambda st: self._closed(P['cond_jaxpr'], cc + st)[0]
    body = lambda st: self._closed(P['body_jaxpr'], bc + st)
    sp = self._next_loop('while', init)
    if sp is None:
      # concrete trip count: unroll
      st, n = list(init), 0
      while True:
        cv = z3.simplify(cond(st).at())
        if z3.is_false(cv):
          return st
        if not z3.is_true(cv) or n > 64:
          raise Unsupported('while equation without an invariant')
        st = body(st)
        n += 1
    return self.cut(sp, init, cond, body)

  def cut(self, sp, init, cond, body, i=None, n=None):
    c = self.c
    sp.interp = self
    for nm, f, *h in sp.inv(init, None):
      c.prove(f'{sp.name}: invariant {nm} holds initially', f, kind='invariant', hints=h)
    st = [self.fresh(a.shape, a.dtype, 'st') for a in init]
    arm = c.choose('loop', ['step', 'exit'])
    for nm, f, *h in sp.inv(st, None):
      c.assume(f)
    sp.on_havoc(st)
    cv = cond(st).at()
    if arm == 'step':
      c.assume(cv)
      new = body(st)
      for nm, f, *h in sp.inv(new, st):
        c.prove(f'{sp.name}: invariant {nm} is preserved', f, kind='invariant', hints=h)
      v = sp.variant(st)
      if v is not None:
        c.prove(f'{sp.name}: terminates', z3.And(T(v) >= 0, T(sp.variant(new)) < T(v)), kind='variant', hints=sp.variant_hints(st, new))
      c.cover()
      raise PathEnd()
    c.assume(z3.Not(cv))
    return st

  def p_scan(self, eqn, ins):
    P = eqn.params
    nc, ny = P['num_consts'], P['num_carry']
    consts, init, xs = ins[:nc], ins[nc:nc + ny], ins[nc + ny:]
    n = dim_term(P['length'], self.dims)
    rev = P['reverse']
    jaxpr = P['jaxpr']

    def step(i, carry):
      sl = [SArr(x.shape[1:], x.dtype, lambda *r, x=x: x.at(i, *r)) for x in xs]
      out = self._closed(jaxpr, consts + carry + sl)
      return out[:ny], out[ny:]
    sp = self._next_loop('scan', init)
    if sp is None:
      if not isinstance(n, int) or n > 64:
        raise Unsupported('scan equation without an invariant')
      carry, ys = list(init), [None] * n
      for k in (range(n - 1, -1, -1) if rev else range(n)):
        carry, y = step(z3.IntVal(k), carry)
        ys[k] = y
      outs = list(carry)
      for j in range(len(eqn.outvars) - ny):
        def fn(*i, j=j):
          ck = cint(i[0])
          if ck is not None:
            return ys[ck][j].at(*i[1:])
          r = ys[-1][j].at(*i[1:])
          for k in range(n - 2, -1, -1):
            r = ite(i[0] == k, ys[k][j].at(*i[1:]), r)
          return r
        outs.append(self.out(eqn, fn, ny + j))
      return outs
    if len(eqn.outvars) > ny or rev:
      raise Unsupported('scan with stacked outputs under an invariant')
    c = self.c
    sp.interp = self
    for nm, f, *h in sp.inv(init, z3.IntVal(0)):
      c.prove(f'{sp.name}: invariant {nm} holds initially', f, kind='invariant', hints=h)
    arm = c.choose('loop', ['step', 'exit'])
    st = [self.fresh(a.shape, a.dtype, 'st') for a in init]
    i = z3.Int(c.fresh_name('it'))
    if arm == 'step':
      c.assume(z3.And(i >= 0, i < I(n)))
      for nm, f, *h in sp.inv(st, i):
        c.assume(f)
      new, _ = step(i, st)
      for nm, f, *h in sp.inv(new, i + 1):
        c.prove(f'{sp.name}: invariant {nm} is preserved', f, kind='invariant', hints=h)
      c.cover()
      raise PathEnd()
    for nm, f, *h in sp.inv(st, I(n)):
      c.assume(f)
    return st


class JLoop:
  """Invariant of a while/scan equation over its carried arrays."""
  name = 'loop'

  def match(self, k, what, init):
    return True

  def inv(self, st, i):
    return ()

  def on_havoc(self, st):
    pass

  def variant(self, st):
    return None

  def variant_hints(self, st, new):
    return ()


ELEMENTWISE = {
    'add', 'add_any', 'sub', 'mul', 'neg', 'div', 'rem', 'max', 'min', 'eq', 'ne', 'lt', 'le', 'gt', 'ge',
    'and', 'or', 'xor', 'not', 'abs', 'sign', 'exp', 'log', 'sqrt', 'rsqrt', 'square', 'integer_pow', 'pow',
    'log1p', 'expm1', 'tanh', 'logistic', 'erf', 'sin', 'cos', 'cbrt', 'exp2', 'floor', 'ceil', 'round',
    'is_finite', 'convert_element_type', 'copy', 'copy_p', 'stop_gradient', 'reduce_precision', 'real',
    'shift_left', 'shift_right_logical', 'shift_right_arithmetic', 'lt_to', 'le_to', 'erf_inv', 'tan'}


def trace(fun, specs):
  jax = _jax()
  try:
    return jax.make_jaxpr(fun)(*specs)
  except (Unsupported, PathEnd):
    raise
  except Exception as e:   # tracing limits of symbolic shapes
    from jax._src import core as jcore
    msg = f'{type(e).__name__}: {str(e)[:200]}'
    if isinstance(e, (jcore.InconclusiveDimensionOperation, jax.errors.JAXTypeError, NotImplementedError, TypeError)):
      raise Unsupported('tracing with symbolic shapes: ' + msg) from e
    raise


# ------------------------------------------------------ contract primitives
def opaque(name, shape, dtype, *args, **params):
  """Binds a primitive the interpreter resolves through Interp.contracts."""
  jax = _jax()
  p = _prims().get(name)
  if p is None:
    from jax.extend import core as xcore
    p = xcore.Primitive('vc_' + name)
    def abstract(*avals, shape, dtype, **kw):
      from jax import core as jc
      return jax.core.ShapedArray(shape, np.dtype(dtype))
    p.def_abstract_eval(abstract)
    from jax._src.interpreters import batching

    def batched(args, dims, *, shape, dtype, **kw):
      import jax.numpy as jnp
      n = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
      args = [a if d is batching.not_mapped else jnp.moveaxis(a, d, 0) for a, d in zip(args, dims)]
      return p.bind(*args, shape=(n,) + tuple(shape), dtype=dtype, **kw), 0
    batching.primitive_batchers[p] = batched
    _prims()[name] = p
  return p.bind(*args, shape=tuple(shape), dtype=np.dtype(dtype), **params)


_P = {}


def _prims():
  return _P
