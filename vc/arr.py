"""Symbolic numpy-like arrays for Engine A (contracts of array functions).

An array is a shape (ints and SymInts) and a map from index terms to a
symbolic element.  Operations are those of numpy by index definition; anything
else is outside the subset (Unsupported)."""

import z3

from vc import core
from vc.core import AND, IMP, OR, SymBool, SymInt, ctx, forall, lift, zint


def dim(x):
  if isinstance(x, SymInt):
    v = core.concrete(x)
    return x if v is None else v
  if isinstance(x, bool) or not hasattr(x, '__index__'):
    raise core.Unsupported(f'array dimension {x!r}')
  return int(x)


def eqdim(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  return z3.eq(z3.simplify(zint(a)), z3.simplify(zint(b)))


def number(x):
  return core.ite(x, 1, 0) if isinstance(x, (bool, SymBool)) else x


def real(x):
  """Conversion to floating point (floats as reals)."""
  return core.SymReal(core.zreal(x))


def trunc(x):
  """Conversion to an integer: towards zero."""
  if isinstance(x, (core.SymReal, core.SymFrac)):
    t = core.zreal(x)
    return lift(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
  return x


def zcmp(a, b):
  """a <= b for numbers of either kind."""
  a, b = number(a), number(b)
  if isinstance(a, (core.SymReal, core.SymFrac, float)) or isinstance(b, (core.SymReal, core.SymFrac, float)):
    return lift(core.zreal(a) <= core.zreal(b))
  return lift(zint(a) <= zint(b))


class Arr:
  __array_priority__ = 2000

  def __init__(self, shape, fn, dtype=None):
    self.shape, self.fn, self.dtype = tuple(dim(d) for d in shape), fn, dtype

  ndim = property(lambda self: len(self.shape))

  def __call__(self, *idx):
    return self.fn(*idx)

  def __vc_len__(self):
    return self.shape[0]

  def astype(self, d):
    import numpy as np
    if np.dtype(d).kind == 'b':
      return Arr(self.shape, lambda *i: truth(self.fn(*i)), d)
    if np.dtype(d).kind in 'iu':
      return Arr(self.shape, lambda *i: trunc(number(self.fn(*i))), d)
    if np.dtype(d).kind == 'f' or 'float' in str(np.dtype(d)):
      return Arr(self.shape, lambda *i: real(number(self.fn(*i))), d)
    raise core.Unsupported(f'cast to {d}')

  def __getitem__(self, k):
    k = k if isinstance(k, tuple) else (k,)
    if any(x is Ellipsis for x in k):
      p = [i for i, x in enumerate(k) if x is Ellipsis][0]
      used = sum(1 for x in k if x is not None and x is not Ellipsis)
      k = k[:p] + (slice(None),) * (self.ndim - used) + k[p + 1:]
    if any(isinstance(x, Arr) for x in k):
      return self._gather(k)
    shape, maps, d = [], [], 0
    for x in k:
      if x is None:
        shape.append(1)
        continue
      n = self.shape[d]
      if isinstance(x, slice):
        if x.step not in (None, 1):
          raise core.Unsupported('strided slice')
        lo, hi = bound(x.start, 0, n), bound(x.stop, n, n)
        m = hi - lo
        m = m if isinstance(m, int) else pick(zint(m) >= 0, lambda: m, lambda: 0)
        shape.append(max(m, 0) if isinstance(m, int) else norm(m, n))
        maps.append(('s', len(shape) - 1, lo))
      else:
        maps.append(('i', x, n))
      d += 1
    for n in self.shape[d:]:
      shape.append(n)
      maps.append(('s', len(shape) - 1, 0))

    def fn(*idx):
      out = []
      for kind, a, b in maps:
        out.append(idx[a] + b if kind == 's' else core.ite(a < 0, a + b, a) if not isinstance(a, int) else a if a >= 0 else b + a)
      return self.fn(*out)
    return fn() if not shape else Arr(shape, fn, self.dtype)

  def _gather(self, k):
    if len(k) != self.ndim or not all(isinstance(x, (Arr, int, SymInt)) for x in k):
      raise core.Unsupported('mixed advanced indexing')
    shape = bshape([x.shape for x in k if isinstance(x, Arr)])

    def fn(*idx):
      # jax clamps indices that are out of bounds
      out = []
      for x, n in zip(k, self.shape):
        v = bval(x, idx) if isinstance(x, Arr) else x
        v = core.ite(v < 0, v + n, v)
        out.append(core.ite(v < 0, 0, core.ite(v >= n, n - 1, v)))
      return self.fn(*out)
    return Arr(shape, fn, self.dtype)

  def sum(self, axis=None, **k):
    raise core.Unsupported('sum of a symbolic array')

  def __bool__(self):
    raise core.Unsupported('truth of an array')

  def __hash__(self):
    raise core.Unsupported('hash of an array')

  def __invert__(self):
    return Arr(self.shape, lambda *i: lift(core.NOT(truth(self.fn(*i)))))

  def __neg__(self):
    return Arr(self.shape, lambda *i: -number(self.fn(*i)))


def norm(m, n):
  """The slice length, simplified to n when it is provably n."""
  return n if sure(zint(m) == zint(n)) else m


def sure(f):
  """True when the path condition decides f; False otherwise."""
  f = z3.simplify(f)
  if z3.is_true(f):
    return True
  c = ctx()
  return not z3.is_false(f) and not c.in_quant and not c.feasible(z3.Not(f))


def pick(f, a, b):
  return a() if sure(f) else b() if sure(z3.Not(f)) else core.ite(lift(f), a(), b())


def bound(x, default, n):
  if x is None:
    return default
  if isinstance(x, int) and isinstance(n, int):
    return max(0, n + x) if x < 0 else min(x, n)
  y = pick(zint(x) < 0, lambda: x + n, lambda: x)
  y = pick(zint(y) < 0, lambda: 0, lambda: y)
  return pick(zint(y) > zint(n), lambda: n, lambda: y)


def truth(x):
  if isinstance(x, (bool, SymBool)):
    return x
  if isinstance(x, z3.BoolRef):
    return lift(x)
  return x != 0


def bshape(shapes):
  r = max(len(s) for s in shapes)
  out = []
  for j in range(r):
    d = 1
    for s in shapes:
      k = j - (r - len(s))
      if k < 0 or (isinstance(s[k], int) and s[k] == 1):
        continue
      if isinstance(d, int) and d == 1:
        d = s[k]
      elif not eqdim(d, s[k]):
        raise core.Unsupported(f'cannot broadcast {shapes}')
    out.append(d)
  return tuple(out)


def bval(x, idx):
  if not isinstance(x, Arr):
    return x
  idx = idx[len(idx) - x.ndim:]
  return x.fn(*[0 if isinstance(d, int) and d == 1 else i for i, d in zip(idx, x.shape)])


def lift2(f):
  def g(a, b):
    sh = bshape([x.shape for x in (a, b) if isinstance(x, Arr)])
    return Arr(sh, lambda *i: f(bval(a, i), bval(b, i)))
  return g


def _op(name, f):
  g = lift2(f)

  def fwd(self, o):
    if not isinstance(o, Arr) and not isinstance(o, (int, float, bool, SymInt, SymBool, core.SymReal, core.SymFrac)) and not core._is_npint(o):
      return NotImplemented
    return g(self, o)

  def rev(self, o):
    if not isinstance(o, (int, float, bool, SymInt, SymBool, core.SymReal, core.SymFrac)) and not core._is_npint(o):
      return NotImplemented
    return g(o, self)
  setattr(Arr, f'__{name}__', fwd)
  if name in ('add', 'sub', 'mul', 'and', 'or', 'floordiv', 'mod', 'truediv'):
    setattr(Arr, f'__r{name}__', rev)


def _band(a, b):
  if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
    return lift(AND(a, b))
  return number(a) & number(b)


def _bor(a, b):
  if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
    return lift(OR(a, b))
  raise core.Unsupported('bitwise or')


def _mul(a, b):
  for x, y in ((a, b), (b, a)):
    if isinstance(x, (bool, SymBool)):
      return core.ite(x, number(y), 0)
  return a * b


for _n, _f in dict(add=lambda a, b: number(a) + number(b), sub=lambda a, b: number(a) - number(b), mul=_mul,
                   floordiv=lambda a, b: a // b, mod=lambda a, b: a % b, truediv=lambda a, b: core.SymReal(core.zreal(number(a)) / core.zreal(number(b))),
                   lt=lambda a, b: number(a) < number(b), le=lambda a, b: number(a) <= number(b), gt=lambda a, b: number(a) > number(b),
                   ge=lambda a, b: number(a) >= number(b), eq=lambda a, b: lift(zint(number(a)) == zint(number(b))) if not isinstance(a, core.SymReal) else a == b,
                   ne=lambda a, b: lift(zint(number(a)) != zint(number(b))) if not isinstance(a, core.SymReal) else a != b,
                   **{'and': _band, 'or': _bor}).items():
  _op(_n, _f)


# ------------------------------------------------------------------- numpy
def asarr(x):
  return x if isinstance(x, Arr) else Arr((), lambda: x)


def arange(n, stop=None, step=None, dtype=None):
  if step is not None:
    raise core.Unsupported('arange with a step')
  lo, hi = (0, n) if stop is None else (n, stop)
  return Arr((hi - lo,), lambda i: i + lo)


def where(c, a, b):
  sh = bshape([x.shape for x in (c, a, b) if isinstance(x, Arr)])
  return Arr(sh, lambda *i: core.ite(truth(bval(c, i)), number(bval(a, i)), number(bval(b, i))))


def expand_dims(x, axis):
  if isinstance(axis, tuple):
    for a in sorted(a % (x.ndim + len(axis)) for a in axis):
      x = expand_dims(x, a)
    return x
  axis = axis % (x.ndim + 1)
  return Arr(x.shape[:axis] + (1,) + x.shape[axis:], lambda *i: x.fn(*i[:axis], *i[axis + 1:]))


def pad(x, widths, mode='constant', constant_values=0):
  if mode != 'constant':
    raise core.Unsupported('pad mode')
  sh = tuple(n + a + b for n, (a, b) in zip(x.shape, widths))

  def fn(*idx):
    inside, src = True, []
    for i, n, (a, b) in zip(idx, x.shape, widths):
      if isinstance(a, int) and a == 0 and isinstance(b, int) and b == 0:
        src.append(i)
        continue
      inside = AND(inside, i >= a, i < a + n)
      src.append(i - a)
    v = x.fn(*src)
    return v if inside is True else core.ite(inside, number(v), constant_values)
  return Arr(sh, fn)


def _arg(x, axis, mx):
  axis = x.ndim - 1 if axis is None and x.ndim == 1 else axis
  if axis is None:
    raise core.Unsupported('argmax over all axes')
  axis %= x.ndim
  n = x.shape[axis]
  c = ctx()
  rest = x.shape[:axis] + x.shape[axis + 1:]
  f = z3.Function(c.fresh_name('argmax' if mx else 'argmin'), *[z3.IntSort()] * (len(rest) + 1))
  r = lambda *i: lift(f(*[zint(k) for k in i]) if rest else f())
  at = lambda i, k: number(x.fn(*i[:axis], k, *i[axis:]))
  better = (lambda a, b: a > b) if mx else (lambda a, b: a < b)

  def ok(*i):
    return AND(*[AND(k >= 0, k < d) for k, d in zip(i, rest)]) if rest else True
  m = len(rest)
  app = lambda i: f(*[zint(k) for k in i])
  if m:
    c._push(core.zbool(forall(m, lambda *i: IMP(ok(*i), AND(r(*i) >= 0, r(*i) < n)), patterns=[lambda *v: f(*v)])))
  else:
    c.assume(AND(r() >= 0, r() < n))
  c._push(core.zbool(forall(m + 1, lambda *v: IMP(AND(ok(*v[:m]), v[m] >= 0, v[m] < n), AND(
      core.NOT(better(at(v[:m], v[m]), at(v[:m], r(*v[:m])))),
      IMP(v[m] < r(*v[:m]), better(at(v[:m], r(*v[:m])), at(v[:m], v[m]))))))))
  return Arr(rest, r)


def argmax(x, axis=None, **k):
  return _arg(x, axis, True)


def argmin(x, axis=None, **k):
  return _arg(x, axis, False)


def fresh(name, shape, inp=False):
  c = ctx()
  f = z3.Function(c.fresh_name(name), *[z3.IntSort()] * (len(shape) + 1))
  return Arr(shape, lambda *i: lift(f(*[zint(k) for k in i])))


def ns(real, **over):
  """Stand-in for numpy/jax.numpy over symbolic arrays."""
  from vc.transform import StubNS
  choose = lambda mine, theirs: (lambda *a, **k: mine(*a, **k) if any(isinstance(v, (Arr, SymInt, SymBool)) for v in list(a) + list(k.values())) else theirs(*a, **k))
  d = {n: choose(f, getattr(real, n)) for n, f in dict(
      arange=arange, where=where, expand_dims=lambda x, axis: expand_dims(x, axis), pad=pad, argmax=argmax, argmin=argmin,
      logical_not=lambda x: ~x, logical_and=lambda a, b: lift2(lambda p, q: lift(AND(truth(p), truth(q))))(a, b),
      logical_or=lambda a, b: lift2(lambda p, q: lift(OR(truth(p), truth(q))))(a, b), not_equal=lambda a, b: a != b, equal=lambda a, b: a == b,
      less=lambda a, b: a < b, greater=lambda a, b: a > b, greater_equal=lambda a, b: a >= b, less_equal=lambda a, b: a <= b,
      multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b, asarray=lambda x, *a, **k: x, array=lambda x, *a, **k: x,
      zeros_like=lambda x, **k: Arr(x.shape, lambda *i: 0), ones_like=lambda x, **k: Arr(x.shape, lambda *i: 1)).items()}
  d.update(over)
  return StubNS(real, **d)
