"""Mechanical instrumentation of /repo source for the path-wise generator.

`clone(relpath)` parses the current text of a module of /repo, rewrites
  * every loop inside a function to an explicit head  (`while True` with a call
    to the loop manager, which cuts the loop when a loop contract is registered
    and otherwise unrolls it),
  * every single-generator comprehension to a call that also accepts symbolic
    sequences,
and executes the result as a separate module whose builtins `len, range, int,
isinstance, min, max, ...` accept symbolic values.  Nothing else changes: on
concrete values the clone computes what the original computes, which
`selftest` checks by running both.  What is dropped: gin registration of the
clone (a second registration of the same names is refused by gin) and log
output.
"""

import ast
import builtins
import importlib
import os
import sys
import types

from vc import env
env.setup()
from vc import core
from vc import seq as seqmod
from vc import strs
from vc.core import SymInt, SymBool, SymReal, SymFrac, Unsupported, ctx, issym, ite


class _Names(ast.NodeVisitor):

  def __init__(self):
    self.names = []

  def add(self, n):
    if n not in self.names:
      self.names.append(n)

  def visit_Name(self, node):
    if isinstance(node.ctx, (ast.Store, ast.Del)):
      self.add(node.id)

  def visit_FunctionDef(self, node):
    self.add(node.name)

  visit_AsyncFunctionDef = visit_FunctionDef
  visit_ClassDef = visit_FunctionDef

  def visit_Lambda(self, node):
    pass

  def visit_ListComp(self, node):
    # comprehension targets are local to it; walrus targets are not supported
    pass

  visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

  def visit_ExceptHandler(self, node):
    if node.name:
      self.add(node.name)
    self.generic_visit(node)

  def visit_Import(self, node):
    for a in node.names:
      self.add((a.asname or a.name).split('.')[0])

  visit_ImportFrom = visit_Import


def assigned_names(stmts):
  v = _Names()
  for s in stmts:
    v.visit(s)
  return v.names


class Instrument(ast.NodeTransformer):

  def __init__(self):
    self.stack = []
    self.counts = {}
    self.depth = 0
    self.n = 0

  def _qual(self):
    return '.'.join(self.stack)

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    d, self.depth = self.depth, 0
    self.generic_visit(node)
    self.depth = d
    self.stack.pop()
    return node

  def _func(self, node):
    self.stack.append(node.name)
    self.depth += 1
    node.body = [self._v(s) for s in node.body]
    node.body = _flat(node.body)
    self.depth -= 1
    self.stack.pop()
    return node

  def _v(self, s):
    return self.visit(s)

  visit_FunctionDef = _func
  visit_AsyncFunctionDef = _func

  def _loop(self, node, kind):
    if self.depth == 0:
      return self.generic_visit(node)
    q = self._qual()
    k = self.counts.get(q, 0)
    self.counts[q] = k + 1
    key = f'{q}#{k}'
    var = f'__vcL{self.n}'
    self.n += 1
    targets = []
    if kind == 'for':
      targets = [node.target]
    names = assigned_names(targets + node.body)
    body = _flat([self.visit(s) for s in node.body])
    orelse = _flat([self.visit(s) for s in node.orelse])
    out = []
    it = self.visit(node.iter) if kind == 'for' else ast.Constant(None)
    out.append(ast.Assign(
        [ast.Name(var, ast.Store())],
        ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'loop', ast.Load()),
                 [ast.Constant(key), ast.Constant(kind), it,
                  ast.Tuple([ast.Constant(n) for n in assigned_names(targets)], ast.Load())], [])))
    inner = []
    head = ast.Call(
        ast.Attribute(ast.Name(var, ast.Load()), 'head', ast.Load()),
        [ast.Call(ast.Name('__vc_locals__', ast.Load()), [], []),
         ast.Tuple([ast.Constant(n) for n in names], ast.Load())], [])
    if names:
      inner.append(ast.Assign(
          [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], head))
    else:
      inner.append(ast.Expr(head))
    if kind == 'for':
      test = ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'more', ast.Load()), [], [])
    else:
      test = self.visit(node.test)
    inner.append(ast.If(test, [ast.Pass()], orelse + [ast.Break()]))
    if kind == 'for':
      inner.append(ast.Assign(
          [node.target],
          ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'next', ast.Load()), [], [])))
    inner.extend(body)
    out.append(ast.While(ast.Constant(True), inner, []))
    for o in out:
      ast.copy_location(o, node)
      for sub in ast.walk(o):
        if not hasattr(sub, 'lineno') and isinstance(sub, (ast.expr, ast.stmt)):
          ast.copy_location(sub, node)
    return out

  def visit_For(self, node):
    return self._loop(node, 'for')

  def visit_While(self, node):
    return self._loop(node, 'while')

  # comprehensions ---------------------------------------------------
  def _comp(self, node, kind):
    node = self.generic_visit(node)
    if self.depth == 0 or len(node.generators) != 1:
      return node
    g = node.generators[0]
    tup = isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts)
    if g.is_async or not (isinstance(g.target, ast.Name) or tup):
      return node
    for sub in ast.walk(node):
      if isinstance(sub, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
        return node
    import copy
    argn = lambda *a: ast.arguments([], [ast.arg(v) for v in a], None, [], [], None, [])

    def over(e):
      if not tup:
        return ast.Lambda(argn(g.target.id), copy.deepcopy(e))
      inner = ast.Lambda(argn(*[v.id for v in g.target.elts]), copy.deepcopy(e))
      return ast.Lambda(argn('__vc_x'), ast.Call(inner, [ast.Starred(ast.Name('__vc_x', ast.Load()), ast.Load())], []))
    elt = over(node.elt)
    cond = ast.Constant(None)
    if g.ifs:
      c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
      cond = over(c)
    native = type(node)(node.elt, [ast.comprehension(g.target, ast.Name('__vc_it', ast.Load()), g.ifs, 0)])
    nat = ast.Lambda(argn('__vc_it'), native)
    call = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'comp', ast.Load()),
                    [ast.Constant(kind), g.iter, elt, cond, nat], [])
    ast.copy_location(call, node)
    return ast.fix_missing_locations(call)

  def visit_ListComp(self, node):
    return self._comp(node, 'list')

  def visit_SetComp(self, node):
    return self._comp(node, 'set')

  def visit_GeneratorExp(self, node):
    return self._comp(node, 'gen')

  def visit_DictComp(self, node):
    import copy
    pair = ast.Tuple([node.key, node.value], ast.Load())
    probe = ast.ListComp(copy.deepcopy(pair), copy.deepcopy(node.generators))
    ast.copy_location(probe, node)
    r = self._comp(probe, 'dict')
    if isinstance(r, ast.ListComp):
      return self.generic_visit(node)
    # the native form stays a dictionary comprehension
    nat = r.args[4]
    lc = nat.body
    nat.body = ast.DictComp(lc.elt.elts[0], lc.elt.elts[1], lc.generators)
    return ast.fix_missing_locations(ast.copy_location(r, node))

  def visit_Compare(self, node):
    # `x in c` / `x not in c` with a symbolic container needs no coercion fork
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
      f = 'contains' if isinstance(node.ops[0], ast.In) else 'not_contains'
      call = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), f, ast.Load()),
                      [node.left, node.comparators[0]], [])
      return ast.copy_location(call, node)
    return node

  def visit_UnaryOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Not):
      return ast.copy_location(ast.Call(
          ast.Attribute(ast.Name('__vc__', ast.Load()), 'not_', ast.Load()), [node.operand], []), node)
    return node

  def visit_Call(self, node):
    # zero-argument super() needs the real __class__ cell: untouched.
    self.generic_visit(node)
    if (isinstance(node.func, ast.Attribute) and node.func.attr == 'update' and not node.args and len(node.keywords) == 1
        and node.keywords[0].arg is None):
      return ast.copy_location(ast.Call(
          ast.Attribute(ast.Name('__vc__', ast.Load()), 'update_kw', ast.Load()), [node.func.value, node.keywords[0].value], []), node)
    return node


  def visit_Dict(self, node):
    # an empty dictionary display may be a symbolic one (vc/maps.py)
    self.generic_visit(node)
    if self.depth and not node.keys:
      return ast.copy_location(ast.Call(
          ast.Attribute(ast.Name('__vc__', ast.Load()), 'newdict', ast.Load()), [], []), node)
    return node

  def visit_BinOp(self, node):
    # '...%d...' % values: messages about symbolic numbers
    self.generic_visit(node)
    if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
      return ast.copy_location(ast.Call(
          ast.Attribute(ast.Name('__vc__', ast.Load()), 'pct', ast.Load()), [node.left, node.right], []), node)
    return node

  def visit_List(self, node):
    # an empty list display may be a ghost list provided by the harness
    self.generic_visit(node)
    if self.depth and not node.elts and isinstance(node.ctx, ast.Load):
      return ast.copy_location(ast.Call(
          ast.Attribute(ast.Name('__vc__', ast.Load()), 'newlist', ast.Load()), [], []), node)
    return node

  def visit_JoinedStr(self, node):
    self.generic_visit(node)
    parts = []
    for v in node.values:
      if isinstance(v, ast.Constant):
        parts.append(ast.Tuple([ast.Constant('c'), v], ast.Load()))
      else:
        spec = v.format_spec if v.format_spec is not None else ast.Constant('')
        parts.append(ast.Tuple([ast.Constant('v'), v.value, ast.Constant(v.conversion), spec], ast.Load()))
    return ast.copy_location(ast.Call(
        ast.Attribute(ast.Name('__vc__', ast.Load()), 'fstr', ast.Load()),
        [ast.List(parts, ast.Load())], []), node)


def _flat(stmts):
  out = []
  for s in stmts:
    if isinstance(s, list):
      out.extend(s)
    elif s is not None:
      out.append(s)
  return out


class Flatten(ast.NodeTransformer):
  """NodeTransformer.generic_visit already splices lists; nothing to do."""


# --------------------------------------------------------------------------
# Runtime of the instrumented code
# --------------------------------------------------------------------------
class _Unbound:

  def __repr__(self):
    return '<unbound>'

  def __getattr__(self, n):
    raise Unsupported('use of a loop variable that may be unbound')

UNBOUND = _Unbound()
MAX_UNROLL = 4000
LOOP_SPECS = {}   # (module, key) -> spec, installed by the harness


class Env(dict):
  """Local variables at a loop head; an unknown name is a tool limit."""

  def __missing__(self, k):
    raise Unsupported(f'loop contract talks about variable {k!r}, which the code no longer has')


def same_value(a, b):
  if a is b:
    return True
  if isinstance(a, (bool, int, str, float, type(None))) and isinstance(b, (bool, int, str, float, type(None))):
    return type(a) is type(b) and a == b
  if isinstance(a, (SymInt, SymBool, int, bool)) and isinstance(b, (SymInt, SymBool, int, bool)):
    try:
      x, y = (core.zint(v) for v in (a, b))
      return not ctx().feasible(x != y)
    except Exception:  # pylint: disable=broad-except
      return False
  return False


class LoopSpec:
  """Contract of one loop.

  inv(L, env)   -> iterable of (name, formula): the invariant
  havoc(L, env) -> dict of fresh values for assigned variables; heap/ghost
                   state is havocked by side effect on the harness state
  variant(L, env) -> integer term that must decrease and stay >= 0 (optional)
  `L.i` is the index of a for loop (number of completed iterations).
  """
  name = 'loop'

  def applies(self, L, env):
    return True

  def inv(self, L, env):
    return ()

  def havoc(self, L, env):
    return {}

  def variant(self, L, env):
    return None


class Loop:

  def __init__(self, rt, key, kind, iterable, targets=()):
    self.rt, self.key, self.kind, self.targets = rt, key, kind, targets
    self.spec = rt.loop_specs.get(key)
    self.state = 'entry'
    self.count = 0
    self.i = 0
    self.seq = None
    self.iter = None
    if kind == 'for':
      s = seqmod.as_symseq(iterable)
      if s is not None:
        self.seq = s
      elif self.spec is not None and isinstance(iterable, (list, tuple, builtins.range)):
        self.seq = seqmod.from_concrete(iterable)
      else:
        self.iter = builtins.iter(iterable)
        self.spec = None

  @property
  def n(self):
    return self.seq.length

  def _lemmas(self, nm, hints):
    """Intermediate facts of an invariant proof: each is an obligation too."""
    done = []
    for k, h in enumerate(hints):
      if not ctx().prove(f'{self.spec.name}: lemma {k + 1} for {nm}', h, kind='lemma', hints=done):
        break
      done.append(h)
    return done

  def head(self, loc, names):
    env = Env({k: v for k, v in loc.items() if not k.startswith('__vcL')})
    if self.state == 'entry':
      if self.spec is not None and has_ctx() and self.spec.applies(self, env):
        c = ctx()
        self.i = 0
        for nm, f, *hints in self.spec.inv(self, env):
          c.prove(f'{self.spec.name}: invariant {nm} holds on entry', f, kind='invariant', hints=self._lemmas(nm, hints))
        new = dict(self.spec.havoc(self, env))
        if self.kind == 'for':
          self.i = c.int('idx', 0, inp=False)
          c.assume(self.i <= self.n)
        env.update(new)
        for nm, f, *_ in self.spec.inv(self, env):
          c.assume(f)
        v = self.spec.variant(self, env)
        self.var0 = v
        self.state = 'cut'
        self.havocked = new
        # a variable the contract does not havoc must not carry information
        # from one round to the next
        self.kept = {n: env[n] for n in names if n not in new and n not in self.targets and n in env and env[n] is not UNBOUND}
        return tuple(new.get(n, env.get(n, UNBOUND)) for n in names)
      self.state = 'unroll'
      return tuple(env.get(n, UNBOUND) for n in names)
    if self.state == 'cut':
      c = ctx()
      if self.kind == 'for':
        self.i = self.i + 1
      for nm, f, *hints in self.spec.inv(self, env):
        c.prove(f'{self.spec.name}: invariant {nm} is preserved', f, kind='invariant', hints=self._lemmas(nm, hints))
      for n, old in self.kept.items():
        if not same_value(old, env.get(n, UNBOUND)):
          raise Unsupported(f'loop {self.key}: variable {n} changes, but the loop contract does not say how')
      v1 = self.spec.variant(self, env)
      if v1 is not None:
        c.prove(f'{self.spec.name}: variant decreases and is bounded',
                core.AND(v1 < self.var0, self.var0 >= 0), kind='termination')
      c.dead = True
      raise core.PathEnd()
    self.count += 1
    if self.kind == 'for' and self.seq is not None:
      self.i += 1
    if self.count > MAX_UNROLL or (has_ctx() and self.count > 60 and ctx()._nsplit > 60):
      raise Unsupported(f'loop {self.key} has no invariant and does not unroll')
    return tuple(env.get(n, UNBOUND) for n in names)

  def more(self):
    if self.seq is not None:
      return bool(self.i < self.seq.length)
    try:
      self._next = builtins.next(self.iter)
      return True
    except StopIteration:
      return False

  def next(self):
    if self.seq is not None:
      return self.seq.get(self.i)
    return self._next


def has_ctx():
  return core.has_ctx()


class OpaqueText:
  """Text holding symbolic numbers: good for messages only."""

  def __getattr__(self, n):
    raise Unsupported('text holding a symbolic number')


class Runtime:

  def __init__(self):
    self.loop_specs = {}

  def loop(self, key, kind, iterable, targets=()):
    return Loop(self, key, kind, iterable, targets)

  def not_(self, x):
    if isinstance(x, SymBool):
      return core.not_(x)
    if isinstance(x, SymInt):
      return x == 0
    return not x

  def contains(self, x, c):
    if hasattr(c, '__vc_contains__'):
      return c.__vc_contains__(x)
    if isinstance(c, (list, tuple)) and (issym(x) or builtins.any(issym(e) for e in c)):
      r = False
      for e in c:
        r = core.lift(core.OR(r, x == e)) if not isinstance(x == e, bool) or r is not False else (x == e)
        if r is True:
          return True
      return r
    if isinstance(c, builtins.range) and issym(x):
      if c.step == 1:
        return core.lift(core.AND(x >= c.start, x < c.stop))
    if issym(x) and isinstance(c, (set, frozenset, dict)):
      items = [e for e in c if isinstance(e, int)]
      return core.lift(core.OR(False, *[x == e for e in items]))
    return x in c

  def update_kw(self, d, kw):
    return d.update(kw) if hasattr(kw, 'harr') else d.update(**kw)

  def newdict(self):
    if has_ctx() and ctx().user.get('symdict'):
      from vc import maps
      return maps.SymMap()
    return {}

  def pct(self, fmt, vals):
    vs = vals if isinstance(vals, tuple) else (vals,)
    if builtins.any(issym(v) for v in vs) and has_ctx() and not ctx().user.get('strings'):
      return OpaqueText()
    return fmt % vals

  def newlist(self):
    if has_ctx() and ctx().user.get('newlist'):
      return ctx().user['newlist']()
    return []

  def fstr(self, parts):
    return strs.fstr(parts)

  def not_contains(self, x, c):
    return self.not_(self.contains(x, c))

  def comp(self, kind, it, elt, cond, native):
    s = seqmod.as_symseq(it)
    if s is None:
      return native(it)
    if kind == 'dict':
      from vc import maps
      return maps.from_pairs(s, elt, cond)
    r = seqmod.comprehend(s, elt, cond)
    if kind == 'set':
      raise Unsupported('set comprehension over a symbolic sequence')
    return r


# symbolic-aware builtins --------------------------------------------------
def _mk_num(base, syms, name):
  class Meta(type):

    def __instancecheck__(cls, o):
      return isinstance(o, syms) or builtins.isinstance(o, base)

    def __subclasscheck__(cls, o):
      return builtins.issubclass(o, base)

    def __eq__(cls, o):
      return o is base or o is cls_ref[0]

    def __hash__(cls):
      return hash(base)

  cls_ref = [None]

  def new(cls, *a, **k):
    if a and issym(a[0]):
      x = a[0]
      if base is int:
        if isinstance(x, SymInt):
          return x
        if isinstance(x, SymBool):
          return core.lift(core.zint(x))
        if isinstance(x, SymFrac):
          q = core.floordiv_t(x.num, x.den)
          import z3
          return core.lift(z3.If(z3.And(q < 0, core.mod_t(x.num, x.den) != 0), q + 1, q))
        import z3
        t = core.zreal(x)
        return core.lift(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
      if base is float:
        return SymReal(core.zreal(x))
      if base is bool:
        if isinstance(x, SymBool):
          return x
        return x != 0
    if base is int and a and isinstance(a[0], strs.SymStr):
      return strs.str_to_int(a[0])
    if base is bool and a and hasattr(a[0], '__vc_bool__'):
      return a[0].__vc_bool__()
    if base is int and a and builtins.isinstance(a[0], str) and has_ctx() and '\u27e8' in a[0]:
      tk = ctx().tokens.get(a[0])
      if tk is None:
        raise Unsupported(f'int() of text holding a symbolic number: {a[0]!r}')
      return core.lift(tk[1])
    return base(*a, **k)

  cls = Meta(name, (), {'__new__': new, '__module__': 'builtins'})
  if base is int:
    cls.from_bytes = int.from_bytes
  cls_ref[0] = cls
  return cls


vc_int = _mk_num(int, (SymInt,), 'int')
vc_float = _mk_num(float, (SymReal, SymFrac), 'float')
vc_bool = _mk_num(bool, (SymBool,), 'bool')


class _StrMeta(type):

  def __instancecheck__(cls, o):
    return builtins.isinstance(o, (str, strs.SymStr))

  def __subclasscheck__(cls, o):
    return builtins.issubclass(o, str)

  def __eq__(cls, o):
    return o is str or builtins.id(o) == builtins.id(cls)

  def __hash__(cls):
    return hash(str)

  def __getattr__(cls, n):
    return getattr(str, n)


class vc_str(metaclass=_StrMeta):

  def __new__(cls, *a, **k):
    if a and isinstance(a[0], strs.SymStr):
      return a[0]
    if a and isinstance(a[0], SymInt) and has_ctx() and ctx().user.get('strings'):
      return strs.int_to_str(a[0])
    return str(*a, **k)


def vc_len(x):
  if hasattr(x, '__vc_len__'):
    return x.__vc_len__()
  return builtins.len(x)


def vc_range(*a):
  if builtins.any(issym(x) for x in a):
    return seqmod.SymRange(*a)
  return builtins.range(*[builtins.int(x) if not isinstance(x, int) else x for x in a])


def vc_min(*a, key=None, default=None):
  return _minmax(a, key, True, default)


def vc_max(*a, key=None, default=None):
  return _minmax(a, key, False, default)


def _minmax(a, key, is_min, default):
  xs = a[0] if builtins.len(a) == 1 else a
  s = seqmod.as_symseq(xs)
  if s is not None and core.concrete(s.length) is None:
    return s.minmax(is_min)
  xs = builtins.list(xs)
  if key is not None or not builtins.any(issym(x) for x in xs):
    kw = {'key': key} if key else {}
    if default is not None:
      kw['default'] = default
    return (builtins.min if is_min else builtins.max)(xs, **kw)
  r = xs[0]
  for x in xs[1:]:
    c = (x < r) if is_min else (x > r)
    if has_ctx() and ctx().user.get('fork_minmax'):
      r = x if c else r
    else:
      r = ite(c, x, r)
  return r


def vc_sum(x, start=0):
  s = seqmod.as_symseq(x)
  if s is not None:
    raise Unsupported('sum over a symbolic sequence')
  r = start
  for e in x:
    r = r + e
  return r


def vc_abs(x):
  return x.__abs__() if issym(x) else builtins.abs(x)


def vc_sorted(x, key=None, reverse=False):
  s = seqmod.as_symseq(x)
  if s is not None:
    return seqmod.sort(s, key, reverse)
  xs = builtins.list(x)
  if builtins.any(issym(e) for e in xs) and key is None:
    # insertion sort with forking comparisons
    out = []
    for e in xs:
      k = 0
      while k < builtins.len(out) and (out[k] <= e if not reverse else out[k] >= e):
        k += 1
      out.insert(k, e)
    return out
  return builtins.sorted(xs, key=key, reverse=reverse)


def vc_filter(f, x):
  s = seqmod.as_symseq(x)
  if s is not None:
    return seqmod.comprehend(s, lambda e: e, f)
  return builtins.filter(f, x)


def vc_map(f, *xs):
  if builtins.len(xs) == 1:
    s = seqmod.as_symseq(xs[0])
    if s is not None:
      return seqmod.comprehend(s, f, None)
  return builtins.map(f, *xs)


def vc_enumerate(x, start=0):
  s = seqmod.as_symseq(x)
  if s is not None:
    return seqmod.SymSeq(s.length, lambda i: (i + start, s.get(i)))
  return builtins.enumerate(x, start)


def vc_reversed(x):
  s = seqmod.as_symseq(x)
  if s is not None:
    return seqmod.SymSeq(s.length, lambda i: s.get(s.length - 1 - i))
  return builtins.reversed(x)


def vc_zip(*xs):
  ss = [seqmod.as_symseq(x) for x in xs]
  if builtins.any(s is not None for s in ss):
    ss = [s if s is not None else seqmod.from_concrete(x) for s, x in builtins.zip(ss, xs)]
    n = ss[0].length
    for s in ss[1:]:
      n = ite(s.length < n, s.length, n)
    return seqmod.SymSeq(n, lambda i: builtins.tuple(s.get(i) for s in ss))
  return builtins.zip(*xs)


def vc_any(x):
  r = False
  s = seqmod.as_symseq(x)
  if s is not None:
    return s.any_()
  for e in x:
    if isinstance(e, SymBool):
      r = core.lift(core.OR(r, e))
      if r is True:
        return True
    elif e:
      return True
  return r


def vc_all(x):
  r = True
  s = seqmod.as_symseq(x)
  if s is not None:
    return s.all_()
  for e in x:
    if isinstance(e, SymBool):
      r = core.lift(core.AND(r, e))
      if r is False:
        return False
    elif not e:
      return False
  return r


class _SeqMeta(type):
  def __instancecheck__(cls, o):
    return builtins.isinstance(o, cls._base) or (
        isinstance(o, seqmod.SymSeq) and cls._base in (builtins.list, builtins.tuple) )

  def __subclasscheck__(cls, o):
    return builtins.issubclass(o, cls._base)

  def __getitem__(cls, k):
    return cls._base[k]

  def __eq__(cls, o):
    return o is cls._base or builtins.id(o) == builtins.id(cls)

  def __hash__(cls):
    return hash(cls._base)


class vc_list(metaclass=_SeqMeta):
  _base = builtins.list

  def __new__(cls, *a):
    if a:
      s = seqmod.as_symseq(a[0])
      if s is not None:
        r = s.copy()
        if hasattr(s, 'pos'):
          r.pos = s.pos
        return r
    return builtins.list(*a)


class vc_tuple(metaclass=_SeqMeta):
  _base = builtins.tuple

  def __new__(cls, *a):
    if a:
      s = seqmod.as_symseq(a[0])
      if s is not None:
        return s.copy()
    return builtins.tuple(*a)


class vc_set(metaclass=_SeqMeta):
  _base = builtins.set

  def __new__(cls, *a):
    if a:
      if hasattr(a[0], 'harr'):
        return a[0].keys()
      s = seqmod.as_symseq(a[0])
      if s is not None:
        return seqmod.SeqSet(s)
    elif has_ctx() and ctx().user.get('symdict'):
      from vc import maps
      return maps.KSet()
    return builtins.set(*a)


class _NullLog:
  """Logging is outside the contracts (no effect on results)."""

  def __getattr__(self, n):
    return lambda *a, **k: None


NULL_LOG = _NullLog()

OVERRIDES = dict(
    len=vc_len, range=vc_range, min=vc_min, max=vc_max, sum=vc_sum, abs=vc_abs,
    sorted=vc_sorted, filter=vc_filter, map=vc_map, enumerate=vc_enumerate,
    reversed=vc_reversed, zip=vc_zip, any=vc_any, all=vc_all, int=vc_int,
    float=vc_float, bool=vc_bool, list=vc_list, tuple=vc_tuple, set=vc_set, str=vc_str)


class StubNS:
  """Falls through to `real`, with some attributes replaced by contracts."""

  def __init__(self, real, **over):
    self.__dict__['_real'] = real
    self.__dict__.update(over)

  def __getattr__(self, n):
    return getattr(self.__dict__['_real'], n)


_COUNT = [0]


def instrument_source(src, filename):
  tree = ast.parse(src, filename)
  tree = Instrument().visit(tree)
  ast.fix_missing_locations(tree)
  return tree


def clone(relpath, overrides=None, keep_numbers=False, types_=()):
  """Executes an instrumented copy of /repo/<relpath>; returns the module."""
  path = os.path.join(env.REPO, relpath)
  with open(path) as f:
    src = f.read()
  tree = instrument_source(src, path)
  modname = relpath[:-3].replace('/', '.')
  importlib.import_module(modname)       # the real one, dependencies loaded
  _COUNT[0] += 1
  name = f'vcclone{_COUNT[0]}.{modname}'
  m = types.ModuleType(name)
  m.__file__ = path
  m.__package__ = modname.rpartition('.')[0]
  sys.modules[name] = m
  rt = Runtime()
  m.__dict__['__vc__'] = rt
  m.__dict__['__vc_locals__'] = builtins.locals
  code = compile(tree, path, 'exec')
  import gin
  saved = {a: getattr(gin, a) for a in ('configurable', 'register', 'external_configurable', 'constant', 'constants_from_enum')}

  def ident(*a, **k):
    if a and callable(a[0]) and not isinstance(a[0], str):
      return a[0]
    return lambda f: f
  try:
    for a in saved:
      setattr(gin, a, ident)
    exec(code, m.__dict__)  # pylint: disable=exec-used
  finally:
    for a, v in saved.items():
      setattr(gin, a, v)
  for k, v in OVERRIDES.items():
    m.__dict__.setdefault(k, v)
  if 'logging' in m.__dict__:
    m.logging = NULL_LOG
  for k, v in (overrides or {}).items():
    setattr(m, k, v)
  m.__vc_rt__ = rt
  return m
