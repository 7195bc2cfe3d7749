"""Symbolic sequences (unbounded length) and sets for the path-wise generator."""

import builtins
import z3
from vc import core
from vc.core import SymInt, SymBool, SymReal, Unsupported, ctx, issym, ite, lift, term, zint, AND, IMP, forall, exists


class SymSeq:
  """A list of unknown length: `length` (int or SymInt) and `get(i)`."""

  def __init__(self, length, get):
    self.length = length
    self.get = get

  def copy(self):
    r = SymSeq(self.length, self.get)
    for k in ('src', 'G', 'H'):
      if k in self.__dict__:
        r.__dict__[k] = self.__dict__[k]
    return r

  def _mutated(self):
    for k in ('src', 'G', 'H'):
      self.__dict__.pop(k, None)

  def __vc_len__(self):
    return self.length

  def __len__(self):
    v = core.concrete(self.length)
    if v is None:
      raise Unsupported('len() of a symbolic sequence outside instrumented code')
    return v

  def __bool__(self):
    return bool(self.length > 0)

  def __vc_bool__(self):
    return self.length > 0

  def _norm(self, i):
    """Python index -> position, raising IndexError when out of range."""
    n = self.length
    if isinstance(i, int) and i < 0:
      i = n + i
    elif isinstance(i, SymInt):
      i = ite(i < 0, n + i, i)
    inr = lift(AND(i >= 0, i < n))
    if not inr:
      raise IndexError('list index out of range')
    return i

  def __getitem__(self, i):
    if isinstance(i, slice):
      if i.step not in (None, 1):
        raise Unsupported('strided slice')
      n = self.length

      def clip(x, default):
        if x is None:
          return default
        x = ite(x < 0, n + x, x) if issym(x) or issym(n) else (n + x if x < 0 else x)
        x = ite(x < 0, 0, x)
        return ite(x > n, n, x)
      a, b = clip(i.start, 0), clip(i.stop, n)
      m = ite(b > a, b - a, 0)
      g = self.get
      return SymSeq(m, lambda k: g(k + a))
    return self.get(self._norm(i))

  def __add__(self, o):
    s = as_symseq(o)
    o = from_concrete(o) if s is None else s
    n, g, h = self.length, self.get, o.get
    if isinstance(o.length, int) and isinstance(self.length, int):
      pass
    return SymSeq(n + o.length, lambda k: ite(k < n, g(k), h(k - n)))

  def __radd__(self, o):
    return from_concrete(o) + self

  def append(self, v):
    self._mutated()
    n, g = self.length, self.get
    self.length = n + 1
    self.get = lambda k: ite(k == n, v, g(k))

  def pop(self, i=-1):
    if not (isinstance(i, int) and i in (-1, 0)):
      raise Unsupported('pop(i)')
    if not self.length > 0:
      raise IndexError('pop from empty list')
    self._mutated()
    if i == 0:
      g = self.get
      self.get = lambda k: g(k + 1)
      self.length = self.length - 1
      return g(0)
    v = self.get(self.length - 1)
    self.length = self.length - 1
    return v

  def extend(self, o):
    self._mutated()
    s = self + o
    self.length, self.get = s.length, s.get

  def __vc_contains__(self, x):
    return lift(exists(1, lambda j: AND(j >= 0, j < self.length, self.get(j) == x)))

  def __contains__(self, x):
    return bool(self.__vc_contains__(x))

  def index(self, x):
    raise Unsupported('index()')

  def __iter__(self):
    k = 0
    while self.length > k:
      yield self.get(k)
      k += 1
      if k > 40:
        raise Unsupported('iteration over a symbolic sequence outside instrumented code')

  def any_(self):
    return lift(exists(1, lambda j: AND(j >= 0, j < self.length, pure(self.get, j))))

  def all_(self):
    return lift(forall(1, lambda j: IMP(AND(j >= 0, j < self.length), pure(self.get, j))))

  def minmax(self, is_min):
    c = ctx()
    if not self.length > 0:
      raise ValueError('min()/max() of an empty sequence')
    m = c.int('ext', inp=False)
    w = c.int('extw', 0, inp=False)
    c.assume(AND(w < self.length, self.get(w) == m))
    c.assume(forall(1, lambda j: IMP(AND(j >= 0, j < self.length),
                                     (m <= self.get(j)) if is_min else (m >= self.get(j)))))
    return m

  def __hash__(self):
    raise Unsupported('hash of a symbolic sequence')

  def __eq__(self, o):
    if self is o:
      return True
    s = as_symseq(o)
    o = from_concrete(o) if s is None else s
    return lift(AND(self.length == o.length,
                    forall(1, lambda j: IMP(AND(j >= 0, j < self.length), self.get(j) == o.get(j)))))


class SymRange(SymSeq):

  def __init__(self, *a):
    if len(a) == 1:
      lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
      lo, hi, st = a[0], a[1], 1
    else:
      lo, hi, st = a
    if not isinstance(st, int) or st == 0:
      raise Unsupported('symbolic range step')
    if st > 0:
      n = ite(hi > lo, (hi - lo + (st - 1)) // st, 0)
    else:
      n = ite(lo > hi, (lo - hi + (-st - 1)) // (-st), 0)
    super().__init__(n, lambda k: lo + k * st)
    self.lo, self.hi, self.st = lo, hi, st

  def __vc_contains__(self, x):
    if self.st == 1:
      return lift(AND(x >= self.lo, x < self.hi))
    return super().__vc_contains__(x)


class SeqSet:
  """set(symbolic sequence): only membership and emptiness are supported."""

  def __init__(self, s):
    self.s = s

  def __vc_contains__(self, x):
    return self.s.__vc_contains__(x)


class SymSet:
  """Ghost set of integers, as a characteristic z3 array."""

  def __init__(self, arr=None, name='set'):
    self.arr = arr if arr is not None else z3.K(z3.IntSort(), z3.BoolVal(False))

  @staticmethod
  def fresh(name):
    return SymSet(z3.Const(ctx().fresh_name(name), z3.ArraySort(z3.IntSort(), z3.BoolSort())))

  def add(self, x):
    self.arr = z3.Store(self.arr, zint(x), z3.BoolVal(True))

  def has(self, x):
    return lift(z3.Select(self.arr, zint(x)))

  def __vc_contains__(self, x):
    return self.has(x)


def as_symseq(x):
  if isinstance(x, SymSeq):
    return x
  if hasattr(x, '__vc_seq__'):
    return x.__vc_seq__()
  return None


def from_concrete(xs):
  xs = list(xs)

  def get(i):
    if isinstance(i, int):
      return xs[i]
    if not xs:
      raise Unsupported('element of an empty sequence')
    r = xs[-1]
    for k in builtins.range(len(xs) - 2, -1, -1):
      r = ite(i == k, xs[k], r)
    return r
  return SymSeq(len(xs), get)


def fresh_seq(name, sort='int', lo=None):
  """Symbolic list of integers of symbolic length."""
  c = ctx()
  n = c.int(f'{name}.len', 0)
  f = c.func(name, z3.IntSort(), {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort])
  c.user.setdefault('seqs', {})[name] = (n, f)
  wrap = {'int': SymInt, 'real': SymReal, 'bool': SymBool}[sort]
  s = SymSeq(n, lambda i: wrap(f(zint(i))))
  s.func = f
  return s


def pure(fn, *args, given=None):
  """Evaluates fn on symbolic arguments merging its internal forks."""
  c = ctx()
  # nested exploration: collect (condition, value) over the branches of fn
  results = []
  work = [[]]
  saved = (c.prefix, c.pos, c.taken, c.alternatives, list(c.pc), c.solver, c.qf, c.nq)
  n = 0
  try:
    while work:
      n += 1
      if n > 64:
        raise Unsupported('too many branches in a pure expression')
      pre = work.pop()
      c.prefix, c.pos, c.taken, c.alternatives = list(pre), 0, [], []
      c.pc = []
      c.solver = z3.Solver()
      c.solver.set('timeout', 1500)
      c.qf = z3.Solver()
      c.qf.set('timeout', 3000)
      c.nq = 0
      for f in saved[4]:
        c._push(f)
      base = len(saved[4])
      if given is not None:
        c._push(term(given))
        base = len(c.pc)
      try:
        v = fn(*args)
        if c.dead:
          raise core.PathEnd()
        results.append((c.pc[base:], v))
      except core.PathEnd:
        c.dead = False
      work.extend(c.alternatives)
  finally:
    c.prefix, c.pos, c.taken, c.alternatives, c.pc, c.solver, c.qf, c.nq = saved
  if not results:
    raise core.PathEnd()
  r = results[-1][1]
  for cond, v in reversed(results[:-1]):
    r = ite(lift(AND(*cond)) if cond else True, v, r)
  return r


def truthy(x):
  if isinstance(x, (bool, SymBool)):
    return x
  if isinstance(x, SymInt):
    return x != 0
  return bool(x)


def comprehend(s, elt, cond):
  """[elt(x) for x in s if cond(x)] for a symbolic sequence s."""
  if cond is None:
    g = s.get
    n = s.length

    def get(i):
      gv = AND(i >= 0, i < n)
      return pure(lambda: elt(g(i)), given=None if isinstance(gv, bool) else gv)
    return SymSeq(s.length, get)
  c = ctx()
  def p(i):
    gv = AND(i >= 0, i < s.length)
    return truthy(pure(lambda: truthy(cond(s.get(i))), given=None if isinstance(gv, bool) else gv))
  m = c.int('flt.len', 0, inp=False)
  g = c.func('flt.g', z3.IntSort(), z3.IntSort())   # output position -> source
  h = c.func('flt.h', z3.IntSort(), z3.IntSort())   # source -> output position
  n = s.length
  G = lambda i: SymInt(g(zint(i)))
  H = lambda i: SymInt(h(zint(i)))
  c.assume(m <= n)
  c.assume(forall(1, lambda i: IMP(AND(i >= 0, i < m),
                                   AND(G(i) >= 0, G(i) < n, p(G(i)), H(G(i)) == i)),
                  patterns=[lambda i: g(i)]))
  c.assume(forall(2, lambda i, j: IMP(AND(i >= 0, i < j, j < m), G(i) < G(j)),
                  patterns=[lambda i, j: z3.MultiPattern(g(i), g(j))]))
  c.assume(forall(1, lambda j: IMP(AND(j >= 0, j < n, p(j)),
                                   AND(H(j) >= 0, H(j) < m, G(H(j)) == j)),
                  patterns=[lambda j: h(j)]))
  out = SymSeq(m, lambda i: elt(s.get(G(i))))
  out.src, out.G, out.H = s, G, H
  return out


def sort(s, key, reverse):
  """sorted(s, key, reverse): a stable, ordered permutation of s."""
  c = ctx()
  n = s.length
  g = c.func('srt.g', z3.IntSort(), z3.IntSort())
  h = c.func('srt.h', z3.IntSort(), z3.IntSort())
  G = lambda i: SymInt(g(zint(i)))
  H = lambda i: SymInt(h(zint(i)))
  k = (lambda i: pure(lambda: key(s.get(i)))) if key else (lambda i: s.get(i))
  c.assume(forall(1, lambda i: IMP(AND(i >= 0, i < n), AND(G(i) >= 0, G(i) < n, H(G(i)) == i)),
                  patterns=[lambda i: g(i)]))
  c.assume(forall(1, lambda j: IMP(AND(j >= 0, j < n), AND(H(j) >= 0, H(j) < n, G(H(j)) == j)),
                  patterns=[lambda j: h(j)]))

  def ordered(i, j):
    a, b = k(G(i)), k(G(j))
    le = (a <= b) if not reverse else (a >= b)
    return AND(le, IMP(a == b, G(i) < G(j)))
  c.assume(forall(2, lambda i, j: IMP(AND(i >= 0, i < j, j < n), ordered(i, j)),
                  patterns=[lambda i, j: z3.MultiPattern(g(i), g(j))]))
  out = SymSeq(n, lambda i: s.get(G(i)))
  out.src, out.G, out.H = s, G, H
  return out
