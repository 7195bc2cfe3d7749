"""Symbolic dictionaries and sets of unknown size.

Keys and values are opaque integers (an abstract sort): code that only looks
keys up, moves values and iterates is verified for every key and value type.
"""

import builtins
import z3
from vc import core, seq
from vc.core import AND, IFF, IMP, NOT, OR, SymBool, SymInt, Unsupported, ctx, forall, ite, lift, zint


def enumeration(has, name):
  """The keys in some order: a sequence and the position of each key."""
  c = ctx()
  n = c.int(name + '.n', 0, inp=False)
  e = c.func(name + '.key', z3.IntSort(), z3.IntSort())
  p = c.func(name + '.pos', z3.IntSort(), z3.IntSort())
  E = lambda i: lift(e(zint(i)))
  P = lambda k: lift(p(zint(k)))
  c.assume(forall(1, lambda i: IMP(AND(i >= 0, i < n), AND(has(E(i)), P(E(i)) == i)), patterns=[lambda i: e(i)]))
  c.assume(forall(1, lambda k: IMP(has(k), AND(P(k) >= 0, P(k) < n, E(P(k)) == k)), patterns=[lambda k: p(k)] ))
  s = seq.SymSeq(n, E)
  s.pos = P
  return s


def from_pairs(s, pair, cond=None):
  """{k: v for ... in s if cond}: the keys have to be distinct."""
  c = ctx()
  r = SymMap.fresh('dictcomp')
  idx = c.func('dictcomp.index', z3.IntSort(), z3.IntSort())
  at = lambda i: pair(s.get(i))
  ok = lambda i: AND(i >= 0, i < s.length, cond(s.get(i)) if cond is not None else True)
  c.prove('the keys of the dictionary are distinct', forall(2, lambda i, j: IMP(
      AND(ok(i), ok(j), i != j), lift(zint(at(i)[0]) != zint(at(j)[0])))), kind='pre')
  c.assume(forall(1, lambda i: IMP(ok(i), AND(r.has(at(i)[0]), lift(zint(r.val(at(i)[0])) == zint(at(i)[1]))))))
  I = lambda k: lift(idx(zint(k)))
  c.assume(forall(1, lambda k: IMP(r.has(k), AND(ok(I(k)), lift(zint(at(I(k))[0]) == zint(k)))), patterns=[lambda k: idx(k)]))
  return r


class KSet:
  """A set of keys."""

  def __init__(self, arr=None):
    self.arr = arr if arr is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
    self._enum = None

  @staticmethod
  def fresh(name):
    return KSet(z3.Const(ctx().fresh_name(name), z3.ArraySort(z3.IntSort(), z3.BoolSort())))

  def havoc(self, name):
    self.arr = KSet.fresh(name).arr
    self._enum = None

  def has(self, k):
    return lift(z3.Select(self.arr, zint(k)))

  def __vc_contains__(self, k):
    return self.has(k)

  def __contains__(self, k):
    return bool(self.has(k))

  def add(self, k):
    self.arr = z3.Store(self.arr, zint(k), z3.BoolVal(True))
    self._enum = None

  def discard(self, k):
    self.arr = z3.Store(self.arr, zint(k), z3.BoolVal(False))
    self._enum = None

  def update(self, o):
    r = self | o
    self.arr, self._enum = r.arr, None

  def _op(self, o, f):
    if not isinstance(o, (KSet, SymMap)):
      raise Unsupported('set operation with a concrete set')
    k = z3.Int('k!set')
    return KSet(z3.Lambda([k], f(z3.Select(self.arr, k), z3.Select(o.arr if isinstance(o, KSet) else o.harr, k))))

  def __sub__(self, o):
    return self._op(o, lambda a, b: z3.And(a, z3.Not(b)))

  def __or__(self, o):
    return self._op(o, z3.Or)

  def __and__(self, o):
    return self._op(o, z3.And)

  difference, union, intersection = __sub__, __or__, __and__

  def __vc_seq__(self):
    if self._enum is None:
      arr = self.arr
      self._enum = enumeration(lambda k: lift(z3.Select(arr, zint(k))), 'set')
    return self._enum

  def __vc_len__(self):
    return self.__vc_seq__().length

  def __bool__(self):
    return bool(self.__vc_seq__().length > 0)

  __vc_bool__ = lambda self: self.__vc_seq__().length > 0


class SymMap:
  """A dictionary from keys to values."""

  def __init__(self, harr=None, varr=None, name='map'):
    c = ctx()
    self.harr = harr if harr is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
    self.varr = varr if varr is not None else z3.Const(c.fresh_name(name + '.val0'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    self._enum = None

  @staticmethod
  def fresh(name):
    c = ctx()
    return SymMap(z3.Const(c.fresh_name(name + '.has'), z3.ArraySort(z3.IntSort(), z3.BoolSort())),
                  z3.Const(c.fresh_name(name + '.val'), z3.ArraySort(z3.IntSort(), z3.IntSort())))

  def havoc(self, name):
    f = SymMap.fresh(name)
    self.harr, self.varr, self._enum = f.harr, f.varr, None

  def has(self, k):
    return lift(z3.Select(self.harr, zint(k)))

  def val(self, k):
    return lift(z3.Select(self.varr, zint(k)))

  def __vc_contains__(self, k):
    return self.has(k)

  def __contains__(self, k):
    return bool(self.has(k))

  def __getitem__(self, k):
    if not self.has(k):
      raise KeyError(k)
    return self.val(k)

  def __setitem__(self, k, v):
    self.harr = z3.Store(self.harr, zint(k), z3.BoolVal(True))
    self.varr = z3.Store(self.varr, zint(k), zint(v))
    self._enum = None

  def __delitem__(self, k):
    if not self.has(k):
      raise KeyError(k)
    self.pop(k, None)

  def pop(self, k, *d):
    if not d and not self.has(k):
      raise KeyError(k)
    v = self.val(k) if not d else None
    if d:
      v = Popped()
    self.harr = z3.Store(self.harr, zint(k), z3.BoolVal(False))
    self._enum = None
    return v

  def get(self, k, d=None):
    if bool(self.has(k)):
      return self.val(k)
    return d

  def copy(self):
    return SymMap(self.harr, self.varr)

  def update(self, o):
    if not isinstance(o, SymMap):
      raise Unsupported('update() with a concrete dictionary')
    k = z3.Int('k!upd')
    h, v, oh, ov = self.harr, self.varr, o.harr, o.varr
    self.harr = z3.Lambda([k], z3.Or(z3.Select(oh, k), z3.Select(h, k)))
    self.varr = z3.Lambda([k], z3.If(z3.Select(oh, k), z3.Select(ov, k), z3.Select(v, k)))
    self._enum = None

  def setdefault(self, k, v):
    if not self.has(k):
      self[k] = v
    return self.val(k)

  def __vc_seq__(self):
    if self._enum is None:
      arr = self.harr
      self._enum = enumeration(lambda k: lift(z3.Select(arr, zint(k))), 'dict')
    return self._enum

  def keys(self):
    return KSet(self.harr)

  def items(self):
    s, v = self.__vc_seq__(), self.varr
    r = seq.SymSeq(s.length, lambda i: (s.get(i), lift(z3.Select(v, zint(s.get(i))))))
    r.pos = s.pos
    r.keyseq = s
    return r

  def values(self):
    s, v = self.__vc_seq__(), self.varr
    return seq.SymSeq(s.length, lambda i: lift(z3.Select(v, zint(s.get(i)))))

  def __vc_len__(self):
    return self.__vc_seq__().length

  def __bool__(self):
    return bool(self.__vc_seq__().length > 0)

  __vc_bool__ = lambda self: self.__vc_seq__().length > 0

  def __iter__(self):
    raise Unsupported('iteration over a symbolic dictionary outside instrumented code')


class Popped:
  """The value popped with a default: not used by the code under contract."""

  def __getattr__(self, n):
    raise Unsupported('value popped from a symbolic dictionary')
