"""Opaque values: any object known only through equality."""

import z3
from vc import core, seq
from vc.core import ctx, lift, zint, NOT


def code_of(x):
  """Integer standing for a value: equal values, equal codes."""
  if isinstance(x, Opq):
    return x.code
  t = ctx().user.setdefault('interned', {})
  try:
    k = (type(x).__name__, x)
    hash(k)
  except TypeError:
    k = ('id', id(x))
    ctx().user.setdefault('keep', []).append(x)
  return t.setdefault(k, -1 - len(t))


class Opq:
  """A value that the code may only compare and pass on."""

  def __init__(self, code):
    self.code = code if isinstance(code, int) else core.SymInt(zint(code))

  def __eq__(self, o):
    return lift(zint(self.code) == zint(code_of(o)))

  def __ne__(self, o):
    return NOT(self == o)

  def __hash__(self):
    raise core.Unsupported('hash of an opaque value')

  def __bool__(self):
    raise core.Unsupported('truth of an opaque value')

  def __len__(self):
    raise core.Unsupported('length of an opaque value')

  def __iter__(self):
    raise core.Unsupported('iteration over an opaque value')

  def __str__(self):
    return 'opaque'

  __repr__ = __str__

  def __vc_ite__(self, c, o):
    return Opq(core.SymInt(z3.If(c, zint(self.code), zint(code_of(o)))))


def fresh(name, inp=True):
  return Opq(ctx().int(name, inp=inp))


def fresh_seq(name, width=None, kind=Opq, lo=None):
  """Symbolic list of opaque values, or of tuples of `width` of them.

  Codes of concrete values are negative and those of unknown values are any
  integer, so an unknown value may equal a concrete one.
  """
  c = ctx()
  n = c.int(f'{name}.len', 0)
  fs = [c.func(f'{name}.{k}', z3.IntSort(), z3.IntSort()) for k in range(width or 1)]
  mk = lambda f, i: kind(core.SymInt(f(zint(i))))
  if width is None:
    return seq.SymSeq(n, lambda i: mk(fs[0], i))
  return seq.SymSeq(n, lambda i: tuple(mk(f, i) for f in fs))


def same(a, b):
  """Equality of values built from opaque ones, as a formula."""
  if type(a) is tuple and type(b) is tuple:
    if len(a) != len(b):
      return False
    return core.AND(*[same(x, y) for x, y in zip(a, b)])
  if isinstance(a, Opq):
    return a == b
  if isinstance(b, Opq):
    return b == a
  return a == b
