"""Symbolic strings (z3 sequence theory), regular expressions, posix paths."""

import os
import re

try:
  from re import _parser as sre_parse, _constants as sre
except ImportError:
  import sre_parse
  import sre_constants as sre

from vc import core
from vc.core import Unsupported, ctx, lift, SymInt, SymBool
import z3

S = z3.StringVal
DIGITS = z3.Plus(z3.Range('0', '9'))
TOINT = z3.Function('str.toint', z3.StringSort(), z3.IntSort())
TOSTR = z3.Function('int.tostr', z3.IntSort(), z3.StringSort())


def st(x):
  """z3 string term of a str or SymStr."""
  if isinstance(x, SymStr):
    return x.t
  if isinstance(x, str):
    return S(x)
  if isinstance(x, SymInt):
    return int_to_str(x).t
  if hasattr(x, '__fspath__'):
    return st(x.__fspath__())
  raise Unsupported(f'not a string: {type(x).__name__}')


def is_sym(x):
  return isinstance(x, SymStr)


class Ambiguous(Exception):
  """The structure alone does not decide the question."""


class Atom:
  """An unknown piece of text: z3 term, alphabet, length bounds.

  `chars`/`neg`: the characters allowed (or, with neg, excluded);
  `num`: the number a digit string denotes."""

  def __init__(self, t, chars='', neg=True, lo=0, hi=None, num=None, fact=None):
    self.t, self.chars, self.neg, self.lo, self.hi, self.num = t, frozenset(chars), neg, lo, hi, num
    self.fact = fact        # solver facts, added when the solver is needed

  def has(self, ch):
    return (ch not in self.chars) if self.neg else (ch in self.chars)

  def rel(self, cls):
    """Alphabet vs a character class: 'in', 'out' or None."""
    if not self.neg:
      r = [cls(ch) for ch in self.chars]
      return 'in' if all(r) else ('out' if not any(r) else None)
    r = [cls(ch) for ch in PROBE if ch not in self.chars]
    # a class is decided by its own characters; PROBE holds them all plus
    # one character outside every class
    return 'in' if all(r) else ('out' if not any(r) else None)


PROBE = [chr(k) for k in range(0, 256)] + ['\u0663', '\u4e00']


def touch(x):
  """Adds the solver facts of the atoms of x."""
  if isinstance(x, SymStr):
    c = ctx()
    done = c.user.setdefault('touched', set())
    for a in x.segs:
      if isinstance(a, Atom) and a.fact is not None and a.t.sexpr() not in done:
        done.add(a.t.sexpr())
        a.fact(c)


def int_to_str(n):
  """Decimal text of an integer (assumed >= 0 where it is used)."""
  if isinstance(n, int):
    return str(n)
  t = TOSTR(n.t)
  key = t.sexpr()

  def fact(c):
    ints = c.user.setdefault('int_strs', {})
    ints[key] = t
    c.assume(z3.Implies(n.t >= 0, z3.And(z3.InRe(t, DIGITS), TOINT(t) == n.t)))
    # canonical decimal text: no leading zero
    c.assume(z3.Implies(z3.And(n.t >= 0, z3.Length(t) > 1), z3.Not(z3.PrefixOf(S('0'), t))))
    for k2, t2 in ints.items():
      if k2 != key:
        c.assume((t == t2) == (n.t == t2.arg(0)))
  return SymStr(t, [Atom(t, '0123456789', False, 1, None, n, fact)])


def str_to_int(s):
  """int(text): ValueError unless it is decimal digits (signs, spaces and
  underscores, which int() also accepts, are outside the model)."""
  if len(s.segs) == 1 and isinstance(s.segs[0], Atom) and s.segs[0].num is not None:
    return s.segs[0].num
  for g in s.segs:
    # some character no integer text can hold
    if isinstance(g, str) and any(not (ch.isdigit() or ch in '+-_ \t\n\r\f\v') for ch in g):
      raise ValueError('invalid literal for int()')
    if isinstance(g, Atom) and g.lo >= 1 and g.rel(lambda ch: ch.isdigit() or ch in '+-_ \t\n\r\f\v') == 'out':
      raise ValueError('invalid literal for int()')
  if len(s.segs) == 1 and isinstance(s.segs[0], Atom) and not s.segs[0].neg and s.segs[0].chars <= set('0123456789') and s.segs[0].lo >= 1:
    a = s.segs[0]
    n = TOINT(a.t)
    ctx().assume(n >= 0)
    return core.lift(n)
  touch(s)
  if not lift(z3.InRe(s.t, DIGITS)):
    raise ValueError('invalid literal for int()')
  c = ctx()
  n = TOINT(s.t)
  c.assume(n >= 0)
  for t2 in c.user.get('int_strs', {}).values():
    c.assume(z3.Implies(s.t == t2, n == t2.arg(0)))
  return core.lift(n)


def segs(x):
  if isinstance(x, SymStr):
    return list(x.segs)
  return [x] if x else []


def build(parts):
  """The text made of the given pieces."""
  out = []
  for p in parts:
    if isinstance(p, str):
      if not p:
        continue
      if out and isinstance(out[-1], str):
        out[-1] += p
        continue
    out.append(p)
  if not out:
    return ''
  if len(out) == 1 and isinstance(out[0], str):
    return out[0]
  ts = [S(p) if isinstance(p, str) else p.t for p in out]
  return SymStr(ts[0] if len(ts) == 1 else z3.Concat(*ts), out)


def atom(c, name, within=None, without='', lo=0, hi=None):
  """Fresh unknown text over an alphabet; no solver facts until needed."""
  t = z3.String(c.fresh_name(name))
  c.inputs[str(t)] = t
  neg = within is None

  def fact(c):
    chars = without if neg else within
    cl = z3.Union(*[z3.Re(ch) for ch in chars]) if len(chars) > 1 else (z3.Re(chars) if chars else None)
    if neg:
      cl = _any() if cl is None else z3.Intersect(_any(), z3.Complement(cl))
    c.assume(z3.InRe(t, z3.Star(cl)))
    if lo:
      c.assume(z3.Length(t) >= lo)
    if hi is not None:
      c.assume(z3.Length(t) <= hi)
  return SymStr(t, [Atom(t, without if neg else within, neg, lo, hi, None, fact)])


def nonempty_atoms(x):
  """Pieces of x with every atom known to be non-empty (forks on emptiness)."""
  out = []
  for g in segs(x):
    if isinstance(g, Atom) and g.lo == 0:
      key = g.t.sexpr()
      c = ctx()
      known = c.user.setdefault('nonempty', {})
      if key not in known:
        touch(x)
        known[key] = bool(lift(z3.Length(g.t) > 0))
      if not known[key]:
        continue
      g2 = Atom(g.t, g.chars, g.neg, 1, g.hi, g.num, g.fact)
      out.append(g2)
    else:
      out.append(g)
  return segs(build(out))


def seg_prefix(p, s):
  """Is literal-or-symbolic p a prefix of s?  True, False; or Ambiguous."""
  P, Q = segs(p), segs(s)
  while P:
    if not Q:
      if all(isinstance(g, Atom) and g.lo == 0 for g in P):
        raise Ambiguous()
      return False
    x, y = P[0], Q[0]
    if isinstance(x, str) and isinstance(y, str):
      n = min(len(x), len(y))
      if x[:n] != y[:n]:
        return False
      P = ([x[n:]] if len(x) > n else []) + P[1:]
      Q = ([y[n:]] if len(y) > n else []) + Q[1:]
    elif isinstance(x, Atom) and isinstance(y, Atom):
      if not x.t.eq(y.t):
        raise Ambiguous()
      P, Q = P[1:], Q[1:]
    elif isinstance(x, str):
      if y.lo >= 1 and not y.has(x[0]):
        return False
      raise Ambiguous()
    else:
      if x.lo >= 1 and not x.has(y[0]):
        return False
      raise Ambiguous()
  return True


def seg_eq(a, b):
  """True, False, a condition on numbers, or Ambiguous."""
  P, Q = segs(a), segs(b)
  conds = []
  while P or Q:
    if not P or not Q:
      rest = P or Q
      if any(isinstance(g, str) or g.lo >= 1 for g in rest):
        return False
      raise Ambiguous()
    x, y = P[0], Q[0]
    if isinstance(x, str) and isinstance(y, str):
      n = min(len(x), len(y))
      if x[:n] != y[:n]:
        return False
      P = ([x[n:]] if len(x) > n else []) + P[1:]
      Q = ([y[n:]] if len(y) > n else []) + Q[1:]
      continue
    if isinstance(x, Atom) and isinstance(y, Atom):
      if not x.t.eq(y.t):
        # two decimal numbers, each followed by something that is no digit
        nd = lambda R: len(R) == 1 or (isinstance(R[1], str) and not R[1][0].isdigit()) or (isinstance(R[1], Atom) and R[1].lo >= 1 and R[1].rel(str.isdigit) == 'out')
        if x.num is None or y.num is None or not nd(P) or not nd(Q):
          raise Ambiguous()
        conds.append(x.num == y.num)
      P, Q = P[1:], Q[1:]
      continue
    l, at = (x, y) if isinstance(x, str) else (y, x)
    if at.lo >= 1 and not at.has(l[0]):
      return False
    if at.num is not None:
      k = 0
      while k < len(l) and l[k] in '0123456789':
        k += 1
      rest = (P if at is x else Q)[1:]
      ok = not rest or (isinstance(rest[0], str) and not rest[0][0].isdigit())
      if ok and (k < len(l) or len(Q if at is x else P) == 1) and (l[:k] == '0' or l[0] != '0'):
        conds.append(at.num == int(l[:k]))
        if at is x:
          P, Q = P[1:], ([l[k:]] if l[k:] else []) + Q[1:]
        else:
          P, Q = ([l[k:]] if l[k:] else []) + P[1:], Q[1:]
        continue
    raise Ambiguous()
  if not conds:
    return True
  r = core.AND(*conds) if len(conds) > 1 else conds[0]
  return r if isinstance(r, bool) else lift(r)


# ---- backtracking matcher over pieces (the order of Python's re) ----------
class _Pos:
  """Position: piece index, offset in a literal, or strictly inside an atom."""
  __slots__ = ('i', 'o', 'mid')

  def __init__(self, i, o=0, mid=False):
    self.i, self.o, self.mid = i, o, mid


def _norm(sg, p):
  if not p.mid and p.i < len(sg) and isinstance(sg[p.i], str) and p.o >= len(sg[p.i]):
    return _Pos(p.i + 1)
  return p


def _cls_fn(op, av, flags):
  """Character predicate of a one-character pattern node, or None."""
  dotall = bool(flags & re.DOTALL)
  if op is sre.LITERAL:
    return lambda ch: ord(ch) == av
  if op is sre.NOT_LITERAL:
    return lambda ch: ord(ch) != av
  if op is sre.ANY:
    return (lambda ch: True) if dotall else (lambda ch: ch != '\n')
  if op is sre.IN:
    rx = {}

    def f(ch):
      neg, hit = False, False
      for o, a in av:
        if o is sre.NEGATE:
          neg = True
        elif o is sre.LITERAL:
          hit |= ord(ch) == a
        elif o is sre.RANGE:
          hit |= a[0] <= ord(ch) <= a[1]
        elif o is sre.CATEGORY:
          pat = {sre.CATEGORY_DIGIT: r'\d', sre.CATEGORY_WORD: r'\w', sre.CATEGORY_SPACE: r'\s',
                 sre.CATEGORY_NOT_DIGIT: r'\D', sre.CATEGORY_NOT_WORD: r'\W', sre.CATEGORY_NOT_SPACE: r'\S'}[a]
          hit |= re.fullmatch(pat, ch) is not None
        else:
          raise Unsupported(f'regex class {o}')
      return hit != neg
    return f
  return None


def _m(sg, nodes, k, p, gs, flags, cont):
  """Matches nodes[k:] from p; yields group maps of complete matches."""
  p = _norm(sg, p)
  if k == len(nodes):
    yield from cont(p, gs)
    return
  op, av = nodes[k]
  nxt = lambda q, g: _m(sg, nodes, k + 1, q, g, flags, cont)
  end = p.i >= len(sg)
  if op is sre.AT:
    if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
      if p.i == 0 and p.o == 0 and not p.mid:
        yield from nxt(p, gs)
      return
    if av in (sre.AT_END, sre.AT_END_STRING):
      if end:
        yield from nxt(p, gs)
      elif av is sre.AT_END:
        g = sg[p.i]
        if isinstance(g, str):
          if p.i == len(sg) - 1 and g[p.o:] == '\n':
            yield from nxt(p, gs)
          elif p.i < len(sg) - 1 and g[p.o:] == '\n':
            return
        elif g.has('\n'):
          raise Ambiguous()
      return
    raise Unsupported(f'regex anchor {av}')
  cls = _cls_fn(op, av, flags)
  if cls is not None:
    if end:
      return
    g = sg[p.i]
    if isinstance(g, str):
      if cls(g[p.o]):
        yield from nxt(_Pos(p.i, p.o + 1), gs)
      return
    r = g.rel(cls)
    if r == 'out':
      return
    if r == 'in' and g.hi == 1 and not p.mid:
      yield from nxt(_Pos(p.i + 1), gs)
      return
    raise Ambiguous()
  if op is sre.SUBPATTERN:
    gid, sub = av[0], list(av[-1])
    if gid is None:
      yield from _m(sg, sub, 0, p, gs, flags, nxt)
    else:
      yield from _m(sg, sub, 0, p, gs, flags, lambda q, g: nxt(q, {**g, gid: (p, q)}))
    return
  if op is sre.BRANCH:
    for b in av[1]:
      yield from _m(sg, list(b), 0, p, gs, flags, nxt)
    return
  if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
    lo, hi, sub = av
    sub = list(sub)
    lazy = op is sre.MIN_REPEAT
    inner = sub
    while len(inner) == 1 and inner[0][0] is sre.SUBPATTERN and inner[0][1][0] is None:
      inner = list(inner[0][1][-1])
    c1 = _cls_fn(*inner[0], flags) if len(inner) == 1 else None
    if c1 is None:
      # general repetition: unfold
      def rep(q, g, n):
        def more():
          yield from _m(sg, sub, 0, q, g, flags, lambda q2, g2: rep(q2, g2, n + 1) if (q2.i, q2.o, q2.mid) != (q.i, q.o, q.mid) else iter(()))
        if n > 60:
          raise Ambiguous()
        can = hi is sre.MAXREPEAT or n < hi
        if lazy:
          if n >= lo:
            yield from nxt(q, g)
          if can:
            yield from more()
        else:
          if can:
            yield from more()
          if n >= lo:
            yield from nxt(q, g)
      yield from rep(p, gs, 0)
      return
    # stops: positions after consuming some characters, with a minimal count
    stops, q, n = [], p, 0
    if lo == 0:
      stops.append(p)
    unbounded = hi is sre.MAXREPEAT
    amb = None
    while q.i < len(sg) and (unbounded or n < hi):
      g = sg[q.i]
      if isinstance(g, str):
        if not c1(g[q.o]):
          break
        q, n = _norm(sg, _Pos(q.i, q.o + 1)), n + 1
        if n >= lo:
          stops.append(q)
        continue
      r = g.rel(c1)
      if r == 'out':
        break
      if r is None or not unbounded or lo > n + 1:
        amb = True
        break
      if g.hi != 1:
        stops.append(_Pos(q.i, 0, True))
      q, n = _Pos(q.i + 1), n + 1
      stops.append(q)
    if amb and not lazy:
      raise Ambiguous()
    for s_ in (stops if lazy else reversed(stops)):
      yield from nxt(s_, {**gs, 'mid': True} if s_.mid else gs)
    if amb:
      raise Ambiguous()
    return
  raise Unsupported(f'regex construct {op}')


def _cut(sg, a, b):
  a, b = _norm(sg, a), _norm(sg, b)
  if a.mid or b.mid:
    raise Ambiguous()
  out = []
  for i in range(a.i, min(b.i + 1, len(sg))):
    g = sg[i]
    if isinstance(g, str):
      lo = a.o if i == a.i else 0
      hi = b.o if i == b.i else len(g)
      out.append(g[lo:hi])
    elif i < b.i:
      out.append(g)
  return build(out)


def may_match(nodes, flags, s, mode):
  """False only if no text that s can denote matches (sets of positions;
  an atom is any text over its alphabet, lengths ignored)."""
  toks = []
  for g in segs(s):
    toks += list(g) if isinstance(g, str) else [g]
  n = len(toks)

  def close(ps):
    out = set()
    for i in ps:
      out.add(i)
      while i < n and not isinstance(toks[i], str):
        i += 1
        out.add(i)
    return out

  def step(cls, ps):
    out = set()
    for i in close(ps):
      if i < n:
        t = toks[i]
        if isinstance(t, str):
          if cls(t):
            out.add(i + 1)
        elif t.rel(cls) != 'out':
          out.add(i)
    return out

  def run(ns, ps):
    for op, av in ns:
      if not ps:
        return ps
      if op is sre.AT:
        if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
          ps = {i for i in ps if all(not isinstance(t, str) for t in toks[:i])}
        elif av is sre.AT_END_STRING:
          ps = {i for i in close(ps) if i == n}
        continue              # other anchors: over-approximated by "yes"
      cls = _cls_fn(op, av, flags)
      if cls is not None:
        ps = step(cls, ps)
      elif op is sre.SUBPATTERN:
        if av[1] or av[2]:
          raise Ambiguous()
        ps = run(list(av[-1]), ps)
      elif op is sre.BRANCH:
        ps = set().union(*[run(list(b), ps) for b in av[1]])
      elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
        lo, hi, sub = av
        if lo > 64:
          raise Ambiguous()
        for _ in range(lo):
          ps = run(list(sub), ps)
        seen, cur, k = set(ps), set(ps), lo
        while cur and (hi is sre.MAXREPEAT or k < hi):
          cur = run(list(sub), cur) - seen
          seen |= cur
          k += 1
        ps = seen
      else:
        raise Ambiguous()
    return ps

  try:
    ps = run(list(nodes), set(range(n + 1)) if mode == 'search' else {0})
  except (Ambiguous, Unsupported):
    return True
  return any(i == n for i in close(ps)) if mode == 'fullmatch' else bool(ps)


def seg_match(nodes, flags, s, mode):
  """None, or (group -> text, start, end); Ambiguous when undecided."""
  sg = nonempty_atoms(s)
  if not isinstance(build(sg), SymStr):
    raise Ambiguous()
  nodes = list(nodes)
  if mode == 'fullmatch':
    nodes = nodes + [(sre.AT, sre.AT_END_STRING)]
  starts = [_Pos(0)]
  if mode == 'search':
    starts = []
    for i, g in enumerate(sg):
      if isinstance(g, str):
        starts += [_Pos(i, o) for o in range(len(g))]
      else:
        starts += [_Pos(i)] + ([_Pos(i, 0, True)] if g.hi != 1 else [])
    starts.append(_Pos(len(sg)))
  fin = lambda p, g: iter([(p, g)])
  for st_ in starts:
    for p, g in _m(sg, nodes, 0, st_, {'mid': True} if st_.mid else {}, flags, fin):
      if g.pop('mid', False):
        raise Ambiguous()       # such a split needs a piece of two characters
      return {k: _cut(sg, a, b) for k, (a, b) in g.items()}, _cut(sg, st_, p), sg
  return None


class SymStr:
  """Immutable symbolic text: a z3 term with its pieces."""

  def __init__(self, t, segs_=None):
    self.t = t
    self.segs = segs_ if segs_ is not None else [Atom(t)]

  def __add__(self, o):
    return build(segs(self) + _pieces(o))

  def __radd__(self, o):
    return build(_pieces(o) + segs(self))

  def __eq__(self, o):
    if o is None or not isinstance(o, (str, SymStr)):
      return False
    try:
      return seg_eq(self, o)
    except Ambiguous:
      touch(self), touch(o)
      return lift(self.t == st(o))

  def __ne__(self, o):
    r = self.__eq__(o)
    return core.not_(r) if isinstance(r, SymBool) else not r

  def __hash__(self):
    raise Unsupported('hash of a symbolic string')

  def __vc_bool__(self):
    if any(isinstance(g, str) or g.lo >= 1 for g in self.segs):
      return True
    touch(self)
    return lift(z3.Length(self.t) > 0)

  def __bool__(self):
    return bool(self.__vc_bool__())

  def __vc_len__(self):
    touch(self)
    return lift(z3.Length(self.t))

  def __vc_contains__(self, x):
    if isinstance(x, str):
      if not x:
        return True
      if any(isinstance(g, str) and x in g for g in self.segs):
        return True
      if len(x) == 1 and not any(isinstance(g, Atom) and g.has(x) for g in self.segs):
        return False
      if len(x) > 1 and not any(isinstance(g, Atom) and (g.lo == 0 or any(g.has(ch) for ch in x)) for g in self.segs):
        return False
    touch(self), touch(x)
    return lift(z3.Contains(self.t, st(x)))

  def __contains__(self, x):
    return bool(self.__vc_contains__(x))

  def startswith(self, p):
    if isinstance(p, tuple):
      return lift(core.OR(False, *[self.startswith(q) for q in p]))
    try:
      return seg_prefix(p, self)
    except Ambiguous:
      touch(self), touch(p)
      return lift(z3.PrefixOf(st(p), self.t))

  def endswith(self, p):
    if isinstance(p, tuple):
      return lift(core.OR(False, *[self.endswith(q) for q in p]))
    if isinstance(p, str):
      rest = p
      for g in reversed(self.segs):
        if not rest:
          return True
        if isinstance(g, str):
          n = min(len(g), len(rest))
          if g[len(g) - n:] != rest[len(rest) - n:]:
            return False
          rest = rest[:len(rest) - n]
        else:
          if g.lo >= 1 and not g.has(rest[-1]):
            return False
          rest = None
          break
      if rest is not None:
        return not rest
    touch(self), touch(p)
    return lift(z3.SuffixOf(st(p), self.t))

  def removesuffix(self, p):
    if self.endswith(p):
      return self[:-len(p)] if isinstance(p, str) and p else mk(z3.SubString(self.t, 0, z3.Length(self.t) - z3.Length(st(p))))
    return self

  def removeprefix(self, p):
    if self.startswith(p):
      return self[len(p):] if isinstance(p, str) else mk(z3.SubString(self.t, z3.Length(st(p)), z3.Length(self.t)))
    return self

  def rstrip(self, ch=None):
    if ch is None:
      raise Unsupported('rstrip()')
    sg = segs(self)
    while sg:
      if isinstance(sg[-1], str):
        r = sg[-1].rstrip(ch)
        if r:
          return build(sg[:-1] + [r])
        sg = sg[:-1]
      elif sg[-1].lo >= 1 and not any(sg[-1].has(x) for x in ch):
        return build(sg)
      else:
        break
    if not sg:
      return ''
    if self.endswith(ch):
      raise Unsupported('rstrip of a symbolic suffix')
    return self

  def replace(self, a, b, n=-1):
    if isinstance(a, str) and a and n == -1:
      if not any(isinstance(g, Atom) and ((g.lo == 0 and len(a) > 1) or any(g.has(ch) for ch in a)) for g in self.segs):
        out = []
        for g in self.segs:
          if isinstance(g, str):
            for i, part in enumerate(g.split(a)):
              if i:
                out += _pieces(b)
              out.append(part)
          else:
            out.append(g)
        return build(out)
    if n != 1 and isinstance(a, str) and len(a) == 1 and len(self.segs) > 1:
      # replacing a character distributes over concatenation
      out = ''
      for g in self.segs:
        x = g if isinstance(g, str) else SymStr(g.t, [g])
        out = out + x.replace(a, b)
      return out
    if n != 1 and isinstance(a, str) and len(a) == 1 and a not in self:
      return self
    touch(self)
    r = z3.Replace(self.t, st(a), st(b))
    if n != 1:
      # replace-all equals one replacement when the text occurs at most once
      i = z3.IndexOf(self.t, st(a), 0)
      once = z3.Or(i < 0, z3.Not(z3.Contains(z3.SubString(self.t, i + z3.Length(st(a)), z3.Length(self.t)), st(a))))
      if not lift(once):
        raise Unsupported('replace of several occurrences')
    return mk(r)

  def __getitem__(self, k):
    if isinstance(k, slice) and k.step in (None, 1):
      sg = segs(self)
      if k.start is None and isinstance(k.stop, int) and k.stop < 0 and isinstance(sg[-1], str) and len(sg[-1]) >= -k.stop:
        return build(sg[:-1] + [sg[-1][:k.stop]])
      if k.stop is None and isinstance(k.start, int) and k.start >= 0 and isinstance(sg[0], str) and len(sg[0]) >= k.start:
        return build([sg[0][k.start:]] + sg[1:])
      if k.start is None and isinstance(k.stop, int) and k.stop >= 0 and isinstance(sg[0], str) and len(sg[0]) >= k.stop:
        return sg[0][:k.stop]
    touch(self)
    n = z3.Length(self.t)
    if isinstance(k, slice):
      if k.step not in (None, 1):
        raise Unsupported('strided slice of a string')

      def clip(x, d):
        if x is None:
          return d
        x = core.zint(x)
        x = z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), x)
        return z3.If(x > n, n, x)
      a, b = clip(k.start, z3.IntVal(0)), clip(k.stop, n)
      return mk(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
    i = core.zint(k)
    return mk(z3.SubString(self.t, z3.If(i < 0, n + i, i), 1))

  def split(self, sep=None, maxsplit=-1):
    if not isinstance(sep, str) or len(sep) != 1 or maxsplit != -1:
      raise Unsupported('split of a symbolic string')
    out, cur = [], []
    for g in self.segs:
      if isinstance(g, str):
        ps = g.split(sep)
        cur.append(ps[0])
        for x in ps[1:]:
          out.append(build(cur))
          cur = [x]
      elif g.has(sep):
        raise Unsupported('split of a symbolic string')
      else:
        cur.append(g)
    return out + [build(cur)]

  def __format__(self, spec):
    if spec:
      raise Unsupported('format spec on a symbolic string')
    return ctx().token(self.t)

  def __str__(self):
    return ctx().token(self.t)

  def __repr__(self):
    return f'SymStr({self.t})'

  def __fspath__(self):
    raise Unsupported('native path operation on a symbolic string')


def _pieces(o):
  if isinstance(o, SymInt):
    return segs(int_to_str(o))
  if isinstance(o, (str, SymStr)):
    return segs(o)
  if hasattr(o, '__fspath__'):
    return segs(o.__fspath__())
  raise Unsupported(f'not a string: {type(o).__name__}')


def mk(t):
  t = z3.simplify(t)
  if z3.is_string_value(t):
    return t.as_string()
  return SymStr(t)


def fresh(c, name, regex=None, inp=True):
  t = z3.String(c.fresh_name(name))
  if inp:
    c.inputs[str(t)] = t
  if regex is not None:
    c.assume(z3.InRe(t, regex if not isinstance(regex, str) else to_re(regex)))
  return SymStr(t)


def fstr(parts):
  """An f-string: parts are ('c', text) or ('v', value, conversion, spec)."""
  sym = any(p[0] == 'v' and (isinstance(p[1], SymStr) or (isinstance(p[1], SymInt) and core.has_ctx() and ctx().user.get('strings')))
            for p in parts)
  if not sym:
    out = []
    for p in parts:
      if p[0] == 'c':
        out.append(p[1])
      else:
        v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[p[2]](p[1])
        out.append(format(v, p[3]))
    return ''.join(out)
  r = ''
  for p in parts:
    if p[0] == 'c':
      r = r + p[1]
    elif isinstance(p[1], (SymStr, SymInt)):
      v = p[1]
      if p[3] and isinstance(v, SymInt):
        r = r + fmt_int(v, p[3])
      elif p[3] or p[2] not in (-1, 115):
        raise Unsupported('format of a symbolic string')
      else:
        r = r + (v if isinstance(v, SymStr) else int_to_str(v))
    else:
      r = r + format(p[1], p[3])
  return r


def fmt_int(v, spec):
  """Zero-padded decimal (0Nd): some digit text denoting the number."""
  m = re.fullmatch(r'0(\d+)d?', spec)
  if not m:
    raise Unsupported(f'integer format {spec!r}')
  c = ctx()
  s = fresh(c, 'pad', DIGITS, inp=False)
  c.assume(TOINT(s.t) == v.t)
  c.assume(z3.Length(s.t) >= int(m.group(1)))
  return s


# ---------------------------------------------------------------- paths
class Path:
  """posixpath on symbolic strings (definitions of the standard library)."""

  sep = '/'

  @staticmethod
  def join(a, *rest):
    if not any(is_sym(x) for x in (a,) + rest):
      return os.path.join(a, *rest)
    rest = tuple(x.__fspath__() if not isinstance(x, (str, SymStr)) else x for x in rest)
    r = a if not hasattr(a, '__fspath__') or is_sym(a) else a
    for b in rest:
      if (b.startswith('/')):
        r = b
      elif not r or r.endswith('/'):
        r = r + b
      else:
        r = r + '/' + b
    return r

  @staticmethod
  def split(p):
    if not is_sym(p):
      return os.path.split(p)
    # the last separator, when the pieces show it
    sg = segs(p)
    for i in range(len(sg) - 1, -1, -1):
      g = sg[i]
      if isinstance(g, Atom):
        if g.has('/'):
          break
        continue
      if '/' in g:
        a, _, b = g.rpartition('/')
        head, tail = build(sg[:i] + [a]), build([b] + sg[i + 1:])
        if not head:
          return '/', tail
        if isinstance(head, str):
          return head.rstrip('/') or head, tail
        return head.rstrip('/'), tail
    else:
      return '', p
    touch(p)
    c = ctx()
    tail = fresh(c, 'tail', inp=False)
    c.assume(z3.Not(z3.Contains(tail.t, S('/'))))
    if '/' not in p:
      c.assume(p.t == tail.t)
      return '', p
    head = fresh(c, 'head', inp=False)
    c.assume(p.t == z3.Concat(head.t, S('/'), tail.t))
    if not head or head.endswith('/'):
      raise Unsupported('split of a path with repeated separators')
    return head, tail

  @staticmethod
  def dirname(p):
    return Path.split(p)[0] if is_sym(p) else os.path.dirname(p)

  @staticmethod
  def basename(p):
    return Path.split(p)[1] if is_sym(p) else os.path.basename(p)


class OS:
  """Stand-in for the module os: text functions only."""
  path = Path
  sep = '/'

  @staticmethod
  def fspath(p):
    return p if is_sym(p) else os.fspath(p)


# ---------------------------------------------------------------- regular expressions
ANY = None


def _any():
  return z3.AllChar(z3.ReSort(z3.StringSort()))


def _dot(dotall):
  if dotall:
    return _any()
  return z3.Intersect(_any(), z3.Complement(z3.Re('\n')))


def _cls(items):
  alts, neg = [], False
  for op, av in items:
    if op is sre.NEGATE:
      neg = True
    elif op is sre.LITERAL:
      alts.append(z3.Re(chr(av)))
    elif op is sre.RANGE:
      alts.append(z3.Range(chr(av[0]), chr(av[1])))
    elif op is sre.CATEGORY:
      alts.append(_cat(av))
    else:
      raise Unsupported(f'regex class {op}')
  r = alts[0] if len(alts) == 1 else z3.Union(*alts)
  return z3.Intersect(_any(), z3.Complement(r)) if neg else r


def _cat(av):
  if av is sre.CATEGORY_DIGIT:
    return z3.Range('0', '9')
  if av is sre.CATEGORY_WORD:
    return z3.Union(z3.Range('0', '9'), z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
  if av is sre.CATEGORY_SPACE:
    return z3.Union(*[z3.Re(ch) for ch in ' \t\n\r\f\v'])
  if av is sre.CATEGORY_NOT_DIGIT:
    return z3.Intersect(_any(), z3.Complement(z3.Range('0', '9')))
  raise Unsupported(f'regex category {av}')


def _node(op, av, dotall):
  if op is sre.LITERAL:
    return z3.Re(chr(av))
  if op is sre.NOT_LITERAL:
    return z3.Intersect(_any(), z3.Complement(z3.Re(chr(av))))
  if op is sre.ANY:
    return _dot(dotall)
  if op is sre.IN:
    return _cls(av)
  if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
    lo, hi, sub = av
    r = _seq(list(sub), dotall)
    if hi is sre.MAXREPEAT:
      return z3.Star(r) if lo == 0 else (z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
    if (lo, hi) == (0, 1):
      return z3.Option(r)
    return z3.Loop(r, lo, hi)
  if op is sre.SUBPATTERN:
    return _seq(list(av[-1]), dotall)
  if op is sre.BRANCH:
    return z3.Union(*[_seq(list(b), dotall) for b in av[1]])
  raise Unsupported(f'regex construct {op}')


def _seq(nodes, dotall):
  rs = [_node(op, av, dotall) for op, av in nodes]
  if not rs:
    return z3.Re('')
  return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def to_re(pattern, flags=0):
  p = sre_parse.parse(pattern, flags)
  nodes = [n for n in p if n[0] is not sre.AT]
  return _seq(nodes, bool(p.state.flags & re.DOTALL))


class SymMatch:
  def __init__(self, s, groups, names):
    self.s, self.groups_, self.names = s, groups, names

  def group(self, *k):
    if not k:
      return self.s
    if len(k) > 1:
      return tuple(self.group(x) for x in k)
    k = self.names.get(k[0], k[0]) if isinstance(k[0], str) else k[0]
    if k == 0:
      return self.s
    return self.groups_[k]

  def __getitem__(self, k):
    return self.group(k)

  def groups(self):
    return tuple(self.groups_[k] for k in sorted(self.groups_))

  def __bool__(self):
    return True


class SymRe:
  """A compiled pattern that also matches symbolic strings.

  A match yields *some* decomposition allowed by the pattern: contracts proved
  for it hold for the one Python picks."""

  def __init__(self, pattern, flags=0):
    self.real = re.compile(pattern, flags)
    self.pattern = pattern
    self.p = sre_parse.parse(pattern, flags)
    self.dotall = bool(self.p.state.flags & re.DOTALL)

  def _do(self, s, mode):
    if not is_sym(s):
      return getattr(self.real, mode)(s)
    nodes = list(self.p)
    if not self.real.flags & (re.IGNORECASE | re.MULTILINE):
      if not may_match(nodes, self.p.state.flags, s, mode):
        return None
      try:
        r = seg_match(nodes, self.p.state.flags, s, mode)
        if r is None:
          return None
        return SymMatch(r[1], {k: r[0].get(k) for k in range(1, self.real.groups + 1)}, dict(self.real.groupindex))
      except Ambiguous:
        pass
    touch(s)
    head = tail = False
    if nodes and nodes[0][0] is sre.AT and nodes[0][1] in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
      head, nodes = True, nodes[1:]
    nl = False
    if nodes and nodes[-1][0] is sre.AT and nodes[-1][1] in (sre.AT_END, sre.AT_END_STRING):
      tail = True
      nl = nodes[-1][1] is sre.AT_END
      nodes = nodes[:-1]
    if any(op is sre.AT for op, _ in nodes):
      raise Unsupported('anchor inside a pattern')
    parts = [(op, av, _node(op, av, self.dotall)) for op, av in nodes]
    full = [r for _, _, r in parts]
    if mode == 'search' and not head:
      full = [z3.Star(_any())] + full
    if not (mode == 'fullmatch' or tail):
      full = full + [z3.Star(_any())]
    elif mode != 'fullmatch' and tail and nl:
      full = full + [z3.Option(z3.Re('\n'))]
    whole = full[0] if len(full) == 1 else z3.Concat(*full)
    c = ctx()
    npc = len(c.pc)
    if not lift(z3.InRe(s.t, whole)):
      return None
    # the decomposition below says the same as the membership
    del c.pc[npc:]
    vs, groups, lit = [], {}, False
    if mode == 'search' and not head:
      vs.append(fresh(c, 'pre', inp=False).t)
    for op, av, r in parts:
      if op is sre.LITERAL:
        if vs and lit:
          vs[-1] = S(vs[-1].as_string() + chr(av))
        else:
          vs.append(S(chr(av)))
        lit = True
        continue
      lit = False
      v = fresh(c, 'part', inp=False)
      ex = _excludes(op, av, self.dotall)
      if ex is None:
        c.assume(z3.InRe(v.t, r))
      else:
        for ch in ex:
          c.assume(z3.Not(z3.Contains(v.t, S(ch))))
      vs.append(v.t)
      if op is sre.SUBPATTERN and av[0] is not None:
        groups[av[0]] = v
        if any(n[0] is sre.SUBPATTERN and n[1][0] is not None for n in _walk(av[-1])):
          raise Unsupported('nested group')
      elif any(n[0] is sre.SUBPATTERN and n[1][0] is not None for n in _walk([(op, av)])):
        raise Unsupported('group inside a repetition')
    if not (mode == 'fullmatch' or tail):
      vs.append(fresh(c, 'post', inp=False).t)
    elif mode != 'fullmatch' and tail and nl:
      vs.append(fresh(c, 'nl', z3.Option(z3.Re('\n')), inp=False).t)
    c.assume(s.t == (vs[0] if len(vs) == 1 else z3.Concat(*vs)))
    return SymMatch(s, groups, dict(self.real.groupindex))

  def match(self, s):
    return self._do(s, 'match')

  def fullmatch(self, s):
    return self._do(s, 'fullmatch')

  def search(self, s):
    return self._do(s, 'search')

  def sub(self, repl, s, *a):
    if is_sym(s):
      raise Unsupported('regex substitution on a symbolic string')
    return self.real.sub(repl, s, *a)


def _excludes(op, av, dotall):
  """For x* with x any character but some: the excluded ones, else None."""
  if op is sre.SUBPATTERN:
    sub = list(av[-1])
    return _excludes(sub[0][0], sub[0][1], dotall) if len(sub) == 1 else None
  if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) and av[0] == 0 and av[1] is sre.MAXREPEAT:
    sub = list(av[2])
    if len(sub) == 1:
      if sub[0][0] is sre.ANY:
        return () if dotall else ('\n',)
      if sub[0][0] is sre.NOT_LITERAL:
        return (chr(sub[0][1]),)
  return None


def _walk(nodes):
  for op, av in nodes:
    yield (op, av)
    if op is sre.SUBPATTERN:
      yield from _walk(av[-1])
    elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
      yield from _walk(av[2])
    elif op is sre.BRANCH:
      for b in av[1]:
        yield from _walk(b)


class RE:
  """Stand-in for the module re."""
  DOTALL, IGNORECASE = re.DOTALL, re.IGNORECASE
  escape = staticmethod(lambda s: re.escape(s) if not is_sym(s) else _bad())
  Pattern = (re.Pattern, SymRe)

  @staticmethod
  def compile(p, flags=0):
    return SymRe(p, flags) if isinstance(p, str) else p

  @staticmethod
  def match(p, s, flags=0):
    return RE.compile(p, flags).match(s)

  @staticmethod
  def fullmatch(p, s, flags=0):
    return RE.compile(p, flags).fullmatch(s)

  @staticmethod
  def search(p, s, flags=0):
    return RE.compile(p, flags).search(s)

  @staticmethod
  def sub(p, r, s, *a, **k):
    return RE.compile(p).sub(r, s, *a, **k)


def _bad():
  raise Unsupported('pattern built from a symbolic string')


# ---------------------------------------------------------------- case splits
def not_prefixed(c, name, prefix, without=''):
  """Any text (over the alphabet) that does not start with prefix."""
  j = c.choose(f'{name}.common', list(range(len(prefix))))
  p = prefix[:j]
  if c.choose(f'{name}.continues', [True, False]):
    return p + atom(c, f'{name}.other', without=prefix[j] + without, lo=1, hi=1) + atom(c, f'{name}.rest', without=without)
  return p


def any_dir(c, name, empty=True):
  """Any text, split by how it ends: empty, with a separator, or not."""
  k = c.choose(f'{name}.end', ['text', 'separator'] + (['empty'] if empty else []))
  if k == 'empty':
    return ''
  last = '/' if k == 'separator' else atom(c, f'{name}.last', without='/', lo=1, hi=1)
  return atom(c, name) + last
