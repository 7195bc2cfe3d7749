"""S02: flattening, intersecting and merging states are exact tree operations."""

import copy
import itertools
import random

from vc import env
env.setup()

from vc import core, maps
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, forall, ite, lift
from vc.transform import LoopSpec, StubNS, clone

SU = 't5x/state_utils.py'


class Base(LoopSpec):

  def __init__(self, a, b, over):
    self.a, self.b, self.over = a, b, over

  def applies(self, L, env):
    return hasattr(L.seq, 'pos') and isinstance(env['state_dict_flat'], maps.SymMap)

  def havoc(self, L, env):
    env['state_dict_flat'].havoc('state')
    return {}


class Intersect(Base):
  name = 'loop over the entries of the first state'

  def inv(self, L, env):
    s, a, b = env['state_dict_flat'], self.a, self.b
    done = lambda k: AND(a.has(k), L.seq.pos(k) < L.i)
    yield 'entries seen and absent from the second state are gone, the others are there', forall(1, lambda k: IFF(
        s.has(k), AND(a.has(k), OR(NOT(done(k)), b.has(k)))))
    yield 'values are unchanged', forall(1, lambda k: IMP(s.has(k), s.val(k) == a.val(k)))


class Merge(Base):
  name = 'loop over the entries of the second state'

  def inv(self, L, env):
    s, a, b = env['state_dict_flat'], self.a, self.b
    done = lambda k: AND(b.has(k), L.seq.pos(k) < L.i)
    yield 'the first state and the entries seen are there', forall(1, lambda k: IFF(s.has(k), OR(a.has(k), done(k))))
    yield 'with their values', forall(1, lambda k: AND(
        IMP(AND(done(k), OR(NOT(a.has(k)), self.over)), s.val(k) == b.val(k)),
        IMP(AND(a.has(k), NOT(AND(done(k), self.over))), s.val(k) == a.val(k))))


def deductive(chk):
  m = clone(SU)
  real = dict(m.__dict__)

  def run(c, fn, spec, *args, **kw):
    c.user['symdict'] = True
    a, b = maps.SymMap.fresh('first'), maps.SymMap.fresh('second')
    a0, b0 = a.copy(), b.copy()
    out = {}

    def unflatten(d, sep=None):
      out['sep'] = sep
      return ('tree', d)
    m.flatten_state_dict = lambda d, *x, **k: {'A': a, 'B': b}[d]
    m.traverse_util = StubNS(m.traverse_util, unflatten_dict=unflatten)
    m.__vc_rt__.loop_specs = {fn + '#0': spec(a0, b0, kw.get('overwrite', False))}
    try:
      r = getattr(m, fn)('A', 'B', **kw)
    finally:
      m.__dict__.update(real)
    if not (isinstance(r, tuple) and r[0] == 'tree' and isinstance(r[1], maps.SymMap)):
      raise core.Unsupported('result is not rebuilt from the flat dictionary')
    c.prove('the result is rebuilt with the separator it was flattened with', out['sep'] == '/')
    return r[1], a0, b0, b

  def inter(c):
    d, a, b, bb = run(c, 'intersect_state', Intersect)
    k = c.int('k', inp=False)
    c.prove('exactly the entries present in both', IFF(d.has(k), AND(a.has(k), b.has(k))))
    c.prove('with the values of the first', IMP(d.has(k), d.val(k) == a.val(k)))
    c.prove('the second state is not changed', AND(IFF(bb.has(k), b.has(k)), bb.val(k) == b.val(k)))
    c.cover()
  chk.verify('intersect_state', SU, 'exactly the common entries, values of the first', inter,
             assumed=['flatten_dict/unflatten_dict are inverse for names without the separator (exercised below)'])

  def merge(c, over):
    kw = {} if over is None else {'overwrite': over}
    d, a, b, bb = run(c, 'merge_state', Merge, **kw)
    k = c.int('k', inp=False)
    c.prove('exactly the entries of either', IFF(d.has(k), OR(a.has(k), b.has(k))))
    if over:
      c.prove('an entry of the second state has its value', IMP(b.has(k), d.val(k) == b.val(k)))
      c.prove('any other entry keeps the value of the first', IMP(AND(a.has(k), NOT(b.has(k))), d.val(k) == a.val(k)))
    else:
      c.prove('an entry of the first state keeps its value', IMP(a.has(k), d.val(k) == a.val(k)))
      c.prove('any other entry has the value of the second', IMP(AND(b.has(k), NOT(a.has(k))), d.val(k) == b.val(k)))
    c.prove('the second state is not changed', AND(IFF(bb.has(k), b.has(k)), bb.val(k) == b.val(k)))
    c.cover()
  for over in (None, False, True):
    chk.verify(f'merge_state [overwrite={over}]', SU, 'every entry of both; value of the first (of the second with overwrite)', lambda c, o=over: merge(c, o))

  def leaf(c):
    # any mapping: which of the three marker names it holds, and others
    has = {k: c.bool(f'has {k}') for k in ('driver', 'kvstore', 'metadata', 'dtype')}
    d = {k: 1 for k, v in has.items() if v}
    r = m.tensorstore_leaf(('any',), d)
    c.prove('an array-store description has a driver, a kvstore and metadata', IFF(bool(r), set(d) >= {'driver', 'kvstore', 'metadata'}))
    c.cover()
  chk.verify('tensorstore_leaf', SU, 'true iff driver, kvstore and metadata are among the keys', leaf)


# --- the real code on real trees ---------------------------------------------
TS = [
    {'driver': 'zarr', 'kvstore': {'driver': 'file', 'path': 'x'}, 'metadata': {'shape': [1]}},
    {'driver': 'zarr', 'kvstore': {}, 'metadata': {}, 'dtype': 'float32', 'transform': {'a': 1}},
    {'metadata': None, 'kvstore': 1, 'driver': {'deep': {'er': 2}}},
]
NEAR = [{'driver': 'zarr', 'kvstore': {'path': 'x'}}, {'driver': 1, 'metadata': {'a': 2}}, {'kvstore': {'driver': 3}, 'metadata': 4}]
KEYS = ('a', 'b', 'c', 'target', 'driver', 'kvstore', 'metadata', '0', '1', '')


def is_ts(v):
  return isinstance(v, dict) and all(k in v for k in ('driver', 'kvstore', 'metadata'))


def gen(rnd, depth=3, ts=True):
  d = {}
  for k in rnd.sample(KEYS, rnd.randrange(0, 4)):
    r = rnd.random()
    if r < 0.35 and depth:
      d[k] = gen(rnd, depth - 1, ts)
    elif r < 0.5 and ts:
      d[k] = copy.deepcopy(rnd.choice(TS if rnd.random() < 0.6 else NEAR))
    elif r < 0.57:
      d[k] = None
    elif r < 0.64:
      d[k] = [1, {'x': 2}]
    else:
      d[k] = rnd.randrange(1000)
  return d


def leaves(d, pre=(), empties=False, ts=True):
  """The definition of a leaf, recursively: list of (path, value)."""
  out = []
  for k, v in d.items():
    p = pre + (k,)
    if isinstance(v, dict) and not (ts and is_ts(v)):
      if v:
        out += leaves(v, p, empties, ts)
      elif empties:
        out.append((p, EMPTY))
    else:
      out.append((p, v))
  return out


EMPTY = object()


def tree(pairs):
  out = {}
  for p, v in pairs:
    t = out
    for k in p[:-1]:
      t = t.setdefault(k, {})
    t[p[-1]] = v
  return out


def ambiguous(*ds):
  """Paths which collide in one flat dictionary: a leaf of one tree is an
  inner node of another (no nested tree holds both)."""
  ps = [set(p for p, _ in leaves(d)) for d in ds]
  allp = set().union(*ps)
  return any(p[:i] in allp for p in allp for i in range(1, len(p)))


def top_is_ts(d):
  return is_ts(d)


def search_flatten(rec):
  from t5x import state_utils as su
  from flax import traverse_util as tu
  rnd = random.Random(3)
  for i in range(6000):
    if rec.full:
      return
    d = gen(rnd)
    for keep in (False, True):
      def run():
        d0 = copy.deepcopy(d)
        f = su.flatten_state_dict(d, keep_empty_nodes=keep) if keep or i % 2 else su.flatten_state_dict(d)
        want = {} if top_is_ts(d) else {'/'.join(p): v for p, v in leaves(d, (), keep)}
        if top_is_ts(d):
          return None     # the state itself is not an array description
        if not d and keep:
          return None     # the root of an empty state has no name
        if set(f) != set(want):
          return f'entries {sorted(f)}, expected {sorted(want)}'
        for k, v in want.items():
          if v is EMPTY:
            if f[k] is not tu.empty_node:
              return f'{k} is {f[k]}, expected an empty node'
          elif f[k] != v:
            return f'{k} is {f[k]}, expected {v}'
        if d != d0:
          return 'the state was changed'
        back = tu.unflatten_dict(f, sep='/')
        if keep and back != d:
          return f'rebuilt as {back}'
      rec.run({'state': d, 'keep empty nodes': keep}, run)
    d = gen(rnd)
    for keep in (False, True):
      def names():
        if not d and keep:
          return None
        got = su.get_name_tree(d, keep_empty_nodes=keep)
        want = tree([(p, '/'.join(p)) for p, _ in leaves(d, (), keep, ts=False)])
        return None if got == want else f'{got}, expected {want}'
      rec.run({'name tree of': d, 'keep empty nodes': keep}, names)


def search_combine(rec):
  from t5x import state_utils as su
  rnd = random.Random(4)
  for i in range(8000):
    if rec.full:
      return
    a = gen(rnd)
    b = gen(rnd)
    if rnd.random() < 0.6:    # related trees
      b = copy.deepcopy(a)
      for p, v in leaves(a):
        if rnd.random() < 0.6:
          t = b
          for k in p[:-1]:
            t = t[k]
          if rnd.random() < 0.5:
            del t[p[-1]]
          else:
            t[p[-1]] = rnd.choice((7777, copy.deepcopy(TS[0]), None))
      b.update(gen(rnd, 1))
    if top_is_ts(a) or top_is_ts(b):
      continue
    la, lb = dict(leaves(a)), dict(leaves(b))

    def inter():
      a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
      got = su.intersect_state(a, b)
      want = tree([(p, v) for p, v in la.items() if p in lb])
      if got != want:
        return f'{got}, expected {want}'
      return None if (a, b) == (a0, b0) else 'the arguments were changed'
    rec.run({'intersect': a, 'with': b}, inter)
    if ambiguous(a, b):
      continue
    for over in (False, True):
      def merge():
        a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
        got = su.merge_state(a, b, overwrite=True) if over else su.merge_state(a, b)
        w = {**la, **lb} if over else {**lb, **la}
        want = tree(list(w.items()))
        if got != want:
          return f'{got}, expected {want}'
        return None if (a, b) == (a0, b0) else 'the arguments were changed'
      rec.run({'merge': a, 'from scratch': b, 'overwrite': over}, merge)


def build(chk):
  deductive(chk)
  chk.search('flattening and name trees', '6000 random states of depth up to 4 over 10 key names, with array-store descriptions, near misses and empty nodes', search_flatten)
  chk.search('intersecting and merging', '8000 random pairs of states', search_combine)


if __name__ == '__main__':
  main('S02', build)
