"""I01: batch inference returns one result per example, in dataset order."""

import functools
import random
import threading

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, SymInt, exists, forall, ite, lift, zint
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

UT = 't5x/utils.py'
INF = 't5x/infer.py'


# --- contracts of tf.data, numpy and jax on symbolic data ---------------------
class DS:
  """tf.data contract: a sequence of (index, example id)."""

  def __init__(self, length, get):
    self.length, self.get = length, get
    self.element_spec = Fake()

  def __vc_len__(self):
    return self.length

  def take(self, k):
    n = self.length
    return DS(ite(n < k, n, k), self.get)

  def map(self, f, **kw):
    g = self.get

    def get(i):
      r = f(*g(i))
      return tuple(int(x) if isinstance(x, np.integer) else x for x in r)
    return DS(self.length, get)

  def cache(self):
    return self

  def prefetch(self, *a):
    return self

  def repeat(self, k):
    if core.concrete(self.length) != 1:
      raise core.Unsupported('repeat of more than one element')
    g = self.get
    return DS(ite(k > 0, k, 0), lambda i: g(0))

  def concatenate(self, o):
    n, a, b = self.length, self.get, o.get
    return DS(n + o.length, lambda i: tuple(ite(i < n, x, y) for x, y in zip(a(i), b(i - n))))

  def shard(self, num, sid):
    c, n, g = core.ctx(), self.length, self.get
    m = c.int('shard.len', 0, inp=False)
    # p is an element of the shard iff p * num + sid is one of the dataset
    c.assume(AND(IMP(m > 0, (m - 1) * num + sid < n), m * num + sid >= n))
    d = DS(m, lambda p: g(p * num + sid))
    d.sharded = (self, num, sid)
    return d

  def batch(self, size, drop_remainder=False):
    if not drop_remainder:
      raise core.Unsupported('batch that keeps a remainder')
    return Batched(self, size)


class Batched:

  def __init__(self, ds, size):
    c = core.ctx()
    self.ds, self.size = ds, size
    self.n = c.int('batches', 0, inp=False)
    c.assume(AND(self.n * size <= ds.length, (self.n + 1) * size > ds.length))

  def __vc_len__(self):
    return self.n

  def as_numpy_iterator(self):
    g, size = self.ds.get, self.size
    s = seq.SymSeq(self.n, lambda b: tuple(Arr(b, size, lambda p, k=k: g(b * size + p)[k]) for k in (0, 1)))
    s.batched = self
    return s


class Arr:
  """A local batch: `size` rows."""

  def __init__(self, b, size, row):
    self.b, self.size, self.row = b, size, row

  def copy_to_host_async(self):
    pass


class Gathered(Arr):
  """The rows of all shards, one shard after the other."""


class Key:

  def __init__(self, kind, depth):
    self.kind, self.depth = kind, depth


class GList:
  """A list appended to once per batch: base(b) for b < n, then items."""

  def __init__(self):
    self.n, self.base, self.items = 0, None, []

  def append(self, x):
    self.items.append(x)

  def __iter__(self):
    if self.items:
      raise core.Unsupported('unpacking of a list outside its loop contract')
    yield Spread(self, None)

  def at(self, b):
    return self.base(b)


class Spread:

  def __init__(self, lst, k):
    self.lst, self.k = lst, k


class Flat:
  """Concatenation of the gathered batches: rows (batch, position)."""

  def __init__(self, n, per, row):
    self.n, self.per, self.row = n, per, row

  def __ge__(self, x):
    return Mask(self, lambda b, q: self.row(b, q) >= x)

  def __gt__(self, x):
    return Mask(self, lambda b, q: self.row(b, q) > x)

  def __ne__(self, x):
    return Mask(self, lambda b, q: self.row(b, q) != x)

  def __getitem__(self, sel):
    if isinstance(sel, tuple) and len(sel) == 1:
      sel = sel[0]
    if isinstance(sel, Mask):
      sel = sel.select()
    if not isinstance(sel, Sel):
      raise core.Unsupported('index of a gathered array')
    row = self.row
    return Picked(sel.m, lambda j: row(sel.B(j), sel.Q(j)), sel)


class Mask:

  def __init__(self, flat, test):
    self.flat, self.test, self.sel = flat, test, None

  def select(self):
    if self.sel is None:
      self.sel = Sel(self)
    return self.sel


class Sel:
  """np.where: the selected rows, each once."""

  def __init__(self, mask):
    c = core.ctx()
    f, t = mask.flat, mask.test
    c.user['sel'] = self
    I = z3.IntSort()
    self.m = c.int('selected', 0, inp=False)
    fb, fq, fh = c.func('sel.b', I, I), c.func('sel.q', I, I), c.func('sel.h', I, I, I)
    self.B = lambda j: lift(fb(zint(j)))
    self.Q = lambda j: lift(fq(zint(j)))
    self.H = lambda b, q: lift(fh(zint(b), zint(q)))
    inr = lambda b, q: AND(b >= 0, b < f.n, q >= 0, q < f.per)
    c.assume(forall(1, lambda j: IMP(AND(j >= 0, j < self.m), AND(
        inr(self.B(j), self.Q(j)), t(self.B(j), self.Q(j)), self.H(self.B(j), self.Q(j)) == j)), patterns=[lambda j: fb(j), lambda j: fq(j)]))
    c.assume(forall(2, lambda b, q: IMP(AND(inr(b, q), t(b, q)), AND(
        self.H(b, q) >= 0, self.H(b, q) < self.m, self.B(self.H(b, q)) == b, self.Q(self.H(b, q)) == q)), patterns=[lambda b, q: fh(b, q)]))


class Picked:
  """A one-dimensional array (rows may be anything)."""

  def __init__(self, n, get, sel):
    self.n, self.get, self.sel = n, get, sel

  def __vc_len__(self):
    return self.n

  def __vc_seq__(self):
    return seq.SymSeq(self.n, self.get)

  def tolist(self):
    return self

  def __getitem__(self, p):
    if isinstance(p, Perm):
      g = self.get
      r = Picked(p.n, lambda j: g(p.G(j)), self.sel)
      return r
    if isinstance(p, (int, SymInt)):
      return self.get(p)
    if isinstance(p, Picked):      # by an index array
      g, h = self.get, p.get
      return Picked(p.n, lambda j: g(h(j)), self.sel)
    raise core.Unsupported('index of a filtered array')


class Perm:

  def __init__(self, a):
    s = seq.sort(a.__vc_seq__(), None, False)
    core.ctx().user['perm'] = self
    self.n, self.G, self.H = a.n, s.G, s.H

  def __vc_len__(self):
    return self.n

  def __getitem__(self, i):
    return self.G(i)

  def __vc_seq__(self):
    return seq.SymSeq(self.n, self.G)

  tolist = lambda self: self


class NP:
  """numpy on the symbolic arrays above; anything else is numpy."""

  def __getattr__(self, n):
    return getattr(np, n)

  def where(self, m):
    if isinstance(m, Mask):
      return (m.select(),)
    return np.where(m)

  nonzero = where

  def flatnonzero(self, m):
    return m.select() if isinstance(m, Mask) else np.flatnonzero(m)

  def concatenate(self, a, *k):
    if isinstance(a, GList):
      a = (Spread(a, None),)
    if len(a) == 1 and isinstance(a[0], Spread):
      import jax
      l, k = a[0].lst, a[0].k

      def leaf(b):
        v = l.at(b)
        return v if k is None else jax.tree_util.tree_leaves(v)[k]
      if l.items:
        raise core.Unsupported('list outside its loop contract')
      return Flat(l.n, l.per, lambda b, q: leaf(b).row(q))
    raise core.Unsupported('concatenate')

  def argsort(self, a, *k, **kw):
    if isinstance(a, Picked):
      return Perm(a)
    return np.argsort(a, *k, **kw)

  def array(self, x, *a, **k):
    return x if isinstance(x, (Picked, seq.SymSeq)) else np.array(x, *a, **k)

  asarray = array


class SeqList:

  def __init__(self, s):
    self.s = s


def fake_jax(c, hosts):
  import jax

  def tmap(f, tree, *rest, **kw):
    if isinstance(tree, Fake):
      return tree
    if isinstance(tree, Spread):
      if tree.lst.items:
        raise core.Unsupported('list outside its loop contract')
      leaves, st = jax.tree_util.tree_flatten(tree.lst.at(0))
      return jax.tree_util.tree_unflatten(st, [f(Spread(tree.lst, k)) for k in range(len(leaves))])
    if isinstance(tree, seq.SymSeq):
      return tree      # elementwise conversion to python values
    return jax.tree.map(f, tree, *rest, **kw)

  def split(k):
    if not isinstance(k, Key):
      raise core.Unsupported('split of something else')
    # the two halves of a split are distinct from each other and all others
    return Key('step', k.depth), Key('rest', k.depth + 1)
  return StubNS(jax, tree=StubNS(jax.tree, map=tmap), process_count=lambda: hosts, process_index=lambda: 0,
                random=StubNS(jax.random, split=split))


class BatchLoop(LoopSpec):
  name = 'loop over the batches'

  def __init__(self, h):
    self.h = h

  def lists(self, env):
    return env['batched_results'], env['all_indices']

  def applies(self, L, env):
    return all(isinstance(x, GList) for x in self.lists(env))

  def inv(self, L, env):
    import jax
    h = self.h
    r, ix = self.lists(env)
    for l in (r, ix):
      yield 'one entry per batch', l.n + len(l.items) == L.i
    for k, x in enumerate(ix.items):
      b = ix.n + k
      yield 'indices of the batch', forall(1, lambda q: IMP(AND(q >= 0, q < h.B), x.row(q) == h.idx(b, q)))
    for k, x in enumerate(r.items):
      b = r.n + k
      for key, leaf in zip(h.leaves, jax.tree_util.tree_leaves(x)):
        yield f'{key} of the batch', forall(1, lambda q: IMP(AND(q >= 0, q < h.B), AND(
            leaf.row(q).b == b, leaf.row(q).q == q, leaf.row(q).key == key)))
      yield 'same structure', len(jax.tree_util.tree_leaves(x)) == len(h.leaves)
    if h.rng:
      k = env['rng']
      yield 'the key of the rest depends on the number of batches only', isinstance(k, Key) and k.kind == 'rest' and k.depth == L.i

  def havoc(self, L, env):
    h, c = self.h, core.ctx()
    r, ix = self.lists(env)
    i = c.int('done', 0, inp=False)
    for l in (r, ix):
      l.n, l.items, l.per = i, [], h.B
    ix.base = lambda b: Gathered(b, h.B, lambda q: h.idx(b, q))
    r.base = lambda b: h.tree(b)
    if h.rng:
      return {'rng': Key('rest', c.int('depth', 0, inp=False)), 'step_rng': None}
    return {'step_rng': None}


class Val:
  """The result row of batch b, gathered position q."""

  def __init__(self, key, b, q):
    self.key, self.b, self.q = key, b, q


class H:
  pass


def infer_fn(chk):
  m = clone(UT)
  real = dict(m.__dict__)
  import inspect
  real_step = None

  def unit(S, P, aux, rng, hosts):
    def body(c):
      h = H()
      B = S * P
      h.B, h.rng = B, rng
      h.leaves = ['out', 'aux'] if aux else ['out']
      h.sid = c.int('shard', 0)
      c.assume(h.sid < S)
      h.n = c.int('n', 1)
      mk = lambda b, k: Gathered(b, B, lambda q: Val(k, b, q))
      h.tree = lambda b: (mk(b, 'out'), {'aux': mk(b, 'aux')}) if aux else mk(b, 'out')
      # the shard q // P holds row q % P of the gathered batch; its example is
      # what that host's program reads: same term, other shard id
      var = h.sid.t if hasattr(h.sid, 't') else zint(h.sid)

      state = {}

      def step(params, batch, key, index, mut):
        if not isinstance(batch, Arr) or not isinstance(index, Arr):
          raise core.Unsupported('arguments of the partitioned step')
        c.prove('the indices and the examples are those of the same batch', AND(batch.b == index.b))
        c.prove('one row per example of the shard', AND(index.size == P, batch.size == P))
        if rng:
          c.prove('every batch has randomness of its own, whatever the sharding', isinstance(key, Key) and key.kind == 'step' and core.AND(key.depth == index.b))
        b = index.b

        def other(v, q):
          s, p = q // P, q % P
          t = zint(v(p))
          return lift(z3.substitute(t, (var, zint(s))))
        p = c.int('row', 0, inp=False)
        c.assume(p < P)
        c.prove('index and example of a row belong together', IMP(index.row(p) >= 0, batch.row(p) == index.row(p)))
        return Gathered(b, B, lambda q: other(index.row, q)), h.tree(b)

      # specification of the index array: example number or a negative number
      num = lambda b, q: (b * P + q % P) * S + q // P
      h.idx = lambda b, q: ite(num(b, q) < h.n, num(b, q), -1)
      c.user['newlist'] = GList
      part = Fake(partition=lambda f, **k: step, data_partition_spec='data', mesh=None,
                  get_data_layout=lambda bs: Fake(shard_id=h.sid, num_shards=S, batch_size=bs, is_first_host_in_replica_set=True))
      ident = lambda t, *a, **k: t
      m.jax = fake_jax(c, hosts)
      m.np = NP()
      m.jnp = StubNS(real['jnp'], array=lambda x, *a, **k: x)
      m.multihost_assert_equal = lambda *a, **k: None
      m.multihost_utils = Fake(host_local_array_to_global_array=ident, global_array_to_host_local_array=ident)
      m.__vc_rt__.loop_specs = {'get_infer_fn.infer_fn#0': BatchLoop(h)}
      try:
        f = m.get_infer_fn(lambda params, batch: None, B, Fake(params=None, flax_mutables=None), part)
        ds = DS(h.n, lambda i: (i, i))
        ts = Fake(params=None, flax_mutables=None)
        try:
          r = f(ds, ts, rng=Key('rest', 0)) if rng else f(ds, ts)
          err = None
        except ValueError as e:
          err = e
        row_of = lambda e: (e // B, ((e % B) % S) * P + (e % B) // S)
        q = c.int('example', 0, inp=False)
        c.assume(q < h.n)
        if err is not None:
          # raised when the number of results is not that of the examples:
          # by the pigeonhole principle two injections exclude it
          sel = c.user.get('sel')
          if sel is None:
            raise core.Unsupported('error before the padding is removed')
          i, j = c.int('i', 0, inp=False), c.int('j', 0, inp=False)
          c.assume(AND(i < sel.m, j < sel.m, NOT(i == j)))
          ni, nj = num(sel.B(i), sel.Q(i)), num(sel.B(j), sel.Q(j))
          c.prove('no result is lost or added: every kept row is an example, a different one each',
                  AND(ni >= 0, ni < h.n, NOT(ni == nj)))
          b, w = row_of(q)
          c.prove('no result is lost or added: the row of every example is kept', AND(
              num(b, w) == q, sel.H(b, w) >= 0, sel.H(b, w) < sel.m, sel.B(sel.H(b, w)) == b, sel.Q(sel.H(b, w)) == w))
          return
        out, av = r if aux else (r, None)
        if not isinstance(out, seq.SymSeq) or (aux and not isinstance(av, dict)):
          raise core.Unsupported('result is not a list')
        i, j = c.int('i', 0, inp=False), c.int('j', 0, inp=False)
        c.assume(AND(i < j, j < out.length))
        gi, vi = out.get(i)
        gj, _ = out.get(j)
        if not isinstance(vi, Val):
          raise core.Unsupported('result rows')
        c.prove('the results are in dataset order', gi < gj)
        c.prove('every result belongs to an example', AND(gi >= 0, gi < h.n))
        c.prove('and is the result of that example', AND(num(vi.b, vi.q) == gi, vi.b >= 0, vi.q >= 0, vi.q < B))
        if aux:
          ai = av['aux'].get(i)
          c.prove('auxiliary values are attached to the same example', AND(ai.b == vi.b, ai.q == vi.q, ai.key == 'aux'))
          c.prove('one auxiliary value per result', av['aux'].n == out.length)
        sel, perm = c.user.get('sel'), c.user.get('perm')
        if sel is None or perm is None:
          raise core.Unsupported('results are not selected and sorted')
        w = perm.H(sel.H(*row_of(q)))
        c.prove('every example has a result', AND(w >= 0, w < out.length, out.get(w)[0] == q))
        c.cover()
      finally:
        m.__dict__.update(real)
    chk.verify(f'get_infer_fn.infer_fn [{S} shards x {P} rows{", aux" if aux else ""}{", rng" if rng else ""}{", hosts" if hosts > 1 else ""}]', UT,
               'one result per example in dataset order', body, kind='bounded' if False else 'unbounded',
               assumed=['tf.data take/map/repeat/concatenate/shard/batch, numpy where/concatenate/argsort by definition',
                        'partitioned step: rows of all shards gathered in shard order', 'jax.random.split gives fresh keys'])
  for S, P in ((1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (2, 2)):
    unit(S, P, (S + P) % 2 == 1, P > 1, 1 + (S > 1 and P < 3))


# --- the real code ------------------------------------------------------------
class Exchange:
  """Hosts as threads: every host contributes its shard, all get all rows."""

  def __init__(self, hosts):
    self.hosts = hosts
    self.bar = threading.Barrier(hosts)
    self.slots = [None] * hosts

  def gather(self, h, v):
    import jax
    self.slots[h] = v
    self.bar.wait(60)
    r = jax.tree.map(lambda *x: np.concatenate(x), *self.slots)
    self.bar.wait(60)
    return r


def run_hosts(utils, step, ds, B, S, rng, keep=False):
  """infer_fn on S hosts; returns the result of each."""
  import jax
  ex = Exchange(S)
  out, errs = [None] * S, []

  def host(h):
    try:
      def partition(fn, **kw):
        def run(params, batch, key, idx, mut):
          return ex.gather(h, fn(params, batch, key, idx, mut))
        return run
      part = Fake(partition=partition, data_partition_spec='data', mesh=None,
                  get_data_layout=lambda bs: Fake(shard_id=h, num_shards=S, batch_size=bs, is_first_host_in_replica_set=True))
      f = utils.get_infer_fn(step, B, Fake(params=None, flax_mutables=None), part, **({'keep_aux_as_numpy': True} if keep else {}))
      kw = {} if rng is None else {'rng': rng}
      out[h] = f(ds, Fake(params=7, flax_mutables=None), **kw)
    except BaseException as e:  # pylint: disable=broad-except
      errs.append(e)
      ex.bar.abort()
  ts = [threading.Thread(target=host, args=(h,), daemon=True) for h in range(S)]
  for t in ts:
    t.start()
  for t in ts:
    t.join(90)
  first = [e for e in errs if not isinstance(e, threading.BrokenBarrierError)] or errs
  if first:
    raise first[0]
  return out


def search_infer(rec):
  import jax
  import tensorflow as tf
  from t5x import utils
  need(utils, 'get_infer_fn')
  rnd = random.Random(5)
  cases = [(n, B, S) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 17, 24, 25) for B, S in (
      (1, 1), (2, 1), (3, 1), (4, 1), (4, 2), (4, 4), (6, 2), (6, 3), (8, 2), (8, 4), (12, 3), (12, 4), (12, 2), (2, 2))]
  rnd.shuffle(cases)
  kinds = ('tokens', 'score', 'aux', 'tree', 'rng', 'rng aux', 'mutables')
  tok = lambda x: x['a'] * 10 + np.arange(2)[None]
  seen = {}
  for t, (n, B, S) in enumerate(cases):
    if rec.full:
      return
    for kind in ((kinds[t % 7], kinds[(t + 3) % 7])):
      def run():
        keys = []

        def note(rng):
          keys.append(tuple(np.asarray(jax.random.key_data(rng) if hasattr(jax.random, 'key_data') else rng).ravel().tolist()))
        if kind == 'tokens':
          step = lambda params, batch: tok(batch)
        elif kind == 'mutables':
          step = lambda params, batch, flax_mutables: tok(batch)
        elif kind == 'score':
          step = lambda params, batch: batch['a'][:, 0] * 0.5
        elif kind == 'aux':
          step = lambda params, batch: (tok(batch), {'s': batch['a'][:, 0] * 2, 't': {'u': batch['a'] * 3}})
        elif kind == 'tree':
          step = lambda params, batch: {'x': tok(batch), 'y': (batch['a'][:, 0], batch['a'] * 5)}
        elif kind == 'rng':
          def step(params, batch, rng):
            note(rng)
            return tok(batch)
        else:
          def step(params, batch, rng):
            note(rng)
            return tok(batch), {'s': batch['a'][:, 0] * 2}
        a = np.arange(100, 100 + n)[:, None].repeat(2, 1) if n > 1 else np.array([[7, 7]])
        ds = tf.data.Dataset.from_tensor_slices({'a': a}).enumerate()
        rng = jax.random.PRNGKey(3) if 'rng' in kind else None
        keep = (n + B) % 2 == 0
        outs = run_hosts(utils, step, ds, B, S, rng, keep)
        for h, o in enumerate(outs):
          aux = None
          if 'aux' in kind:
            if not (isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], dict)):
              return 'auxiliary values are missing'
            o, aux = o
          if [int(i) for i, _ in o] != list(range(n)):
            return f'host {h}: results for {[int(i) for i, _ in o]}, expected {n} in order'
          for i, v in o:
            x = a[i]
            want = {'tokens': (x * 10 + np.arange(2)).tolist(), 'score': x[0] * 0.5,
                    'tree': {'x': (x * 10 + np.arange(2)).tolist(), 'y': (int(x[0]), (x * 5).tolist())}}.get(kind, (x * 10 + np.arange(2)).tolist())
            if v != want and list(np.ravel(v) if not isinstance(v, dict) else [0]) != list(np.ravel(want) if not isinstance(want, dict) else [1]):
              return f'host {h}: result of example {i} is {v}, expected {want}'
          if aux is not None:
            if [float(z) for z in aux['s']] != [float(z) for z in a[:, 0] * 2]:
              return f'auxiliary values {aux["s"]}'
            if kind == 'aux' and np.asarray(aux['t']['u']).tolist() != (a * 3).tolist():
              return f'auxiliary values {aux["t"]}'
        if 'rng' in kind:
          nb = -(-n // B)
          per = sorted(set(keys))
          if len(per) != nb:
            return f'{len(per)} different keys for {nb} batches'
          if len(keys) != nb * S:
            return 'a batch was run more than once'
          if seen.setdefault(nb, per) != per:
            return 'the randomness depends on the sharding'
      rec.run({'examples': n, 'batch': B, 'shards': S, 'result': kind}, run)


def search_extract(rec):
  from t5x import infer, utils
  need(infer, '_extract_tokens_and_aux_values')
  rnd = random.Random(6)
  for i in range(1500):
    if rec.full:
      return
    n = rnd.choice((1, 2, 3, 5, 8, 12, 13))
    perm = list(range(n))
    rnd.shuffle(perm)
    toks = [[k, k * k] for k in range(n)]
    rows = [(k, toks[k]) for k in perm]
    aux = {'s': [k * 0.5 for k in perm], 't': {'u': np.array([[k, 1] for k in perm]), 'v': [{'w': k} for k in perm]}} if i % 2 else None

    def run():
      r, av = infer._extract_tokens_and_aux_values((rows, aux) if aux else rows)
      if [list(x) for x in r] != toks:
        return f'{r}, expected {toks}'
      if not aux:
        return None if not av else f'auxiliary values {av} from nowhere'
      if [float(x) for x in av['s']] != [k * 0.5 for k in range(n)]:
        return f'auxiliary values {av["s"]}'
      if [list(map(int, x)) for x in av['t']['u']] != [[k, 1] for k in range(n)]:
        return f'auxiliary values {av["t"]}'
      if [x['w'] for x in av['t']['v']] != list(range(n)):
        return f'auxiliary values {av["t"]}'
    rec.run({'order of arrival': perm, 'aux': bool(aux)}, run)
  for i in range(400):
    n = rnd.randrange(1, 12)
    idx = [k if rnd.random() < 0.7 else -1 for k in range(n)]
    rnd.shuffle(idx)
    idx = np.array(idx)

    def pad():
      inf = {'a': np.arange(n) * 3, 'b': (np.arange(2 * n).reshape(n, 2),)}
      r, x = utils._remove_padding(inf, idx)
      keep = [k for k in range(n) if idx[k] >= 0]
      if list(x) != [idx[k] for k in keep] or list(r['a']) != [3 * k for k in keep] or r['b'][0].tolist() != [[2 * k, 2 * k + 1] for k in keep]:
        return f'{x} {r}'
    rec.run({'remove padding': idx.tolist()}, pad)


def extract(chk):
  m = clone(INF)
  real = dict(m.__dict__)

  class Pairs:
    """The (index, tokens) pairs in any order."""

    def __init__(self, n, idx):
      self.n, self.idx = n, idx

    def __iter__(self):
      yield self

  class Row:

    def __init__(self, p):
      self.p = p

  def body(c, aux):
    n = c.int('n', 1)
    f = c.func('index', z3.IntSort(), z3.IntSort())
    idx = lambda p: lift(f(zint(p)))
    c.assume(forall(2, lambda i, j: IMP(AND(i >= 0, i < n, j >= 0, j < n, NOT(i == j)), NOT(idx(i) == idx(j)))))
    pairs = Pairs(n, idx)

    def zip_(*a):
      if len(a) == 1 and isinstance(a[0], Pairs):
        return Picked(n, idx, None), Picked(n, Row, None)
      return zip(*a)
    out = {}

    def sorted_(x, key=None):
      if not isinstance(x, Pairs):
        return sorted(x, key=key)
      s = seq.sort(seq.SymSeq(n, lambda p: (idx(p), Row(p))), key, False)
      q = Pairs(n, lambda j: idx(s.G(j)))
      q.rows = lambda j: Row(s.G(j))
      return q

    def zip2(*a):
      if len(a) == 1 and isinstance(a[0], Pairs):
        p = a[0]
        return Picked(n, p.idx, None), Picked(n, getattr(p, 'rows', Row), None)
      return zip(*a)
    m.zip, m.sorted, m.np = zip2, sorted_, NP()
    leafs = {'a': seq.SymSeq(n, Row), 'b': {'c': seq.SymSeq(n, Row)}}

    def tmap(*a, f=None, tree=None, is_leaf=None):
      a = list(a)
      f = f or a.pop(0)
      tree = tree if tree is not None else a.pop(0)
      rec = lambda t: {k: rec(v) for k, v in t.items()} if isinstance(t, dict) else f(t)
      return rec(tree)
    m.jax = StubNS(real['jax'], tree=Fake(map=tmap))
    try:
      toks, av = m._extract_tokens_and_aux_values((pairs, leafs) if aux else pairs)
    finally:
      m.__dict__.update(real)
      for k in ('zip', 'sorted'):
        if k in real:
          setattr(m, k, real[k])
    toks = seq.as_symseq(toks)
    if toks is None:
      raise core.Unsupported('tokens')
    i, j = c.int('i', 0, inp=False), c.int('j', 0, inp=False)
    c.assume(AND(i < j, j < n))
    c.prove('one entry per result', toks.length == n)
    c.prove('tokens are in the order of the indices', idx(toks.get(i).p) < idx(toks.get(j).p))
    if aux:
      for s in (av['a'], av['b']['c']):
        s = seq.as_symseq(s)
        c.prove('auxiliary values are permuted the same way', AND(s.get(i).p == toks.get(i).p, s.length == n))
    else:
      c.prove('no auxiliary values', not av)
    c.cover()
  for aux in (False, True):
    chk.verify(f'_extract_tokens_and_aux_values [{"aux" if aux else "tokens only"}]', INF, 'sorted by index, auxiliary values alike', lambda c, a=aux: body(c, a),
               assumed=['indices are distinct (get_infer_fn)', 'jax.tree.map, np.argsort by definition'])


def build(chk):
  infer_fn(chk)
  extract(chk)
  chk.search('inference on several hosts', '15 dataset sizes x 14 batch/shard sizes x 2 of 7 kinds of result, hosts as threads', search_infer, case_seconds=150)
  chk.search('sorting of results, removal of padding', '1500 random arrival orders, 400 paddings', search_extract)


if __name__ == '__main__':
  main('I01', build)
