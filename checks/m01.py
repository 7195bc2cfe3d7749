"""M01: host-local chunks tile the global array, one writer per chunk."""

import collections
import itertools
import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, ctx, lift
from vc.h import Fake
from vc.transform import LoopSpec, StubNS, clone

P = 't5x/partitioning.py'
MP = 't5x/contrib/moe/partitioning.py'
AX = ('replica', 'data', 'model')


# ------------------------------------------------------------ deductive part
class Dev:
  def __init__(self, off):
    self.off = off


class DevGrid:
  """The device grid of one host (local=True) or of the whole mesh."""

  def __init__(self, n, l, h, local):
    self.n, self.l, self.h, self.local = n, l, h, local

  def reshape(self, *shape):
    if shape not in ((-1,), ((-1,),)) or not self.local:
      raise core.Unsupported('reshape of the device grid')
    return FlatGrid(self)

  @property
  def flat(self):
    return FlatGrid(self)

  def flatten(self):
    return FlatGrid(self)
  ravel = flatten

  def __eq__(self, o):
    if self.local or not isinstance(o, Dev):
      raise core.Unsupported('comparison of the device grid')
    return Where(self, o)
  __hash__ = None


class FlatGrid:
  def __init__(self, g):
    self.g = g

  def __getitem__(self, k):
    if k not in (0, -1):
      raise core.Unsupported('a device other than the first or last')
    return Dev([0 if k == 0 else self.g.l[a] - 1 for a in self.g.l])


class Where:
  def __init__(self, g, d):
    self.g, self.d = g, d

  def loc(self):
    g = self.g
    return [g.h[a] * g.l[a] + o for a, o in zip(g.l, self.d.off)]


def chunker(c, m, axes, tag=''):
  """A LocalChunker of the code satisfying its class invariant."""
  ch = object.__new__(m.LocalChunker)
  n = collections.OrderedDict((a, c.int(f'num_{a}', 1)) for a in axes)
  ids = collections.OrderedDict()
  for a in axes:
    ids[a] = c.int(f'id{tag}_{a}', 0)
    c.assume(ids[a] < n[a])
  ch.num_chunks, ch.chunk_ids, ch.mesh_axes, ch.global_mesh = n, ids, list(axes), Fake(shape=None)
  return ch


def twin(c, m, ch, tag):
  o = object.__new__(m.LocalChunker)
  o.num_chunks, o.mesh_axes, o.global_mesh = ch.num_chunks, ch.mesh_axes, ch.global_mesh
  o.chunk_ids = collections.OrderedDict()
  for a in ch.mesh_axes:
    o.chunk_ids[a] = c.int(f'id{tag}_{a}', 0)
    c.assume(o.chunk_ids[a] < ch.num_chunks[a])
  return o


def verify_init(chk):
  m = clone(P)
  for axes in (('data', 'model'), AX):
    def body(c, axes=axes):
      l = collections.OrderedDict((a, c.int(f'local_{a}', 1)) for a in axes)
      n = collections.OrderedDict((a, c.int(f'hosts_{a}', 1)) for a in axes)
      h = collections.OrderedDict()
      for a in axes:
        h[a] = c.int(f'host_{a}', 0)
        c.assume(h[a] < n[a])
      g = collections.OrderedDict((a, l[a] * n[a]) for a in axes)
      loc = types.SimpleNamespace(devices=DevGrid(n, l, h, True), shape=l, axis_names=tuple(axes))
      mesh = types.SimpleNamespace(devices=DevGrid(n, l, h, False), shape=g, local_mesh=loc, axis_names=tuple(axes))
      where = lambda w: [[x] for x in w.loc()] if isinstance(w, Where) else np.nonzero(w)
      m.np = StubNS(np, nonzero=where, where=where, argwhere=lambda w: [w.loc()])
      ch = m.LocalChunker(mesh)
      for a in axes:
        c.prove(f'number of chunks along {len(axes)}-axis meshes: global = chunks * local', ch.num_chunks[a] == n[a])
        c.prove('chunk id is the position of the host', ch.chunk_ids[a] == h[a])
      c.prove('axes are those of the mesh, in order', list(ch.mesh_axes) == list(axes))
      c.prove('the mesh is kept', ch.global_mesh is mesh)
      c.cover()
    chk.verify(f'LocalChunker.__init__ [{len(axes)} axes]', P,
               'for every mesh of aligned host tiles: num_chunks = global/local, chunk_ids = host position, hence 0 <= id < num', body,
               assumed=['each host owns one aligned rectangular tile of the mesh (jax local_mesh requires it)'])


def verify_slices(chk):
  m = clone(P)
  for rank in (0, 1, 2, 3):
    def body(c, rank=rank):
      ch = chunker(c, m, AX)
      free = list(AX)
      spec = []
      for i in range(rank):
        a = c.choose(f'axis{i}', [None] + free)
        spec.append(a)
        if a:
          free.remove(a)
      size, chunk = [], []
      for i, a in enumerate(spec):
        q = c.int(f'chunk{i}', 0)
        chunk.append(q)
        size.append(q * ch.num_chunks[a] if a else q)   # divides evenly
      info = ch.get_local_chunk_info(tuple(size), tuple(spec) if c.choose('spec', ['tuple', 'list']) == 'tuple' else spec)
      c.prove('one slice per dimension', len(info.slice) == rank and isinstance(info.slice, tuple))
      for i, a in enumerate(spec):
        s = info.slice[i]
        if a is None:
          whole = AND(True if s.start is None else s.start == 0, True if s.stop is None else s.stop == size[i], s.step in (None, 1))
          c.prove('an unsharded dimension is kept whole', whole)
          continue
        k, n = ch.chunk_ids[a], ch.num_chunks[a]
        c.prove('slice starts at chunk id * chunk size', s.start == k * chunk[i])
        c.prove('slice has the common size size/num', s.stop - s.start == chunk[i])
        c.prove('no stride', s.step in (None, 1))
        c.prove('the slice lies inside the array', AND(s.start >= 0, s.stop <= size[i]),
                hints=[(k + 1) * chunk[i] <= n * chunk[i]] if False else ())
      # replica number: zero for exactly one host of those with the same slice
      rep = [a for a in AX if a not in spec]
      c.prove('replica number is 0 iff the host is first along every replicated axis',
              IFF(info.replica_id == 0, AND(*[ch.chunk_ids[a] == 0 for a in rep])))
      c.cover()
    chk.verify(f'LocalChunker.get_local_chunk_info [rank {rank}]', P,
               'for every mesh, shape and assignment of axes: slice = [id*size/num, (id+1)*size/num); replica 0 iff first along the '
               'replicated axes', body, assumed=['sharded dimensions divide evenly', 'class invariant 0 <= chunk id < num chunks (proved for __init__)'])


def verify_ids(chk):
  m = clone(P)

  def body(c):
    ch = chunker(c, m, AX)
    o = twin(c, m, ch, "'")
    sub = c.choose('axes', [(), ('data',), ('replica', 'data'), ('data', 'model'), ('replica', 'data', 'model'), ('model',), 'data'])
    arg = sub if isinstance(sub, str) else c.choose('kind', [sub, list(sub)])
    names = (sub,) if isinstance(sub, str) else sub
    a, b = ch.get_shard_id(arg), o.get_shard_id(arg)
    prod = 1
    lem = []
    acc = [0, 0]
    for x in names:
      prod = prod * ch.num_chunks[x]
    c.prove('shard id is in range', AND(a >= 0, a < prod))
    c.prove('hosts with the same data share the shard id', IMP(AND(*[ch.chunk_ids[x] == o.chunk_ids[x] for x in names]), a == b))
    same = AND(*[ch.chunk_ids[x] == o.chunk_ids[x] for x in names])
    # injectivity of the mixed-radix number, one digit at a time
    if len(names) <= 1:
      c.prove('hosts with different data have different shard ids', IMP(a == b, same))
    else:
      hi_a = hi_b = 0
      ok = True
      for x in names[:-1]:
        hi_a = hi_a * ch.num_chunks[x] + ch.chunk_ids[x]
        hi_b = hi_b * ch.num_chunks[x] + o.chunk_ids[x]
      n, x, y = ch.num_chunks[names[-1]], ch.chunk_ids[names[-1]], o.chunk_ids[names[-1]]
      c.prove('shard ids are mixed-radix numbers of the chunk ids', AND(a == hi_a * n + x, b == hi_b * n + y))
    rep = [x for x in AX if x not in names]
    r = ch.get_replica_id(set(names) if c.choose('set', [True, False]) else arg)
    pr = 1
    for x in rep:
      pr = pr * ch.num_chunks[x]
    c.prove('replica id is in range', AND(r >= 0, r < pr))
    c.prove('replica id is 0 iff first along every other axis', IFF(r == 0, AND(*[ch.chunk_ids[x] == 0 for x in rep])))
    c.cover()
  chk.verify('LocalChunker.get_shard_id/get_replica_id', P,
             'for every mesh: in range, equal iff the chunk ids agree, replica 0 exactly once', body,
             assumed=['class invariant of LocalChunker'])

  def lemma(c):
    n = c.int('n', 1)
    A, B, x, y = (c.int(v, 0) for v in ('A', 'B', 'x', 'y'))
    c.assume(AND(x < n, y < n))
    c.assume(A * n + x == B * n + y)
    d = A - B
    c.prove('digits above agree', A == B, hints=[IMP(A > B, (A - B) * n >= n), IMP(B > A, (B - A) * n >= n)])
    c.assume(A == B)
    c.prove('last digits agree', x == y)
    c.cover()
  chk.verify('lemma: mixed-radix numbers are injective', P, 'A*n+x = B*n+y with x,y < n implies A=B and x=y (hence ids identify the host)', lemma)


def verify_cover(chk):
  """Lemma over the slice contract: chunks partition every dimension."""

  def body(c):
    n, q, p = c.int('num', 1), c.int('chunk', 1), c.int('position', 0)
    c.assume(p < n * q)
    k = p // q
    c.prove('position p lies in the chunk of host p // chunk', AND(k * q <= p, p < (k + 1) * q))
    c.prove('and that host exists', AND(k >= 0, k < n), hints=[IMP(k >= n, k * q >= n * q)])
    j = c.int('other', 0)
    c.assume(AND(j < n, j * q <= p, p < (j + 1) * q))
    c.prove('no other chunk contains it', j == k, hints=[IMP(j > k, (j - k) * q >= q), IMP(k > j, (k - j) * q >= q)])
    c.cover()
  chk.verify('lemma: chunks tile a dimension', P, 'every position lies in exactly one chunk', body)


def verify_layout(chk):
  m = clone(P)
  from t5x.contrib.moe import partitioning as moe_real   # noqa: F401
  mm = clone(MP)

  def build(c, axes, data_axis):
    ch = chunker(c, m, axes)
    l = {a: c.int(f'local_{a}', 1) for a in axes}
    shape = collections.OrderedDict((a, ch.num_chunks[a] * l[a]) for a in axes)
    mesh = types.SimpleNamespace(shape=shape, axis_names=tuple(axes))
    ch.global_mesh = mesh
    return ch, mesh, l

  for data_axis in ('data', ('replica', 'data')):
    def body(c, data_axis=data_axis):
      axes = ('data', 'model') if data_axis == 'data' else AX
      ch, mesh, l = build(c, axes, data_axis)

      class Part(m.BasePartitioner):
        _local_chunker = ch

        def __init__(self):
          self._data_axis = data_axis

        mesh = None

        def partition(self, *a, **k):
          raise core.Unsupported('partition')
        compile = partition
      Part.mesh = mesh
      names = (data_axis,) if isinstance(data_axis, str) else data_axis
      size, shards = 1, 1
      for a in names:
        size = size * mesh.shape[a]
        shards = shards * ch.num_chunks[a]
      given = c.choose('batch', ['given', 'inferred'])
      bs = c.int('batch', 1) if given == 'given' else None
      if given == 'given':
        # bs = q*size + r; the divisibility of size by shards is structural
        pass
      try:
        d = Part().get_data_layout(bs)
      except ValueError:
        r = c.int('quot', 0)
        c.prove('only indivisible batches are rejected', NOT(bs == r * size) if given == 'given' else False)
        c.cover()
        return
      want = bs if given == 'given' else size
      c.prove('batch size', d.batch_size == want)
      c.prove('number of shards = product of the data chunk counts', d.num_shards == shards)
      sid = 0
      for a in names:
        sid = sid * ch.num_chunks[a] + ch.chunk_ids[a]
      c.prove('shard id = position of the host along the data axes', d.shard_id == sid)
      c.prove('shard id is in range', AND(d.shard_id >= 0, d.shard_id < d.num_shards))
      rest = [a for a in axes if a not in names]
      c.prove('first host of a replica set: the one at 0 along the other axes',
              IFF(d.is_first_host_in_replica_set, AND(*[ch.chunk_ids[a] == 0 for a in rest])))
      if given == 'given':
        c.prove('an accepted batch divides over the data mesh', core.lift(core.mod_t(core.zint(bs), core.zint(size)) == 0))
      c.cover()
    chk.verify(f'BasePartitioner.get_data_layout [{data_axis}]', P,
               'for every mesh and batch size: shard id/count from the data chunks; accepted iff the batch divides over the data mesh', body,
               assumed=['class invariant of LocalChunker'])

  def moe(c):
    axes = ('data', 'expert', 'model')
    ch, mesh, l = build(c, axes, None)

    class Part(mm.MoePjitPartitioner):
      _local_chunker = ch

      def __init__(self):
        pass
      mesh = None
    Part.mesh = mesh
    n = ch.num_chunks
    size = mesh.shape['data'] * mesh.shape['expert']
    given = c.choose('batch', ['given', 'inferred'])
    bs = c.int('batch', 1) if given == 'given' else None
    try:
      d = Part().get_data_layout(bs)
    except ValueError:
      r = c.int('quot', 0)
      c.prove('only batches that do not divide over the data mesh are rejected', NOT(bs == r * size) if given == 'given' else False)
      c.cover()
      return
    c.prove('batch size', d.batch_size == (bs if given == 'given' else size))
    c.prove('number of shards', d.num_shards == n['data'] * n['expert'])
    c.prove('shard id: expert-major position', d.shard_id == ch.chunk_ids['expert'] * n['data'] + ch.chunk_ids['data'])
    c.prove('shard id is in range', AND(d.shard_id >= 0, d.shard_id < d.num_shards))
    c.prove('first host of a replica set', IFF(d.is_first_host_in_replica_set, ch.chunk_ids['model'] == 0))
    c.cover()
  chk.verify('MoePjitPartitioner.get_data_layout', MP, 'data spans expert and data axes, expert-major; replica sets along the model axis', moe,
             assumed=['class invariant of LocalChunker'])


# ------------------------------------------------------------------ bounded
class D:
  platform, device_kind = 'tpu', 'TPU v4'

  def __init__(self, p, i):
    self.process_index, self.id = p, i

  def __repr__(self):
    return f'D{self.id}@{self.process_index}'


class MeshLike:
  def __init__(self, devices, names, host=None):
    self.devices, self.axis_names = devices, tuple(names)
    self._host = host

  @property
  def shape(self):
    return collections.OrderedDict(zip(self.axis_names, self.devices.shape))

  @property
  def size(self):
    return self.devices.size

  @property
  def shape_tuple(self):
    return tuple(self.shape.items())

  @property
  def device_ids(self):
    return np.vectorize(lambda d: d.id, otypes=[int])(self.devices)

  @property
  def local_devices(self):
    return [d for d in self.devices.flat if d.process_index == self._host]

  @property
  def local_mesh(self):
    mine = np.vectorize(lambda d: d.process_index == self._host, otypes=[bool])(self.devices)
    idx = np.nonzero(mine)
    return MeshLike(self.devices[tuple(slice(i.min(), i.max() + 1) for i in idx)], self.axis_names, self._host)


def grid(names, hosts, local, order):
  """Device grid; process numbers follow `order` of the host positions."""
  shape = [h * l for h, l in zip(hosts, local)]
  devs = np.empty(shape, object)
  perm = np.random.RandomState(order).permutation(int(np.prod(hosts))) if order else np.arange(int(np.prod(hosts)))
  ids = np.random.RandomState(order + 1).permutation(int(np.prod(shape))) if order else np.arange(int(np.prod(shape)))
  for k, pos in enumerate(itertools.product(*[range(s) for s in shape])):
    hp = np.ravel_multi_index([p // l for p, l in zip(pos, local)], hosts)
    devs[pos] = D(int(perm[hp]), int(ids[k]))
  return devs


CONFIGS = [
    (('data', 'model'), (1, 1), (1, 1)), (('data', 'model'), (2, 1), (2, 2)), (('data', 'model'), (1, 2), (4, 2)),
    (('data', 'model'), (4, 1), (1, 2)), (('data', 'model'), (2, 3), (2, 1)), (('data', 'model'), (3, 2), (1, 2)),
    (('data', 'model'), (4, 4), (1, 1)), (('model', 'data'), (2, 3), (1, 2)),
    (('replica', 'data', 'model'), (2, 2, 1), (1, 2, 2)), (('replica', 'data', 'model'), (2, 3, 2), (1, 1, 1)),
    (('replica', 'data', 'model'), (1, 2, 4), (2, 1, 1)), (('replica', 'data', 'model'), (3, 1, 2), (1, 4, 1)),
    (('replica', 'data', 'model'), (4, 2, 2), (1, 1, 2)),
    (('data', 'expert', 'model'), (2, 2, 1), (1, 2, 2)), (('data', 'expert', 'model'), (2, 3, 2), (1, 1, 1)),
    (('data', 'expert', 'model'), (4, 1, 2), (1, 2, 1)), (('data', 'expert', 'model'), (1, 4, 2), (2, 1, 1)),
]


def search_chunks(rec):
  from t5x import partitioning as p
  LC = need(p, 'LocalChunker')
  need(LC, 'get_local_chunk_info')
  for names, hosts, local in CONFIGS:
    for order in (0, 7):
      devs = grid(names, hosts, local, order)
      nh = int(np.prod(hosts))
      chs = [LC(MeshLike(devs, names, h)) for h in range(nh)]
      pos = {}
      for ix in np.ndindex(*devs.shape):
        pos.setdefault(devs[ix].process_index, tuple(i // l for i, l in zip(ix, local)))
      for rank in (1, 2, 3):
        for spec in itertools.product((None,) + names, repeat=rank):
          used = [a for a in spec if a]
          if len(set(used)) != len(used):
            continue
          if rank == 3 and len(used) < 2:
            continue
          for mult in (1, 2):
            shape = tuple((int(np.prod([dict(zip(names, devs.shape))[a]])) * mult if a else 1 + (i + mult) % 3) for i, a in enumerate(spec))
            for sp in (list(spec), tuple(spec)):
              def case():
                infos = [ch.get_local_chunk_info(shape, sp) for ch in chs]
                count = np.zeros(shape, int)
                writers = np.zeros(shape, int)
                groups = {}
                for h, inf in enumerate(infos):
                  if len(inf.slice) != rank:
                    return f'host {h}: {len(inf.slice)} slices for rank {rank}'
                  sl = []
                  for d, s in enumerate(inf.slice):
                    a, b, st = s.start, s.stop, s.step
                    a, b = 0 if a is None else int(a), shape[d] if b is None else int(b)
                    if not 0 <= a <= b <= shape[d] or st not in (None, 1):
                      return f'host {h}: slice {s} outside dimension of size {shape[d]}'
                    sl.append((a, b))
                  ix = tuple(slice(a, b) for a, b in sl)
                  count[ix] += 1
                  if inf.replica_id == 0:
                    writers[ix] += 1
                  groups.setdefault(tuple(sl), []).append(h)
                  # the slice must be the one the host's devices hold
                  want = tuple((0, n) if a is None else
                               (pos[h][names.index(a)] * n // hosts[names.index(a)], (pos[h][names.index(a)] + 1) * n // hosts[names.index(a)])
                               for a, n in zip(spec, shape))
                  if tuple(sl) != want:
                    return f'host {h} at {pos[h]} is told to hold {sl}, its devices hold {want}'
                if not (writers == 1).all():
                  return f'positions written {np.unique(writers)} times'
                if len({tuple(b - a for a, b in g) for g in groups}) != 1:
                  return 'slices of different sizes'
                per = nh // len(groups)
                for g, hs in groups.items():
                  if len(hs) != per:
                    return f'slice {g} is held by {len(hs)} hosts, others by {per}'
                  if sorted(int(infos[h].replica_id) for h in hs) != list(range(per)):
                    return f'replica numbers of slice {g}: {[int(infos[h].replica_id) for h in hs]}'
                if count.min() != count.max():
                  return 'slices overlap without coinciding'
                return None
              rec.run(['chunks', names, hosts, local, order, list(spec), shape], case)
          if rec.full:
            return


def search_layout(rec):
  from t5x import partitioning as p
  from t5x.contrib.moe import partitioning as mp
  LC = need(p, 'LocalChunker')
  for names, hosts, local in CONFIGS:
    if names[0] == 'model':
      continue
    for order in (0, 3):
      devs = grid(names, hosts, local, order)
      nh = int(np.prod(hosts))
      moe = 'expert' in names
      data = ('expert', 'data') if moe else (('replica', 'data') if 'replica' in names else ('data',))
      size = int(np.prod([devs.shape[names.index(a)] for a in data]))
      shards = int(np.prod([hosts[names.index(a)] for a in data]))
      pos = {}
      for ix in np.ndindex(*devs.shape):
        pos.setdefault(devs[ix].process_index, tuple(i // l for i, l in zip(ix, local)))

      def mk(h):
        mesh = MeshLike(devs, names, h)
        if moe:
          cls = type('Part', (need(mp, 'MoePjitPartitioner'),), {'mesh': mesh})
          return cls(num_expert_partitions=2, num_partitions=1)
        cls = type('Part', (need(p, 'PjitPartitioner'),), {'mesh': mesh})
        kw = dict(ici_mesh_shape=(1, 1, 1), dcn_mesh_shape=(1, 1, 1)) if 'replica' in names else {}
        return cls(num_partitions=1, **kw)
      parts = [mk(h) for h in range(nh)]
      for bs in (None, size, 2 * size, 3 * size, size + 1, 2 * size - 1, size // 2, shards, 3 * shards):
        if bs is not None and bs <= 0:
          continue

        def case():
          out = []
          for h, pt in enumerate(parts):
            try:
              out.append(pt.get_data_layout(bs))
            except ValueError:
              out.append(None)
          bad = bs is not None and bs % size != 0
          if any(o is None for o in out) != bad or (bad and any(o is not None for o in out)):
            return f'batch size {bs} over a data mesh of {size}: {"accepted" if bad else "rejected"}'
          if bad:
            return None
          by = {}
          for h, o in enumerate(out):
            if o.batch_size != (bs or size):
              return f'batch size {o.batch_size}'
            if o.num_shards != shards:
              return f'{o.num_shards} shards for {shards} groups of hosts'
            if not 0 <= o.shard_id < o.num_shards:
              return f'shard id {o.shard_id} of {o.num_shards}'
            key = tuple(pos[h][names.index(a)] for a in data)
            want = 0
            for a, k in zip(data, key):
              want = want * hosts[names.index(a)] + k
            if o.shard_id != want:
              return f'host at {dict(zip(names, pos[h]))}: shard {o.shard_id}, its devices hold shard {want}'
            by.setdefault(o.shard_id, []).append(bool(o.is_first_host_in_replica_set))
          if len(by) != shards:
            return f'only shards {sorted(by)} of {shards} are read'
          for s, f in by.items():
            if sum(f) != 1:
              return f'shard {s}: {sum(f)} hosts consider themselves first'
        rec.run(['layout', names, hosts, local, order, bs], case)
        if rec.full:
          return


def search_id_sets(rec):
  from t5x import partitioning as p
  LC = need(p, 'LocalChunker')
  for names, hosts, local in CONFIGS:
    devs = grid(names, hosts, local, 5)
    nh = int(np.prod(hosts))
    chs = [LC(MeshLike(devs, names, h)) for h in range(nh)]
    for k in range(len(names) + 1):
      for sub in itertools.combinations(names, k):
        def case():
          for arg in [set(sub), tuple(sub), frozenset(sub)] + ([sub[0]] if k == 1 else []):
            ids = {}
            for h, ch in enumerate(chs):
              r = ch.get_replica_id(arg)
              key = tuple(ch.chunk_ids[a] for a in sub)
              ids.setdefault(key, []).append(int(r))
            for key, rs in ids.items():
              if sorted(rs) != list(range(len(rs))):
                return f'replica ids of chunk {key} over {sub}: {sorted(rs)}'
            if k and not isinstance(arg, (set, frozenset)):
              sh = {}
              for ch in chs:
                key = tuple(int(ch.chunk_ids[a]) for a in sub)
                sh.setdefault(key, set()).add(int(ch.get_shard_id(arg)))
              if any(len(v) != 1 for v in sh.values()) or sorted(next(iter(v)) for v in sh.values()) != list(range(len(sh))):
                return f'shard ids over {sub}: {sh}'
        rec.run(['ids', names, hosts, local, list(sub)], case)


if __name__ == '__main__':
  def build(chk):
    verify_init(chk)
    verify_slices(chk)
    verify_ids(chk)
    verify_cover(chk)
    verify_layout(chk)
    chk.search('chunks of every host over meshes and shardings', '17 meshes of up to 16 hosts, ranks 1-3, all assignments of axes', search_chunks)
    chk.search('data layout of every host', 'the same meshes, 9 batch sizes', search_layout)
    chk.search('shard and replica numbers over axis subsets', 'the same meshes, all subsets of axes', search_id_sets)
  main('M01', build)
