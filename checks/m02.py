"""M02: device meshes use every device exactly once in the requested shape."""

import itertools
import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, exists, ctx, lift
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

P = 't5x/partitioning.py'
MP = 't5x/contrib/moe/partitioning.py'


def prod(xs):
  r = 1
  for x in xs:
    r = r * x
  return r


class ADev:
  """A device of the assumed complete grid; coordinates are symbolic."""

  def __init__(self, coords, platform='tpu', kind='TPU v4', ldc=None):
    self._c = coords
    self.platform, self.device_kind = platform, kind
    if len(coords) == 4:
      self.coords, self.core_on_chip = tuple(coords[:3]), coords[3]
    else:
      self.process_index = coords[0]
      self.id = coords[0] * ldc + coords[1]


class Devices:
  """jax.devices(): all devices of the grid, in any order."""

  def __init__(self, c, shape, **kw):
    self.shape, self.kw = shape, kw
    self.stored = 0
    n = c.int('devices', 1, inp=False)
    fs = [c.func(f'coord{a}', z3.IntSort(), z3.IntSort()) for a in range(len(shape))]

    def get(i):
      co = [core.SymInt(f(core.zint(i))) for f in fs]
      c2 = ctx()
      if not c2.in_quant:
        for x, s in zip(co, shape):
          c2.assume(AND(x >= 0, x < s))
      return ADev(co, **kw)
    self.seq = seq.SymSeq(n, get)
    self.corner = ADev([s - 1 for s in shape], **kw)
    self.origin = ADev([0 for _ in shape], **kw)

  def __bool__(self):
    return True

  def __getitem__(self, k):
    if k == -1:
      return self.corner      # stated precondition: the last device is the far corner
    if k == 0:
      return self.origin
    raise core.Unsupported('device list index')

  def __iter__(self):
    raise core.Unsupported('iteration over the devices')


class Arr:
  """A device array: dims (size, axis of the physical grid, stride)."""

  def __init__(self, dims, g):
    self.dims, self.g = dims, g

  @property
  def shape(self):
    return tuple(d[0] for d in self.dims)

  @property
  def ndim(self):
    return len(self.dims)

  def __setitem__(self, k, dev):
    if not isinstance(dev, ADev):
      raise core.Unsupported('store of something else')
    c = ctx()
    ok = len(k) == len(dev._c)
    c.prove('each device is stored at its own coordinates', AND(*[a == b for a, b in zip(k, dev._c)]) if ok else False)
    self.g.stored = self.g.stored + 1

  def swapaxes(self, a, b):
    d = list(self.dims)
    d[a], d[b] = d[b], d[a]
    return Arr(d, self.g)

  def transpose(self, *ax):
    if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
      ax = tuple(ax[0])
    ctx().prove('transpose permutes the axes', sorted(ax) == list(range(len(self.dims))))
    return Arr([self.dims[i] for i in ax], self.g)

  def reshape(self, *new):
    if len(new) == 1 and isinstance(new[0], (tuple, list)):
      new = tuple(new[0])
    c = ctx()
    if any(isinstance(x, int) and x == -1 for x in new):
      if new[0] != -1 or len(new) != 2:
        raise core.Unsupported('reshape')
      k = new[1]
      n = len(self.dims)
      for s in (n // 2, n // 4, 3 * n // 4):
        suf = self.dims[-s:] if s else []
        per = [(prod(d[0] for d in suf if d[1] == a), ms) for a, ms in enumerate(self.g.mps)]
        if self.g.quiet or all(_holds(c, x, y) for x, y in per) and _holds(c, prod(self.g.mps), k):
          return Final(self.dims[:-s], suf, k, self.g)
      raise core.Unsupported('rows of the reshaped array are not a suffix of the dimensions')
    n, m = len(self.dims), len(new)
    if m % n:
      raise core.Unsupported('reshape')
    r = m // n
    out = []
    for i, (size, ax, st) in enumerate(self.dims):
      grp = new[i * r:(i + 1) * r]
      # the same elements: numpy requires equal sizes
      if not self.g.quiet:
        c.prove('reshape keeps the number of devices along each axis', prod(grp) == size)
      strides = [st]
      for x in reversed(grp[1:]):
        strides.insert(0, strides[0] * x)
      out += [(x, ax, s) for x, s in zip(grp, strides)]
    return Arr(out, self.g)


def _holds(c, a, b):
  g = core.zint(a) != core.zint(b)
  if core.check_sat(core.relevant(c.pc, g) + [g], 3000, use_cvc5=False)[0] == 'unsat':
    return True
  r, _, _ = core.check_sat(list(c.pc) + [core.zint(a) != core.zint(b)], 8000, use_cvc5=False)
  if r == 'unsat':
    return True
  p = core.polynomial_form(list(c.pc), core.zint(a) != core.zint(b))
  return p is not None and core.check_sat(p, 8000)[0] == 'unsat'


class Final:
  def __init__(self, data, model, k, g):
    self.data, self.model, self.k, self.g = data, model, k, g

  @property
  def shape(self):
    return (prod(d[0] for d in self.data), self.k)


class Fill(LoopSpec):
  name = 'placing the devices'

  def __init__(self, g):
    self.g = g

  def inv(self, L, e):
    yield 'the first i devices are stored', lift(core.zint(self.g.stored) == core.zint(L.i))

  def havoc(self, L, e):
    self.g.stored = ctx().int('stored', 0, inp=False)
    return {}


def setup(c, m, shape, local, mps=(), quiet=False, **kw):
  import jax
  g = types.SimpleNamespace(stored=0, mps=mps, quiet=quiet)
  devs = Devices(c, shape, **kw)
  loc = Devices(c, local, **kw)
  seq_of = {id(devs): devs, id(loc): loc}

  def last(d, key):
    if not isinstance(d, Devices):
      raise core.Unsupported('sorting something else')
    probe = ADev([c.int('probe', 0, inp=False) for _ in shape], **kw)
    if len(shape) == 4:
      c.prove('devices are ordered by their coordinates', AND(*[a == b for a, b in zip(key(probe), probe._c)]))
    return d
  m.sorted = lambda d, key=None, reverse=False: _rev(last(d, key), reverse)
  m.max = lambda *a, key=None, **k: last(a[0], key).corner if a and isinstance(a[0], Devices) else m.__dict__['__vcmax'](*a, key=key, **k)
  m.jax = StubNS(jax, devices=lambda *a, **k: devs, local_devices=lambda *a, **k: loc,
                 process_count=lambda *a: shape[0], local_device_count=lambda *a: kw.get('ldc', shape[-1]))
  m.np = StubNS(np, empty=lambda s, dtype=None: Arr([(x, a, 1) for a, x in enumerate(s)], g), prod=prod)
  m.Mesh = lambda d, names: types.SimpleNamespace(devices=d, axis_names=tuple(names))
  return g, devs, loc


class _rev:
  def __init__(self, d, reverse):
    self.d, self.r = d, reverse

  def __getitem__(self, k):
    if k in (0, -1):
      return self.d.corner if (k == -1) != bool(self.r) else self.d.origin
    raise core.Unsupported('sorted devices index')


def loops(m, g):
  m.__vc_rt__.loop_specs = {'get_mesh#0': Fill(g), 'get_cpu_mesh#0': Fill(g)}


def iterable(m, devs):
  """for device in devices -> the symbolic sequence."""
  from vc import seq as sm
  old = sm.as_symseq

  def f(x):
    return x.seq if isinstance(x, Devices) else old(x)
  return patched(sm, as_symseq=f)


def check_final(c, mesh, g, devs, shape, mps):
  d = mesh.devices
  c.prove('axes are (data, model)', tuple(mesh.axis_names) == ('data', 'model'))
  if not isinstance(d, Final):
    raise core.Unsupported('mesh array')
  c.prove('every device was placed', lift(core.zint(g.stored) == core.zint(devs.seq.length)))
  c.prove('model axis has the requested size', d.k == prod(mps))
  # per physical axis: the model part is the block [0, m) and data the rest
  for a, (gs, ms) in enumerate(zip(shape, mps)):
    mine = [x for x in d.model if x[1] == a]
    rest = [x for x in d.data if x[1] == a]
    c.prove('model part of each physical axis has the requested extent', prod(x[0] for x in mine) == ms)
    c.prove('data parallelism gets the rest of each physical axis', prod(x[0] for x in rest) * ms == gs)
    ext = 1
    ok = True
    parts = sorted(mine, key=lambda x: 0)   # dims of one axis stay major to minor
    for x in reversed(parts):
      ok = AND(ok, OR(x[0] == 1, x[2] == ext))
      ext = ext * x[0]
    c.prove('a model-parallel group is a contiguous tile', ok)


def verify_get_mesh(chk):
  m = clone(P)
  m.__dict__['__vcmax'] = m.__dict__.get('max', max)

  def variant(nd, tile, z, adm=False, part=None):
    def body(c):
      # g = l*n and g = m*d per axis
      shape, local, mps, hosts = [], [], [], []
      for a in range(nd):
        l, n = c.int(f'local{a}', 1), c.int(f'hosts{a}', 1)
        s = c.int(f'size{a}', 1)
        c.assume(s == l * n)
        shape.append(s)
        local.append(l)
        hosts.append(n)
        mps.append(c.int(f'sub{a}', 1))
      facts = []
      if adm:
        for a in range(nd):
          d, k = c.int(f'd{a}', 1), c.int(f'k{a}', 1)
          m_, l_ = mps[a], local[a]
          c.assume(shape[a] == m_ * d)
          facts += [(shape[a], m_, d), (shape[a], l_, hosts[a])]
          if (part[a] if part is not None and a < len(part) else c.choose(f'axis{a}', [True, False])):
            c.assume(m_ == l_ * k)
            facts.append((m_, l_, k))
          else:
            c.assume(AND(l_ == m_ * k, l_ > m_))
            facts.append((l_, m_, k))
        facts = [f for f in facts]
        c.assume(AND(mps[-1] == shape[-1], local[-1] == shape[-1]))   # hosts own whole chips
      if part is not None:
        for a, big in enumerate(part):
          c.assume(mps[a] >= local[a] if big else mps[a] < local[a])
      if z is not None:
        gx, gy, gz, gc = shape
        mx, my, mz, mc = mps
        yz = OR(AND(mx == gx, gx > 1, my == 1, mz == 1), AND(mx == 1, my == gy, gy > 1, mz == gz, gz > 1))
        xz = OR(AND(my == gy, gy > 1, mx == 1, mz == 1), AND(my == 1, mx == gx, gx > 1, mz == gz, gz > 1))
        c.assume(OR(yz, xz) if z else NOT(OR(yz, xz)))
      kw = {} if nd == 4 else {'ldc': local[1], 'platform': 'gpu'}
      if nd == 2:
        c.assume(AND(local[0] == 1, shape[1] == local[1]))
      g, devs, loc = setup(c, m, tuple(shape), tuple(local), tuple(mps), adm, **kw)
      loops(m, g)
      with iterable(m, devs):
        try:
          mesh = m.get_mesh(tuple(mps), tile_by_host_if_needed=tile)
        except AssertionError:
          if not adm:
            c.cover()
            return
          # g = m*d for every axis, and m, l divide one another: each test of
          # the code has remainder zero
          for x, y, k in facts:
            q, r = core.divmod_t(core.zint(x), core.zint(y))
            k, y = core.zint(k), core.zint(y)
            f = r == 0
            c.prove('an admissible submesh leaves no remainder', f, hints=[IMP(k > q, (k - q) * y >= y), IMP(q > k, (q - k) * y >= y)])
            c.assume(f)
          c.prove('only inadmissible submeshes are rejected', False)
          c.cover()
          return
      if adm:
        c.cover()
        return
      for s, x in zip(shape, mps):
        c.prove('an accepted submesh divides the mesh', core.mod_t(core.zint(s), core.zint(x)) == 0)
      check_final(c, mesh, g, devs, shape, mps)
      c.cover()
    return body
  parts = list(itertools.product([True, False], repeat=2))
  for nd, tile, z, ps in ((4, True, False, parts), (4, False, False, [None]), (4, True, True, [None]), (2, True, None, [None]), (2, False, None, [None])):
    for part in ps:
      tag = '' if part is None else ', ' + ' '.join(f'{ax}:{"whole hosts" if b else "part of a host"}' for ax, b in zip('xy', part))
      chk.verify(f'get_mesh [{nd}-d grid, tile_by_host={tile}{", Z-major" if z else ""}{tag}]', P,
                 'for every complete device grid, host tile and submesh: reshapes keep all devices, model axis = submesh product, each '
                 'model group a contiguous tile; indivisible submeshes raise', variant(nd, tile, z, part=part), seconds=300,
                 assumed=['devices form a complete grid and have distinct coordinates', 'numpy reshape/transpose/swapaxes keep the elements'])
  for nd, part in [(4, p) for p in itertools.product([True, False], repeat=3)] + [(2, None)]:
    tag = '' if part is None else ', ' + ' '.join(f'{ax}:{"whole hosts" if b else "part of a host"}' for ax, b in zip('xyz', part))
    chk.verify(f'get_mesh [{nd}-d grid, admissible requests{tag}]', P, 'a submesh that divides the grid and is a factor or multiple of the host tile on '
               'every axis (and spans all cores) is never rejected', variant(nd, True, None, True, part), seconds=300)


class Larg(LoopSpec):
  name = 'search for the expert axis'

  def __init__(self, q):
    self.q = q

  def _e(self, e):
    return e['expert_axis_size']

  def inv(self, L, e):
    x = self._e(e)
    q = self.q
    yield 'between 1 and the request', AND(x >= 1, x <= q.req)
    # j, k are arbitrary but fixed: the loop never skips a size j with data = k*j
    hints = []
    if q.last is not None:
      y = core.zint(q.last)
      qq, _ = core.divmod_t(core.zint(q.data), y)
      k = core.zint(q.k)
      hints = [IMP(k > qq, (k - qq) * y >= y), IMP(qq > k, (qq - k) * y >= y)]
    yield ('no larger size divides', IMP(q.j > x, NOT(q.data == q.k * q.j)), *hints)

  def havoc(self, L, e):
    e['expert_axis_size']
    self.q.last = ctx().int('e', inp=False)
    return {'expert_axis_size': self.q.last}

  def variant(self, L, e):
    return self._e(e)


def verify_moe(chk):
  mm = clone(MP)

  def body(c):
    data, model, req = c.int('data', 1), c.int('model', 1), c.int('requested', 1)
    q = types.SimpleNamespace(data=data, req=req, last=None, j=c.int('j', 1), k=c.int('k', 1))
    c.assume(q.j <= req)
    rec = {}

    class A:
      shape = (data, model)
      ndim = 2

      def reshape(self, *s):
        if len(s) == 1:
          s = tuple(s[0])
        rec['reshape'] = s
        rec['out'] = types.SimpleNamespace(shape=s, ndim=len(s))
        return rec['out']
    args = []

    def dm(*a, **k):
      import inspect
      from t5x import partitioning as p
      args.append(dict(inspect.signature(p.default_mesh).bind(*a, **k).arguments))
      return types.SimpleNamespace(devices=A(), axis_names=('data', 'model'), shape={'data': data, 'model': model})
    from t5x import partitioning as p
    mm.base_partitioning = StubNS(p, default_mesh=dm)
    mm.Mesh = lambda d, names: types.SimpleNamespace(devices=d, axis_names=tuple(names), shape=None)
    mm.__vc_rt__.loop_specs = {'default_moe_mesh#0': Larg(q)}
    np_, mps, be = c.choose('args', [(3, None, None), (None, (1, 1, 1, 2), 'cpu')])
    mesh = mm.default_moe_mesh(req, np_, mps, be)
    got = {k: v for k, v in args[0].items() if v is not None}
    c.prove('the base mesh is built from the given arguments',
            got == {k: v for k, v in dict(num_partitions=np_, model_parallel_submesh=mps, backend=be).items() if v is not None})
    c.prove('axes are (data, expert, model)', tuple(mesh.axis_names) == ('data', 'expert', 'model'))
    s = rec.get('reshape')
    if s is None or mesh.devices is not rec['out'] or len(s) != 3:
      raise core.Unsupported('mesh array')
    e = s[1]
    c.prove('expert axis is at most the request', AND(e >= 1, e <= req))
    c.prove('expert axis divides the data axis', core.mod_t(core.zint(data), core.zint(e)) == 0)
    c.prove('it is the largest such size', IMP(q.j > e, NOT(data == q.k * q.j)))
    c.prove('model axis is kept', s[2] == model)
    c.prove('data gets the rest', OR(lift(core.zint(s[0]) == -1), s[0] * e == data))
    c.cover()
  chk.verify('default_moe_mesh', MP, 'for every base mesh and requested expert count: expert axis = largest divisor of the data axis not above '
             'the request (loop invariant + variant)', body, assumed=['default_mesh returns a (data, model) array of all devices (its own contract)'])

  def comp(c):
    x = [c.int(f's{i}', 1) for i in range(4)]
    n = c.int('n', 1)
    mm.np = StubNS(np, prod=prod)
    k = c.choose('case', ['none', 'n', 'submesh', 'both'])
    a = n if k in ('n', 'both') else None
    b = tuple(x) if k in ('submesh', 'both') else None
    try:
      r = mm.compute_num_model_partitions(a, b)
    except ValueError:
      c.prove('rejected only when nothing is given or both disagree', k == 'none' or (k == 'both' and NOT(n == prod(x))))
      c.cover()
      return
    c.prove('size of the model-parallel submesh', r == (n if a is not None else prod(x)) if k != 'none' else False)
    if k == 'both':
      c.prove('consistent requests only', n == prod(x))
    c.cover()
  chk.verify('compute_num_model_partitions', MP, 'the given size, or the product of the submesh; inconsistent or missing requests raise', comp)


def verify_default(chk):
  m = clone(P)
  m.__dict__['__vcmax'] = m.__dict__.get('max', max)

  def body(c):
    import jax
    bounds = tuple(c.int(f'b{i}', 1) for i in range(4))
    kind = c.choose('kind', ['TPU v2', 'TPU v3', 'TPU v4', 'TPU v4 lite', 'TPU v5'])
    n = c.int('num_partitions', 1)
    calls = []
    dev = ADev([b - 1 for b in bounds], kind=kind)
    m.jax = StubNS(jax, devices=lambda *a: [dev])
    m.get_mesh = lambda mps, *a, **k: calls.append((mps, a, k)) or 'mesh'
    m.np = StubNS(np, prod=prod)
    try:
      r = m.default_mesh(n, backend='be')
    except ValueError:
      known = kind in ('TPU v2', 'TPU v3') or (kind != 'TPU v5')
      std = OR(*[n == v for v in (1, 2, 4, 8, 16)])
      if kind in ('TPU v2', 'TPU v3'):
        c.prove('standard sizes have a default on TPU v2/v3', NOT(std))
      elif kind in ('TPU v4', 'TPU v4 lite'):
        c.prove('standard sizes have a default on megacore TPU v4', NOT(AND(std, bounds[3] == 1)))
      c.prove('no mesh was built', not calls)
      c.cover()
      return
    c.prove('one mesh is built and returned', len(calls) == 1 and r == 'mesh')
    mps, a, k = calls[0]
    c.prove('the submesh has exactly the requested number of partitions', prod(mps) == n)
    c.prove('the backend is passed on', k.get('backend') == 'be' or 'be' in a)
    c.cover()
  chk.verify('default_mesh [TPU]', P, 'for every topology and partition count: the chosen submesh multiplies to the requested count, or ValueError', body)

  def other(c):
    import jax
    n = c.int('n', 1)
    calls = []
    case = c.choose('case', ['submesh', 'cpu', 'gpu', 'slices'])
    dev = Fake(platform={'cpu': 'cpu', 'gpu': 'gpu'}.get(case, 'tpu'), device_kind='x', coords=(0, 0, 0), core_on_chip=0)
    devs = [dev]
    m.jax = StubNS(jax, devices=lambda *a: devs, process_count=lambda: 1, local_device_count=lambda: 1)
    m.get_mesh = lambda *a, **k: calls.append(('mesh', a, k)) or 'R'
    m.get_cpu_mesh = lambda: calls.append(('cpu',)) or 'R'
    m.get_gpu_mesh = lambda *a: calls.append(('gpu', a)) or 'R'
    m.create_hybrid_device_mesh = lambda *a, **k: calls.append(('hybrid', a, k)) or 'H'
    m.Mesh = lambda d, names: Fake(devices=d if d != 'H' else Fake(shape=()), axis_names=tuple(names), is_h=d == 'H')
    kw = {}
    if case == 'submesh':
      kw['model_parallel_submesh'] = (1, 2, 1, 1)
    if case == 'slices':
      kw.update(ici_mesh_shape=(1, 2, 3), dcn_mesh_shape=(2, 1, 1))
    r = m.default_mesh(n, **kw)
    c.prove('one construction', len(calls) == 1)
    k = calls[0]
    if case == 'submesh':
      c.prove('explicit submesh is used', k[0] == 'mesh' and k[1][0] == (1, 2, 1, 1))
    elif case == 'cpu':
      c.prove('CPU mesh', k[0] == 'cpu' and r == 'R')
    elif case == 'gpu':
      c.prove('GPU mesh of the requested size', k[0] == 'gpu' and k[1][0] is n)
    else:
      c.prove('multi-slice mesh of the requested shapes over all devices', k[0] == 'hybrid' and k[1][:2] == ((1, 2, 3), (2, 1, 1)) and
              k[2].get('devices') is devs and r.is_h and r.axis_names == ('replica', 'data', 'model'))
    c.cover()
  chk.verify('default_mesh [dispatch]', P, 'explicit submesh, CPU, GPU and multi-slice requests each build their mesh', other)

  def gpu(c):
    import jax
    L, Pn, n = c.int('local', 1), c.int('processes', 1), c.int('n', 1)
    rec = {}

    def hyb(mesh_shape=None, dcn_mesh_shape=None, **kw):
      rec.update(ici=mesh_shape, dcn=dcn_mesh_shape, kw=kw)
      # contract of jax.experimental.mesh_utils.create_hybrid_device_mesh
      if not lift(AND(prod(mesh_shape) == L, prod(dcn_mesh_shape) == Pn)):
        raise ValueError('number of devices')
      return 'H'
    m.jax = StubNS(jax, process_count=lambda: Pn, local_device_count=lambda: L, device_count=lambda: L * Pn)
    m.create_hybrid_device_mesh = hyb
    m.Mesh = lambda d, names: Fake(devices=d, axis_names=tuple(names))
    try:
      r = m.get_gpu_mesh(n)
    except (AssertionError, ValueError):
      k = c.int('k', 1)
      c.prove('a count dividing the local devices is admissible', NOT(L == k * n))
      c.prove('a multiple of the local devices that divides all devices is admissible', NOT(AND(n == k * L, core.mod_t(core.zint(Pn), core.zint(k)) == 0)))
      c.cover()
      return
    i, d = rec['ici'], rec['dcn']
    c.prove('all devices, axes data and model', r.devices == 'H' and r.axis_names == ('data', 'model') and len(i) == 2 and len(d) == 2)
    c.prove('model axis has the requested size', i[1] * d[1] == n)
    c.prove('data axis gets the rest of every host', AND(i[0] * i[1] == L, d[0] * d[1] == Pn))
    c.prove('model parallelism prefers the devices of one host', OR(d[1] == 1, i[1] == L))
    c.prove('processes are the granules', rec['kw'].get('process_is_granule') is True)
    c.cover()
  chk.verify('get_gpu_mesh', P, 'for every host count, local count and request: (data, model) sizes multiply to all devices and the request; else raises', gpu,
             assumed=['create_hybrid_device_mesh uses each device once and rejects shapes that do not match the device count'])

  def cpu(c):
    L, Pn = c.int('local', 1), c.int('processes', 1)
    g, devs, _ = setup(c, m, (Pn, L), (1, L), ldc=L, platform='cpu')
    m2 = m
    loops(m2, g)
    f = clone_fn
    with iterable(m2, devs):
      r = f(m2)()
    c.prove('axes are (data, model)', tuple(r.axis_names) == ('data', 'model'))
    c.prove('every device was placed once', lift(core.zint(g.stored) == core.zint(devs.seq.length)))
    c.prove('shape is hosts x local devices', AND(r.devices.shape[0] == Pn, r.devices.shape[1] == L))
    c.cover()
  orig = m.get_cpu_mesh
  clone_fn = lambda mod_: orig
  chk.verify('get_cpu_mesh', P, 'for every host and device count: each device at (process, local index)', cpu, assumed=['device ids are process-major'])


# ------------------------------------------------------------------ bounded
class D:
  def __init__(self, i, p, platform, kind, coords=None, core_=0):
    self.id, self.process_index, self.platform, self.device_kind = i, p, platform, kind
    self.client = types.SimpleNamespace(process_index=lambda: 0, platform=platform, runtime_type='tfrt')
    if coords is not None:
      self.coords, self.core_on_chip = coords, core_

  def __repr__(self):
    return f'D{self.id}'


def tpu(shape, local, kind='TPU v4', shuffle=None):
  hosts = [s // l for s, l in zip(shape, local)]
  devs = []
  # jax order: z-major coordinates within the slice, cores last
  for i, (z, y, x, k) in enumerate(itertools.product(*[range(shape[a]) for a in (2, 1, 0, 3)])):
    hp = [x // local[0], y // local[1], z // local[2], k // local[3]]
    devs.append(D(i, int(np.ravel_multi_index(hp[:3], hosts[:3])), 'tpu', kind, (x, y, z), k))
  if shuffle is not None:
    last = devs.pop()
    np.random.RandomState(shuffle).shuffle(devs)
    devs.append(last)
  return devs


def fake_jax(jax, devs, ldc=None):
  ps = sorted({d.process_index for d in devs})
  loc = [d for d in devs if d.process_index == 0]
  return StubNS(jax, devices=lambda *a, **k: list(devs), local_devices=lambda *a, **k: list(loc), process_count=lambda *a: len(ps),
                local_device_count=lambda *a: len(loc), process_index=lambda *a: 0, device_count=lambda *a: len(devs))


def check_mesh(mesh, devs, names, sizes, tiles=None):
  if tuple(mesh.axis_names) != tuple(names):
    return f'axes {mesh.axis_names}'
  a = mesh.devices
  ids = sorted(d.id for d in a.flat if d is not None)
  if ids != sorted(d.id for d in devs):
    return f'device ids in the mesh {ids[:20]} of {len(devs)} devices'
  if tuple(a.shape) != tuple(sizes):
    return f'mesh shape {a.shape}, requested {sizes}'
  if tiles is not None:
    for row in a.reshape(-1, a.shape[-1]):
      co = np.array([(*d.coords, d.core_on_chip) for d in row])
      ext = tuple(co.max(0) - co.min(0) + 1)
      if ext != tuple(tiles):
        return f'a model-parallel group spans {ext}, requested tile {tiles}'
  return None


def divs(n):
  return [k for k in range(1, n + 1) if n % k == 0]


def search_tpu(rec):
  import jax
  from t5x import partitioning as p
  need(p, 'get_mesh')
  grids = [((2, 2, 1, 2), (2, 2, 1, 2)), ((4, 4, 1, 2), (2, 2, 1, 2)), ((4, 2, 1, 2), (2, 2, 1, 2)), ((4, 4, 4, 1), (2, 2, 1, 1)),
           ((2, 2, 4, 1), (2, 2, 1, 1)), ((8, 2, 2, 1), (2, 2, 1, 1)), ((4, 4, 2, 2), (2, 2, 1, 2)), ((3, 6, 1, 1), (1, 3, 1, 1)),
           ((1, 1, 1, 1), (1, 1, 1, 1)), ((2, 4, 8, 1), (2, 2, 1, 1)), ((6, 4, 1, 1), (2, 2, 1, 1))]
  for shape, local in grids:
    for sh in (None, 1):
      devs = tpu(shape, local, shuffle=sh)
      subs = list(itertools.product(*[divs(s) for s in shape]))
      if sh:
        subs = subs[::3]
      for mps in subs:
        for tile in (True, False):
          def case():
            with patched(p, jax=fake_jax(jax, devs)):
              try:
                kw = {} if tile else {'tile_by_host_if_needed': False}
                mesh = p.get_mesh(mps, **kw)
              except AssertionError:
                if tile and all(m % l == 0 or l % m == 0 for m, l in zip(mps, local)) and mps[3] == shape[3]:
                  return 'admissible submesh rejected'
                return None
            return check_mesh(mesh, devs, ('data', 'model'), (int(np.prod(shape)) // int(np.prod(mps)), int(np.prod(mps))), mps)
          rec.run(['tpu', shape, local, list(mps), tile, sh], case)
        if rec.full:
          return
      for mps in ((shape[0] + 1, 1, 1, 1), (1, 5, 1, 1), (1, 1, 3, 1), (1, 1, 1, 4), (2 * shape[0], 1, 1, 1)):
        if all(s % m == 0 for s, m in zip(shape, mps)):
          continue

        def rej():
          with patched(p, jax=fake_jax(jax, devs)):
            try:
              p.get_mesh(mps)
            except (AssertionError, ValueError):
              return None
          return 'a submesh that does not divide the mesh was accepted'
        rec.run(['tpu rejects', shape, mps], rej)


def search_default(rec):
  import jax
  from t5x import partitioning as p
  need(p, 'default_mesh')
  for kind, grids in (('TPU v3', [((2, 2, 1, 2), (2, 2, 1, 2)), ((4, 4, 1, 2), (2, 2, 1, 2)), ((8, 8, 1, 2), (2, 2, 1, 2))]),
                      ('TPU v2', [((4, 4, 1, 2), (2, 2, 1, 2))]),
                      ('TPU v4', [((2, 2, 1, 1), (2, 2, 1, 1)), ((2, 2, 4, 1), (2, 2, 1, 1)), ((4, 4, 4, 1), (2, 2, 1, 1)), ((4, 4, 8, 1), (2, 2, 1, 1)),
                                  ((8, 8, 16, 1), (2, 2, 1, 1)), ((8, 4, 4, 1), (2, 2, 1, 1)), ((4, 4, 1, 1), (2, 2, 1, 1)), ((2, 2, 1, 2), (2, 2, 1, 2))]),
                      ('TPU v4 lite', [((2, 2, 1, 1), (2, 2, 1, 1)), ((4, 2, 1, 1), (2, 2, 1, 1))]),
                      ('TPU v5e', [((2, 2, 1, 1), (2, 2, 1, 1))])):
    for shape, local in grids:
      devs = tpu(shape, local, kind)
      total = int(np.prod(shape))
      for n in (1, 2, 3, 4, 5, 8, 16, 32):
        def case():
          with patched(p, jax=fake_jax(jax, devs)):
            try:
              mesh = p.default_mesh(n)
            except (ValueError, AssertionError) as e:
              v4 = kind.startswith('TPU v4') and shape[3] == 1
              if n in (1, 2) and (kind in ('TPU v2', 'TPU v3') or v4):
                return f'request for {n} partitions rejected: {str(e)[:100]}'
              return None
          return check_mesh(mesh, devs, ('data', 'model'), (total // n, n))
        rec.run(['default', kind, shape, n], case)
  # explicit submesh wins; CPU
  devs = tpu((4, 4, 1, 2), (2, 2, 1, 2))
  for mps in ((1, 1, 1, 1), (2, 2, 1, 2), (4, 1, 1, 2)):
    def case():
      with patched(p, jax=fake_jax(jax, devs)):
        mesh = p.default_mesh(16, mps)
      return check_mesh(mesh, devs, ('data', 'model'), (32 // int(np.prod(mps)), int(np.prod(mps))), mps)
    rec.run(['default with submesh', mps], case)
  for nproc in (1, 2, 3):
    for ldc in (1, 2, 4):
      cp = [D(i * ldc + j, i, 'cpu', 'cpu') for i in range(nproc) for j in range(ldc)]

      def cpu():
        with patched(p, jax=fake_jax(jax, cp)):
          mesh = p.default_mesh(1)
        r = check_mesh(mesh, cp, ('data', 'model'), (nproc, ldc))
        if r:
          return r
        for i in range(nproc):
          if any(d.process_index != i for d in mesh.devices[i]):
            return 'a row of the CPU mesh mixes hosts'
      rec.run(['cpu', nproc, ldc], cpu)

      def two():
        with patched(p, jax=fake_jax(jax, cp)):
          for a, b in itertools.product(divs(nproc), divs(ldc)):
            mesh = p.get_mesh((a, b))
            r = check_mesh(mesh, cp, ('data', 'model'), (nproc * ldc // (a * b), a * b))
            if r:
              return f'submesh {(a, b)}: {r}'
      rec.run(['2-d', nproc, ldc], two)


def search_gpu(rec):
  import jax
  from jax._src import xla_bridge as xb
  from t5x import partitioning as p
  from t5x.contrib.moe import partitioning as mp
  need(p, 'get_gpu_mesh')
  for nproc in (1, 2, 3, 4):
    for ldc in (1, 2, 4, 6):
      devs = [D(i * ldc + j, i, 'gpu', 'A100') for i in range(nproc) for j in range(ldc)]
      for n in range(1, 2 * nproc * ldc + 1):
        def case():
          ok = ldc % n == 0 or (n % ldc == 0 and nproc % (n // ldc) == 0)
          with patched(p, jax=fake_jax(jax, devs)), patched(xb, devices=lambda *a, **k: list(devs)):
            try:
              mesh = p.get_gpu_mesh(n)
            except (AssertionError, ValueError) as e:
              return f'admissible request rejected: {e}' if ok else None
          r = check_mesh(mesh, devs, ('data', 'model'), (nproc * ldc // n, n))
          if r:
            return r
          for row in mesh.devices:
            if len({d.process_index for d in row}) != max(1, n // ldc):
              return f'a model-parallel group of {n} spans hosts {sorted({d.process_index for d in row})}'
        rec.run(['gpu', nproc, ldc, n], case)
        if rec.full:
          return


def search_moe(rec):
  import jax
  from t5x import partitioning as p
  from t5x.contrib.moe import partitioning as mp
  need(mp, 'default_moe_mesh')
  for shape, local, mps_list in (((4, 4, 1, 2), (2, 2, 1, 2), [(1, 1, 1, 1), (2, 1, 1, 2), (2, 2, 1, 2), (4, 4, 1, 2)]),
                                 ((3, 2, 2, 1), (1, 1, 1, 1), [(1, 1, 1, 1), (1, 2, 1, 1), (3, 1, 1, 1)])):
    devs = tpu(shape, local)
    for mps in mps_list:
      k = int(np.prod(mps))
      data = int(np.prod(shape)) // k
      for ex in range(1, data + 6):
        def case():
          want = max(d for d in divs(data) if d <= ex)
          fj = fake_jax(jax, devs)
          with patched(p, jax=fj), patched(mp, jax=fj):
            mesh = mp.default_moe_mesh(ex, model_parallel_submesh=mps)
            base = p.default_mesh(None, mps)
          r = check_mesh(mesh, devs, ('data', 'expert', 'model'), (data // want, want, k), mps)
          if r:
            return r
        rec.run(['moe', shape, list(mps), ex], case)
        if rec.full:
          return
  cp = [D(i * 4 + j, i, 'cpu', 'cpu') for i in range(6) for j in range(4)]
  for ex in (1, 2, 3, 4, 5, 6, 7, 100):
    def cpu():
      want = max(d for d in divs(6) if d <= ex)
      fj = fake_jax(jax, cp)
      with patched(p, jax=fj), patched(mp, jax=fj):
        mesh = mp.default_moe_mesh(ex, num_partitions=1)
      return check_mesh(mesh, cp, ('data', 'expert', 'model'), (6 // want, want, 4))
    rec.run(['moe cpu', ex], cpu)

  def simple():
    fj = fake_jax(jax, cp)
    with patched(p, jax=fj), patched(mp, jax=fj):
      mesh = mp.get_cpu_mesh()
    return check_mesh(mesh, cp, ('data', 'expert', 'model'), (6, 4, 1))
  rec.run(['moe get_cpu_mesh'], simple)

  def comp():
    f = need(mp, 'compute_num_model_partitions')
    for a, b, w in ((4, None, 4), (None, (2, 1, 1, 2), 4), (4, (2, 1, 1, 2), 4), (4, (4, 2, 1, 1), None), (None, None, None), (1, (1, 1, 1, 2), None),
                    (None, (3, 2, 5, 2), 60), (2, (1, 1, 1, 1), None)):
      try:
        r = int(f(a, b))
      except ValueError:
        r = None
      if r != w:
        return f'compute_num_model_partitions({a}, {b}) = {r}'
  rec.run(['moe model partitions'], comp)


if __name__ == '__main__':
  def build(chk):
    verify_get_mesh(chk)
    verify_moe(chk)
    verify_default(chk)
    chk.search('TPU meshes', '11 grids, all dividing submeshes, host tiling on and off', search_tpu)
    chk.search('default, CPU and 2-d meshes', '15 topologies, 8 partition counts', search_default)
    chk.search('GPU meshes', 'up to 4 hosts x 6 devices, all counts', search_gpu)
    chk.search('expert meshes', '8 base meshes, all expert counts up to data size + 5', search_moe)
  main('M02', build)
