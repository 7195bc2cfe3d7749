"""C04: chunk shapes tile arrays; stored array locations survive relocation."""

import copy
import itertools
import os
import random

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq, strs, ck
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, lift, forall
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

F = 't5x/checkpoints.py'


def _prod(xs):
  t = 1
  for x in xs:
    t = t * x
  return t


# ------------------------------------------------------------ deductive part
def chunks(chk):
  m = clone(F)

  class Split(LoopSpec):
    name = 'splitting loop'

    def applies(self, L, env):
      d = env['dim_factors']
      return L.kind == 'while' and isinstance(d, list) and all(isinstance(x, seq.SymSeq) for x in d)

    def inv(self, L, env):
      fs = env['dim_factors']
      for f in fs:
        if not hasattr(f, 'orig'):
          f.orig = seq.SymSeq(f.length, f.get)
      last = lambda f: f.orig.get(f.length - 1)
      yield 'every dimension keeps at least one divisor', AND(*[AND(f.length >= 1, f.length <= f.orig.length) for f in fs], True)
      tot = lambda sub: _prod([f.orig.get(f.length) if i == sub else last(f) for i, f in enumerate(fs)])
      untouched = AND(*[f.length == f.orig.length for f in fs], True)
      yield 'no split was superfluous', OR(untouched, *[AND(f.length < f.orig.length, tot(i) > env['target_elements']) for i, f in enumerate(fs)])

    def havoc(self, L, env):
      c = core.ctx()
      new = []
      for f in env['dim_factors']:
        g = seq.SymSeq(c.int('kept', inp=False), f.orig.get)
        g.orig = f.orig
        new.append(g)
      # the list object is shared with the closure: keep its identity
      env['dim_factors'][:] = new
      return {}

    def variant(self, L, env):
      t = 0
      for f in env['dim_factors']:
        t = t + f.length
      return t

  m.__vc_rt__.loop_specs = {'_choose_chunk_shape#0': Split(), '_choose_chunk_shape#1': Split()}

  def body(c, rank):
    sizes = [c.int(f'size{i}', 1) for i in range(rank)]
    target = c.int('target_elements', 1)
    r = m._choose_chunk_shape(list(sizes), target)
    c.prove('one chunk size per dimension', len(r) == rank)
    for x, n in zip(r, sizes):
      c.prove('the chunk size divides the dimension', AND(x >= 1, core.lift(core.divmod_t(core.zint(n), core.zint(x))[1] == 0)))
    t = _prod(r)
    c.prove('a chunk has at most the requested number of elements', t <= target)
    c.cover()
  # every loop of the function: the one over dim_factors is cut, loops over
  # concrete ranges (rank) unroll.
  for rank in (0, 1, 2, 3):
    chk.verify(f'_choose_chunk_shape [rank {rank}]', F,
               'each chunk size divides its dimension, the chunk has at most target elements, no superfluous split; terminates', lambda c, rank=rank: body(c, rank),
               seconds=200, kind=f'rank {rank}, every size and target')


def paths(chk):
  m = clone(F, overrides={'os': strs.OS, 're': strs.RE})
  opq = lambda n: type('Opaque', (), {'__repr__': lambda s: n, '__deepcopy__': lambda s, memo: s})()

  def spec(c, fmt, driver):
    path = strs.atom(c, 'path0', without='/', lo=1, hi=1) + strs.atom(c, 'path')
    d = {'driver': 'zarr', 'dtype': opq('dtype'), 'metadata': opq('metadata'), 'context': opq('context')}
    d['kvstore'] = {'driver': driver, 'extra': opq('extra')}
    if driver == 'gcs':
      d['kvstore']['bucket'] = 't5x-dummy-bucket'
    (d['kvstore'] if fmt == 'new' else d)['path'] = path
    return d, path

  def rel(c, fmt, cloud):
    # a file system path, or gs://bucket/dir
    if cloud:
      bucket = strs.atom(c, 'bucket', without='/')
      rest = strs.any_dir(c, 'ckpt_dir')
      full = 'gs://' + bucket + '/' + rest
    else:
      head = strs.not_prefixed(c, 'ckpt_dir', 'gs://')
      # a proper prefix of gs:// stands alone, anything else goes on freely
      full = rest = head
      if strs.is_sym(head) and c.choose('continues', [True, False]):
        full = rest = head + strs.any_dir(c, 'more', empty=False)
    d, path = spec(c, fmt, 'gcs' if cloud else 'file')
    before = {k: v for k, v in d.items() if k not in ('kvstore', 'path')}
    kbefore = {k: v for k, v in d['kvstore'].items() if k not in ('path', 'bucket')}
    m._update_ts_path_from_relative_to_absolute(full, d)
    got = (d['kvstore'] if fmt == 'new' else d)['path']
    c.prove('the array lies under the checkpoint directory', got.startswith(rest))
    want = strs.Path.join(rest, path)
    c.prove('the location is the joined path', got == want)
    c.prove('every other field is kept', all(d.get(k) is v for k, v in before.items()) and
            set(d) == set(before) | {'kvstore'} | ({'path'} if fmt == 'old' else set()))
    c.prove('every other store field is kept', all(d['kvstore'].get(k) is v or d['kvstore'].get(k) == v for k, v in kbefore.items()))
    if cloud:
      c.prove('the bucket is that of the directory', d['kvstore']['bucket'] == bucket)
      c.prove('no other store field appears', set(d['kvstore']) == set(kbefore) | {'bucket'} | ({'path'} if fmt == 'new' else set()))
    else:
      c.prove('no other store field appears', set(d['kvstore']) == set(kbefore) | ({'path'} if fmt == 'new' else set()))
    c.cover()
  for fmt in ('new', 'old'):
    for cloud in (False, True):
      chk.verify(f'_update_ts_path_from_relative_to_absolute [{fmt} format, {"gs://" if cloud else "file"}]', F,
                 'joins the directory and the stored relative path, sets the bucket, keeps every other field, for all names',
                 lambda c, fmt=fmt, cloud=cloud: rel(c, fmt, cloud), seconds=120,
                 assumed=['re.fullmatch and posixpath.join by their definitions (vc/strs.py)'])

  def wrong(c):
    bucket, rest = strs.atom(c, 'bucket', without='/'), strs.atom(c, 'dir')
    d, path = spec(c, 'new', 'file')
    try:
      m._update_ts_path_from_relative_to_absolute('gs://' + bucket + '/' + rest, d)
      ok = False
    except ValueError:
      ok = True
    c.prove('a file description under a cloud directory is rejected', ok)
    d2 = {'driver': 'zarr', 'kvstore': {'driver': 'file'}}
    try:
      m._update_ts_path_from_relative_to_absolute('/d', d2)
      ok = False
    except ValueError:
      ok = True
    c.prove('a description without a path is rejected', ok)
    c.cover()
  chk.verify('_update_ts_path_from_relative_to_absolute [rejected descriptions]', F, 'mismatching or incomplete descriptions raise ValueError', wrong)

  def leaf(c, which):
    """The function applied to one leaf of the contents, and its leaf test."""
    box = {}

    def tree_map(f, tree, *rest, is_leaf=None):
      box['f'], box['is_leaf'], box['tree'] = f, is_leaf, tree
      return 'mapped'
    src = c.choose('driver', ['file', 'gfile', 'gcs', 'memory'])
    fn = m._maybe_update_ts_from_file_to_gcs if which == 'gcs' else m._maybe_update_ts_from_gcs_to_file
    contents = object()
    with patched(m, jax=StubNS(m.jax, tree_util=StubNS(m.jax.tree_util, tree_map=tree_map), tree=StubNS(m.jax.tree, map=tree_map))):
      r = fn(contents)
    if 'f' not in box:
      raise core.Unsupported('not a single tree map')
    c.prove('the contents are mapped', r == 'mapped' and box['tree'] is contents)
    f, isl = box['f'], box['is_leaf']
    d, path = spec(c, 'new', src)
    del d['kvstore']['extra']
    c.prove('an array description is one leaf', bool(isl(d)))
    c.prove('sub-trees are entered', not isl({'a': 1, 'b': {}}) and not isl({}))
    for x in (opq('array'), 3, None, 'text', np.ones(2)):
      c.prove('entries that are not arrays stores are leaves left alone', bool(isl(x)) and f(x) is x)
    keep = {k: v for k, v in d.items() if k != 'kvstore'}
    try:
      g = f(d)
      ok = True
    except ValueError:
      ok = False
    c.prove('an unknown store is rejected', ok == (src != 'memory'))
    if not ok:
      c.cover()
      return
    c.prove('the location is preserved', g['kvstore']['path'] == path)
    c.prove('every other field is kept', set(g) == set(keep) | {'kvstore'} and all(g[k] is v for k, v in keep.items()))
    if which == 'gcs':
      c.prove('the store is a cloud store with a bucket to be filled in', g['kvstore']['driver'] == 'gcs' and set(g['kvstore']) == {'driver', 'path', 'bucket'})
      isl2, f2 = None, None
    else:
      c.prove('the store is a file store', g['kvstore']['driver'] == 'file' and set(g['kvstore']) == {'driver', 'path'})
    c.cover()
  for which in ('gcs', 'file'):
    chk.verify('_maybe_update_ts_from_file_to_gcs' if which == 'gcs' else '_maybe_update_ts_from_gcs_to_file', F,
               'changes the store driver of array descriptions only and keeps location and every other field', lambda c, which=which: leaf(c, which),
               assumed=['jax.tree_util.tree_map applies the function to every leaf accepted by is_leaf'])

  def getspec(c, cloud):
    a, b = strs.atom(c, 'first', without='/', lo=1), strs.atom(c, 'second', without='/', lo=1)
    box = {}

    class TS:
      @staticmethod
      def Spec(d):
        box['d'] = d
        return d
    meta = opq('metadata')
    name = a + '/' + b
    with patched(m, ts=TS):
      m._get_spec('gs://b/d' if cloud else '/d', Fake(dtype=np.dtype('float32')), name, meta)
    d = box['d']
    p = d['kvstore'].get('path', d.get('path'))
    c.prove('the store is named by the whole parameter name', p == a + '.' + b)
    c.prove('the description carries dtype and metadata', d['metadata'] is meta and d['dtype'] == 'float32')
    c.prove('the store kind follows the directory', d['kvstore']['driver'] == ('gcs' if cloud else 'file'))
    c.cover()
  for cloud in (False, True):
    chk.verify(f'_get_spec [{"gs://" if cloud else "file"}]', F, 'one array store per parameter name', lambda c, cloud=cloud: getspec(c, cloud), kind='names of two components')


# --------------------------------------------------------------- bounded part
def chunk_contract(fn, shape, target):
  r = fn(shape, target)
  r = list(r)
  if len(r) != len(shape):
    return f'{len(r)} chunk sizes for rank {len(shape)}'
  for x, n in zip(r, shape):
    if int(x) != x or x < 1 or n % x:
      return f'chunk size {x} does not divide {n}'
  t = int(np.prod([int(x) for x in r], dtype=object)) if r else 1
  if t > target:
    return f'{t} elements in a chunk of at most {target}: {r}'
  whole = int(np.prod([int(n) for n in shape], dtype=object)) if shape else 1
  if whole <= target and r != list(shape):
    return f'array of {whole} <= {target} elements is split into {r}'
  if r != list(shape):
    # the last split was needed: some split dimension restored to its next
    # larger divisor exceeds the target
    ok = False
    for i, (x, n) in enumerate(zip(r, shape)):
      if x != n:
        nx = min(k for k in range(int(x) + 1, n + 1) if n % k == 0)
        ok |= t // int(x) * nx > target
    if not ok:
      return f'{r} is smaller than needed for {target} elements'
  return None


def search_chunks(rec):
  from t5x import checkpoints
  fn = need(checkpoints, '_choose_chunk_shape')
  vals = (1, 2, 3, 4, 6, 7, 12)
  for rank in (0, 1, 2, 3):
    for shape in itertools.product(vals, repeat=rank):
      if rec.full:
        return
      whole = int(np.prod(shape)) if shape else 1
      for target in sorted({1, 2, 3, 5, whole - 1, whole, whole + 1, whole // 2, whole / 2 + 0.25}):
        if target >= 1:
          rec.run({'shape': shape, 'target': target}, lambda: chunk_contract(fn, shape, target))
  rnd = random.Random(11)
  for _ in range(300 if env.TIER == 'quick' else 4000):
    if rec.full:
      return
    shape = [rnd.choice([1, 2, 5, 8, 16, 30, 97, 128, 1000, 4096]) for _ in range(rnd.randint(1, 4))]
    target = rnd.choice([1, 7, 64, 1000, 12345, 64 * 1024 * 1024 / 4, 0.5 + rnd.randint(1, 5000)])
    rec.run({'shape': shape, 'target': target}, lambda: chunk_contract(fn, shape, target))


def descr(fmt, driver, path, extra):
  d = {'driver': 'zarr', 'dtype': 'float32', 'metadata': {'shape': [2, 3], 'chunks': [1, 3], 'compressor': {'id': 'gzip'}}}
  d.update(extra)
  d['kvstore'] = {'driver': driver}
  if driver == 'gcs':
    d['kvstore']['bucket'] = 't5x-dummy-bucket'
  (d['kvstore'] if fmt == 'new' else d)['path'] = path
  return d


def search_paths(rec):
  from t5x import checkpoints as cp
  up = need(cp, '_update_ts_path_from_relative_to_absolute')
  to_gcs, to_file = need(cp, '_maybe_update_ts_from_file_to_gcs'), need(cp, '_maybe_update_ts_from_gcs_to_file')
  dirs = ['/a/b/checkpoint_5', '/a/b/', 'rel/dir', '/x.tmp-12', '/a b/c\nd', 'gs://bkt/x/y', 'gs://bkt/x/', 'gs://b-1/a\nb', '/gs://odd/z', 'gs://bkt/deep/er/checkpoint_10']
  names = ['target.a.b', 'target.a.b/', 'x', 'state.param_states.k.v_row', 'a/b']
  extras = [{}, {'context': {'cache_pool': {}}}, {'transform': {'input_rank': 2}, 'recheck_cached_data': False}]
  for d0 in dirs:
    for nm in names:
      for fmt in ('new', 'old'):
        for extra in extras:
          if rec.full:
            return
          cloud = d0.startswith('gs://')
          d = descr(fmt, 'gcs' if cloud else 'file', nm, extra)

          def run():
            g = copy.deepcopy(d)
            up(d0, g)
            w = copy.deepcopy(d)
            base = d0
            if cloud:
              b, _, base = d0[5:].partition('/')
              w['kvstore']['bucket'] = b
            (w['kvstore'] if fmt == 'new' else w)['path'] = os.path.join(base, nm)
            return None if g == w else f'{g} instead of {w}'
          rec.run({'dir': d0, 'description': d}, run)
  contents = {
      'version': 3,
      'optimizer': {
          'target': {'a': {'w': 'SPEC'}, 'empty': {}, 'n': 3, 'arr': np.arange(3), 'driver': {'kernel': 'SPEC'}, 'metadata': np.ones(2)},
          'state': {'step': np.int32(3), 'param_states': {'a': {'v': 'SPEC', 'none': None}}}}}

  def fill(t, mk):
    if isinstance(t, dict):
      return {k: fill(v, mk) for k, v in t.items()}
    return mk() if isinstance(t, str) and t == 'SPEC' else t

  def same(a, b):
    if isinstance(a, dict):
      return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
      return isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b
  for driver in ('file', 'gfile', 'gcs'):
    for nm in names:
      for extra in extras:
        if rec.full:
          return

        def run():
          mk = lambda drv: (lambda: descr('new', drv, nm, extra))
          src = fill(contents, mk(driver))
          for fn, out in ((to_gcs, 'gcs'), (to_file, 'file')):
            g = fn(copy.deepcopy(src))
            w = fill(contents, mk(out))
            if not same(g, w):
              return f'{fn.__name__}: {g} instead of {w}'
          back = to_file(to_gcs(copy.deepcopy(fill(contents, mk('file')))))
          if not same(back, fill(contents, mk('file'))):
            return f'file -> gcs -> file gives {back}'
          back = to_gcs(to_file(copy.deepcopy(fill(contents, mk('gcs')))))
          if not same(back, fill(contents, mk('gcs'))):
            return f'gcs -> file -> gcs gives {back}'
        rec.run({'driver': driver, 'path': nm, 'extra': extra}, run)
  for drv in ('memory', 's3'):
    for fn in (to_gcs, to_file):
      def run():
        try:
          fn({'a': descr('new', drv, 'x', {})})
        except ValueError:
          return None
        return f'store {drv} accepted'
      rec.run({'driver': drv, 'fn': fn.__name__}, run)


def search_relocate(rec):
  """A saved checkpoint restores after its directory was moved; the stored
  chunks tile every array."""
  import shutil
  rnd = random.Random(3)
  from t5x import checkpoints as cp
  import tensorstore as ts
  for k in range(6 if env.TIER == 'quick' else 25):
    shapes = [tuple(rnd.randint(1, 6) for _ in range(rnd.randint(1, 3))) for _ in range(4)]

    def run():
      arrays = {f'l{i}': {'w/x' if False else 'w': np.asarray(np.random.RandomState(i).randn(*s), np.float32)} for i, s in enumerate(shapes)}
      with ck.scratch() as d:
        os.makedirs(d + '/one')
        st = ck.train_state(4, arrays)
        old = cp._DESIRED_CHUNK_SIZE_BYTES
        cp._DESIRED_CHUNK_SIZE_BYTES = rnd.choice([4, 8, 20, 64])
        try:
          class Np(cp.Checkpointer):
            def _get_state_dict_for_save(self, s, lazy_load=True):
              import jax
              return jax.tree_util.tree_map(np.asarray, s)
          c = ck.checkpointer(d + '/one', st, Np)
          c.save(st)
        finally:
          cp._DESIRED_CHUNK_SIZE_BYTES = old
        shutil.move(d + '/one', d + '/two')
        got = ck.checkpointer(d + '/two', st).restore(step=4)
        got2 = ck.checkpointer(d + '/two', st).restore(path=d + '/two/checkpoint_4')
        for i in range(len(shapes)):
          for g in (got, got2):
            if not np.array_equal(np.asarray(g.params[f'l{i}']['w']), arrays[f'l{i}']['w']):
              return f'array l{i} of shape {shapes[i]} differs after the move'
    rec.run({'shapes': shapes}, run)


def build(chk):
  chunks(chk)
  paths(chk)
  chk.search('chunk shapes', 'ranks 0..4, listed sizes up to 4096, integer and fractional targets', search_chunks)
  chk.search('stored descriptions', '10 directories x 5 names x 2 formats x 3 field sets; trees with and without stores', search_paths)
  chk.search('moved checkpoints', 'random arrays up to 3 dimensions of up to 6', search_relocate)


if __name__ == '__main__':
  main('C04', build)
