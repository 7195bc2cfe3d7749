"""I02: chunked inference files and evaluation bookkeeping."""

import concurrent.futures
import fnmatch
import itertools
import json
import os
import random
import threading
import time

from vc import env
env.setup()
import numpy as np
import z3

from vc import ck, core, maps, seq
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, forall, lift, zint
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

INF = 't5x/infer.py'
EV = 't5x/eval.py'


# --- the fail-fast pool, any number of futures ---------------------------------
class Fut:

  def __init__(self, w, i):
    self.w, self.i = w, i

  def exception(self, timeout=None):
    w = self.w
    if w.running(self.i):
      if timeout is not None:
        w.waited(timeout)
        raise concurrent.futures.TimeoutError()
      w.block(self.i)
    return w.Err(self.i) if w.failed(self.i) else None

  def done(self):
    return NOT(self.w.running(self.i)) if False else lift(core.NOT(self.w.running(self.i)))

  def result(self, timeout=None):
    e = self.exception(timeout)
    if e is not None:
      raise e


class FutList:
  """The futures kept for later: which of them, and how many times."""

  def __init__(self):
    self.set = maps.KSet()
    self.dup = False

  def append(self, f):
    if not isinstance(f, Fut):
      raise core.Unsupported('something else than a future is kept')
    self.dup = core.OR(self.dup, self.set.has(f.i))
    self.set.add(f.i)


class CheckLoop(LoopSpec):
  name = 'loop over the futures'

  def __init__(self, w, wait):
    self.w, self.wait = w, wait

  def applies(self, L, env):
    return isinstance(env['still_incomplete_futures'], FutList)

  def inv(self, L, env):
    w, l = self.w, env['still_incomplete_futures']
    run = (lambda i: False) if self.wait else w.running
    yield 'exactly the running futures seen so far are kept', forall(1, lambda i: IFF(
        l.set.has(i), AND(i >= 0, i < L.i, run(i))))
    yield 'none of them twice', NOT(l.dup)
    yield 'no finished future seen so far has failed', forall(1, lambda i: IMP(AND(i >= 0, i < L.i, NOT(run(i))), NOT(w.failed(i))))

  def havoc(self, L, env):
    l = env['still_incomplete_futures']
    l.set.havoc('kept')
    l.dup = core.ctx().bool('dup')
    return {}


def pool(chk):
  m = clone(INF)

  def body(c, wait):
    class Err(Exception):

      def __init__(self, i):
        self.i = i

    need(m, 'FailFastThreadPoolExecutor')
    w = Fake()
    I, B = z3.IntSort(), z3.BoolSort()
    fr, ff = c.func('running', I, B), c.func('failed', I, B)
    w.running = lambda i: lift(fr(zint(i)))
    w.failed = lambda i: lift(ff(zint(i)))
    w.Err = Err
    blocked = []
    w.block = lambda i: blocked.append(i)
    w.waited = lambda t: blocked.append(t) if t else None
    n = c.int('futures', 0)
    c.user['newlist'] = FutList
    m.__vc_rt__.loop_specs = {'FailFastThreadPoolExecutor.check_for_exceptions#0': CheckLoop(w, wait)}
    ex = m.FailFastThreadPoolExecutor.__new__(m.FailFastThreadPoolExecutor)
    ex._incomplete_futures = seq.SymSeq(n, lambda i: Fut(w, i))
    raised = None
    try:
      if wait is None:
        ex.check_for_exceptions()
      else:
        ex.check_for_exceptions(wait=wait)
    except Err as e:
      raised = e
    if not wait:
      c.prove('a check does not wait for running writers', not blocked)
    if raised is not None:
      i = raised.i
      c.prove('the error raised is that of a finished failed writer', AND(i >= 0, i < n, w.failed(i), True if wait else NOT(w.running(i))))
      c.cover()
      return
    fin = (lambda i: True) if wait else (lambda i: NOT(w.running(i)))
    c.prove('a failed writer is reported', forall(1, lambda i: IMP(AND(i >= 0, i < n, fin(i)), NOT(w.failed(i)))))
    kept = ex._incomplete_futures
    if not isinstance(kept, FutList):
      raise core.Unsupported('the futures kept are not a list built by the check')
    c.prove('running writers stay under observation', forall(1, lambda i: IFF(kept.set.has(i), AND(i >= 0, i < n, NOT(fin(i))))))
    c.cover()
  for wait in (None, False, True):
    chk.verify(f'FailFastThreadPoolExecutor.check_for_exceptions [wait={wait}]', INF,
               'raises a finished failure without blocking, keeps the running ones (any number of futures)', lambda c, w=wait: body(c, bool(w) if w is not None else None),
               assumed=['Future.exception(timeout) raises TimeoutError iff still running'])


def search_pool(rec):
  from t5x import infer
  need(infer, 'FailFastThreadPoolExecutor')
  # programs: per task, (fails?, released when?)
  for tasks in itertools.product(('ok', 'fail', 'late ok', 'late fail'), repeat=3):
    for workers in (1, 3):
      if rec.full:
        return

      def run():
        gate = threading.Event()
        started = []

        def work(k, kind):
          started.append(k)
          if kind.startswith('late'):
            gate.wait(20)
          if kind.endswith('fail'):
            raise KeyError(k)
          return k
        ex = infer.FailFastThreadPoolExecutor(max_workers=workers)
        try:
          fs, seen, blocked = [], None, [k.startswith('late') for k in tasks]
          for k, kind in enumerate(tasks):
            t = time.time()
            box = []

            def sub():
              try:
                fs.append(ex.submit(work, k, kind))
                box.append(None)
              except KeyError as e:
                box.append(e)
              except BaseException as e:  # pylint: disable=broad-except
                box.append(RuntimeError(f'{type(e).__name__}: {e}'))
            th = threading.Thread(target=sub, daemon=True)
            th.start()
            th.join(3)
            if th.is_alive():
              return f'submitting task {k} waits for a running task'
            if isinstance(box[0], RuntimeError):
              return f'submit raised {box[0]}'
            if isinstance(box[0], KeyError):
              seen = box[0]
              if not [j for j in range(k + 1) if tasks[j] == 'fail']:
                return 'an error from nowhere'
              break
            if workers == 1 and any(blocked[:k + 1]):
              continue
            if not kind.startswith('late'):
              # a finished failure is reported by the next check
              concurrent.futures.wait([fs[-1]], 10)
              try:
                ex.check_for_exceptions()
                if kind == 'fail':
                  return f'the failure of task {k} was not reported at the next check'
              except KeyError as e:
                seen = e
                if kind != 'fail':
                  return 'an error from nowhere'
                break
              except BaseException as e:  # pylint: disable=broad-except
                return f'check raised {type(e).__name__}: {e}'
          gate.set()
          if seen is None:
            try:
              ex.shutdown(wait=True)
              if any(k.endswith('fail') for k in tasks):
                return 'a failed writer was not reported by shutdown'
            except KeyError:
              if not any(k.endswith('fail') for k in tasks):
                return 'an error from nowhere'
            except BaseException as e:  # pylint: disable=broad-except
              return f'shutdown raised {type(e).__name__}: {e}'
            if len(started) != 3 and not any(k.endswith('fail') for k in tasks):
              return f'only {started} ran'
        finally:
          gate.set()
          concurrent.futures.ThreadPoolExecutor.shutdown(ex, wait=False)
      rec.run({'tasks': tasks, 'workers': workers}, run)


# --- merging ------------------------------------------------------------------
class MemFile:

  def __init__(self, fs, path, mode):
    self.fs, self.path, self.mode, self.pos = fs, path, mode, 0
    if 'w' in mode:
      fs.files[path] = b'' if 'b' in mode else ''
    elif path not in fs.files:
      raise FileNotFoundError(path)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def close(self):
    pass

  def write(self, x):
    f = self.fs.files[self.path]
    self.fs.files[self.path] = f + (x if isinstance(x, type(f)) else x.encode() if isinstance(f, bytes) else x.decode())
    return len(x)

  def read(self, n=-1):
    f = self.fs.files[self.path]
    f = f if 'b' not in self.mode or isinstance(f, bytes) else f.encode()
    r = f[self.pos:] if n is None or n < 0 else f[self.pos:self.pos + n]
    self.pos += len(r)
    return r

  def __iter__(self):
    return iter(self.read().splitlines(True))


class MemFS:
  """An in-memory file system standing in for gfile."""

  def __init__(self):
    self.files = {}

  def GFile(self, p, mode='r'):
    return MemFile(self, p, mode)

  def exists(self, p):
    return p in self.files or any(f.startswith(p.rstrip('/') + '/') for f in self.files)

  def glob(self, pat):
    out = sorted(p for p in self.files if p.count('/') == pat.count('/') and fnmatch.fnmatchcase(p, pat))
    random.Random(len(out)).shuffle(out)      # any order
    return out

  def listdir(self, d):
    d = d.rstrip('/') + '/'
    return sorted({p[len(d):].split('/')[0] for p in self.files if p.startswith(d)})

  def __getattr__(self, n):
    raise core.Unsupported(f'gfile.{n}')


def search_merge(rec):
  from t5x import infer
  rnd = random.Random(7)
  name = 'task-predict.jsonl-00000-of-00001'

  def one(fs, present, extra=()):
    fs.files['/out/old'] = b'old'
    for k in present:
      fs.files[f'/tmpd/{name}-chunk{k:05}'] = f'{{"chunk": {k}}}\n'.encode() * (1 + k % 2)
    for e in extra:
      fs.files[f'/tmpd/{e}'] = b'junk\n'
    with patched(infer, gfile=fs):
      infer.merge_chunks_to_file('/out', name, '/tmpd', None)
    return fs.files.get(f'/out/{name}')

  sizes = list(range(1, 24)) + [99, 100, 101, 999, 1001, 100001]
  for n in sizes:
    if rec.full:
      return

    def run():
      order = list(range(n))
      rnd.shuffle(order)
      marks = [f'{name}-chunk{k:05}.COMPLETED' for k in order[:50]] + ['input.ckpt.index', f'other-{name}-chunk00000', f'{name}2-chunk00001', '3.ckpt']
      got = one(MemFS(), order, marks)
      want = b''.join(f'{{"chunk": {k}}}\n'.encode() * (1 + k % 2) for k in range(n))
      if got != want:
        if got is None:
          return 'no merged file'
        g = [json.loads(x)['chunk'] for x in got.decode().splitlines()]
        return f'{len(set(g))} of {n} chunks, ascending: {g == sorted(g)}'
    rec.run({'chunks': n}, run)
  for n in range(0, 9):
    for miss in itertools.chain([()] if n == 0 else [], [(k,) for k in range(n - 1)], itertools.combinations(range(max(n - 1, 0)), 2)):
      def run():
        try:
          fs = MemFS()
          got = one(fs, [k for k in range(n) if k not in miss])
        except Exception:  # pylint: disable=broad-except
          return None
        return f'merged {got} although chunks are missing'
      rec.run({'chunks': n, 'missing': miss}, run)


# --- the inference loop ---------------------------------------------------------
def search_infer(rec):
  import jax
  import tensorflow as tf
  import seqio
  from t5x import infer, utils
  need(infer, 'infer')

  class Conv:

    def __init__(self, pack):
      pass

    def __call__(self, ds, task_feature_lengths=None):
      return ds.map(lambda x: {'a': x['a']})

  class Model:
    FEATURE_CONVERTER_CLS = Conv

    def get_initial_variables(self, *a, **k):
      return {}

    def predict_batch(self, params, batch, rng=None):
      return batch['a'] * 10

    def predict_batch_with_aux(self, params, batch, rng=None):
      return batch['a'] * 10, {'s': batch['a'][:, 0] * 2}

    def score_batch(self, params, batch):
      return batch['a'][:, 0] * 2

  class Init:

    def __init__(self, **k):
      self.global_train_state_shape = None
      self.train_state_axes = Fake(params=None, flax_mutables=None)
  part = Fake(partition=lambda f, **k: f, data_partition_spec='data', mesh=None,
              get_data_layout=lambda bs: Fake(shard_id=0, num_shards=1, batch_size=bs, is_first_host_in_replica_set=True))
  state = Fake(params=None, flax_mutables=None, step=3)

  class Disk:
    """File operations of the inference; the run ends before number `stop`."""

    def __init__(self, stop=None):
      self.ops, self.stop, self.log = 0, stop, []

    def step(self, what):
      self.ops += 1
      self.log.append(what)
      if self.stop is not None and self.ops >= self.stop:
        raise OSError(f'killed before file operation {self.ops}: {what}')

    def __getattr__(self, k):
      f = getattr(tf.io.gfile, k)
      if k in ('rename', 'remove', 'copy', 'rmtree'):
        def g(*a, **kw):
          self.step(f'{k} {[os.path.basename(x) for x in a]}')
          return f(*a, **kw)
        return g
      if k == 'GFile':
        def g(path, mode='r'):
          if 'r' not in mode:
            self.step(f'open {os.path.basename(path)} {mode}')
          return f(path, mode)
        return g
      return f

  def go(d, n, B, period, mode, ckpt_ds, fail=None, calls=None, crash=None, disk=None):
    pools = []

    class Pool(infer.FailFastThreadPoolExecutor):

      def __init__(self, *a, **k):
        super().__init__(*a, **k)
        pools.append(self)
    try:
      with patched(infer, FailFastThreadPoolExecutor=Pool), patched(infer, gfile=disk or Disk()):
        go_(d, n, B, period, mode, ckpt_ds, fail, calls, crash)
    finally:
      # the threads of a run do not survive it
      for p in pools:
        concurrent.futures.ThreadPoolExecutor.shutdown(p, wait=True)

  def go_(d, n, B, period, mode, ckpt_ds, fail=None, calls=None, crash=None):
    task = Fake(name='task', output_features={'targets': Fake(vocabulary=None)},
                get_dataset=lambda **k: tf.data.Dataset.from_tensor_slices({'a': np.arange(1, n + 1, dtype=np.int32)[:, None], 'x_pretokenized': np.array([f't{i}' for i in range(n)])}))
    batches = [0]

    def write(path, inferences, task_ds, mode_, vocab):
      k = int(path[-5:])
      calls.append(k)
      if fail is not None and k == fail:
        with open(path, 'w') as f:
          f.write('half a line')
        raise OSError(f'disk full writing chunk {k}')
      preds, aux = inferences
      with open(path, 'w') as f:
        for i, x in task_ds.enumerate().as_numpy_iterator():
          f.write(json.dumps({'x': x['x_pretokenized'].decode(), 'p': preds[i], 'aux': aux['s'][i] if aux else None}) + '\n')
    real = utils.get_infer_fn

    def gif(**k):
      f = real(**k)

      def g(ds, *a, **kw):
        batches[0] += 1
        if crash is not None and batches[0] == crash:
          raise InterruptedError('preempted')
        return f(ds, *a, **kw)
      return g
    with patched(utils, create_checkpoint_manager_and_restore=lambda *a, **k: (state, None), log_model_info=lambda *a, **k: None, get_infer_fn=gif), \
         patched(seqio, maybe_get_mixture_or_task=lambda n: task, get_subtasks=lambda t: [t]):
      infer.infer(mode=mode, model=Model(), dataset_cfg=utils.DatasetConfig(mixture_or_task_name='task', task_feature_lengths={}, split='s', batch_size=B, shuffle=False, seed=0),
                  restore_checkpoint_cfg=Fake(path='x', strict=True), partitioner=part, output_dir=d, checkpoint_period=period,
                  write_fn=write, checkpoint_ds_iter=ckpt_ds, train_state_initializer_cls=Init, summarize_config_fn=lambda **k: None,
                  verify_matching_vocabs_fn=None)

  def verify(d, n, mode):
    fs = [f for f in os.listdir(d) if f.startswith('task-') and not f.endswith('.COMPLETED')]
    if len(fs) != 1:
      return f'result files {fs}'
    rows = [json.loads(x) for x in open(os.path.join(d, fs[0])).read().splitlines()]
    if [r['x'] for r in rows] != [f't{i}' for i in range(n)]:
      return f'{len(rows)} rows for {n} examples: {[r["x"] for r in rows]}'
    for i, r in enumerate(rows):
      p = r['p'][0] if isinstance(r['p'], list) else r['p']
      if p != (2 if mode == 'score' else 10) * (i + 1) or (mode == 'predict_with_aux') != (r['aux'] is not None) or (r['aux'] is not None and r['aux'] != 2 * (i + 1)):
        return f'row {i}: {r}'
  modes = ('predict', 'score', 'predict_with_aux')
  t = 0
  for n, B, period in ((1, 2, 1), (5, 2, 1), (8, 2, 2), (7, 3, 2), (23, 2, 1), (12, 4, 3), (9, 1, 2)):
    for ckpt_ds in (True, False):
      chunks = -(-n // (B * period))
      cases = [(None, None)] + [(k, None) for k in sorted({0, 1, chunks // 2, chunks - 1}) if k < chunks] + [(None, k) for k in sorted({1, 2, chunks}) if k <= chunks]
      for fail, crash in cases:
        if rec.full:
          return
        mode = modes[t % 3]
        t += 1

        def run():
          with ck.scratch() as d:
            d = os.path.realpath(d)
            first, calls = [], []
            if fail is not None or crash is not None:
              try:
                go(d, n, B, period, mode, ckpt_ds, fail, first, crash)
                return 'the failure was not reported'
              except OSError as e:
                pass
              if [f for f in os.listdir(d) if f.startswith('task-')]:
                return 'results were merged although a chunk is missing'
            go(d, n, B, period, mode, ckpt_ds, None, calls)
            if calls != sorted(set(calls)):
              return f'chunks written in the order {calls}'
            r = verify(d, n, mode)
            if r:
              return r
            again = []
            go(d, n, B, period, mode, ckpt_ds, None, again)
            if again:
              return 'a completed inference was repeated'
            return verify(d, n, mode)
        rec.run({'examples': n, 'batch': B, 'period': period, 'iterator checkpoint': ckpt_ds, 'writer fails at': fail, 'killed before chunk call': crash, 'mode': mode}, run)
  # killed before every file operation
  for n, B, period in ((5, 2, 1), (3, 2, 1), (4, 1, 2)):
    for ckpt_ds in (True, False):
      with ck.scratch() as d:
        disk = Disk()
        go(os.path.realpath(d), n, B, period, 'predict', ckpt_ds, None, [], None, disk)
      for k in range(1, disk.ops + 1):
        if rec.full:
          return

        def run():
          with ck.scratch() as d:
            d = os.path.realpath(d)
            one = Disk(k)
            try:
              go(d, n, B, period, 'predict', ckpt_ds, None, [], None, one)
              return f'the failure was not reported: {one.log[-1]}'
            except OSError:
              pass
            go(d, n, B, period, 'predict', ckpt_ds, None, [])
            return verify(d, n, 'predict')
        rec.run({'examples': n, 'batch': B, 'period': period, 'iterator checkpoint': ckpt_ds, 'killed before file operation': f'{k} ({disk.log[k - 1]})'}, run)


def search_write(rec):
  import tensorflow as tf
  import seqio
  from t5x import infer
  need(infer, 'write_inferences_to_file')

  class Vocab:

    def decode_tf(self, ids):
      return tf.constant(('w' + '-'.join(map(str, ids.numpy().tolist()))).encode())
  for n in (1, 2, 5):
    for mode in ('predict', 'score', 'predict_with_aux'):
      for inc in ('none', 'all', 'some'):
        for ids in (False, True):
          def run():
            with ck.scratch() as d:
              ds = tf.data.Dataset.from_tensor_slices({'inputs': np.arange(2 * n).reshape(n, 2), 'inputs_pretokenized': np.array([f'q{i}' for i in range(n)]),
                                                       'targets': np.arange(n), 'targets_pretokenized': np.array([f'a{i}' for i in range(n)])})
              preds = [[i + 3, 7, 0, 5] for i in range(n)] if mode != 'score' else [i * 0.5 for i in range(n)]
              aux = {'scores': [i * 1.5 for i in range(n)], 'm': {'u': np.arange(n) * 2}} if mode == 'predict_with_aux' else {}
              kw = {}
              if inc == 'all':
                kw['include_all_inputs'] = True
              if inc == 'some':
                kw['input_fields_to_include'] = ['targets']
              infer.write_inferences_to_file(f'{d}/f', (preds, aux), ds, mode, Vocab(), output_ids=ids, **kw)
              rows = [json.loads(x) for x in open(f'{d}/f').read().splitlines()]
              if len(rows) != n:
                return f'{len(rows)} lines for {n} examples'
              for i, r in enumerate(rows):
                want = {'inputs': [2 * i, 2 * i + 1], 'inputs_pretokenized': f'q{i}', 'targets': i, 'targets_pretokenized': f'a{i}'}
                want = {k: v for k, v in want.items() if inc == 'all' or (inc == 'none' and k.endswith('_pretokenized')) or (inc == 'some' and k.startswith('targets'))}
                if r['inputs'] != want:
                  return f'line {i} has inputs {r["inputs"]}, expected {want}'
                if mode == 'score':
                  if r['score'] != preds[i]:
                    return f'line {i}: {r}'
                else:
                  if r['prediction'] != 'w' + '-'.join(map(str, preds[i])):
                    return f'line {i}: {r}'
                  if ids and r['prediction_tokens'] != preds[i][:2]:
                    return f'line {i}: {r}'
                if mode == 'predict_with_aux' and (r['aux']['scores'] != aux['scores'][i] or r['aux']['m']['u'] != 2 * i):
                  return f'line {i}: {r}'
          rec.run({'examples': n, 'mode': mode, 'inputs': inc, 'ids': ids}, run)


# --- evaluation ---------------------------------------------------------------
def search_sorted(rec):
  from t5x import eval as ev
  need(ev, '_sorted_ckpt_paths')
  need(ev, '_load_evaluated_ckpt_paths')
  rnd = random.Random(8)
  for i in range(2000):
    if rec.full:
      return
    steps = rnd.sample((0, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 10 ** 6, 12345), rnd.randrange(0, 7))
    pre = rnd.choice(('/m/checkpoint_', '/run_10/checkpoint_', 'gs://b/x 1/model.ckpt-', '/c/', '/m.9/checkpoint_', '/dir with space/checkpoint_'))
    suf = rnd.choice(('', '/'))
    ps = [f'{pre}{s}{suf}' for s in steps]

    def run():
      for coll in (list(ps), set(ps)):
        got = list(ev._sorted_ckpt_paths(coll))
        if got != [f'{pre}{s}{suf}' for s in sorted(steps)]:
          return f'{got}'
    rec.run({'paths': ps}, run)

    def load():
      with ck.scratch() as d:
        if ev._load_evaluated_ckpt_paths(d + '/none') != set():
          return 'paths from a file that is not there'
        with open(d + '/f', 'w') as f:
          f.write('\n'.join(ps))
        got = ev._load_evaluated_ckpt_paths(d + '/f')
        return None if set(got) == set(ps) else f'{got}'
    rec.run({'recorded': ps}, load)
  for bad in ('/m/checkpoint_x', '/m/10/checkpoint', ''):
    def run():
      try:
        ev._sorted_ckpt_paths([bad])
      except ValueError:
        return None
      return 'an invalid path was accepted'
    rec.run({'invalid': bad}, run)


def search_eval(rec):
  from t5x import eval as ev, utils
  need(ev, 'evaluate')
  rnd = random.Random(9)

  class Model:
    FEATURE_CONVERTER_CLS = None

    def get_initial_variables(self, *a, **k):
      return {}

  class Init:

    def __init__(self, **k):
      self.global_train_state_shape = None
      self.train_state_axes = None

  def go(d, root, mode, visited, fail_at=None, many=False):
    cur = [None]

    def restore(init, part, cfg, path, rng, **k):
      cur[0] = path
      if fail_at is not None and len(visited) == fail_at[0] and fail_at[1] == 'restore':
        raise InterruptedError('preempted')
      return Fake(step=int(str(path).rstrip('/').split('_')[-1])), None

    def evaluate(ts, axes):
      if fail_at is not None and len(visited) == fail_at[0] and fail_at[1] == 'evaluate':
        raise InterruptedError('preempted')
      visited.append(str(cur[0]))
      return Fake(result=lambda: {})
    E = lambda *a, **k: Fake(eval_tasks=['t'], model_feature_shapes={'x': (1,)}, evaluate=evaluate, close=lambda: None)
    with patched(utils, create_checkpoint_manager_and_restore=restore, log_model_info=lambda *a, **k: None, get_local_data=lambda x: x,
                 sync_global_devices=lambda *a: None), patched(ev, InferenceEvaluator=E):
      ev.evaluate(model=Model(), dataset_cfg=Fake(module=None, batch_size=2, mixture_or_task_name='task'),
                  restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=[root] if many else root, mode=mode), partitioner=Fake(), output_dir=d,
                  inference_evaluator_cls=None, train_state_initializer_cls=Init, summarize_config_fn=lambda **k: None)

  def mk(root, s):
    os.makedirs(f'{root}/checkpoint_{s}', exist_ok=True)
    open(f'{root}/checkpoint_{s}/checkpoint', 'w').close()
  for i in range(160):
    if rec.full:
      return
    pool_ = rnd.sample((0, 1, 2, 3, 9, 10, 20, 99, 100, 101, 1000), rnd.randrange(1, 8))
    hist = []
    for _ in range(rnd.randrange(1, 4)):
      hist.append((rnd.randrange(0, len(pool_) + 1), rnd.choice((None, None, 0, 1, 2, 3)), rnd.choice(('restore', 'evaluate'))))
    name = rnd.choice(('model', 'model run', 'run_7'))

    def run():
      with ck.scratch() as d:
        root, out = f'{d}/{name}', f'{d}/out'
        os.makedirs(root)
        os.makedirs(out)
        have, seen = [], []
        hist2 = hist + [(len(pool_), None, '')]
        for upto, fail, where in hist2:
          for s in pool_[:upto]:
            if s not in have:
              mk(root, s)
              have.append(s)
          visited = []
          todo = sorted(s for s in have if s not in seen)
          try:
            go(out, root, 'all', visited, None if fail is None else (fail, where), i % 2 == 0)
            crashed = False
          except InterruptedError:
            crashed = True
          got = [int(v.rstrip('/').split('_')[-1]) for v in visited]
          want = todo if fail is None or fail >= len(todo) else todo[:fail]
          if got != want:
            return f'with {sorted(have)} present and {sorted(seen)} evaluated: evaluated {got}, expected {want}'
          seen += got
    rec.run({'steps': pool_, 'history (present, fails at, where)': hist, 'directory': name}, run)


def build(chk):
  pool(chk)
  chk.search('fail-fast pool with real threads', 'all programs of 3 tasks of 4 kinds, 1 or 3 workers', search_pool)
  chk.search('merging of chunk files', '29 sizes up to 100001 chunks in any listing order; all single and double gaps below 9', search_merge, case_seconds=120)
  chk.search('inference loop with chunks', '7 sizes x iterator checkpoints x failing writers and interruptions', search_infer, case_seconds=120)
  chk.search('inference files', '3 sizes x 3 modes x 3 input selections x ids', search_write)
  chk.search('ordering and reading of evaluated paths', '2000 random path lists', search_sorted)
  chk.search('evaluation histories', '160 random histories of up to 4 runs with interruptions and new checkpoints', search_eval)


if __name__ == '__main__':
  main('I02', build)
