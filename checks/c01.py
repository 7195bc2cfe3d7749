"""C01: a crash while saving never leaves a half-written checkpoint visible."""

import os
import random
import shutil
import sys
import threading
import time
import types

from vc import env
env.setup()

from vc import core, strs, ck
from vc.check import main, need
from vc.core import AND, NOT, OR
from vc.h import Fake, patched
from vc.transform import StubNS, clone

FC = 't5x/checkpoints.py'


class Crash(BaseException):
  """The process dies here (or the operation fails)."""


class Failure(Exception):
  """The operation fails with an ordinary exception."""


class World:
  """Ghost file system of one host: every operation is checked as it happens.

  A crash is the end of the trace at any point, so the checks made at each
  operation cover every crash point; a failing operation is a choice too."""

  def __init__(self, c, final, proc0, has_ds, exists):
    self.c, self.final, self.proc0, self.has_ds, self.exists_ = c, final, proc0, has_ds, exists
    self.trace = []
    self.made = self.renamed = False
    self.ts_done = self.ds_done = self.msg_done = False
    self.synced_after_write = False
    self.tmp = None
    self.fault = c.choose('failing operation', list(range(0, 11)))
    self.kind = c.choose('kind of failure', ['crash', 'exception']) if self.fault else None
    self.n = 0

  def tick(self, what):
    self.trace.append(what)
    self.n += 1
    if self.fault and self.n == self.fault:
      self.trace.append('FAULT')
      raise Crash() if self.kind == 'crash' else Failure(what)

  def under_tmp(self, p):
    """p is a proper temporary name of this step (or inside it)."""
    if self.tmp is not None and (same(p, self.tmp) or bool(str_startswith(p, self.tmp + '/'))):
      return True
    return False

  def write(self, what, p):
    self.c.prove('contents are written under the temporary name only', self.under_tmp(p))
    self.c.prove('nothing is written after the checkpoint is in place', not self.renamed)

  # -- operations of the code
  def exists(self, p):
    if same(p, self.final):
      return self.exists_
    self.tick('exists')
    return False

  def makedirs(self, p):
    self.c.prove('only one host creates directories', self.proc0)
    if self.tmp is None:
      self.tmp = p
      self.c.prove('the directory created is not the final one', NOT(same(p, self.final)))
      self.c.prove('the temporary directory lies beside the final one', same(strs.OS.path.dirname(p), strs.OS.path.dirname(self.final)))
    else:
      self.c.prove('contents are written under the temporary name only', self.under_tmp(p))
    self.tick('makedirs')
    self.made = True

  def sync(self, name):
    self.tick('sync')
    if self.ts_done and (self.ds_done or not self.has_ds):
      self.synced_after_write = True
    if self.renamed:
      self.synced_end = True

  def tensorstore(self, d, state):
    if self.tmp is None:
      self.tmp = d           # a host that does not create the directory
      self.c.prove('the directory written to is not the final one', NOT(same(d, self.final)))
    self.write('tensorstore', d)
    self.tick('tensorstore')
    self.ts_done = True
    self.synced_after_write = False

  def dataset(self, p):
    self.write('dataset', p)
    self.tick('dataset')
    self.ds_done = True
    self.synced_after_write = False

  def rename(self, a, b):
    c = self.c
    c.prove('one host finalises the checkpoint', self.proc0)
    c.prove('the temporary directory is renamed to the final name', AND(same(a, self.tmp), same(b, self.final)))
    c.prove('the array data is written before the final name appears', self.ts_done)
    c.prove('the dataset state is written before the final name appears', self.ds_done or not self.has_ds)
    c.prove('the metadata is written and closed before the final name appears', self.msg_done)
    c.prove('all hosts have synchronised after their writes before the final name appears', self.synced_after_write)
    c.prove('an existing checkpoint is never overwritten', not self.exists_)
    c.prove('the final name appears once', not self.renamed)
    self.tick('rename')
    self.renamed = True

  def removal(self, what):
    self.c.prove('old checkpoints are removed only after the new one is in place', self.renamed)
    self.c.prove('one host removes old checkpoints', self.proc0)
    self.tick(what)


def same(a, b):
  if a is None or b is None:
    return False
  return bool(a == b)


def str_startswith(p, q):
  return p.startswith(q) if isinstance(p, (str, strs.SymStr)) and not (isinstance(p, str) and strs.is_sym(q)) else strs.lit(p).startswith(q)


def saving(chk):
  m = clone(FC, overrides={'os': strs.OS})
  mu = clone('t5x/checkpoints_utils.py', overrides={'os': strs.OS, 're': strs.RE})

  def body(c, cls, gs):
    c.user['strings'] = True
    step, stamp = c.int('step', 0), c.int('timestamp', 0)
    base = 'gs://bucket/d' if gs else '/d'
    final = base + '/checkpoint_' + strs.int_to_str(step)
    proc0 = c.choose('first process', [True, False])
    exists = c.choose('already saved', [False, True])
    has_ds = c.choose('dataset iterator', [False, True])
    w = World(c, final, proc0, has_ds, exists)
    content = []

    class F:
      def __init__(self, p, mode='r'):
        w.c.prove('the metadata file is a new file of the temporary directory', same(p, (w.tmp if w.tmp is not None else '') + '/checkpoint') and 'w' in mode)
        w.write('msgpack', p)
        w.tick('open')

      def __enter__(self):
        return self

      def write(self, b):
        w.tick('write')
        content.append(b)

      def close(self):
        w.msg_done = bool(content)

      def __exit__(self, t, *a):
        if t is None:
          self.close()
        return False

      flush = lambda self: None
    G = Fake(exists=w.exists, makedirs=w.makedirs, rename=lambda a, b, *k, **kk: w.rename(a, b), GFile=F,
             rmtree=lambda p: removed(p), remove=lambda p: removed(p), isdir=w.exists)

    def removed(p):
      c.prove('cleaning up touches only the temporary directory', w.under_tmp(p) and not w.renamed)
      w.tick('cleanup')

    class DS:
      def save(self, p):
        w.dataset(p)

      def __bool__(self):
        return True

    def run(cmd, **k):
      c.prove('the move is checked for success', k.get('check') is True and list(cmd[:3]) == ['gsutil', '-m', 'mv'] and len(cmd) == 5)
      w.rename(cmd[3], cmd[4])
    state = Fake(step=step)

    def tensorstore(d, st, *a, **k):
      c.prove('the given state is written', st is state)
      w.tensorstore(d, st)
      return {'written': 'spec'}

    def to_bytes(x):
      content_of.append(x)
      return b'bytes'
    content_of = []
    ns = types.SimpleNamespace
    o = Fake(checkpoints_dir=base, _should_write_dataset_ckpt=has_ds, _dataset_ckpt_name='train_ds-000-of-001', _dataset_iterator=DS() if has_ds else None,
             _write_state_to_tensorstore=tensorstore, _remove_old_checkpoints=lambda: w.removal('remove old'), _remove_old_dataset_checkpoints=lambda: w.removal('remove old datasets'),
             _get_checkpoint_dir=lambda s: base + '/checkpoint_' + strs.int_to_str(s), keep=None)
    with patched(m, gfile=G, jax=StubNS(m.jax, process_index=lambda: 0 if proc0 else 1), _sync_global_devices=w.sync, get_local_data=lambda x: x,
                 multihost_utils=Fake(broadcast_one_to_all=lambda x, *a, **k: stamp, sync_global_devices=w.sync), subprocess=Fake(run=run, DEVNULL=None, check_call=None),
                 serialization=StubNS(m.serialization, to_bytes=to_bytes), monitoring=Fake(record_event_duration_secs=lambda *a, **k: None),
                 ocp=StubNS(m.ocp, utils=StubNS(m.ocp.utils, record_saved_duration=lambda *a: None)), get_checkpoint_prefix=lambda: 'checkpoint'):
      try:
        getattr(m, cls).save(o, state)
        done = True
      except (Crash, Failure):
        done = False
    ops = [x for x in w.trace if x not in ('exists', 'FAULT')]
    if exists:
      c.prove('an existing checkpoint of this step is left exactly as it is', not [x for x in ops if x != 'sync'])
      c.cover()
      return
    c.prove('a failure is reported to the caller', done == ('FAULT' not in w.trace))
    if w.tmp is not None:
      # the temporary name is not recognised as a checkpoint, whatever the step and the time
      mu.gfile = Fake(glob=lambda p: [w.tmp], listdir=lambda d: [w.tmp[len(base) + 1:]], exists=lambda p: True, isdir=lambda p: True)
      mu.get_checkpoint_prefix = lambda *a: 'checkpoint'
      c.prove('the temporary name is not listed as a checkpoint', len(list(mu.all_steps(base))) == 0)
    if done:
      c.prove('on the first host the checkpoint is in place after saving', w.renamed == proc0)
      c.prove('the final barrier follows the rename', getattr(w, 'synced_end', False) or not proc0)
      c.prove('every host writes its part', w.ts_done and (w.ds_done or not has_ds))
      c.prove('other hosts touch nothing else', proc0 or not [x for x in ops if x not in ('sync', 'tensorstore', 'dataset')])
      if proc0:
        c.prove('the metadata written is the written state', content_of == [{'version': m.VERSION, 'optimizer': {'written': 'spec'}}])
        c.prove('retention runs after the save', ops.count('remove old') == 1 and ops.count('remove old datasets') == 1)
      c.prove('hosts meet at the same barriers', ops.count('sync') == 3)
    c.cover()
  for gs in (False, True):
    chk.verify(f'Checkpointer.save [{"cloud" if gs else "local"} directory]', FC,
               'every operation keeps the crash invariant: contents only under an unlisted temporary name, one rename after all data, metadata and a barrier; an existing checkpoint is untouched; removals only afterwards; any operation may fail',
               lambda c, gs=gs: body(c, 'Checkpointer', gs), seconds=200, max_paths=20000,
               kind='every step and time stamp, every single failing operation',
               assumed=['rename is atomic (POSIX; object stores: gsutil mv reports completion)', 'gfile operations act on the path they are given', '_sync_global_devices is a barrier over all hosts',
                        '_write_state_to_tensorstore writes only below the directory it is given (bounded replay)', 'one common time stamp per save (broadcast)'])

  def legacy(c):
    mut = clone('t5x/utils.py')
    log = []
    has = c.choose('save checkpointer', [True, False])
    sv = Fake(save=lambda st, fns=(), **k: log.append((st, fns, k)))
    o = mut.LegacyCheckpointer.__new__(mut.LegacyCheckpointer)
    o.__dict__.update(_save_checkpointer=sv if has else None, _restore_checkpointer=None, _strict=False)
    man = Fake(_checkpointer=o)
    try:
      mut.LegacyCheckpointManager.save(man, 'state', ('f',))
      ok = True
    except ValueError:
      ok = False
    c.prove('the state and its transformations are saved exactly once', (ok and len(log) == 1 and log[0][:2] == ('state', ('f',))) if has else (not ok and not log))
    c.cover()
  chk.verify('LegacyCheckpointManager.save / LegacyCheckpointer.save', 't5x/utils.py', 'delegates to Checkpointer.save exactly once with the given state', legacy)


# --------------------------------------------------------------- bounded part
class DsIter:
  """A dataset iterator whose saved position is a number."""

  def __init__(self, pos=0):
    self.pos = pos

  def save(self, p):
    with open(p, 'w') as f:
      f.write(f'half')
      f.flush()
      f.seek(0)
      f.write(f'pos={self.pos};')

  def load(self, p):
    self.pos = int(open(p).read().split('=')[1].rstrip(';'))

  def __bool__(self):
    return True


def finals(d):
  import re
  return sorted(int(x.split('_')[1]) for x in os.listdir(d) if re.fullmatch('checkpoint_[0-9]+', x))


def sub(d, s):
  return ck.tree(f'{d}/checkpoint_{s}')


def sites(mods, skip=()):
  return {os.path.realpath(m.__file__) for m in mods}


class Tracer:
  """Calls `at(n)` before the n-th executed line of the modules."""

  def __init__(self, files, at):
    self.files, self.at, self.n = files, at, 0
    self.busy = False

  def trace(self, frame, event, arg):
    if self.busy or os.path.realpath(frame.f_code.co_filename) not in self.files:
      return None
    return self.local

  def local(self, frame, event, arg):
    if event == 'line' and not self.busy:
      self.n += 1
      self.busy = True
      try:
        self.at(self.n)
      finally:
        self.busy = False
    return self.local

  def __enter__(self):
    sys.settrace(self.trace)
    return self

  def __exit__(self, *a):
    sys.settrace(None)


def state(s):
  return ck.with_step(ck.train_state(0, seed=s % 97), s)


def search_crash(rec):
  """Crash before each executed line of the save; then everything visible is complete."""
  import numpy as np
  from t5x import checkpoints as cp, checkpoint_utils as cu
  need(cp, 'Checkpointer', 'save')
  files = sites([cp, cu])
  if True:
    settings = [('plain', {}, [3], 7), ('keep one', {'keep': 1}, [3, 5], 7), ('keep one, dataset', {'keep': 1, 'keep_dataset_checkpoints': 1}, [5], 10),
                ('existing step', {'keep': 1}, [3, 7], 7), ('earlier step', {'keep': 2}, [3, 9], 4), ('first save', {}, [], 0),
                ('best', {'keep': 1, 'cls': cp.SaveBestCheckpointer}, [1, 2, 3], 7)]
    for name, kw, before, new in settings:
      kw = dict(kw)
      cls = kw.pop('cls', None)
      with ck.scratch() as top:
        base = f'{top}/base'
        os.makedirs(base)
        ds = DsIter() if 'dataset' in name or name == 'plain' else None
        mk = lambda d, ds=None: ck.checkpointer(d, state(0), cls=cls, dataset_iterator=ds, **kw)
        c0 = ck.checkpointer(base, state(0), dataset_iterator=ds)
        for s in before:
          c0.save(state(s))
        old = {s: sub(base, s) for s in before}

        def visible(d, done=False):
          """What a reader sees at this instant."""
          present = finals(d)
          for s in present:
            if s in old:
              t = sub(d, s)
              drop = set(old[s]) - set(t)
              if any(t[k] != old[s].get(k) for k in t):
                return f'the existing checkpoint {s} was altered'
              if drop and not (all(os.path.basename(x).startswith('train_ds') for x in drop) or new in present):
                return f'the existing checkpoint {s} lost {sorted(drop)[:3]} before the new one is in place'
          if new not in present:
            gone = [s for s in old if s not in present]
            if gone:
              return f'checkpoint {gone} was removed before the new one is in place'
          elif new not in old:
            # complete: the same files as the finished save has
            t = sub(d, new)
            if ref and {k: v for k, v in t.items() if 'checkpoint' not in k} .keys() != {k: v for k, v in ref.items() if 'checkpoint' not in k}.keys():
              return f'checkpoint {new} is visible but incomplete: it lacks {sorted(set(ref) - set(t))[:4]}'
            if ref and t != ref:
              return f'checkpoint {new} is visible but differs from the finished one in {[k for k in ref if t.get(k) != ref[k]][:3]}'
          return None
        ref = None
        full = f'{top}/full'
        shutil.copytree(base, full)
        cnt = Tracer(files, lambda n: None)
        c = mk(full, ds)
        with cnt:
          c.save(state(new))
        ref = sub(full, new)

        def complete():
          r = ck.checkpointer(full, state(0), dataset_iterator=DsIter() if ds else None).restore(step=new)
          if int(np.asarray(r.step)) != new or not np.array_equal(np.asarray(r.params['a']['w']), state(new).params['a']['w']):
            return 'the finished checkpoint does not restore to the saved state'
          return visible(full)
        rec.run({'setting': name, 'crash': None}, complete)
        # observe at every line, without a crash
        d = f'{top}/watch'
        shutil.copytree(base, d)
        seen = []

        def look(n):
          if not seen:
            v = visible(d)
            if v:
              seen.append((n, v))
        c = mk(d, ds)
        with Tracer(files, look):
          c.save(state(new))
        rec.check({'setting': name, 'observed at each of the lines': cnt.n}, not seen, seen[:1])
        total = cnt.n
        stride = 1 if env.TIER != 'quick' or total < 150 else 2
        for k in range(1, total + 1, stride):
          if rec.full:
            return
          d = f'{top}/c{k}'
          shutil.copytree(base, d)

          def crash(n, k=k):
            if n == k:
              raise Crash()
          c = mk(d, ds)

          def run():
            try:
              with Tracer(files, crash):
                c.save(state(new))
            except Crash:
              pass
            finally:
              sys.settrace(None)
            v = visible(d)
            if v:
              return v
            # the restarted job saves again and succeeds
            c2 = mk(d, ds)
            c2.save(state(new))
            if new not in finals(d):
              return 'saving again after the crash does not produce the checkpoint'
            r = ck.checkpointer(d, state(0)).restore(step=new)
            if int(np.asarray(r.step)) != new:
              return 'the checkpoint saved after the crash does not restore'
          rec.run({'setting': name, 'crash before executed line': k, 'of': total}, run)
          shutil.rmtree(d, ignore_errors=True)


def search_faults(rec):
  """An I/O operation fails with an error (once or from then on)."""
  import numpy as np
  from t5x import checkpoints as cp
  from tensorflow.io import gfile as real
  need(cp, 'gfile')
  ops = ['makedirs', 'rename', 'exists', 'write', 'dataset', 'tensorstore']
  for op in ops:
    for ds in (False, True):
      for forever in (False, True):
        if rec.full:
          return

        def run():
          with ck.scratch() as d:
            it = DsIter(4) if ds else None
            c = ck.checkpointer(d, state(0), dataset_iterator=it, keep=1)
            c.save(state(2))
            old = sub(d, 2)
            hit = [0]

            def failing(f):
              def g(*a, **k):
                hit[0] += 1
                if hit[0] == 1 or forever:
                  raise OSError('disk full')
                return f(*a, **k)
              return g
            over = {}
            if op in ('makedirs', 'rename', 'exists'):
              over['gfile'] = StubNS(real, **{op: failing(getattr(real, op))})
            elif op == 'write':
              class F:
                def __init__(self, *a):
                  self.f = real.GFile(*a)

                def __enter__(self):
                  return self

                def __exit__(self, *a):
                  self.f.close()
                  return False

                def write(self, b):
                  self.f.write(b[:len(b) // 2])
                  self.f.flush()
                  raise OSError('disk full')

                def __getattr__(self, n):
                  return getattr(self.f, n)
              over['gfile'] = StubNS(real, GFile=F)
            elif op == 'tensorstore':
              class TS:
                def __getattr__(self, n):
                  return getattr(cp_ts, n)

                def open(self, *a, **k):
                  raise OSError('disk full')
              cp_ts = cp.ts
              over['ts'] = TS()
            if op == 'dataset':
              if not ds:
                return None
              def bad(p):
                open(p, 'w').write('ha')
                raise OSError('disk full')
              it.save = bad
            try:
              with patched(cp, **over):
                c.save(state(9))
              ok = True
            except Exception:  # pylint: disable=broad-except
              ok = False
            now = finals(d)
            if not ok:
              if 9 in now:
                r = ck.checkpointer(d, state(0)).restore(step=9)
                if not np.array_equal(np.asarray(r.params['a']['w']), state(9).params['a']['w']):
                  return 'a failed save left an unreadable checkpoint visible'
                if ds and not os.path.exists(f'{d}/checkpoint_9/train_ds-000-of-001'):
                  return 'a failed save left a checkpoint without its dataset state visible'
                return None
              if 2 not in now or sub(d, 2) != old:
                return 'a failed save damaged or removed the existing checkpoint'
            else:
              r = ck.checkpointer(d, state(0)).restore(step=9)
              if not np.array_equal(np.asarray(r.params['a']['w']), state(9).params['a']['w']):
                return 'the save reported success but the checkpoint is wrong'
              if ds and open(f'{d}/checkpoint_9/train_ds-000-of-001').read() != 'pos=4;':
                return 'the save reported success but the dataset state is missing or partial'
        rec.run({'failing operation': op, 'dataset': ds, 'every time': forever}, run)


class HostPart(ck.Part):

  def __init__(self, h, n):
    super().__init__()
    self.h, self.n = h, n

  def get_data_layout(self, *a, **k):
    l = ck.Layout()
    l.shard_id, l.num_shards = self.h, self.n
    return l

  def get_local_chunk_info(self, shape, axes):
    from t5x import partitioning
    return partitioning.LocalChunkInfo(slice=(slice(None),) * len(shape), replica_id=0 if self.h == 0 else 1)


def search_hosts(rec):
  """Several hosts as threads; one host is held up before its k-th line."""
  import asyncio
  import numpy as np
  from t5x import checkpoints as cp
  need(cp, 'Checkpointer', 'save')
  need(cp, '_sync_global_devices')
  files = sites([cp])
  rnd = random.Random(8)
  for k in range(14 if env.TIER == 'quick' else 80):
    if rec.full:
      return
    nh = rnd.choice([2, 2, 3])
    slow = rnd.randrange(nh)
    where = 3 + 6 * k if k < 12 else rnd.randint(1, 90)

    def run():
      with ck.scratch() as d:
        local = threading.local()
        bar = threading.Barrier(nh)
        names, problems = [[] for _ in range(nh)], []
        box = {}
        real_gfile, real_rename = cp.gfile, cp.gfile.rename

        def sync(name):
          names[local.h].append(name)
          bar.wait(20)

        def bcast(x, *a, **kk):
          bar.wait(20)
          if local.h == 0:
            box['x'] = x
          bar.wait(20)
          return box['x']

        def rename(a, b, *r):
          files_ = os.listdir(a)
          for h in range(nh):
            f = f'train_ds-{h:03}-of-{nh:03}'
            if f not in files_ or open(f'{a}/{f}').read() != f'pos={h + 1};':
              problems.append(f'the checkpoint appears before host {h} wrote its dataset state')
          if 'checkpoint' not in files_:
            problems.append('the checkpoint appears before its metadata')
          for h in range(nh):
            if not finished[h]:
              problems.append(f'the checkpoint appears before host {h} finished its array writes')
          return real_rename(a, b, *r)
        finished = [False] * nh
        errs = []

        def host(h):
          local.h = h
          try:
            asyncio.set_event_loop(asyncio.new_event_loop())
            c = cp.Checkpointer(state(0), HostPart(h, nh), d, dataset_iterator=DsIter(h + 1))
            orig = c._write_state_to_tensorstore

            def w(*a, **kk):
              r = orig(*a, **kk)
              finished[h] = True
              return r
            c._write_state_to_tensorstore = w
            t = Tracer(files, lambda n: time.sleep(0.25) if n == where else None) if h == slow else None
            bar.wait(20)
            if t:
              with t:
                c.save(state(6))
            else:
              c.save(state(6))
            if finals(d) != [6]:
              problems.append(f'host {h} returns before the checkpoint is in place')
          except BaseException as e:  # pylint: disable=broad-except
            errs.append(f'host {h}: {type(e).__name__}: {e}')
            bar.abort()
        with patched(cp, _sync_global_devices=sync, multihost_utils=StubNS(cp.multihost_utils, broadcast_one_to_all=bcast),
                     jax=StubNS(cp.jax, process_index=lambda: getattr(local, 'h', 0), process_count=lambda: nh),
                     gfile=StubNS(real_gfile, rename=rename)):
          ts = [threading.Thread(target=host, args=(h,)) for h in range(nh)]
          for t in ts:
            t.start()
          for t in ts:
            t.join(60)
        if problems:
          return problems[0]
        if errs:
          return f'saving on {nh} hosts fails: {errs[0]}'
        if len({tuple(x) for x in names}) != 1:
          return f'hosts meet at different barriers: {names}'
        r = ck.checkpointer(d, state(0)).restore(step=6)
        if not np.array_equal(np.asarray(r.params['a']['w']), state(6).params['a']['w']):
          return 'the saved checkpoint restores to other values'
    rec.run({'hosts': nh, 'slow host': slow, 'held up before line': where}, run, seconds=120)


def search_orbax(rec):
  """Orbax: the observer never sees a listed step that does not restore."""
  import numpy as np
  from t5x import checkpoints as cp
  need(cp, 'OrbaxCheckpointManagerInterface', 'save')
  files = sites([cp])
  for k in range(1, 60, 6 if env.TIER == 'quick' else 2):
    if rec.full:
      return

    def run():
      with ck.scratch() as d:
        mk = lambda: cp.OrbaxCheckpointManagerInterface(d, state(0), ck.Part(), save_dtype=np.float32, keep=2)
        man = mk()
        man.save(state(3))
        man.wait_until_finished()

        def crash(n):
          if n == k:
            raise Crash()
        try:
          with Tracer(files, crash):
            man.save(state(8))
          man.wait_until_finished()
        except Crash:
          pass
        finally:
          sys.settrace(None)
        try:
          man.wait_until_finished()
          man.close()
        except Exception:  # pylint: disable=broad-except
          pass
        man2 = mk()
        try:
          steps = list(man2.all_steps())
          if 3 not in steps:
            return 'the earlier checkpoint is gone after a crashed save'
          for s in steps:
            r = man2.restore(step=s)
            if int(np.asarray(r.step)) != s or not np.allclose(np.asarray(r.params['a']['w']), state(s).params['a']['w']):
              return f'step {s} is listed after the crash but does not restore'
        finally:
          man2.close()
    rec.run({'crash before executed line': k}, run, seconds=120)


def build(chk):
  saving(chk)
  chk.search('crash before every line of a save', '7 settings x every executed line of checkpoints.py and checkpoint_utils.py (every second one above 150 lines in the quick tier)', search_crash)
  chk.search('failing operations', '6 operations x dataset x once/always', search_faults)
  chk.search('several hosts, one held up', '2-3 hosts as threads, random hold-up points', search_hosts, case_seconds=120)
  chk.search('Orbax save, crash before a line', '10 crash points', search_orbax, case_seconds=120)


if __name__ == '__main__':
  main('C01', build)
