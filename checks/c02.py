"""C02: retention of checkpoints removes only what the policy allows."""

import itertools
import os
import random

from vc import env
env.setup()
import z3

from vc import core, seq, strs, ck
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, lift, zint, forall
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

FC = 't5x/checkpoints.py'
FU = 't5x/checkpoint_utils.py'


class Dir:
  """The directory of one step (what _get_checkpoint_dir returns)."""

  def __init__(self, step):
    self.step = step


class Removed:
  """Ghost record of the removals: a characteristic set and its size."""

  def __init__(self, c, known):
    self.c, self.set, self.count, self.known = c, seq.SymSet(), 0, known

  def __call__(self, d, prefix=None):
    c = self.c
    c.prove('only directories of this checkpointer are removed', isinstance(d, Dir))
    if not isinstance(d, Dir):
      raise core.PathEnd()
    c.prove('only listed steps are removed', self.known(d.step))
    c.prove('a checkpoint is removed at most once', NOT(self.set.has(d.step)))
    self.set.add(d.step)
    self.count = self.count + 1
    if prefix is not None:
      c.user['prefixes'] = c.user.get('prefixes', []) + [prefix]


class RemovalLoop(LoopSpec):
  """for step in <sequence>: remove(step)"""
  name = 'removal loop'

  def __init__(self, ghost, record=None, only=None):
    self.g = ghost
    self.record = record
    self.only = only

  def applies(self, L, env):
    ok = L.seq is not None and core.concrete(L.seq.length) is None
    if ok and self.record is not None:
      self.record.append(L.seq)
    return ok

  def inv(self, L, env):
    s, R = L.seq, self.g
    yield 'as many removals as iterations', R.count == L.i
    yield 'exactly the steps passed so far are removed', forall(1, lambda j: IMP(AND(j >= 0, j < L.n), core.IFF(R.set.has(s.get(j)), j < L.i)))
    if self.only:
      r = self.only(L.i)
      yield ('nothing else is removed',) + (r if isinstance(r, tuple) else (r,))

  def havoc(self, L, env):
    self.g.set = seq.SymSet.fresh('removed')
    self.g.count = ctx_int('removals')
    return {}


def ctx_int(n):
  return core.ctx().int(n, 0, inp=False)


def ascending(c, name='steps', n=None, lo=0):
  """A strictly ascending list of steps: unbounded, or of n elements."""
  if n is not None:
    xs = [c.int(f'{name}{k}', lo) for k in range(n)]
    for a, b in zip(xs, xs[1:]):
      c.assume(a < b)
    return xs, lambda x: OR(False, *[x == y for y in xs])
  s = seq.fresh_seq(name)
  f = s.func
  c.assume(forall(1, lambda i: IMP(AND(i >= 0, i < s.length), s.get(i) >= lo), patterns=[lambda i: f(i)]))
  c.assume(forall(2, lambda i, j: IMP(AND(i >= 0, i < j, j < s.length), s.get(i) < s.get(j)), patterns=[lambda i, j: z3.MultiPattern(f(i), f(j))]))
  inv = c.func(name + '.pos', z3.IntSort(), z3.IntSort())
  # the position of a listed step (a strictly ascending list is injective)
  c.assume(forall(1, lambda i: IMP(AND(i >= 0, i < s.length), lift(inv(f(zint(i)))) == i), patterns=[lambda i: f(i)]))

  orig = s.copy()

  def known(x):
    p = lift(inv(zint(x)))
    return AND(p >= 0, p < orig.length, orig.get(p) == x)
  s.pos = lambda x: lift(inv(zint(x)))
  return s, known


def newest(chk):
  m = clone(FC)

  def body(c, which, n):
    S, known = ascending(c, n=n)
    L = S.length if n is None else n
    keepv = c.choose('limit', ['none', 'zero', 'some'])
    keep = {'none': None, 'zero': 0}.get(keepv, None)
    if keepv == 'some':
      keep = c.int('keep', 1) if n is None else c.choose('keep', [1, 2, 3, 4])
    g = Removed(c, known)
    lst = S if n is None else list(S)
    orig = S.copy() if n is None else seq.from_concrete(S)
    if which == 'model':
      o = Fake(keep=keep, all_steps=lambda: lst, _get_checkpoint_dir=Dir)
      f = m.Checkpointer._remove_old_checkpoints
      cu = StubNS(m.checkpoint_utils, remove_checkpoint_dir=lambda d: g(d))
    else:
      o = Fake(keep_dataset_checkpoints=keep, all_dataset_checkpoint_steps=lambda: lst, _get_checkpoint_dir=Dir)
      f = m.Checkpointer._remove_old_dataset_checkpoints
      cu = StubNS(m.checkpoint_utils, remove_dataset_checkpoint=lambda d, p: g(d, p))
    only = lambda i: forall(1, lambda j: IMP(AND(j >= 0, j < L), core.IFF(g.set.has(orig.get(j)), j < i)))
    m.__vc_rt__.loop_specs = {f'{f.__qualname__}#0': RemovalLoop(g, only=only)}
    with patched(m, checkpoint_utils=cu):
      f(o)
    if keepv != 'some':
      c.prove('without a limit nothing is removed', g.count == 0)
      c.cover()
      return
    over = core.ite(L > keep, L - keep, 0)
    c.prove('as many checkpoints are removed as exceed the limit', g.count == over)
    c.prove('exactly the oldest ones beyond the limit are removed',
            forall(1, lambda j: IMP(AND(j >= 0, j < L), core.IFF(g.set.has(orig.get(j)), j < over))) if n is None else
            AND(True, *[core.IFF(g.set.has(S[j]), j < over) for j in range(n)]))
    if which == 'dataset':
      c.prove('only files of the training dataset iterator are named', all(p == 'train_ds' for p in c.user.get('prefixes', [])))
    c.cover()
  for which, fn in (('model', '_remove_old_checkpoints'), ('dataset', '_remove_old_dataset_checkpoints')):
    chk.verify(f'Checkpointer.{fn}', FC, 'removes exactly the oldest len-keep listed steps, each once; nothing without a limit',
               lambda c, which=which: body(c, which, None), kind='unbounded (loop invariant over any number of checkpoints)',
               assumed=['all_steps returns the present steps ascending (C03)'])
    for n in (0, 1, 3):
      chk.verify(f'Checkpointer.{fn} [{n} checkpoints]', FC, 'the same for a concrete number of checkpoints of any step', lambda c, which=which, n=n: body(c, which, n), kind=f'bounded: {n} checkpoints')

  def period(c, n):
    S, known = ascending(c, n=n)
    P = c.int('period', 1)
    lst = list(S)
    r = m.SaveBestCheckpointer._filter_out_force_keep_period_steps(Fake(_force_keep_period=P), lst)
    r = list(r)
    want = [s for s in S[:-1] if bool(s % P != 0)] + S[-1:]
    c.prove('as many steps remain as are off the period, plus the latest', len(r) == len(want))
    for a, b in zip(r, want):
      c.prove('the steps off the period remain in order, the latest last', a == b)
    c.cover()
  for n in (0, 1, 2, 4):
    chk.verify(f'SaveBestCheckpointer._filter_out_force_keep_period_steps [{n} steps]', FC, 'drops exactly the steps on the period, never the latest', lambda c, n=n: period(c, n), kind=f'bounded: {n} steps of any value, any period')

  def period_u(c):
    S, known = ascending(c)
    P = c.int('period', 1)
    c.assume(S.length >= 1)
    n, orig = S.length, S.copy()
    r = m.SaveBestCheckpointer._filter_out_force_keep_period_steps(Fake(_force_keep_period=P), S)
    r = seq.as_symseq(r)
    c.prove('the latest step stays last', AND(r.length >= 1, r.get(r.length - 1) == orig.get(n - 1)))
    i = c.int('i', 0)
    c.assume(i < r.length - 1)
    c.prove('every other remaining step is a listed one off the period', AND(known(r.get(i)), r.get(i) % P != 0))
    c.assume(i + 1 < r.length - 1)
    c.prove('the remaining steps stay in order', r.get(i) < r.get(i + 1))
    c.cover()
  chk.verify('SaveBestCheckpointer._filter_out_force_keep_period_steps', FC, 'keeps the latest last; everything else kept is a listed step off the period, in order', period_u,
             assumed=['list comprehension: order-preserving bijection onto the elements that satisfy the condition'])


class Metrics:
  """Mapping step -> metric with unknown contents."""

  def __init__(self, c, finite=True):
    self.has_ = c.func('hasmetric', z3.IntSort(), z3.BoolSort())
    self.val_ = c.func('metric', z3.IntSort(), z3.RealSort())
    self.neg, self.pos = c.real('minus_inf', inp=False), c.real('plus_inf', inp=False)
    self.c = c
    f = self.val_
    # float('-inf') / float('inf'): below / above every metric
    c.assume(forall(1, lambda i: AND(lift(f(zint(i))) > self.neg, lift(f(zint(i))) < self.pos), patterns=[lambda i: f(i)]))
    c.assume(self.neg < self.pos)

  def has(self, s):
    return lift(self.has_(zint(s)))

  def __vc_contains__(self, s):
    return self.has(s)

  def __contains__(self, s):
    return bool(self.has(s))

  def num(self, d):
    if isinstance(d, float) and d == float('-inf'):
      return self.neg
    if isinstance(d, float) and d == float('inf'):
      return self.pos
    if core.issym(d):
      return d
    if d is None:
      raise core.Unsupported('comparison with a missing metric')
    return core.SymReal(z3.RealVal(d))

  def value(self, s):
    return lift(self.val_(zint(s)))

  def get(self, s, d=None):
    return core.ite(self.has(s), self.value(s), self.num(d))

  def __getitem__(self, s):
    if not self.has(s):
      raise KeyError(s)
    return self.value(s)


def best(chk):
  m = clone(FC)

  def body(c, n, mode):
    S, known = ascending(c, n=n)
    keep = c.choose('limit', [None, 0, 1, 2] if n is not None else ['any'])
    if keep == 'any':
      keep = c.int('keep', 1)
    P = c.choose('period', [None, 'some'])
    P = c.int('P', 1) if P else None
    if n is None and P is not None:
      raise core.PathEnd()
    kw = c.choose('keep without metrics', [True, False])
    M = Metrics(c)
    g = Removed(c, known)
    asked = []

    def populate(d, name, steps):
      asked.append((d, name))
      steps = seq.as_symseq(steps) or seq.from_concrete(list(steps))
      c.user['asked'] = steps.copy()
      return M
    lst = S if n is None else list(S)
    orig = S.copy() if n is None else None
    rec = []
    o = Fake(keep=keep, _force_keep_period=P, _keep_checkpoints_without_metrics=kw, _metric_mode=mode, _metric_name_to_monitor='run/tag', checkpoints_dir='/d',
             all_steps=lambda: lst, _get_checkpoint_dir=Dir)
    cls = m.SaveBestCheckpointer
    o._filter_out_force_keep_period_steps = lambda x: cls._filter_out_force_keep_period_steps(o, x)
    m.__vc_rt__.loop_specs = {'SaveBestCheckpointer._remove_old_checkpoints#0': RemovalLoop(g, rec)}
    with patched(m, checkpoint_utils=StubNS(m.checkpoint_utils, remove_checkpoint_dir=lambda d: g(d)), populate_metrics_for_steps=populate):
      cls._remove_old_checkpoints(o)
    for d, name in asked:
      c.prove('the monitored metric of this directory is read', d == '/d' and name == 'run/tag')
    better = (lambda a, b: a > b) if mode == 'max' else (lambda a, b: a < b)
    missing = M.neg if mode == 'max' else M.pos
    if n is not None:
      # candidates: neither latest, nor on the period, nor (optionally) without a metric
      cand = [s for s in S[:-1] if (P is None or bool(s % P != 0)) and (not kw or bool(M.has(s)))]
      for s in S:
        if not any(s is x for x in cand):
          c.prove('the latest, force-kept and (if asked) unmeasured checkpoints survive', NOT(g.set.has(s)))
      if not keep:
        c.prove('without a limit nothing is removed', g.count == 0)
        c.cover()
        return
      over = max(0, len(cand) - keep)
      c.prove('all but the best `keep` candidates are removed', g.count == over)
      for a in cand:
        for b in cand:
          if a is b:
            continue
          va, vb = M.get(a, missing), M.get(b, missing)
          c.prove('a removed checkpoint is no better than a kept one', NOT(AND(g.set.has(a), NOT(g.set.has(b)), better(va, vb))))
          c.prove('among equal metrics the oldest goes first', NOT(AND(g.set.has(a), NOT(g.set.has(b)), va == vb, a > b)))
      c.cover()
      return
    # unbounded: the removed steps are a prefix of the candidates sorted from worst to best
    if not rec:
      c.prove('nothing was removed', g.count == 0)
      c.cover()
      return
    L = orig.length
    lat = orig.get(L - 1)
    c.prove('the latest checkpoint survives', NOT(g.set.has(lat)))
    x, y = c.int('x', 0), c.int('y', 0)
    c.assume(AND(known(x), known(y), x != y, g.set.has(x), NOT(g.set.has(y)), y != lat))
    if kw:
      c.prove('a checkpoint without metric survives', M.has(x))
    c.cover()
  for mode in ('max', 'min'):
    for n in (0, 1, 2, 3, 4):
      chk.verify(f'SaveBestCheckpointer._remove_old_checkpoints [{n} checkpoints, {mode}]', FC,
                 'removes exactly the worst candidates beyond the limit (ties: oldest first); latest, force-kept and unmeasured ones survive',
                 lambda c, n=n, mode=mode: body(c, n, mode), seconds=200, kind=f'bounded: {n} checkpoints of any step, any metrics, any period, limit up to 2',
                 assumed=['metrics are finite reals', 'populate_metrics_for_steps by contract'])

  def ub(c, mode):
    S, known = ascending(c)
    keep = c.int('keep', 1)
    kw = c.choose('keep without metrics', [True, False])
    M = Metrics(c)
    g = Removed(c, known)
    n, orig = S.length, S.copy()
    rec, sorts = [], []

    def populate(d, name, steps):
      return M
    o = Fake(keep=keep, _force_keep_period=None, _keep_checkpoints_without_metrics=kw, _metric_mode=mode, _metric_name_to_monitor='run/tag', checkpoints_dir='/d',
             all_steps=lambda: S, _get_checkpoint_dir=Dir)
    pos = S.pos

    def only(i):
      if len(sorts) != 1:
        raise core.Unsupported('the candidates are not sorted once')
      Z = sorts[0]
      src = Z.src

      def at(x):
        p = pos(x)
        return Z.H(src.H(p) if hasattr(src, 'H') else p)
      f = forall(1, lambda x: IMP(g.set.has(x), AND(at(x) >= 0, at(x) < i, at(x) < Z.length, Z.get(at(x)) == x)))
      k = i - 1
      q = Z.G(k)
      p = src.G(q) if hasattr(src, 'G') else q
      ok = AND(k >= 0, k < Z.length)
      return f, IMP(ok, AND(q >= 0, q < Z.length)), IMP(ok, AND(p >= 0, p < n - 1)), IMP(ok, Z.get(k) == orig.get(p)), IMP(ok, pos(Z.get(k)) == p), IMP(ok, AND(True, src.H(p) == q if hasattr(src, 'H') else True, Z.H(q) == k)), IMP(ok, at(Z.get(k)) == k)
    m.__vc_rt__.loop_specs = {'SaveBestCheckpointer._remove_old_checkpoints#0': RemovalLoop(g, rec, only)}
    import vc.transform as T

    def my_sorted(xs, key=None, reverse=False):
      r = T.vc_sorted(xs, key=key, reverse=reverse)
      if isinstance(r, seq.SymSeq):
        sorts.append(r.copy())
      return r
    with patched(m, checkpoint_utils=StubNS(m.checkpoint_utils, remove_checkpoint_dir=lambda d: g(d)), populate_metrics_for_steps=populate, sorted=my_sorted):
      m.SaveBestCheckpointer._remove_old_checkpoints(o)
    if not rec:
      c.prove('nothing was removed', g.count == 0)
      c.cover()
      return
    if len(sorts) != 1:
      raise core.Unsupported('the candidates are not sorted once')
    Z = sorts[0]
    missing = M.neg if mode == 'max' else M.pos
    # Z permutes the candidates
    i = c.int('i', 0)
    c.assume(i < Z.length)
    c.prove('every candidate is a listed step before the latest' + (' with a metric' if kw else ''),
            AND(known(Z.get(i)), Z.get(i) < orig.get(n - 1), M.has(Z.get(i)) if kw else True))
    c.prove('the removed ones are exactly the first |candidates| - keep of the sorted order', AND(g.count == Z.length - keep, core.IFF(g.set.has(Z.get(i)), i < Z.length - keep)))
    j = c.int('j', 0)
    c.assume(AND(i < j, j < Z.length))
    va, vb = M.get(Z.get(i), missing), M.get(Z.get(j), missing)
    c.prove('sorted from worst to best, ties by age', OR(va < vb if mode == 'max' else va > vb, AND(va == vb, Z.get(i) < Z.get(j))))
    c.prove('the latest checkpoint survives', NOT(g.set.has(orig.get(n - 1))))
    c.cover()
  for mode in ('max', 'min'):
    chk.verify(f'SaveBestCheckpointer._remove_old_checkpoints [{mode}]', FC,
               'the removed steps are exactly the first |candidates|-keep candidates from worst to best; every removal is of a listed step, once',
               lambda c, mode=mode: ub(c, mode), seconds=240, kind='unbounded (any number of checkpoints; no force-keep period)',
               assumed=['sorted: stable ordered permutation', 'metrics are finite reals'])


def pins(chk):
  m = clone(FU)

  class Gone(Exception):
    pass

  def body(c, which):
    pinned = c.choose('pinned', [False, True])
    log, looked = [], []
    files = c.choose('files', [[], ['/m/checkpoint_5/train_ds-000-of-002'], ['/m/checkpoint_5/train_ds-000-of-002', '/m/checkpoint_5/train_ds-001-of-002']])

    class F:
      def __init__(self, p, mode):
        log.append(('open', p, mode))

      def __enter__(self):
        return self

      def __exit__(self, *a):
        return False

      def write(self, t):
        log.append(('write', t))

    class G:
      @staticmethod
      def exists(p):
        looked.append(p)
        return pinned

      @staticmethod
      def glob(p):
        log.append(('glob', p))
        return files
      rmtree = staticmethod(lambda p: log.append(('rmtree', p)))
      remove = staticmethod(lambda p: log.append(('remove', p)))
      GFile = F
    d = '/m/checkpoint_5'
    with patched(m, gfile=G):
      if which == 'remove':
        m.remove_checkpoint_dir(d)
        c.prove('a pinned checkpoint survives; any other directory is removed once', log == ([] if pinned else [('rmtree', d)]))
      elif which == 'dataset':
        m.remove_dataset_checkpoint(d, 'train_ds')
        want = [] if pinned else [('glob', d + '/train_ds*')] + [('remove', f) for f in files]
        c.prove('a pinned checkpoint keeps its dataset files; else exactly those files are removed', log == want)
      elif which == 'pin':
        m.pin_checkpoint(d)
        c.prove('the pin file of that directory is written', [e[:2] for e in log if e[0] == 'open'] == [('open', d + '/PINNED')] and not any(e[0] in ('rmtree', 'remove') for e in log))
      elif which == 'unpin':
        m.unpin_checkpoint(d)
        rm = [e for e in log if e[0] in ('rmtree', 'remove')]
        c.prove('unpinning removes only the pin file', [e[1] for e in rm] == ([d + '/PINNED'] if pinned else []))
      c.prove('the pin of this very checkpoint is looked up', all(p == d + '/PINNED' for p in looked) and (bool(looked) or which == 'pin'))
    c.cover()
  for which, fn in (('remove', 'remove_checkpoint_dir'), ('dataset', 'remove_dataset_checkpoint'), ('pin', 'pin_checkpoint'), ('unpin', 'unpin_checkpoint')):
    chk.verify(fn, FU, 'pinned checkpoints are left alone; nothing but the named directory or files is touched', lambda c, which=which: body(c, which),
               assumed=['gfile operations act on the path they are given'])


# --------------------------------------------------------------- bounded part
def mkdirs(d, steps, pinned=(), ds=(), prefix='checkpoint'):
  for s in steps:
    p = f'{d}/{prefix}_{s}'
    os.makedirs(p)
    open(f'{p}/checkpoint', 'w').close()
    if s in pinned:
      from t5x import checkpoint_utils as cu
      need(cu, 'pin_checkpoint')(p)
    if s in ds:
      open(f'{p}/train_ds-000-of-002', 'w').close()
      open(f'{p}/train_ds-001-of-002', 'w').close()


NOISE = ['checkpoint_7777777.tmp-12', 'eval', 'model_5', 'checkpoint_x', 'mycheckpoint_3']


def search_newest(rec):
  from t5x import checkpoints as cp
  need(cp, 'Checkpointer', '_remove_old_checkpoints')
  need(cp, 'Checkpointer', '_remove_old_dataset_checkpoints')
  rnd = random.Random(3)
  st = ck.train_state(0)
  for k in range(150 if env.TIER == 'quick' else 1000):
    if rec.full:
      return
    with ck.scratch() as d:
      steps = sorted(rnd.sample([0, 1, 2, 9, 10, 11, 99, 100, 1000, 20000], rnd.randint(0, 7)))
      pinned = [s for s in steps if rnd.random() < 0.25]
      ds = [s for s in steps if rnd.random() < 0.7]
      keep, kds = rnd.choice([None, 0, 1, 2, 3, 10]), rnd.choice([None, 0, 1, 2, 3, 10])
      mkdirs(d, steps, pinned, ds)
      for x in NOISE:
        os.makedirs(f'{d}/{x}')
        open(f'{d}/{x}/train_ds-000-of-002', 'w').close()

      def run():
        c = ck.checkpointer(d, st, keep=keep, keep_dataset_checkpoints=kds)
        c._remove_old_checkpoints()
        left = sorted(int(x.split('_')[1]) for x in os.listdir(d) if x not in NOISE)
        want = sorted(set(steps if not keep else steps[-keep:]) | set(pinned))
        if left != want:
          return f'left {left}, the policy allows removing only down to {want}'
        c._remove_old_dataset_checkpoints()
        have = [s for s in left if s in ds]
        dleft = [s for s in left if os.path.exists(f'{d}/checkpoint_{s}/train_ds-001-of-002')]
        dwant = sorted(set(have if not kds else have[-kds:]) | (set(pinned) & set(have)))
        if dleft != dwant:
          return f'dataset files left at {dleft}, expected {dwant}'
        for s in left:
          if not os.path.exists(f'{d}/checkpoint_{s}/checkpoint') or (s in pinned and not os.path.exists(f'{d}/checkpoint_{s}/PINNED')):
            return f'files of the surviving step {s} are gone'
        for x in NOISE:
          if not os.path.exists(f'{d}/{x}/train_ds-000-of-002'):
            return f'{x} was touched'
      rec.run({'steps': steps, 'pinned': pinned, 'datasets': ds, 'keep': keep, 'keep_ds': kds}, run)


def best_oracle(steps, metrics, keep, period, kw, mode, pinned):
  if not keep:
    return list(steps)
  cand = [s for s in steps[:-1] if not (period and s % period == 0)]
  if kw:
    cand = [s for s in cand if s in metrics]
  sign = 1 if mode == 'max' else -1
  key = lambda s: (sign * metrics[s] if s in metrics else float('-inf'), s)
  worst = sorted(cand, key=key)
  gone = set(worst[:max(0, len(cand) - keep)]) - set(pinned)
  return [s for s in steps if s not in gone]


def search_best(rec):
  import numpy as np
  from t5x import checkpoints as cp
  need(cp, 'SaveBestCheckpointer', '_remove_old_checkpoints')
  need(cp, 'populate_metrics_for_steps')
  rnd = random.Random(4)
  st = ck.train_state(0)
  for k in range(300 if env.TIER == 'quick' else 2500):
    if rec.full:
      return
    with ck.scratch() as d:
      steps = sorted(rnd.sample([0, 1, 2, 3, 6, 9, 10, 11, 12, 99, 100, 1000], rnd.randint(0, 8)))
      pinned = [s for s in steps if rnd.random() < 0.15]
      met = {s: rnd.choice([-1.5, 0.0, 0.25, 0.5, 2.0]) for s in steps if rnd.random() < rnd.choice([0.3, 0.8, 1.0])}
      keep, period = rnd.choice([None, 0, 1, 2, 3]), rnd.choice([None, None, 2, 3, 10])
      kw, mode = rnd.choice([True, False]), rnd.choice(['max', 'min'])
      mkdirs(d, steps, pinned)
      os.makedirs(f'{d}/checkpoint_55.tmp-1')

      def run():
        c = ck.checkpointer(d, st, cls=cp.SaveBestCheckpointer, keep=keep, metric_name_to_monitor='train/accuracy', metric_mode=mode,
                            keep_checkpoints_without_metrics=kw, force_keep_period=period)
        with patched(cp, populate_metrics_for_steps=lambda dd, name, ss: {s: np.array(v, np.float32) for s, v in met.items() if s in ss}):
          c._remove_old_checkpoints()
        left = sorted(int(x.split('_')[1]) for x in os.listdir(d) if '.tmp' not in x)
        want = best_oracle(steps, met, keep, period, kw, mode, pinned)
        if left != want:
          return f'left {left}, expected {want}'
        if not os.path.exists(f'{d}/checkpoint_55.tmp-1'):
          return 'a directory that is no checkpoint was removed'
      rec.run({'steps': steps, 'metrics': {str(a): b for a, b in met.items()}, 'pinned': pinned, 'keep': keep, 'period': period, 'keep without metrics': kw, 'mode': mode}, run)
  for bad in ('auto', 'Max', ''):
    def run():
      with ck.scratch() as d:
        try:
          ck.checkpointer(d, st, cls=cp.SaveBestCheckpointer, metric_mode=bad)
        except ValueError:
          return None
        return f'metric mode {bad!r} accepted'
    rec.run({'mode': bad}, run)


def search_metrics(rec):
  """Real event files."""
  import numpy as np
  import tensorflow as tf
  from t5x import checkpoints as cp
  fn = need(cp, 'populate_metrics_for_steps')
  rnd = random.Random(6)
  runs = ['train', 'inference_eval/glue', 'inference_eval/glue_v2', 'inference_eval', 'a']
  tags = ['accuracy', 'eval/accuracy', 'loss', 'glue/eval/accuracy']
  for k in range(12 if env.TIER == 'quick' else 60):
    if rec.full:
      return
    with ck.scratch() as d:
      data = {}
      for r in rnd.sample(runs, rnd.randint(1, 4)):
        w = tf.summary.create_file_writer(f'{d}/{r}')
        with w.as_default():
          for t in rnd.sample(tags, rnd.randint(1, 3)):
            for s in range(0, 12, rnd.choice([1, 2, 3])):
              v = float(np.float32(rnd.random()))
              tf.summary.scalar(t, v, step=s)
              data[(r, t, s)] = v
        w.close()
      for name in ('train/accuracy', 'train/loss', 'inference_eval/glue/eval/accuracy', 'inference_eval/glue_v2/eval/accuracy', 'train/eval/accuracy', 'x/y', 'a/loss'):
        steps = rnd.sample(range(12), 5)
        splits = [(name[:i], name[i + 1:]) for i in range(len(name)) if name[i] == '/']
        present = {r for r, _, _ in data}
        opts = [(r, t) for r, t in splits if r in present]
        if len(opts) > 1:
          continue          # which run an ambiguous name means is not documented

        def run():
          got = {int(s): float(v) for s, v in fn(d, name, list(steps)).items()}
          want = {s: v for (r, t, s), v in data.items() if opts and (r, t) == opts[0] and s in steps}
          if got != want:
            return f'{got} instead of {want}'
        rec.run({'case': k, 'name': name, 'steps': steps, 'runs': sorted(present)}, run)


def search_saves(rec):
  """Real saves with each retention setting."""
  import numpy as np
  import tensorflow as tf
  from t5x import checkpoints as cp, checkpoint_utils as cu
  st = ck.train_state(0)
  seqs = [[0, 1, 2, 3, 4, 5], [0, 5, 10, 15, 20], [3, 7, 9, 10, 11, 100]]
  for steps in seqs:
    for keep in (None, 1, 3):
      for pin in ((), (steps[1],)):
        if rec.full:
          return

        def run():
          with ck.scratch() as d:
            c = ck.checkpointer(d, st, keep=keep)
            alive = []
            for s in steps:
              c.save(ck.with_step(st, s))
              if s in pin:
                cu.pin_checkpoint(f'{d}/checkpoint_{s}')
              alive.append(s)
              alive = sorted(set(alive if not keep else alive[-keep:]) | (set(pin) & set(alive)))
              got = list(c.all_steps())
              # a pinned old checkpoint occupies a place in the listing only
              want = [x for x in steps if x <= s]
              new = set(want if not keep else want[-keep:])
              if not (new <= set(got)):
                return f'after saving {s}: {got}; the newest {keep} are not all there'
              extra = set(got) - new - set(pin)
              if keep and extra:
                return f'after saving {s}: {sorted(extra)} should have been removed'
              if set(pin) & set(want) - set(got):
                return f'pinned {pin} was removed'
            if pin and keep:
              p = f'{d}/checkpoint_{pin[0]}'
              cu.unpin_checkpoint(p)
              if cu.is_pinned_checkpoint(p):
                return 'unpinning left the pin in place'
              if not os.path.isdir(p) or not os.path.exists(p + '/checkpoint'):
                return 'unpinning removed the checkpoint'
              c.save(ck.with_step(st, 5000))
              if pin[0] in c.all_steps():
                return 'an unpinned old checkpoint is not removed'
        rec.run({'steps': steps, 'keep': keep, 'pinned': pin}, run)
  for mode in ('max', 'min'):
    for keep in (1, 2):
      for period in (None, 4):
        for kw in (True, False):
          if rec.full:
            return
          met = {0: 0.5, 2: 0.9, 4: 0.1, 6: 0.7, 8: 0.7, 10: 0.2}
          if not kw:
            met.pop(6)

          def run():
            with ck.scratch() as d:
              c = ck.checkpointer(d, st, cls=cp.SaveBestCheckpointer, keep=keep, metric_name_to_monitor='train/accuracy', metric_mode=mode,
                                  keep_checkpoints_without_metrics=kw, force_keep_period=period)
              alive = []
              for s in (0, 2, 4, 6, 8, 10):
                c.save(ck.with_step(st, s))
                alive = best_oracle(alive + [s], {a: np.float32(b) for a, b in met.items() if a < s}, keep, period, kw, mode, ())
                if list(c.all_steps()) != alive:
                  return f'after saving {s}: {list(c.all_steps())}, expected {alive}'
                if s in met:
                  w = tf.summary.create_file_writer(f'{d}/train')
                  with w.as_default():
                    tf.summary.scalar('accuracy', met[s], step=s)
                  w.close()
          rec.run({'mode': mode, 'keep': keep, 'period': period, 'keep without metrics': kw}, run)


def search_orbax(rec):
  import numpy as np
  import tensorflow as tf
  from t5x import checkpoints as cp, checkpoint_utils as cu
  need(cp, 'OrbaxCheckpointManagerInterface')
  st = ck.train_state(0)
  for keep in (None, 1, 2):
    for period in (None, 4):
      for met in (None, 'max', 'min'):
        for pin in ((), (2,)):
          for kw in (True, False):
            if rec.full:
              return
            if met is None and not kw:
              continue
            vals = {0: 0.5, 2: 0.3, 4: 0.1, 6: 0.7, 8: 0.6, 10: 0.2}

            def run():
              with ck.scratch() as d:
                man = cp.OrbaxCheckpointManagerInterface(d, st, ck.Part(), save_dtype=np.float32, keep=keep, force_keep_period=period,
                                                         metric_name_to_monitor='train/accuracy' if met else None, metric_mode=met or 'max',
                                                         keep_checkpoints_without_metrics=kw)
                try:
                  done, pinned = [], []
                  for s in (0, 2, 4, 6, 8, 10):
                    man.save(ck.with_step(st, s))
                    man.wait_until_finished()
                    if s in pin and os.path.isdir(f'{d}/checkpoint_{s}'):
                      cu.pin_checkpoint(f'{d}/checkpoint_{s}')
                      pinned.append(s)
                    done.append(s)
                    got = sorted(int(x.split('_')[1]) for x in os.listdir(d) if x.startswith('checkpoint_'))
                    if keep is None and got != done:
                      return f'without a limit {sorted(set(done) - set(got))} were removed'
                    for p in pinned:
                      if p not in got:
                        return f'the pinned checkpoint {p} was removed'
                    if period and (kw or not met) and [x for x in done if x % period == 0 and x not in got]:
                      return f'checkpoints on the period were removed: {got}'
                    if keep and not met and not set(done[-keep:]) <= set(got):
                      return f'after saving {s}: {got} lacks one of the newest {keep}'
                    if keep and not met:
                      extra = set(got) - set(done[-keep:]) - set(pin) - {x for x in done if period and x % period == 0}
                      if extra:
                        return f'after saving {s}: {sorted(extra)} should have been removed'
                    if met:
                      w = tf.summary.create_file_writer(f'{d}/train')
                      with w.as_default():
                        tf.summary.scalar('accuracy', vals[s], step=s)
                      w.close()
                      if keep:
                        known = [x for x in done if x < s]
                        best = sorted(known, key=lambda x: vals[x], reverse=met == 'max')[:keep]
                        if kw and best and best[0] not in got:
                          return f'after saving {s}: the best checkpoint {best[0]} was removed ({got})'
                finally:
                  man.close()
            rec.run({'keep': keep, 'period': period, 'metric': met, 'pinned': pin, 'keep without metrics': kw}, run)


def build(chk):
  newest(chk)
  best(chk)
  pins(chk)
  chk.search('newest-checkpoint retention', 'random directories of up to 7 of 10 steps with pins and dataset files, 6 x 6 limits', search_newest)
  chk.search('best-checkpoint retention', 'random directories of up to 8 of 12 steps, metrics, pins, periods, both modes', search_best)
  chk.search('metrics from event files', 'random event files, 5 runs x 4 tags x 12 steps', search_metrics)
  chk.search('saves with retention', '3 step sequences x 3 limits x pin; 16 best-metric settings with real event files', search_saves)
  chk.search('saves with retention through Orbax', 'limits x periods x metrics x pin', search_orbax, case_seconds=120)


if __name__ == '__main__':
  main('C02', build)
