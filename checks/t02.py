"""T02: training schedule.  Contracts for the step-list helpers and train()."""

import types

from vc import env
env.setup()
from vc import core, seq, transform
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, exists, ctx, lift
from vc.transform import LoopSpec, StubNS


UTILS = 't5x/utils.py'
TRAIN = 't5x/train.py'


# ------------------------------------------------------------------ helpers
def sorted_pre(c, steps):
  c.assume(forall(2, lambda i, j: IMP(AND(i >= 0, i <= j, j < steps.length), steps.get(i) <= steps.get(j))))


class FirstLoop(LoopSpec):
  name = 'scan for the first pending listed step'

  def __init__(self, g):
    self.g = g

  def inv(self, L, e):
    g = self.g
    idx = e['checkpoint_steps_index']
    yield 'index stays in range', AND(idx >= g.idx0, OR(idx == g.idx0, idx <= g.steps.length - 1))
    yield 'only finished steps or the first step are skipped', forall(
        1, lambda j: IMP(AND(j >= g.idx0, j < idx), OR(g.host > g.steps.get(j), g.steps.get(j) == g.first)))

  def havoc(self, L, e):
    e['checkpoint_steps_index']
    return {'checkpoint_steps_index': ctx().int('k', inp=False)}

  def variant(self, L, e):
    return self.g.steps.length - e['checkpoint_steps_index']


def verify_find_first(chk):
  m = transform.clone(UTILS)

  def body(c):
    g = types.SimpleNamespace()
    g.steps = seq.fresh_seq('steps')
    sorted_pre(c, g.steps)
    g.idx0 = c.int('index', 0)
    g.first = c.int('first_step', 0)
    g.host = c.int('host_step', 0)
    c.assume(OR(g.steps.length == 0, g.idx0 < g.steps.length))
    m.__vc_rt__.loop_specs = {'find_first_checkpoint_step#0': FirstLoop(g)}
    r = m.find_first_checkpoint_step(
        checkpoint_steps_index=g.idx0, checkpoint_steps=g.steps, first_step=g.first, host_step=g.host)
    c.prove('result is a valid index, not before the given one',
            AND(r >= g.idx0, OR(g.steps.length == 0, r < g.steps.length)))
    c.prove('no pending listed step is skipped',
            forall(1, lambda j: IMP(AND(j >= g.idx0, j < r, g.steps.length > 0),
                                    OR(g.steps.get(j) < g.host, g.steps.get(j) == g.first))))
    c.prove('the result is pending unless the list is exhausted',
            IMP(AND(g.steps.length > 0, r < g.steps.length - 1),
                AND(g.steps.get(r) >= g.host, g.steps.get(r) != g.first)))
    c.cover()
  chk.verify('find_first_checkpoint_step', UTILS,
             'requires steps sorted, 0<=index<len; ensures result skips exactly finished steps', body)


class NextLoop(LoopSpec):
  name = 'scan for the next listed step'

  def __init__(self, g):
    self.g = g

  def inv(self, L, e):
    g = self.g
    idx = e['checkpoint_steps_index']
    yield 'index stays in range', AND(idx >= g.idx0, OR(g.steps.length == 0, idx < g.steps.length))
    yield 'no wanted step was passed over', forall(
        1, lambda j: IMP(AND(j >= g.idx0, j < idx), NOT(g.wanted(g.steps.get(j)))))
    yield 'step count and flag unchanged', AND(e['inner_num_steps'] == g.inner0, NOT(e['is_checkpoint_step']))

  def havoc(self, L, e):
    out = {'checkpoint_steps_index': ctx().int('k', inp=False)}
    e['inner_num_steps'], e['is_checkpoint_step']
    return out

  def variant(self, L, e):
    return self.g.steps.length - e['checkpoint_steps_index']


def wanted_fn(first, host, period, epoch_end):
  def wanted(s):
    off = True if period is None else ((s - first) % period != 0)
    return AND(s > host, s > first, off, s <= epoch_end)
  return wanted


def verify_find_next(chk):
  m = transform.clone(UTILS)
  for with_period in (True, False):
    def body(c, with_period=with_period):
      g = types.SimpleNamespace()
      g.steps = seq.fresh_seq('steps')
      sorted_pre(c, g.steps)
      g.idx0 = c.int('index', 0)
      g.first = c.int('first_step', 0)
      g.host = c.int('host_step', 0)
      g.inner0 = c.int('inner_num_steps', 1)
      g.end = c.int('epoch_end_step', 0)
      g.period = c.int('checkpoint_period', 1) if with_period else None
      c.assume(g.host >= g.first)
      c.assume(g.host + g.inner0 <= g.end)
      c.assume(OR(g.steps.length == 0, g.idx0 < g.steps.length))
      g.wanted = wanted_fn(g.first, g.host, g.period, g.end)
      m.__vc_rt__.loop_specs = {'find_next_checkpoint_step#0': NextLoop(g)}
      inner, flag = m.find_next_checkpoint_step(
          checkpoint_steps_index=g.idx0, inner_num_steps=g.inner0, is_checkpoint_step=False,
          host_step=g.host, checkpoint_steps=g.steps, epoch_end_step=g.end,
          checkpoint_period=g.period, first_step=g.first)
      c.prove('progress: at least one step, at most the requested ones',
              AND(inner >= 1, inner <= g.inner0))
      c.prove('stops at a listed step exactly when flagged', IMP(flag, exists(
          1, lambda j: AND(j >= g.idx0, j < g.steps.length, g.steps.get(j) == g.host + inner,
                           g.wanted(g.steps.get(j))))))
      c.prove('no wanted listed step is run past', forall(
          1, lambda j: IMP(AND(j >= g.idx0, j < g.steps.length, g.wanted(g.steps.get(j)),
                               g.steps.get(j) <= g.host + g.inner0),
                           AND(flag, g.steps.get(j) >= g.host + inner))))
      c.prove('a flagged stop is not before the given list entry', IMP(flag, g.steps.get(g.idx0) <= g.host + inner))
      c.prove('unflagged means unchanged', IMP(NOT(flag), inner == g.inner0))
      c.cover()
    chk.verify('find_next_checkpoint_step' + ('' if with_period else ' [no period]'), UTILS,
               'requires sorted steps, inner>=1, host+inner<=epoch_end; ensures min(wanted)-host and flag', body)


# ---------------------------------------------------------------- train()
class _Any:
  """Inert collaborator: any attribute is callable and does nothing."""

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return lambda *a, **k: None


def lemma(chk):
  """spe>=1, P = spe*m, d = P*q, spe*k < d < spe*(k+1) is contradictory."""
  def body(c):
    s, m, q, k, d, P = [c.int(n) for n in 'smqkdP']
    c.prove('no multiple of the period lies strictly inside an epoch', no_mult(s, m, q, k, d, P))
    # as spe*k < spe*t < spe*(k+1) for t = m*q
    c.cover()
  chk.verify('lemma no_multiple_between', TRAIN, 'arithmetic lemma used by the train() loop invariant', body)


def no_mult(s, m, q, k, d, P):
  t = m * q
  return IMP(AND(s >= 1, P == s * m, d == P * q, s * k < d, d < s * (k + 1)),
             AND(s * (t - k) > 0, s * (t - k - 1) < 0, t - k > 0, t - k < 1, False))




class FakeState:

  def __init__(self, step):
    self.step = step


class _Mgr:

  def __init__(self, w):
    self.w = w

  def save(self, state, fns=None, *a, **k):
    self.w.on_save(state)

  def all_steps(self):
    return self.w.existing()

  def wait_until_finished(self):
    pass

  def close(self):
    pass


class World:
  """Contracts of train()'s collaborators with ghost state.

  `step` is the trainer's state step; the trainer contract (proved for
  BaseTrainer.train in T03) says train(iter, n, start_step) advances it by n.
  """

  def __init__(self, cfg):
    self.cfg = cfg
    self.step = cfg['start']
    self.stop_seen = False
    self.calls = []

  def existing(self):
    return []


def run_train(mod, cfg, w, symbolic):
  """Calls the (instrumented or real) train() with contract stubs."""
  import contextlib
  import concurrent.futures
  import jax
  from t5x import trainer as trainer_lib
  real_utils = mod.utils

  class Fut:
    def result(self):
      return {'loss': 0}

  class Trainer:
    stop_training = False
    train_metrics_manager = None

    @property
    def train_state(self):
      return FakeState(w.step)

    def train(self, it, num_steps, start_step=None):
      w.on_train(num_steps, start_step, self)
      return Fut()

    def eval(self, iters):
      w.on_eval(self)
      return {'task': {'loss': 0}}

    def compile_train(self, b):
      pass

    def compile_eval(self, b):
      pass

    def close(self):
      pass

  tr = Trainer()
  tr.train_metrics_manager = _Any()
  tr.train_metrics_manager.summary_writer = None
  w.trainer = tr

  class It:
    element_spec = {}

    def peek_async(self):
      f = concurrent.futures.Future()
      f.set_result(None)
      return f

  class Init:
    def __init__(self, **k):
      self.train_state_axes = None
      self.global_train_state_shape = None

    def from_scratch(self, rng):
      return FakeState(w.step)

  mgr = _Mgr(w)

  def run_actions(mode, actions, state, metrics):
    return w.on_actions(mode)

  class Evaluator:
    def __init__(self, **k):
      pass
    eval_tasks = [1]

    def evaluate(self, state, axes):
      w.on_infer_eval(tr)
      f = concurrent.futures.Future()
      f.set_result({'task': {'loss': 0}})
      return f

    def close(self):
      pass

  over = dict(
      prepare_train_iter=lambda it, **k: It(),
      get_first_valid_restore_config_and_paths=lambda cfgs: (None, []),
      create_checkpoint_manager_and_restore=lambda *a, **k: (FakeState(w.step), mgr),
      log_model_info=lambda *a, **k: None,
      get_local_data=lambda x: x,
      sync_global_devices=lambda *a, **k: None,
      get_zeros_batch_like_dataset=lambda ds: None,
      RestoreCheckpointConfig=lambda **k: types.SimpleNamespace(**k),
  )
  if symbolic:
    over['find_first_checkpoint_step'] = w.find_first
    over['find_next_checkpoint_step'] = w.find_next
  save = types.SimpleNamespace(
      period=cfg['period'], checkpoint_steps=cfg['steps'], dtype='float32',
      checkpointer_cls=None, save_dataset=False, state_transformation_fns=(), keep=None)
  ckpt = types.SimpleNamespace(save=save, restore=None)
  part = types.SimpleNamespace(
      get_data_layout=lambda b: types.SimpleNamespace(shard_id=0, num_shards=1, batch_size=1),
      mesh=None, data_partition_spec=None)
  saved = {}
  patch = dict(
      utils=StubNS(real_utils, **over), run_actions=run_actions, logging=transform.NULL_LOG,
      eval_lib=StubNS(mod.eval_lib, InferenceEvaluator=Evaluator),
      multihost_utils=StubNS(mod.multihost_utils, broadcast_one_to_all=lambda x: x),
      tf=StubNS(mod.tf, io=types.SimpleNamespace(gfile=types.SimpleNamespace(makedirs=lambda d: None)),
                data=types.SimpleNamespace(Dataset=type('D', (), {}))))
  for k, v in patch.items():
    if not hasattr(mod, k):
      raise core.Unsupported(f'train module has no {k}')
    saved[k] = getattr(mod, k)
    setattr(mod, k, v)
  try:
    kw = dict(
        model=types.SimpleNamespace(FEATURE_CONVERTER_CLS=None, optimizer_def=None, get_initial_variables=None),
        train_dataset_cfg=types.SimpleNamespace(seed=0, batch_size=1),
        train_eval_dataset_cfg=types.SimpleNamespace() if cfg['eval_period'] is not None else None,
        infer_eval_dataset_cfg=types.SimpleNamespace() if cfg.get('infer') else None,
        checkpoint_cfg=ckpt, partitioner=part, trainer_cls=lambda **k: tr, model_dir='/nonexistent',
        total_steps=cfg['total'], eval_steps=1,
        eval_period=cfg['eval_period'] if cfg['eval_period'] is not None else 0,
        stats_period=cfg['stats'], random_seed=0, summarize_config_fn=lambda *a, **k: None,
        get_dataset_fn=lambda *a, **k: It(), concurrent_metrics=cfg.get('concurrent', True),
        actions={}, train_eval_get_dataset_fn=lambda *a, **k: {'task': []},
        train_state_initializer_cls=Init, use_orbax=cfg.get('use_orbax', True), verify_matching_vocabs_fn=None)
    if cfg.get('relative') is not None:
      kw['relative_steps'] = cfg['relative']
    if cfg.get('gc') is not None:
      kw['gc_period'] = cfg['gc']
    r = mod.train(**kw)
  finally:
    for k, v in saved.items():
      setattr(mod, k, v)
  return r


class SymWorld(World):
  """Ghost obligations for an arbitrary but fixed step x and list index J."""

  def __init__(self, c, cfg):
    super().__init__(cfg)
    self.c = c
    self.first = cfg['start']
    self.x = c.int('x')
    self.saved_x = False
    self.eval_x = False
    self.steps = cfg['steps']
    if self.steps is not None:
      self.J = c.int('J', 0)
      c.assume(self.J < self.steps.length)

  def on_train(self, n, start, tr):
    c = self.c
    c.prove('the trainer is asked for at least one step', n >= 1)
    c.prove('the trainer resumes exactly where it stopped', start == self.step)
    c.prove('never trains past the requested total', self.step + n <= self.total)
    c.prove('no step runs after a stop request', NOT(self.stop_seen))
    self.step = self.step + n
    return None

  def on_save(self, state):
    self.saved_x = lift(OR(self.saved_x, state.step == self.x))

  def on_eval(self, tr):
    self.eval_x = lift(OR(self.eval_x, self.step == self.x))

  on_infer_eval = on_eval

  def on_actions(self, mode):
    if not self.cfg.get('stops'):
      return False
    b = self.c.bool('stop', inp=False)
    self.stop_seen = lift(OR(self.stop_seen, b))
    return b

  def find_first(self, idx, steps, first, host):
    if self.steps is None:
      return idx
    c = self.c
    c.prove('pre of find_first_checkpoint_step', AND(idx >= 0, idx < self.steps.length, first == self.first), kind='pre')
    r = c.int('ff', inp=False)
    sj = self.steps.get(self.J)
    c.assume(AND(r >= idx, r < self.steps.length))
    c.assume(IMP(AND(self.J >= idx, self.J < r), OR(sj < host, sj == first)))
    return r

  def find_next(self, idx, inner, flag, host, steps, end, period, first):
    if self.steps is None:
      return inner, False
    c = self.c
    c.prove('pre of find_next_checkpoint_step',
            AND(idx >= 0, idx < self.steps.length, NOT(flag), inner >= 1, host >= first, first == self.first,
                host + inner <= end, host == self.step), kind='pre')
    n = c.int('fn', inp=False)
    f = c.bool('fnf', inp=False)
    sj = self.steps.get(self.J)
    want = wanted_fn(first, host, period, end)
    c.assume(AND(n >= 1, n <= inner))
    c.assume(IMP(NOT(f), n == inner))
    c.assume(IMP(AND(self.J >= idx, want(sj), sj <= host + inner), AND(f, sj >= host + n)))
    c.assume(IMP(f, steps.get(idx) <= host + n))
    return n, f


def _bound(w, spe, k):
  """End of epoch k-1: min(total, first + spe*k)."""
  from vc.core import ite
  b = w.first + spe * k
  return ite(b > w.total, w.total, b)


def off_period(w, x):
  p = w.cfg['period']
  return True if p is None else ((x - w.first) % p != 0)


def facts(w, spe, k, p):
  """Instances of the arithmetic lemma at the ghost step (proved separately)."""
  if p is None:
    return []
  x = w.x
  q = (x - w.first) // p
  m = p // spe
  return [no_mult(spe, m, q, k, x - w.first, p), no_mult(spe, m, q, k - 1, x - w.first, p),
          IMP(AND(q >= 1, p >= 1), p * q >= p)]


def common_inv(w, e, spe, k, upto_epoch, host, final=None):
  """Clauses on saved/evaluated steps: periods up to upto_epoch, lists up to host."""
  period, ev = w.cfg['period'], w.cfg['eval_period']
  focus = w.focus
  if period is not None and 'period' in focus:
    fs = facts(w, spe, k, period)
    yield 'every step on the checkpoint period is saved', IMP(
        AND(w.x > w.first, w.x <= upto_epoch, NOT(off_period(w, w.x)), NOT(w.stop_seen)), w.saved_x), *fs
    if final is not None:
      yield 'the final state is saved', IMP(AND(final, w.x == w.total, NOT(w.stop_seen)), w.saved_x)
  if ev is not None and 'eval' in focus:
    fs = facts(w, spe, k, ev)
    yield 'every step on the evaluation period is evaluated', IMP(
        AND(w.x > w.first, w.x <= upto_epoch, (w.x - w.first) % ev == 0, NOT(w.stop_seen)), w.eval_x), *fs
    if final is not None:
      yield 'the final state is evaluated', IMP(AND(final, w.x == w.total, NOT(w.stop_seen)), w.eval_x)
  if w.steps is not None:
    sj = w.steps.get(w.J)
    i = e['checkpoint_steps_index']
    yield 'list index is valid', AND(i >= 0, i < w.steps.length)
    if 'list' in focus:
      last = (w.x != w.total) if period is not None else True
      yield 'every listed step is saved', IMP(
          AND(w.x == sj, w.x > w.first, w.x <= host, off_period(w, sj), last), w.saved_x)
      yield 'the list index passes no pending step', IMP(w.J < i, OR(sj <= host, sj == w.first))
      if period is not None:
        # periodic saves reach listed steps that lie on the period
        fs = facts(w, spe, k, period)
        yield 'every step on the checkpoint period is saved', IMP(
            AND(w.x > w.first, w.x <= upto_epoch, NOT(off_period(w, w.x)), NOT(w.stop_seen)), w.saved_x), *fs
        if final is not None:
          yield 'the final state is saved', IMP(AND(final, w.x == w.total, NOT(w.stop_seen)), w.saved_x)
  yield 'a stop request is remembered', IFF(w.stop_seen, w.trainer.stop_training)


def havoc_common(w, e):
  c = ctx()
  w.step = c.int('step', inp=False)
  w.saved_x = c.bool('saved_x', inp=False)
  w.eval_x = c.bool('eval_x', inp=False)
  if w.cfg.get('stops'):
    w.stop_seen = c.bool('stop_seen', inp=False)
    w.trainer.stop_training = c.bool('trainer_stop', inp=False)
  e['host_step'], e['checkpoint_steps_index']
  return {'host_step': c.int('host', inp=False), 'checkpoint_steps_index': c.int('csi', inp=False),
          'train_summary': types.SimpleNamespace(result=lambda: {'loss': 0})}


class EpochLoop(LoopSpec):
  name = 'epoch loop of train()'

  def __init__(self, w):
    self.w = w

  def inv(self, L, e):
    w = self.w
    spe, h = e['steps_per_epoch'], e['host_step']
    w.total = e['total_steps']
    b = _bound(w, spe, L.i)
    yield 'the host step is the trainer step', h == w.step
    yield 'each epoch ends at its boundary unless a stop was requested', AND(
        h >= w.first, h <= b, OR(h == b, w.stop_seen))
    w.epoch_index = L.i
    yield from common_inv(w, e, spe, L.i, b, h, AND(L.i == L.n, L.i >= 1))

  def havoc(self, L, e):
    return havoc_common(self.w, e)


class StepLoop(LoopSpec):
  name = 'inner loop of train()'

  def __init__(self, w):
    self.w = w

  def inv(self, L, e):
    w = self.w
    spe, h = e['steps_per_epoch'], e['host_step']
    k = w.epoch_index
    b = _bound(w, spe, k)
    yield 'the host step is the trainer step', h == w.step
    yield 'the step stays inside the epoch', AND(h >= b, h <= e['epoch_end_step'], e['epoch_end_step'] == _bound(w, spe, k + 1))
    yield from common_inv(w, e, spe, k, b, h)

  def havoc(self, L, e):
    return havoc_common(self.w, e)

  def variant(self, L, e):
    return e['epoch_end_step'] - e['host_step']


def verify_train(chk):
  mod = transform.clone(TRAIN)
  def S(*on, **kw):
    d = {k: True for k in on}
    d.update(kw)
    return d
  scen = [
      S('period', 'eval_period', 'steps', 'stats', focus=('period',)),
      S('period', 'eval_period', 'steps', 'stats', focus=('eval',)),
      S('period', 'eval_period', 'steps', 'stats', focus=('list',)),
      S('period', 'eval_period', 'stops', 'stats', focus=('period',)),
      S('period', 'eval_period', 'stops', 'stats', focus=('eval',)),
      S('period', 'stats', 'gc', focus=('period',)),
      S('period', 'steps', 'stats', focus=('list',)),
      S('eval_period', 'stats', 'steps', focus=('eval', 'list')),
      S('eval_period', 'stops', 'stats', focus=('eval',)),
      S('period', 'relative', focus=('period',)),
      S('steps', 'stats', focus=('list',)),
      S('stats', focus=()),
  ]

  for sc in scen:
    def body(c, sc=sc):
      c.user['fork_minmax'] = True
      F = c.int('start', 0)
      cfg = dict(start=F, stops=sc.get('stops'), concurrent=not sc.get('stops'), infer=sc.get('stops'))
      cfg['period'] = c.int('period', 1) if sc.get('period') else None
      cfg['eval_period'] = c.int('eval_period', 1) if sc.get('eval_period') else None
      cfg['gc'] = c.int('gc_period', 1) if sc.get('gc') else None
      cfg['stats'] = c.int('stats_period', 1) if sc.get('stats') else None
      cfg['steps'] = seq.fresh_seq('steps') if sc.get('steps') else None
      cfg['total'] = c.int('total', 0)
      if sc.get('relative'):
        cfg['relative'] = c.int('relative', 1)
        total = F + cfg['relative']
      else:
        c.assume(cfg['total'] >= F)
        total = cfg['total']
      # the code rejects periods that are not multiples of each other
      if sc.get('steps'):
        c.assume(cfg['steps'].length > 0)
      w = SymWorld(c, cfg)
      w.total = total
      w.focus = sc['focus']
      mod.__vc_rt__.loop_specs = {'train#0': EpochLoop(w), 'train#1': StepLoop(w)}
      try:
        host, state = run_train(mod, cfg, w, True)
      except ValueError as e:
        if 'must all be multiples' in str(e):
          return   # rejected configuration
        raise
      focus = w.focus
      c.prove('returns the step that was reached', AND(host == w.step, state.step == w.step))
      c.prove('all requested steps are executed unless stopped', OR(w.step == total, w.stop_seen))
      if cfg['period'] is not None and 'period' in focus:
        c.prove('the final state is saved', IMP(AND(total > F, w.x == total, NOT(w.stop_seen)), w.saved_x))
        c.prove('every step on the period is saved', IMP(
            AND(w.x > F, w.x <= total, (w.x - F) % cfg['period'] == 0, NOT(w.stop_seen)), w.saved_x))
      if cfg['eval_period'] is not None and 'eval' in focus:
        c.prove('the final state is evaluated', IMP(AND(total > F, w.x == total, NOT(w.stop_seen)), w.eval_x))
        c.prove('every step on the evaluation period is evaluated', IMP(
            AND(w.x > F, w.x <= total, (w.x - F) % cfg['eval_period'] == 0, NOT(w.stop_seen)), w.eval_x))
      if w.steps is not None and 'list' in focus:
        c.prove('every listed step is saved', IMP(
            AND(w.x == w.steps.get(w.J), w.x > F, w.x <= total), w.saved_x))
      c.cover()
    name = 'train [' + ','.join(k for k, v in sc.items() if v is True) + '; clauses: ' + ','.join(sc['focus']) + ']'
    chk.verify(name, TRAIN, 'ensures every step of (start,total] runs once; period/listed steps saved; eval steps evaluated', body,
               assumed=['collaborators of train() (dataset, initialiser, metrics writers, evaluator) do not change the step',
                        'BaseTrainer.train advances the state by num_steps (proved in T03)',
                        'checkpoint manager save(state) writes state.step (C01)'], seconds=420)


class ConcWorld(World):
  """Records what the real train() did."""

  def __init__(self, cfg):
    super().__init__(cfg)
    self.executed, self.saves, self.evals, self.inferred = [], [], [], []
    self.stop_at = None
    self.err = None
    self.ncalls = 0

  def on_train(self, n, start, tr):
    n, start = int(n), int(start)
    if n < 1:
      self.err = self.err or f'asked to train {n} steps at {self.step}'
    if start != self.step:
      self.err = self.err or f'start_step {start} but state is at {self.step}'
    if self.stop_at is not None:
      self.err = self.err or f'trained from {self.step} after a stop request at {self.stop_at}'
    self.ncalls += 1
    if self.ncalls > 500:
      raise AssertionError('the training loop does not make progress')
    self.executed += list(range(start, start + n))
    self.step += n
    if self.cfg.get('preempt') is not None and self.step >= self.cfg['preempt']:
      from t5x import trainer as trainer_lib
      raise trainer_lib.PreemptionError('preempted')

  def on_save(self, state):
    self.saves.append(int(state.step))
    if len(self.saves) > 500:
      raise AssertionError('saves without end')

  def on_eval(self, tr):
    self.evals.append(self.step)

  def on_infer_eval(self, tr):
    self.inferred.append(self.step)

  def on_actions(self, mode):
    r = (self.step, mode.name) in self.cfg.get('stop_set', ())
    if r and self.stop_at is None:
      self.stop_at = self.step
    return r


def conc_case(mod, cfg):
  from t5x import trainer as trainer_lib
  w = ConcWorld(cfg)
  F, total = cfg['start'], cfg['total']
  rejected = preempted = False
  try:
    host, state = run_train(mod, cfg, w, False)
  except ValueError as e:
    if 'must all be multiples' in str(e):
      periods = [p for p in (cfg['period'], cfg['eval_period'], cfg.get('gc')) if p]
      if all(a % min(periods) == 0 for a in periods):
        return f'valid periods rejected: {e}'
      return None
    raise
  except trainer_lib.PreemptionError:
    preempted = True
  if cfg.get('relative') is not None:
    total = F + cfg['relative']
  if w.err:
    return w.err
  if preempted:
    if cfg['period'] and (not w.saves or w.saves[-1] != w.step):
      return f'no emergency checkpoint at step {w.step} after preemption: saves {w.saves}'
    return None
  if host != w.step:
    return f'returned host step {host}, state at {w.step}'
  end = total if w.stop_at is None else w.step
  if w.executed != list(range(F, end)):
    return f'executed steps {w.executed}, expected {F}..{end - 1}'
  if w.stop_at is None and w.step != total:
    return f'stopped at {w.step} of {total} without a request'
  if w.stop_at is not None and w.step != w.stop_at:
    return f'stop requested at {w.stop_at} but ran to {w.step}'
  reached = range(F + 1, w.step + 1)
  limit = w.step if w.stop_at is None else w.stop_at - 1
  want = set()
  if cfg['period'] and total > F:
    want |= {s for s in reached if (s - F) % cfg['period'] == 0 and s <= limit}
    if w.stop_at is None:
      want.add(total)
  if cfg['steps']:
    want |= {s for s in cfg['steps'] if s in reached and s <= limit}
  if not want <= set(w.saves):
    return f'steps {sorted(want - set(w.saves))} were promised but not saved; saves {w.saves}'
  if cfg['eval_period'] and total > F:
    ev = {s for s in reached if (s - F) % cfg['eval_period'] == 0 and s <= limit}
    if w.stop_at is None:
      ev.add(total)
    if not ev <= set(w.evals):
      return f'evaluation missed at {sorted(ev - set(w.evals))}; evals {w.evals}'
    if cfg.get('infer') and not ev <= set(w.inferred):
      return f'inference evaluation missed at {sorted(ev - set(w.inferred))}; evals {w.inferred}'
  promised = want | ({s for s in (cfg['steps'] or [])}) | {F, w.step}
  extra = [s for s in w.saves if s not in promised and not (cfg['period'] and (s - F) % cfg['period'] == 0)]
  if extra:
    return f'saved at {extra}, which no setting asked for; saves {w.saves}'
  return None


def search_train(rec):
  import random
  from t5x import train as mod
  need(mod, 'train')
  rng = random.Random(env.SEED)
  lists = [None, [], [3], [5], [2, 5], [1, 4, 7], [0, 2, 3, 9], [2, 2, 5], [4, 8, 12], [6, 7, 8], [12], [1, 2, 3, 4, 5, 6]]
  cases = []
  for F in (0, 1, 4):
    for total in (F, F + 1, F + 6, F + 7, 12):
      if total < F:
        continue
      for period in (None, 1, 2, 3, 6):
        for ev in (None, 1, 2, 6):
          for stats in (None, 1, 2, 3):
            for steps in lists:
              cases.append(dict(start=F, total=total, period=period, eval_period=ev, stats=stats, steps=steps))
  rng.shuffle(cases)
  n = 2500 if env.TIER == 'thorough' else 700
  cases = cases[:n]
  for k in range(n // 3):
    F, total = rng.choice([0, 3]), 12
    c = dict(start=F, total=total, period=rng.choice([None, 2, 4]), eval_period=rng.choice([2, 4, None]),
             stats=rng.choice([None, 1, 2]), steps=rng.choice(lists), concurrent=False, infer=True)
    c['stop_set'] = tuple((s, m) for s in [rng.randint(F + 1, total)]
                          for m in [rng.choice(['TRAIN', 'TRAIN_EVAL', 'INFER_EVAL'])])
    cases.append(c)
  for k in range(n // 20):
    cases.append(dict(start=rng.choice([0, 3]), total=12, period=rng.choice([None, 2, 4]), eval_period=None,
                      stats=1, steps=None, preempt=rng.randint(4, 12)))
    F = rng.randint(0, 5)
    cases.append(dict(start=F, total=0, relative=rng.randint(1, 6), period=rng.choice([2, 4]), eval_period=None,
                      stats=None, steps=None))
    cases.append(dict(start=F, total=12, period=rng.choice([2, 4]), eval_period=None, gc=rng.choice([1, 2, 4]),
                      stats=None, steps=None))
  for cfg in cases:
    if not ((cfg['period'] or cfg['eval_period'] or cfg['steps'] is not None)):
      pass
    rec.run(cfg, lambda: conc_case(mod, cfg))
    if rec.full:
      break


def search_helpers(rec):
  from t5x import utils
  ff = need(utils, 'find_first_checkpoint_step')
  fn = need(utils, 'find_next_checkpoint_step')
  import itertools
  lists = [[], [3], [2, 5], [1, 4, 4, 7], [0, 2, 3]]
  for steps in lists:
    for first in (0, 2, 3):
      for host in range(first, 8):
        for idx in range(max(1, len(steps))):
          def first_ok():
            r = ff(checkpoint_steps_index=idx, checkpoint_steps=steps, first_step=first, host_step=host)
            skipped = [s for s in steps[idx:r] if not (s < host or s == first)]
            if skipped:
              return f'skipped pending {skipped}'
            if steps and not idx <= r < len(steps):
              return f'index {r}'
          rec.run(['first', steps, first, host, idx], first_ok)
          for inner, period, extra in itertools.product((1, 3), (None, 2, 3), (0, 4)):
            end = host + inner + extra
            want = wanted_c(first, host, period, end)

            def next_ok():
              n, f = fn(checkpoint_steps_index=idx, inner_num_steps=inner, is_checkpoint_step=False,
                        host_step=host, checkpoint_steps=steps, epoch_end_step=end,
                        checkpoint_period=period, first_step=first)
              cand = [s for s in steps[idx:] if want(s) and s <= host + inner]
              exp = (min(cand) - host, True) if cand else (inner, False)
              if (n, bool(f)) != exp:
                return f'got {(n, f)}, expected {exp}'
            rec.run(['next', steps, first, host, idx, inner, period, end], next_ok)
            if rec.full:
              return


def wanted_c(first, host, period, end):
  return lambda s: s > host and s > first and s <= end and (not period or (s - first) % period != 0)


if __name__ == '__main__':
  def build(chk):
    verify_find_first(chk)
    verify_find_next(chk)
    lemma(chk)
    verify_train(chk)
    chk.run_units()
    chk.search('train() schedule', 'start<=4, total<=12, periods<=6, 12 step lists, stop requests, preemption (sampled)',
               search_train, case_seconds=30)
    chk.search('step-list helpers', 'lists<=4 entries, steps<=8', search_helpers)
  main('T02', build)
