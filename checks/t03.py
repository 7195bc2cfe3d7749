"""T03: step loop, per-step randomness, stop actions."""

import contextlib
import itertools
import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq, jx
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, exists, ctx, lift
from vc.h import patched, Fake, f32close
from vc.transform import LoopSpec, StubNS, clone

TR = 't5x/trainer.py'
TRAIN = 't5x/train.py'


def mod():
  from t5x import trainer
  return trainer


# ----------------------------------------------------------- early stopping
def verify_early(chk):
  m = clone(TR)
  import jax.numpy as jnp
  import clu.values
  jn = StubNS(jnp, greater_equal=lambda a, b: a >= b, less_equal=lambda a, b: a <= b, greater=lambda a, b: a > b,
              less=lambda a, b: a < b, abs=abs)
  m.jnp = jn
  m.np = StubNS(np, greater_equal=lambda a, b: a >= b, less_equal=lambda a, b: a <= b, greater=lambda a, b: a > b,
                less=lambda a, b: a < b, abs=abs)

  for mode in ('min', 'max'):
    def body(c, mode=mode):
      pat = c.int('patience', 2)
      atol, rtol = c.real('atol'), c.real('rtol')
      c.assume(AND(atol >= 0, rtol >= 0))
      a = m.EarlyStoppingAction(('task', 'metric'), mode, patience=pat, atol=atol, rtol=rtol)
      if not isinstance(a.__dict__.get('_metric_history'), list):
        raise core.Unsupported('the history is kept elsewhere')
      # n values observed so far; the class invariant says what is kept of them:
      # the last min(n, patience - 1), here the sequence `tail`
      n = c.int('observed', 0)
      tail = seq.fresh_seq('tail', 'real')
      kept = tail.length
      c.assume(AND(IMP(n < pat, kept == n), IMP(n >= pat, kept == pat - 1)))
      H = tail.copy()
      a._metric_history = H
      v = c.real('value')
      val = clu.values.Scalar(0.0)
      object.__setattr__(val, 'value', v)
      r = a.run(None, {'task': {'metric': val, 'other': val}, 'other': {}})
      win = lambda i: core.ite(i == kept, v, tail.get(i))    # tail followed by the new value

      def improved(i):      # evaluation i of the window against its predecessor
        p = win(i - 1)
        ap = core.ite(p >= 0, p, 0 - p)
        d = atol + rtol * ap
        return win(i) < p - d if mode == 'min' else win(i) > p + d
      stop = AND(n + 1 >= pat, forall(1, lambda i: IMP(AND(i >= 1, i <= pat - 1), NOT(improved(i)))))
      r = lift(r) if not isinstance(r, bool) else r
      if r is True or r is False:
        if r:
          c.prove('stops only with a full window', n + 1 >= pat)
          i = c.int('i', 1)
          c.assume(i <= pat - 1)
          c.prove('stops only if no evaluation of the window improved', NOT(improved(i)))
        else:
          c.prove('goes on only if the window is not full or some evaluation improved', OR(
              n + 1 < pat, exists(1, lambda j: AND(j >= 0, j <= pat - 2, improved(j + 1)))))
      else:
        c.prove('stops exactly when no evaluation of the window improved', IFF(r, stop))
      if isinstance(r, bool) and not r:
        K = a._metric_history
        N = n + 1
        c.prove('invariant: length of the kept history', AND(IMP(N < pat, K.length == N), IMP(N >= pat, K.length == pat - 1)))
        i = c.int('ik', 0)
        c.assume(i < K.length)
        c.prove('invariant: the kept history is the tail of the observed one', K.get(i) == win(kept + 1 - K.length + i))
      c.cover()
    chk.verify(f'EarlyStoppingAction.run [{mode}]', TR,
               'for every history, patience >= 2, margins: True iff no evaluation of the last `patience` improved on its predecessor; '
               'invariant: kept = last min(n, patience-1) values', body,
               assumed=['metric values are real numbers (comparisons of jnp are those of the reals)'])

  def ignore(c):
    a = m.EarlyStoppingAction(('task', 'metric'), 'min', patience=c.int('patience', 2))
    a._metric_history = ['x']
    import clu.values
    for mb in ({}, {'t2': {}}, {'task': {}}, {'task': {'other': clu.values.Scalar(1.)}}, {'task': {'metric': 'text'}}, {'task': {'metric': 3}}):
      c.prove('unknown task, metric or type never stops', a.run(None, mb) is False)
      c.prove('... and leaves the history alone', a._metric_history == ['x'])
    for mode in ('', 'mean', None):
      try:
        m.EarlyStoppingAction(('t', 'm'), mode)
        ok = False
      except ValueError:
        ok = True
      c.prove('unknown modes are rejected', ok)
    c.cover()
  chk.verify('EarlyStoppingAction (ignored metrics)', TR, 'metrics that are absent or of another type never stop', ignore)


def verify_nan(chk):
  m = clone(TR)

  def body(c):
    import clu.values
    nan, inf = c.bool('nan'), c.bool('inf')
    v = object()
    val = clu.values.Scalar(0.0)
    object.__setattr__(val, 'value', v)
    chkd = []

    def q(flag):
      def f(x):
        if x is not v:
          raise core.Unsupported('another value is tested')
        return flag
      return f
    ops = dict(isnan=q(nan), isinf=q(inf), isfinite=q(NOT(OR(nan, inf))))
    import jax.numpy as jnp
    m.np, m.jnp = StubNS(np, **ops), StubNS(jnp, **ops)
    a = m.TerminateOnNanAction('task', 'metric')
    r = a.run(None, {'task': {'metric': val, 'loss': clu.values.Scalar(1.)}, 'x': {'metric': clu.values.Scalar(2.)}})
    c.prove('stops exactly on a not-a-number or infinite value', IFF(r, OR(nan, inf)))
    for mb in ({}, {'task': {}}, {'task': {'metric': 'text'}}, {'other': {'metric': val}}):
      c.prove('absent metrics never stop', a.run(None, mb) is False)
    c.cover()
  chk.verify('TerminateOnNanAction.run', TR, 'True iff the watched metric is NaN or infinite', body,
             assumed=['np.isnan/isinf classify floats'])


class Acts(LoopSpec):
  name = 'actions of the mode'

  def __init__(self, g):
    self.g = g

  def inv(self, L, e):
    g = self.g
    yield 'every action before i ran, in order', g.ran.t == core.zint(L.i) if core.issym(g.ran) or core.issym(L.i) else g.ran == L.i
    yield 'stop is the disjunction of their answers', IFF(
        e['stop_training'], exists(1, lambda j: AND(j >= 0, j < L.i, g.ans.get(j))))

  def havoc(self, L, e):
    self.g.ran = ctx().int('ran', 0, inp=False)
    e['stop_training']
    return {'stop_training': ctx().bool('stop', inp=False) if 'inp' in core.Ctx.bool.__code__.co_varnames else ctx().bool('stop')}


def verify_actions(chk):
  m = clone(TRAIN)
  tr = mod()

  def body(c):
    import jax
    import jax.numpy as jnp
    g = types.SimpleNamespace(ran=0)
    g.ans = seq.fresh_seq('answers', 'bool')
    host = c.choose('host', [0, 1])
    sent = []
    m.jax = StubNS(jax, process_index=lambda: host)
    m.jnp = StubNS(jnp, array=lambda x, *a, **k: x, asarray=lambda x, *a, **k: x)
    m.multihost_utils = Fake(broadcast_one_to_all=lambda x: (sent.append(x), x)[1])
    ts, mets = object(), {'t': {'m': 1}}

    class Action:
      def __init__(self, i):
        self.i = i

      def run(self, train_state, metrics_by_task):
        c.prove('actions see the state and the metrics', train_state is ts and metrics_by_task is mets)
        c.prove('each action runs once, in order', lift(core.zint(self.i) == core.zint(g.ran)))
        g.ran = g.ran + 1
        return g.ans.get(self.i)
    acts = seq.SymSeq(g.ans.length, Action)
    mode = c.choose('mode', ['present', 'absent'])
    m.__vc_rt__.loop_specs = {'run_actions#0': Acts(g)}
    am = {tr.ActionMode.TRAIN: acts} if mode == 'present' else {tr.ActionMode.INFER_EVAL: acts}
    r = m.run_actions(tr.ActionMode.TRAIN, am, ts, mets)
    if host == 0 and mode == 'present':
      c.prove('all actions of the mode ran', lift(core.zint(g.ran) == core.zint(g.ans.length)))
      c.prove('training stops iff some action asked for it', IFF(r, exists(1, lambda j: AND(j >= 0, j < g.ans.length, g.ans.get(j)))))
    else:
      c.prove('no action ran', lift(core.zint(g.ran) == 0))
      c.prove('nothing stops training', NOT(r) if not isinstance(r, bool) else not r)
    c.prove('the decision is broadcast', len(sent) == 1)
    c.cover()
  chk.verify('run_actions', TRAIN, 'for every list of actions: all run once in order on host 0; result is the disjunction', body,
             assumed=['broadcast_one_to_all returns the value of host 0'])


# ------------------------------------------------------------- the step loop
class Steps(LoopSpec):
  name = 'step loop'

  def __init__(self, g):
    self.g = g

  def inv(self, L, e):
    g = self.g
    i = L.i
    yield 'i batches consumed', lift(core.zint(g.taken) == core.zint(i))
    yield 'state is the state after i steps', lift(core.zint(g.sid(e['train_state'])) == core.zint(g.s0 + i))
    yield 'metrics are those of the first i steps', OR(
        AND(lift(core.zint(i) == 0), e['metrics'] is None) if not isinstance(e['metrics'], Met) else False,
        AND(lift(core.zint(i) >= 1), e['metrics'].lo == 0, e['metrics'].hi == i) if isinstance(e['metrics'], Met) else False)

  def havoc(self, L, e):
    c = ctx()
    g = self.g
    g.taken = c.int('taken', 0, inp=False)
    out = {'train_state': State(c.int('state', inp=False)), 'metrics': None}
    if c.choose('metrics so far', ['none', 'some']) == 'some':
      out['metrics'] = Met(c.int('lo', 0, inp=False), c.int('hi', 0, inp=False))
    for n in ('train_state', 'metrics'):
      e[n]
    return out


class State:
  def __init__(self, n):
    self.n = n

  @property
  def step(self):
    return self.n


class Met(dict):
  """Metrics merged over the steps [lo, hi)."""

  def __init__(self, lo, hi):
    super().__init__(x=1)
    self.lo, self.hi = lo, hi


def verify_train(chk):
  m = clone(TR)

  def body(c):
    import jax
    n, s0 = c.int('num_steps', 0), c.int('start', 0)
    given = c.choose('start_step', ['given', 'from state'])
    compiled = c.choose('compiled', [True, False])
    g = types.SimpleNamespace(taken=0, s0=s0, sid=lambda s: s.n, calls=0)
    log = {}

    class Iter:
      def __next__(self):
        b = ('batch', g.taken)
        g.taken = g.taken + 1
        return b

      def __iter__(self):
        return self

    def step_fn(state, batch):
      c.prove('step i gets the state after i steps', lift(core.zint(state.n) + core.zint(1) == core.zint(s0 + g.taken)))
      c.prove('step i gets batch i', lift(core.zint(batch[1]) + 1 == core.zint(g.taken)))
      return State(state.n + 1), Met(batch[1], batch[1] + 1)

    def other(*a):
      c.prove('the compiled step is preferred', False)
      return step_fn(*a)

    def merge(a, b):
      c.prove('metrics are merged once, in order', AND(a.lo == 0, a.hi == b.lo))
      return Met(a.lo, b.hi)

    class MM:
      def start_duration_timer(self, block_on=()):
        log['timer'] = block_on

      def write_metrics_summary(self, metrics, step, num):
        log['summary'] = (metrics, step, num)
        return 'future'
    st0 = State(s0)

    class Self:
      _compiled_train_step = staticmethod(step_fn) if compiled else None
      _partitioned_train_step = staticmethod(other if compiled else step_fn)
      _train_state_mutex = contextlib.nullcontext()
      train_metrics_manager = MM()
      _trainer_init_time = 0.0
      train_state = st0

      def __getattr__(self, n):
        raise core.Unsupported(f'trainer stand-in has no attribute {n}')
    m.merge_metrics = merge
    m.jax = StubNS(jax, profiler=types.SimpleNamespace(StepTraceAnnotation=lambda *a, **k: contextlib.nullcontext()))
    m.clu = types.SimpleNamespace(metrics=types.SimpleNamespace(LastValue=types.SimpleNamespace(from_model_output=lambda x: x)))
    m.__vc_rt__.loop_specs = {'train#0': Steps(g), 'BaseTrainer.train#0': Steps(g)}
    me = Self()
    f = m.BaseTrainer.train
    r = f(me, Iter(), n, s0 if given == 'given' else None)
    c.prove('exactly num_steps batches are consumed', lift(core.zint(g.taken) == core.zint(n)))
    c.prove('the state advances once per step', lift(core.zint(me.train_state.n) == core.zint(s0 + n)))
    mt, stp, num = log['summary']
    c.prove('the summary is written at the last step', lift(core.zint(stp) == core.zint(s0 + n)))
    c.prove('... over num_steps', lift(core.zint(num) == core.zint(n)))
    if mt is not None:
      c.prove('... with the metrics of all steps', AND(mt.lo == 0, mt.hi == n))
    else:
      c.prove('... and no metrics only without steps', lift(core.zint(n) == 0))
    c.prove('the summary future is returned', r == 'future')
    c.cover()
  chk.verify('BaseTrainer.train', TR, 'for every start and number of steps: batch i, state i -> state i+1; exactly num_steps; metrics merged over all', body,
             assumed=['the compiled train step advances state.step by one (T01)'])


def verify_rng(chk):
  tr = mod()
  from t5x.contrib.moe import trainer as moe
  for nm, cls, file in (('Trainer', tr.Trainer, TR), ('MoeTrainer', moe.MoeTrainer, 't5x/contrib/moe/trainer.py')):
    def body(c, cls=cls, nm=nm):
      import jax
      d = jx.Dims(c, 'b')
      cap = {}

      class Part:
        data_partition_spec = 'spec'

        def partition(self, fn, **kw):
          cap['fn'] = fn
          return fn
      kw = dict(model='model', train_state=Fake(step=0), partitioner=Part(), eval_names=[], summary_dir=None, train_state_axes=None,
                learning_rate_fn=lambda s: jx.opaque('lr', (), np.float32, s), num_microbatches=2, weight_metrics_computer='wmc')
      if nm == 'MoeTrainer':
        kw['num_expert_partitions'] = 2
      fold = z3.Function('fold_in', z3.IntSort(), z3.IntSort(), z3.IntSort())
      LR = z3.Function('lr', z3.IntSort(), z3.RealSort())
      ip = jx.Interp(c, d, contracts={
          'vc_fold': lambda ip, e, i: jx.SArr((), np.int32, lambda: fold(i[0].at(), i[1].at())),
          'vc_lr': lambda ip, e, i: jx.SArr((), np.float32, lambda: LR(i[0].at()))})
      base, step = ip.arg('seed', (), 'int32'), ip.arg('step', (), 'int32')
      w, x = ip.arg('w', ('b',), 'float32'), ip.arg('x', ('b',), 'float32')
      seen = {}

      def acc(model, train_state, batch, dropout_rng, num_microbatches, data_partition_spec=None):
        seen.update(model=model, batch=batch, k=num_microbatches, spec=data_partition_spec, rng=dropout_rng)
        return {'w': batch['x']}, {}, None

      def app(train_state, grads, metrics, learning_rate, wmc, other_state_variables=None):
        seen.update(lr=learning_rate, ts=train_state, wmc=wmc)
        return train_state, metrics

      def run(base, step, w, x):
        t = cls(rng=base, **kw)
        try:
          t._partitioned_train_step   # pylint: disable=pointless-statement
          ts = Fake(step=step, params={'w': w})
          with patched(jax.random, fold_in=lambda k, s: jx.opaque('fold', (), np.int32, k, s)):
            with patched(tr, accumulate_grads_microbatched=acc, apply_grads=app):
              cap['fn'](ts, {'x': x})
          seen['ok'] = seen['ts'] is ts
        finally:
          t.close()
        return seen['rng'], seen['lr'], seen['batch']['x']
      r, lr, bx = ip.call(run, base, step, w, x)
      c.prove('randomness is fold_in(base seed, step)', r.at() == fold(base.at(), step.at()))
      c.prove('the learning rate is the schedule at this step', lr.at() == LR(step.at()))
      j = c.int('j', 0).t
      c.prove('the whole batch is used', bx.at(j) == x.at(j))
      c.prove('model, microbatch count, partition spec and state are passed on',
              (seen['model'], seen['k'], seen['spec'], seen['wmc'], seen['ok']) == ('model', 2, 'spec', 'wmc', True))
      c.cover()
    chk.verify(f'{nm}._partitioned_train_step', file, 'rng = fold_in(base rng, state.step), rate = schedule(state.step)', body,
               assumed=['jax.random.fold_in is a function of key and number'])


# ---------------------------------------------------------------- bounded
def search_early(rec):
  tr = mod()
  import clu.values
  EA = need(tr, 'EarlyStoppingAction')
  rng = np.random.RandomState(env.SEED)
  vals = [0.0, 1.0, 0.5, -1.0, 2.0, 1.0 + 2 ** -4]

  def one(hist, mode, pat, atol, rtol, kind):
    a = EA(('t', 'm'), mode, patience=pat, atol=atol, rtol=rtol)
    for n, v in enumerate(hist):
      m = clu.values.Scalar(v) if kind == 'scalar' or (kind == 'mixed' and n % 2) else float(v)
      got = bool(a.run(None, {'t': {'m': m, 'x': clu.values.Scalar(0.)}, 'u': {}}))
      w = hist[max(0, n + 1 - pat):n + 1]

      def imp(cur, prev):
        dl = atol + rtol * abs(prev)
        return cur < prev - dl if mode == 'min' else cur > prev + dl
      exp = len(w) == pat and not any(imp(w[i + 1], w[i]) for i in range(pat - 1))
      if got != exp:
        return f'after {hist[:n + 1]}: stop={got}, expected {exp}'
      if got:
        return None
  for mode in ('min', 'max'):
    for pat in (2, 3, 4):
      for atol, rtol in ((0., 0.), (.5, 0.), (0., .5), (.25, .25)):
        for h in itertools.product(vals[:4], repeat=4):
          if rng.rand() < .35:
            rec.run(['early', mode, pat, atol, rtol, list(h)], lambda: one(list(h), mode, pat, atol, rtol, ('scalar', 'float', 'mixed')[rng.randint(3)]))
        for _ in range(20):
          h = [vals[i] for i in rng.randint(0, len(vals), 9)]
          rec.run(['early', mode, pat, atol, rtol, h], lambda: one(h, mode, pat, atol, rtol, 'scalar'))
        if rec.full:
          return
  for p in (2, 3):
    def gap():
      a = EA(('t', 'm'), 'min', patience=p)
      for k in range(p - 1):
        if a.run(None, {'t': {'m': 1.0}}):
          return 'stopped early'
      for mb in ({}, {'t': {}}, {'u': {'m': 5.}}, {'t': {'m': 'x'}}, {'t': {'x': 5.}}):
        if a.run(None, mb):
          return f'{mb} stopped training'
      if not a.run(None, {'t': {'m': 1.0}}):
        return 'evaluations without the metric reset or dropped the history'
    rec.run(['early: evaluations without the metric', p], gap)


def search_nan(rec):
  tr = mod()
  import clu.values
  import jax.numpy as jnp
  TA = need(tr, 'TerminateOnNanAction')
  for v in (0., -0., 1., -1e30, 3.4e38, float('nan'), float('inf'), float('-inf'), -float('nan')):
    for wrap in (float, np.float32, jnp.float32, jnp.bfloat16):
      for metric in ('loss', 'm'):
        def case():
          x = wrap(v)
          a = TA('t') if metric == 'loss' else TA('t', metric)
          got = bool(a.run(None, {'t': {metric: clu.values.Scalar(x), 'other': clu.values.Scalar(float('nan'))}, 'u': {metric: clu.values.Scalar(float('nan'))}}))
          with np.errstate(all='ignore'):
            exp = not np.isfinite(float(x))
          if got != exp:
            return f'{x}: stop={got}'
          for mb in ({}, {'t': {}}, {'u': {metric: clu.values.Scalar(float('nan'))}}):
            if a.run(None, mb):
              return f'{mb} stopped training'
        rec.run(['nan', v, str(wrap), metric], case)


def search_actions(rec):
  from t5x import train as tm
  tr = mod()
  ra = need(tm, 'run_actions')
  for n in range(4):
    for ans in itertools.product([False, True], repeat=n):
      for mode in tr.ActionMode:
        def case():
          log = []

          class A(tr.BaseAction):
            def __init__(self, i, a, tag):
              self.i, self.a, self.tag = i, a, tag

            def run(self, train_state, metrics_by_task):
              log.append((self.tag, self.i, train_state, metrics_by_task['k']))
              return self.a
          am = {mm: [A(i, a if mm == mode else not a, mm) for i, a in enumerate(ans)] for mm in tr.ActionMode}
          r = ra(mode, am, 'S', {'k': 'M'})
          if log != [(mode, i, 'S', 'M') for i in range(n)]:
            return f'ran {log}'
          if r is not any(ans):
            return f'returned {r}, actions answered {ans}'
          if ra(mode, {}, 'S', {'k': 'M'}) is not False:
            return 'no actions but a stop'
        rec.run(['actions', list(ans), str(mode)], case)


def search_loop(rec):
  """Trainer.train: split runs equal uninterrupted ones; one draw per step."""
  import jax
  import jax.numpy as jnp
  from checks import t01
  from t5x import optimizers, train_state as tsl, metrics as me
  tr = mod()
  from t5x.contrib.moe import trainer as moe

  class Model:
    @staticmethod
    def loss_fn(params, batch, rng):
      u = jax.random.uniform(rng, ())
      l = (params['w'] * (batch['x'] + u)).sum()
      return l, {'u': me.Sum(total=u), 'x': me.Sum(total=batch['x'].sum()), 'n': me.AveragePerStep(total=batch['x'].sum(), steps=1)}

  class Rec(optimizers.OptimizerDef):
    def init_state(self, p):
      return optimizers.OptimizerState(jnp.asarray(0, jnp.int32), {'w': jnp.zeros(())})

    def apply_gradient(self, hp, p, st, g):
      w = p['w'] * 0.9 + g['w'] * 0.01 + hp.learning_rate
      return {'w': w}, optimizers.OptimizerState(st.step + 1, st.param_states)

  def run(cls, parts, start, seed, k, given, offset=0):
    od = Rec(optimizers._OptaxWrapperHyperParams())   # pylint: disable=protected-access
    o = od.create({'w': jnp.asarray(1.)})
    o = o.replace(state=o.state.replace(step=jnp.asarray(start, jnp.int32)))
    st = tsl.FlaxOptimTrainState(o)
    it = iter([{'x': jnp.arange(2.) + 10 * (i + offset)} for i in range(sum(parts) + 2)])
    draws, used, sums = [], [], []
    s = start
    for p in parts:   # a fresh trainer per part: a resumed run
      kw = dict(model=Model, train_state=st, partitioner=t01.Part(), eval_names=[], summary_dir=None, train_state_axes=None,
                rng=jax.random.PRNGKey(seed), learning_rate_fn=lambda s: 0.125 * s, num_microbatches=k)
      T = tr.Trainer(**kw) if cls == 'Trainer' else moe.MoeTrainer(num_expert_partitions=2, **kw)
      try:
        f = T.train(it, p, start_step=s) if given else T.train(it, p)
        f = f.result()
        sums.append({k_: float(np.asarray(v.value)) for k_, v in f.items() if k_ in ('u', 'x', 'n')} if p else {})
        st = T.train_state
      finally:
        T.close()
      s += p
    rest = len(list(it))
    return int(st.step), float(st.params['w']), sums, sum(parts) + 2 - rest
  for cls, k, start, given in (('Trainer', None, 0, False), ('Trainer', 2, 7, True), ('MoeTrainer', None, 7, False), ('Trainer', None, 3, True)):
    whole = run(cls, [4], start, 3, k, given)
    for parts in ([1, 3], [2, 2], [1, 2, 1]):
      def case():
        r = run(cls, parts, start, 3, k, given)
        if r[0] != start + 4 or whole[0] != start + 4:
          return f'step {r[0]} after 4 steps from {start}'
        if r[3] != 4 or whole[3] != 4:
          return f'{r[3]} batches consumed in 4 steps'
        if not f32close(r[1], whole[1], 1e-6, 1e-6):
          return f'resumed run ends at {r[1]}, uninterrupted run at {whole[1]}'
        for key in ('u', 'x'):
          if not f32close(sum(x[key] for x in r[2]), whole[2][0][key], 1e-5, 1e-5):
            return f'{key}: {r[2]} in parts, {whole[2]} in one run'
        if not f32close(whole[2][0]['x'], sum(20 * i + 1 for i in range(4))):
          return f'batches consumed: sum {whole[2][0]["x"]}'
        if not f32close(whole[2][0]['n'], whole[2][0]['x'] / 4):
          return f'average per step {whole[2][0]["n"]} of a total {whole[2][0]["x"]} over 4 steps'
      rec.run(['loop', cls, k, start, given, parts], case)

    def per():
      us = [x['u'] for x in run(cls, [1] * 4, start, 3, k, given)[2]]
      if len(set(us)) != 4:
        return f'the same randomness in different steps: {us}'
      vs = [x['u'] for x in run(cls, [1] * 2, start + 1, 3, k, given, offset=50)[2]]
      if us[1:3] != vs:
        return f'randomness of a step depends on the data or on where the run started: {us[1:3]} {vs}'
      zs = [x['u'] for x in run(cls, [1] * 2, start + 2, 4, k, given)[2]]
      if any(a == b for a, b in zip(zs, us[2:])):
        return 'randomness does not depend on the base seed'
    rec.run(['randomness', cls, k, start, given], per)
    if rec.full:
      return


if __name__ == '__main__':
  def build(chk):
    verify_early(chk)
    verify_nan(chk)
    verify_actions(chk)
    verify_train(chk)
    verify_rng(chk)
    chk.search('early stopping over metric histories', 'histories up to 9 values, patience 2-4', search_early)
    chk.search('not-a-number guard', '9 values, 4 number types', search_nan)
    chk.search('dispatch of actions', 'up to 3 actions, all answers and modes', search_actions)
    chk.search('split training runs', '3 splits of 4 steps, 4 configurations', search_loop)
  main('T03', build)
