"""L02: merging metrics, setting steps and durations, counting packed examples."""

import itertools

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.h import patched, f32close
from vc.transform import StubNS

ME = 't5x/metrics.py'


def mod():
  from t5x import metrics
  return metrics


def algebra(chk):
  me = mod()
  import jax.numpy as jnp
  fake = StubNS(jnp, array=lambda x, *a, **k: x, asarray=lambda x, *a, **k: x)
  cases = {
      'Sum': (lambda c, n: me.Sum(total=c.real('t' + n)), lambda m: (m.total,), ('total',)),
      'AveragePerStep': (lambda c, n: me.AveragePerStep(total=c.real('t' + n), steps=c.int('s' + n, 1)), lambda m: (m.total, m.steps), ('total', 'steps')),
      'TimeRate': (lambda c, n: me.TimeRate(numerator=c.real('t' + n)), lambda m: (m.numerator, m.duration), ('numerator', 'duration')),
      'StepsPerTime': (lambda c, n: me.StepsPerTime(steps=c.int('s' + n, 1)), lambda m: (m.steps, m.duration), ('steps', 'duration')),
      'Time': (lambda c, n: me.Time(), lambda m: (m.duration,), ('duration',)),
  }

  def eq(x, y):
    if x is None or y is None:
      return z3.BoolVal(x is None and y is None)
    return core.zreal(x) == core.zreal(y)

  for name, (mk, fields, fn) in cases.items():
    def body(c, name=name, mk=mk, fields=fields, fn=fn):
      with patched(me, jnp=fake):
        a, b, d = mk(c, '1'), mk(c, '2'), mk(c, '3')
        ab = a.merge(b)
        c.prove('merging keeps the metric class', type(ab) is type(a))
        for f, x, y, z in zip(fn, fields(ab), fields(a), fields(b)):
          if f == 'duration':
            c.prove('merging does not invent a duration', x is None)
          else:
            c.prove('merged sums and step counts add up', core.zreal(x) == core.zreal(y) + core.zreal(z))
        l, r = a.merge(b).merge(d), a.merge(b.merge(d))
        ba = b.merge(a)
        for x, y in zip(fields(l), fields(r)):
          c.prove('merging is associative', eq(x, y))
        for x, y in zip(fields(ab), fields(ba)):
          c.prove('merging is commutative', eq(x, y))
        # computed values
        n, u = c.int('steps', 1), c.real('duration')
        c.assume(u > 0)
        if isinstance(a, me.Step):
          s = a.replace_steps(n)
          c.prove('replace_steps sets the steps and nothing else', core.AND(
              s.steps == n, type(s) is type(a),
              *[eq(x, y) for f, x, y in zip(fn, fields(s), fields(a)) if f != 'steps']))
        if isinstance(a, me.Time):
          t = a.replace_duration(u)
          c.prove('replace_duration sets the duration and nothing else', core.AND(
              t.duration == u, type(t) is type(a),
              *[eq(x, y) for f, x, y in zip(fn, fields(t), fields(a)) if f != 'duration']))
          try:
            a.compute()
            raised = False
          except ValueError:
            raised = True
          c.prove('computing without a duration is an error', raised)
        if name == 'Sum':
          c.prove('computed value', core.zreal(a.compute()) == core.zreal(a.total))
        if name == 'AveragePerStep':
          c.prove('computed value', core.zreal(s.compute()) == core.zreal(a.total) / core.zreal(n))
        if name == 'TimeRate':
          c.prove('computed value', core.zreal(t.compute()) == core.zreal(a.numerator) / core.zreal(u))
        if name == 'StepsPerTime':
          c.prove('computed value', core.zreal(t.compute()) == core.zreal(a.steps) / core.zreal(u))
        if name == 'Time':
          c.prove('computed value', core.zreal(t.compute()) == core.zreal(u))
      c.cover()
    chk.verify(f'{name}.merge/compute/replace', ME, 'merge is an associative, commutative sum; compute is total/steps, numerator/duration', body,
               assumed=['jnp.array/asarray do not change a scalar'])


def from_output(chk):
  me = mod()
  for rank in (0, 1, 2, 3):
    for cls in ('Sum', 'AveragePerStep'):
      def body(c, rank=rank, cls=cls):
        names = ('m', 'n', 'o')[:rank]
        d = jx.Dims(c, *names)
        ip = jx.Interp(c, d)
        v = ip.arg('v', names, 'float32')
        K = getattr(me, cls)
        steps = 5
        o = ip.call(lambda v: K.from_model_output(v) if cls == 'Sum' else K.from_model_output(v, steps=steps), v)
        tot = o.total.at()
        if rank == 0:
          c.prove('total is the value', tot == v.at())
        else:
          S = jx.sum_spec(c, [d.t(n) for n in names], lambda *k: v.at(*k))
          c.prove('total is the sum of all values', tot == S.at(), hints=jx.pair_lemmas(c))
        if cls != 'Sum':
          st = o.steps
          c.prove('steps are the given ones', (st.at() if isinstance(st, jx.SArr) else z3.IntVal(int(st))) == steps)
        c.cover()
      chk.verify(f'{cls}.from_model_output [rank {rank}]', ME, 'total is the sum of all elements, for every shape of this rank', body)


class _Map:
  """Records the function a tree map applies (contract of jax tree maps:
  the result is fn at every leaf, a leaf being anything is_leaf accepts)."""

  def __init__(self):
    self.calls = []

  def __call__(self, f, *trees, is_leaf=None):
    self.calls.append((f, trees, is_leaf))
    return ('mapped', len(self.calls) - 1)


def setters(chk):
  me = mod()
  import jax
  from clu import metrics as clu
  objs = lambda c: [me.Sum(total=c.real('a')), me.AveragePerStep(total=c.real('b'), steps=c.int('sb')),
                    me.Time(duration=None), me.TimeRate(numerator=c.real('d')), me.StepsPerTime(steps=c.int('se')),
                    clu.Average(total=c.real('f'), count=c.real('g')), clu.LastValue(total=c.real('h'), count=c.int('lc'))]

  for which in ('duration', 'steps'):
    def body(c, which=which):
      m = _Map()
      val = c.real('duration') if which == 'duration' else c.int('num_steps')
      tree = object()
      jx_ = StubNS(jax, tree=StubNS(jax.tree, map=m), tree_util=StubNS(jax.tree_util, tree_map=m))
      with patched(me, jax=jx_):
        r = (me.set_time_metrics_duration if which == 'duration' else me.set_step_metrics_num_steps)(tree, val)
      if len(m.calls) != 1:
        raise core.Unsupported('not a single tree map')
      f, trees, is_leaf = m.calls[0]
      c.prove('the given tree is mapped and the mapped tree returned', r == ('mapped', 0) and len(trees) == 1 and trees[0] is tree)
      cls = me.Time if which == 'duration' else me.Step
      for o in objs(c):
        hit = isinstance(o, cls)
        if hit:
          c.prove('every metric of this kind is a leaf of the map', bool(is_leaf(o)))
          n = f(o)
          c.prove('the value is set', core.lift(core.zreal(getattr(n, which)) == core.zreal(val)))
          c.prove('nothing else changes', type(n) is type(o) and all(
              getattr(n, k) is getattr(o, k) for k in o.__dataclass_fields__ if k != which))
        else:
          c.prove('other metrics are left alone', f(o) is o)
      for leaf in (None, 3, c.real('leaf')):
        c.prove('anything else is left alone', f(leaf) is leaf)
      for t in ({'a': 1}, [1], (1, 2)):
        c.prove('containers are traversed', not is_leaf(t))
      c.cover()
    chk.verify('set_time_metrics_duration' if which == 'duration' else 'set_step_metrics_num_steps', ME,
               f'sets {which} of exactly the metrics that have one, for every tree', body,
               assumed=['jax.tree.map applies the function at every leaf accepted by is_leaf and keeps the structure'])

  def merge(c):
    from t5x import trainer
    m = _Map()
    a, b = object(), object()
    jx_ = StubNS(jax, tree=StubNS(jax.tree, map=m), tree_util=StubNS(jax.tree_util, tree_map=m))
    with patched(trainer, jax=jx_):
      f0 = trainer._merge_metrics
      f0 = getattr(f0, '__wrapped__', f0)
      r = f0(a, b)
    f, trees, is_leaf = m.calls[0]
    c.prove('the two trees are merged leaf by leaf', r == ('mapped', 0) and trees[0] is a and trees[1] is b and len(m.calls) == 1)
    x, y = me.Sum(total=c.real('x')), me.Sum(total=c.real('y'))
    c.prove('each pair of metrics is merged', core.zreal(f(x, y).total) == core.zreal(x.total) + core.zreal(y.total))
    for o in objs(c):
      c.prove('whole metrics are leaves', bool(is_leaf(o)))
    c.prove('containers are traversed', not is_leaf({'a': x}))
    calls = []
    with patched(trainer, _merge_metrics=lambda p, q: calls.append((p, q)) or 'merged',
                 utils=StubNS(trainer.utils, get_local_data=lambda v: ('local', v))):
      out = trainer.merge_metrics({'k': 1}, {'k': 2})
    c.prove('merge_metrics merges the local data of both operands in order',
            out == 'merged' and calls == [({'k': ('local', 1)}, {'k': ('local', 2)})])
    c.cover()
  chk.verify('merge_metrics', 't5x/trainer.py', 'merges every pair of metrics of two trees', merge,
             assumed=['jax.tree_util.tree_map as above; jax.jit does not change results'])

  def summary(c):
    from t5x import trainer
    calls = []
    dur, ns = c.real('duration'), c.int('num_steps')

    class V:
      def __init__(self, tag):
        self.tag = tag

      def compute_value(self):
        return ('value', self.tag)
    log = {}

    class Fut:
      def result(self):
        return dur

    class Timer:
      def stop(self, block_on=()):
        log['block'] = block_on
        return Fut()

    class MM:
      _duration_timer = Timer()
      import threading
      _writer_lock = threading.Lock()
      _writer = object()

      def _summary_pool(self, f):
        return f
    mm = MM()
    src = {'a': V('a'), 'b': V('b')}

    def st(m, d):
      log['dur'] = d
      return {k: V(v.tag + '+d') for k, v in m.items()}

    def ss(m, n):
      log['n'] = n
      return {k: V(v.tag + '+n') for k, v in m.items()}

    with patched(trainer, metrics_lib=StubNS(me, set_time_metrics_duration=st, set_step_metrics_num_steps=ss),
                 metric_writers=StubNS(trainer.metric_writers, write_values=lambda w, step, s: log.update(step=step, written=s)),
                 utils=StubNS(trainer.utils, get_local_data=lambda v: v),
                 jax=StubNS(jax, device_get=lambda x: x)):
      out = trainer.MetricsManager.write_metrics_summary(mm, src, 17, ns)
    c.prove('the duration is set', log.get('dur') is dur)
    c.prove('the number of steps is set', log.get('n') is ns)
    good = all(out[k] == ('value', k + '+d+n') or out[k] == ('value', k + '+n+d') for k in src) and set(out) == set(src)
    c.prove('every metric is computed after both are set', good)
    c.prove('the computed values are written at the given step', log.get('step') == 17 and log.get('written') == out)
    c.cover()
  chk.verify('MetricsManager.write_metrics_summary', 't5x/trainer.py', 'sets duration and steps, computes each metric once, writes at the given step', summary,
             assumed=['asynclib.Pool runs the function; the timer returns the measured duration'])


def packed(chk):
  from t5x import models

  def body(c):
    d = jx.Dims(c, 'b', 'L')
    ip = jx.Interp(c, d)
    s = ip.arg('segments', ('b', 'L'), 'int32')
    B, L = d.t('b'), d.t('L')
    out = ip.call(lambda x: models.count_packed_examples(x), s)
    res = out.at()
    one, zero = z3.IntVal(1), z3.IntVal(0)
    i, m = c.int('i', 0).t, c.int('m', 0).t
    c.assume(z3.And(i < B))
    # rows: padding (id 0) only at the end
    pad_end = lambda k: z3.Implies(z3.And(k >= 0, k + 1 < L, s.at(i, k) == 0), s.at(i, k + 1) == 0)
    starts = lambda r, k: z3.If(z3.And(s.at(r, k) != 0, z3.Or(k == 0, s.at(r, k) != s.at(r, k - 1))), one, zero)
    rowcount = jx.new_sum(c, [L], lambda idx, k: starts(idx[0], k[0]), 1, z3.IntSort(), 'rowstarts')
    total = jx.new_sum(c, [B], lambda idx, k: rowcount.at(k[0]), 0, z3.IntSort(), 'allstarts')
    ones = jx.new_sum(c, [B], lambda idx, k: one, 0, z3.IntSort(), 'ones')
    c._push(ones.at() == B)
    code = [x for x in c.user['sums'] if x.name.startswith('sum') and '.' not in x.name]
    two = [x for x in code if len(x.dims) == 2]
    rows = [x for x in code if len(x.dims) == 1]
    if len(two) != 1 or len(rows) != 1:
      raise core.Unsupported('count_packed_examples has another shape of reductions')
    outer, inner, fact = jx.fubini(c, two[0])
    fact()
    # row lemma by induction on the number of positions seen
    P, pstep = jx.unfold(c, inner, (i,))
    Q, qstep = jx.unfold(c, rowcount, (i,))
    qstep(zero)
    lastpad = lambda k: z3.If(s.at(i, k) == 0, one, zero)
    claim = lambda k: P(k) + 1 - lastpad(k) == Q(k + 1)     # k = last position seen
    c.prove('row lemma: base', claim(zero))
    pstep(m)
    qstep(m + 1)
    c.prove('row lemma: step', z3.Implies(z3.And(m >= 0, m + 1 < L, pad_end(m), claim(m)), claim(m + 1)))
    c._push(claim(L - 1))       # induction over the positions of row i
    rowpad = rows[0]
    # apply the row lemma to every row: i is an arbitrary row
    w = i
    lhs = inner.at(w) + 1 - rowpad.val((), [w])
    c.prove('row lemma: number of starts', lhs == rowcount.at(w))
    tot = outer.at() + ones.at() - rowpad.at() - total.at()
    pt = outer.val((), [w]) + ones.val((), [w]) - rowpad.val((), [w]) - total.val((), [w])
    c.prove('pointwise equality of the summed rows', pt == 0)
    c._push(tot == 0)           # equal summands, equal sums
    c.prove('counts every distinct packed example exactly once', res == total.at())
    c.cover()
  chk.verify('count_packed_examples', 't5x/models.py', 'for every batch of packed rows with padding at the end: number of segment starts', body,
             assumed=['finite sums may be exchanged and equal summands give equal sums (induction over positions proved per step)',
                      'packed rows hold contiguous segments, padding only at the end'])


# -------------------------------------------------------------------- bounded
def search_packed(rec):
  from t5x import models
  import jax
  f = jax.jit(need(models, 'count_packed_examples'))
  rng = np.random.RandomState(env.SEED)
  for L in (1, 2, 3, 5, 6):
    rows = []
    for pad in range(0, L + 1):
      n = L - pad
      for bits in itertools.product((0, 1), repeat=max(n - 1, 0)):
        ids = rng.permutation(9)[:max(n, 1)] + 1
        r, k = [], 0
        for p in range(n):
          if p and bits[p - 1]:
            k += 1
          r.append(int(ids[k]))
        rows.append(r + [0] * pad)
    rows = np.array(rows, np.int32)
    for sz in (1, 2, 7):
      for _ in range(6):
        x = rows[rng.randint(0, len(rows), sz)]
        e = sum(len(set(r.tolist()) - {0}) for r in x)
        rec.check(['count_packed_examples', x], int(f(x)) == e, f'got {int(f(x))} expected {e}')


def search_merge(rec):
  import functools
  from t5x import models, trainer
  me = mod()
  rng = np.random.RandomState(env.SEED)
  cb = need(models, 'compute_base_metrics')
  mm = need(trainer, 'merge_metrics')
  import jax.numpy as jnp
  B, L, V = 6, 5, 7
  for it in range(4):
    logits = rng.randn(B, L, V).astype(np.float32)
    tg = rng.randint(0, V, (B, L)).astype(np.int32)
    mask = (rng.rand(B, L) > .3).astype(np.float32)
    mask[:, 0] = 1
    loss = rng.rand(B).astype(np.float32)
    zl = rng.rand(B).astype(np.float32) * .1
    seg = np.sort(rng.randint(1, 4, (B, L)), axis=1).astype(np.int32)
    for r in range(B):
      k = rng.randint(0, L)
      seg[r, L - k:] = 0

    def metrics(ix):
      ix = list(ix)
      return cb(jnp.asarray(logits[ix]), jnp.asarray(tg[ix]), jnp.asarray(mask[ix]), jnp.asarray(loss[ix].sum()),
                jnp.asarray(zl[ix].sum()), {'x': jnp.asarray(seg[ix]), 'none': None})
    splits = [[range(6)], [range(3), range(3, 6)], [[0], [1, 2], [3, 4, 5]], [[i] for i in range(6)], [[5, 4], [3, 2], [1, 0]]]
    vals = []
    for sp in splits:
      for order in ('left', 'right'):
        parts = [metrics(ix) for ix in sp]
        m = functools.reduce(mm, parts) if order == 'left' else functools.reduce(lambda a, b: mm(b, a), reversed(parts))
        steps_before = {k: v.steps for k, v in m.items() if isinstance(v, me.Step)}
        bad = [k for k, s in steps_before.items() if int(s) != len(sp)]
        m = me.set_time_metrics_duration(m, 2.5)
        m = me.set_step_metrics_num_steps(m, 3)
        vals.append({k: np.asarray(v.compute(), np.float64) for k, v in m.items()})

        def case():
          if bad:
            return f'step counts of {bad} do not add up to {len(sp)}'
          for k, v in vals[-1].items():
            if not f32close(v, vals[0][k], 1e-4, 1e-5):
              return f'{k}: {v} after merging, {vals[0][k]} on the union'
        rec.run(['merge', it, [list(map(int, x)) for x in sp], order], case)
    exp = {
        'loss': loss.sum() / 3, 'z_loss': zl.sum() / 3, 'cross_ent_loss': (loss - zl).sum() / 3,
        'loss_per_all_target_tokens': loss.sum() / (B * L), 'loss_per_nonpadding_target_token': loss.sum() / mask.sum(),
        'timing/seqs_per_second': B / 2.5, 'timing/steps_per_second': 3 / 2.5, 'timing/seconds': 2.5, 'timing/seqs': B,
        'timing/target_tokens_per_second': B * L / 2.5, 'non_padding_fraction/loss_weights': mask.sum() / (B * L),
        'effective_batch_size/x': sum(len(set(r.tolist()) - {0}) for r in seg) / 3,
        'non_padding_fraction/x': (seg != 0).mean(), 'non_padding_fraction/overall': (seg != 0).mean(),
        'accuracy': ((logits.argmax(-1) == tg) * mask).sum() / mask.sum(),
    }
    for k, e in exp.items():
      rec.check(['value', it, k], k in vals[0] and f32close(vals[0][k], e, 1e-4, 1e-5), f'{k}: {vals[0].get(k)} expected {e}')


def search_classes(rec):
  """Merges and setters of each metric class on concrete numbers and nested trees."""
  me = mod()
  from clu import metrics as clu
  import jax
  import jax.numpy as jnp
  rng = np.random.RandomState(env.SEED)
  mk = [lambda v: me.Sum.from_model_output(v), lambda v: me.AveragePerStep.from_model_output(v, steps=2),
        lambda v: me.AveragePerStep.from_model_output(v), lambda v: me.TimeRate.from_model_output(numerator=jnp.sum(v)),
        lambda v: me.StepsPerTime.from_model_output(steps=4)]
  for _ in range(10):
    x = [jnp.asarray(rng.randint(0, 9, s).astype(np.float32)) for s in ((3,), (2, 2), ())]
    S = [float(v.sum()) for v in x]
    for i, f in enumerate(mk):
      ms = [f(v) for v in x]
      for a, b, c_ in itertools.permutations(range(3)):
        for m in (ms[a].merge(ms[b]).merge(ms[c_]), ms[a].merge(ms[b].merge(ms[c_]))):
          st = m.replace_steps(5) if isinstance(m, me.Step) else m
          st = st.replace_duration(.5) if isinstance(m, me.Time) else st
          e = {0: sum(S), 1: sum(S) / 5, 2: sum(S) / 5, 3: sum(S) / .5, 4: 5 / .5}[i]
          n = {1: 6, 2: 3, 4: 12}.get(i)
          rec.check([i, S, a, b, c_], f32close(st.compute(), e) and (n is None or int(m.steps) == n),
                    f'computed {float(st.compute())} expected {e}; steps {getattr(m, "steps", None)} expected {n}')
  tree = {'a': me.Sum(total=1.), 'n': {'b': me.AveragePerStep(total=2., steps=1), 'c': [me.TimeRate(numerator=3.), me.Time()]},
          'd': (me.StepsPerTime(steps=1), clu.Average(total=jnp.array(4.), count=jnp.array(2.)), 5.0)}
  t1 = me.set_time_metrics_duration(tree, 7.0)
  t2 = me.set_step_metrics_num_steps(tree, 9)
  is_m = lambda o: isinstance(o, clu.Metric)
  for a, b1, b2 in zip(*[jax.tree_util.tree_leaves(t, is_leaf=is_m) for t in (tree, t1, t2)]):
    if is_m(a):
      g = lambda o: {k: None if getattr(o, k) is None else float(getattr(o, k)) for k in o.__dataclass_fields__}
      e1, e2 = g(a), g(a)
      if isinstance(a, me.Time):
        e1['duration'] = 7.0
      if isinstance(a, me.Step):
        e2['steps'] = 9.0
      rec.check(['set', str(type(a))], g(b1) == e1 and g(b2) == e2 and type(b1) is type(a), f'{g(b1)} {g(b2)} expected {e1} {e2}')
    else:
      rec.check(['set leaf', str(a)], a == b1 == b2)


if __name__ == '__main__':
  def build(chk):
    algebra(chk)
    from_output(chk)
    setters(chk)
    packed(chk)
    chk.search('packed examples counted', 'all packings of rows up to length 6', search_packed)
    chk.search('base metrics of a split batch against the whole batch', '5 splits, both merge orders', search_merge)
    chk.search('metric classes on numbers', '3 parts, all orders and associations', search_classes)
  main('L02', build)
