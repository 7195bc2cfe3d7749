"""T01: gradient accumulation over microbatches."""

import itertools
import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.h import patched, f32close
from vc.transform import StubNS, clone

TR = 't5x/trainer.py'


def mod():
  from t5x import trainer
  return trainer


# ------------------------------------------------------------ the loss stub
def opaque_model(mut):
  """loss_fn whose loss, gradient, metric and mutables are uninterpreted."""
  import jax
  from t5x import metrics as me

  def lf(params, batch, rng, u=None):
    args = [params['w']] + [batch[k] for k in sorted(batch)] + [rng]
    if u is not None:
      args.append(u['u'])
    v = jx.opaque('loss', (), np.float32, *args)
    ms = {'s': me.Sum(total=jx.opaque('met', (), np.float32, *args))}
    return (v, ms) if u is None else (v, (ms, {'u': jx.opaque('mut', u['u'].shape, np.float32, *args)}))
  f = jax.custom_vjp(lf)

  def bwd(res, g):
    p, b, r, u = res
    args = [p['w']] + [b[k] for k in sorted(b)] + [r]
    if u is not None:
      args.append(u['u'])
    return ({'w': jx.opaque('G', p['w'].shape, np.float32, *args)}, None, None, None)
  f.defvjp(lambda p, b, r, u=None: (lf(p, b, r, u), (p, b, r, u)), bwd)

  class Model:
    @staticmethod
    def loss_fn(params, batch, rng, u=None):
      return f(params, batch, rng, u)
  return Model


def fa_(f):
  v = z3.Int('v!')
  return z3.ForAll([v], f(v))


def verify_loop(chk, mut):
  tr = mod()

  def body(c):
    from t5x import metrics as me   # noqa
    d = jx.Dims(c, 'k', 'm', 'L', 'D', 'U', lo={'k': 2, 'm': 1, 'L': 1, 'D': 1, 'U': 1}, cons=('k*m>=m', 'k*m-m>=0'))
    K, M, L, D, U = (d.t(n) for n in 'kmLDU')
    gS = z3.Function('gradsum', z3.IntSort(), z3.IntSort(), z3.RealSort())
    gT = z3.Function('metricsum', z3.IntSort(), z3.RealSort())
    gV = z3.Function('mutables', z3.IntSort(), z3.IntSort(), z3.RealSort())
    cur = {'i': None, 'G': 0, 'mut': 0}
    km = d['k'] * d['m']

    def slices(ip, ins):
      """The loss sees rows i*m .. i*m+m-1 of every feature."""
      i = cur['i']
      if i is None:
        raise core.Unsupported('the loss is evaluated outside the loop')
      w_, x_, y_ = ins[0], ins[1], ins[2]
      e, l, q = (c.int(n, 0).t for n in ('e', 'l', 'q'))
      c.assume(z3.And(e < M, l < L, q < D))
      lem = [i * M <= (K - 1) * M, (K - 1) * M == K * M - M, i * M >= 0]
      c.prove('arithmetic: block i fits into the batch', z3.And(*lem))
      for f in lem:
        c._push(f)
      c.prove('microbatch has m rows of every feature', z3.And(jx.I(x_.shape[0]) == M, jx.I(y_.shape[0]) == M))
      c.prove('row e of microbatch i is row i*m+e of feature 1', x_.at(e) == x.at(i * M + e))
      c.prove('row e of microbatch i is row i*m+e of feature 2', y_.at(e, l) == y.at(i * M + e, l))
      c.prove('gradient is taken at the current parameters', w_.at(q) == w.at(q))
      if mut:
        j = c.int('j', 0).t
        c.assume(j < U)
        c.prove('microbatch i gets the mutables left by microbatch i-1', ins[4].at(j) == gV(i, j))

    def h_G(ip, eqn, ins):
      slices(ip, ins)
      i = cur['i']
      cur['G'] += 1
      out = ip.fresh(ip.shape(eqn.outvars[0].aval.shape), np.float32, 'Gi')
      cur['Gi'] = out
      c.assume(fa_(lambda l: gS(i + 1, core.term(l)) == gS(i, core.term(l)) + out.at(core.term(l))))
      return out

    def h_met(ip, eqn, ins):
      slices(ip, ins)
      i = cur['i']
      out = ip.fresh((), np.float32, 'Mi')
      cur['Mi'] = out
      c.assume(gT(i + 1) == gT(i) + out.at())
      return out

    def h_mut(ip, eqn, ins):
      slices(ip, ins)
      i = cur['i']
      cur['mut'] += 1
      out = ip.fresh(ip.shape(eqn.outvars[0].aval.shape), np.float32, 'Ui')
      c.assume(fa_(lambda l: gV(i + 1, core.term(l)) == out.at(core.term(l))))
      return out

    class Acc(jx.JLoop):
      name = 'microbatch loop'

      def parts(self, st):
        sc = [a for a in st if a.ndim == 0 and jx.kind(a.dtype) == 'i']
        fs = [a for a in st if a.ndim == 0 and jx.kind(a.dtype) == 'f']
        g = [a for a in st if a.ndim == 1 and jx.deq(a.shape[0], D)]
        u = [a for a in st if a.ndim == 1 and jx.deq(a.shape[0], U)]
        if len(g) != 1 or len(fs) != 1 or len(u) != (1 if mut else 0) or not sc:
          raise core.Unsupported('the loop carries something else')
        return sc, fs[0], g[0], u

      def inv(self, st, it):
        sc, fs, g, u = self.parts(st)
        i = sc[0].at()
        q, j = c.int('qi', 0).t, c.int('ji', 0).t
        out = [('counter', z3.And(i >= 0, i <= K))]
        if len(sc) > 1:
          out.append(('bound', sc[1].at() == K))
        fa = lambda n, body: fa_(lambda v: z3.Implies(z3.And(v >= 0, v < n), body(v)))
        out.append(('gradient sum of the first i microbatches', core.term(fa(D, lambda v: g.at(v) == gS(i, v)))))
        out.append(('metric sum of the first i microbatches', z3.Implies(i >= 1, fs.at() == gT(i))))
        if mut:
          out.append(('mutables after i microbatches', core.term(fa(U, lambda v: u[0].at(v) == gV(i, v)))))
        return out

      def on_havoc(self, st):
        cur['i'] = self.parts(st)[0][0].at()

      def variant(self, st):
        return K - self.parts(st)[0][0].at()
    ip = jx.Interp(c, d, loops=[Acc()], contracts={
        'vc_G': h_G, 'vc_met': h_met, 'vc_mut': h_mut, 'vc_loss': lambda ip, e, i: ip.fresh((), np.float32, 'loss')})
    w = ip.arg('w', ('D',), 'float32')
    x = ip.arg('x', (km,), 'int32')
    y = ip.arg('y', (km, 'L'), 'float32')
    rng = ip.arg('rng', (2,), 'uint32')
    u = ip.arg('u', ('U',), 'float32')
    c.assume(fa_(lambda l: z3.And(gS(0, core.term(l)) == 0, gV(0, core.term(l)) == u.at(core.term(l)))))
    c.assume(gT(0) == 0)

    def run(w, x, y, rng, u):
      ts = types.SimpleNamespace(params={'w': w}, flax_mutables={'u': u} if mut else {})
      return tr.accumulate_grads_microbatched(opaque_model(mut), ts, {'x': x, 'y': y}, rng, d['k'])
    g, ms, um = ip.call(run, w, x, y, rng, u)
    q, j = c.int('qo', 0).t, c.int('jo', 0).t
    c.assume(z3.And(q < D, j < U))
    c.prove('the gradient is the sum over all k microbatches', g['w'].at(q) == gS(K, q))
    c.prove('the metrics are merged over all k microbatches', ms['s'].total.at() == gT(K))
    if mut:
      c.prove('the mutables are those left by the last microbatch', um['u'].at(j) == gV(K, j))
    else:
      c.prove('no mutables appear', um is None)
    c.cover()
  chk.verify('accumulate_grads_microbatched' + (' (mutables)' if mut else ''), TR,
             'for every batch size k*m, every k >= 2: microbatch i is rows i*m..(i+1)*m-1 of every feature; gradients and '
             'metrics are summed over all k; mutables thread through in order', body,
             assumed=['loss_fn is any function of params, batch, rng (uninterpreted gradient and metrics)',
                      'jax.value_and_grad returns the gradient of the loss (custom_vjp stub)'], seconds=150)


def verify_direct(chk, mut):
  tr = mod()

  def body(c):
    d = jx.Dims(c, 'b', 'L', 'D', 'U')
    seen = []
    n = c.choose('num_microbatches', [None, 1, 0])

    def h(name):
      def f(ip, eqn, ins):
        seen.append((name, ins))
        out = ip.fresh(ip.shape(eqn.outvars[0].aval.shape), np.float32, name)
        seen[-1] += (out,)
        return out
      return f
    ip = jx.Interp(c, d, contracts={'vc_' + k: h(k) for k in ('G', 'met', 'mut', 'loss')})
    w, x = ip.arg('w', ('D',), 'float32'), ip.arg('x', ('b',), 'int32')
    y, rng, u = ip.arg('y', ('b', 'L'), 'float32'), ip.arg('rng', (2,), 'uint32'), ip.arg('u', ('U',), 'float32')

    def run(w, x, y, rng, u):
      ts = types.SimpleNamespace(params={'w': w}, flax_mutables={'u': u} if mut else {})
      return tr.accumulate_grads_microbatched(opaque_model(mut), ts, {'x': x, 'y': y}, rng, n)
    g, ms, um = ip.call(run, w, x, y, rng, u)
    idx = [c.int(f'i{k}', 0).t for k in range(2)]
    for name, ins, out in seen:
      for a, b in zip(ins, [w, x, y] + [None] + ([u] if mut else [])):
        if b is not None:
          c.prove('the loss sees the whole batch and the given parameters and mutables',
                  z3.And(a.ndim == b.ndim, a.at(*idx[:a.ndim]) == b.at(*idx[:b.ndim])))
    G = [o for n_, _, o in seen if n_ == 'G']
    Mt = [o for n_, _, o in seen if n_ == 'met']
    Ut = [o for n_, _, o in seen if n_ == 'mut']
    c.prove('one gradient evaluation', len(G) == 1)
    c.prove('its gradient is returned', g['w'].at(idx[0]) == G[0].at(idx[0]))
    c.prove('its metrics are returned', z3.Or(*[ms['s'].total.at() == o.at() for o in Mt]))
    if mut:
      c.prove('its mutables are returned', z3.Or(*[um['u'].at(idx[0]) == o.at(idx[0]) for o in Ut]))
    c.cover()
  chk.verify('accumulate_grads_microbatched (one microbatch%s)' % (', mutables' if mut else ''), TR,
             'None, 0 or 1 microbatches: one gradient of the whole batch', body)


def verify_reject(chk):
  def body(c):
    b, k = c.int('batch_size', 1), c.int('num_microbatches', 2)
    c.assume(b % k != 0)
    m = clone(TR)
    reached = []

    class Arr:
      ndim = 1

      def __init__(self):
        self.shape = (b,)

    def loop(*a, **kw):
      reached.append(1)
      return ('rng', 'grads', {}, None)
    import jax
    m.jax = StubNS(jax, value_and_grad=lambda *a, **kw: (lambda *a, **kw: ((0, {}), {})),
                   eval_shape=lambda *a, **kw: ({}, None, None),
                   tree_util=StubNS(jax.tree_util, tree_map=lambda *a, **kw: {}),
                   lax=StubNS(jax.lax, fori_loop=loop, scan=loop, while_loop=loop))
    ts = types.SimpleNamespace(params={}, flax_mutables={})
    raised = False
    try:
      m.accumulate_grads_microbatched(types.SimpleNamespace(loss_fn=None), ts, {'x': Arr()}, 'rng', k)
    except (AssertionError, ValueError):
      raised = True
    c.prove('a batch that is not divisible is rejected', raised)
    c.prove('nothing is computed', not reached)
    c.cover()
  chk.verify('accumulate_grads_microbatched (rejection)', TR, 'for every batch size and every count that does not divide it: raises', body)


def verify_lemma(chk):
  def body(c):
    K, M = c.int('k', 2).t, c.int('m', 1).t
    n = c.int('n', 0).t
    c.assume(n < K * M)
    i, e = n / M, n % M
    c.prove('every example is in some microbatch', z3.And(i >= 0, e >= 0, e < M, i * M + e == n))
    c.prove('... whose index is below k', i < K)
    i2, e2 = c.int('i2', 0).t, c.int('e2', 0).t
    c.assume(z3.And(e2 < M, i2 * M + e2 == n))
    c.prove('... and in only one', z3.And(i2 == i, e2 == e))
    # additive loss: gradient of a microbatch is the sum of per-example gradients
    full = jx.new_sum(c, [K * M], lambda o, k: pg(k[0]), 0, z3.RealSort(), 'full')
    pg = z3.Function('example_grad', z3.IntSort(), z3.RealSort())
    P, pstep = jx.unfold(c, full, ())
    ii = c.int('i', 0).t
    blk = jx.new_sum(c, [M], lambda o, k: pg(ii * M + k[0]), 0, z3.RealSort(), 'block')
    Q, qstep = jx.unfold(c, blk, ())
    j = c.int('j', 0).t
    c.assume(z3.And(ii < K, j < M))
    c.prove('block i, base', P(ii * M + 0) + Q(z3.IntVal(0)) == P(ii * M))
    pstep(ii * M + j)
    qstep(j)
    c.prove('block i, step', z3.Implies(P(ii * M + j) == P(ii * M) + Q(j), P(ii * M + (j + 1)) == P(ii * M) + Q(j + 1)))
    c._push(P(ii * M + M) == P(ii * M) + Q(M))   # induction over j
    S = z3.Function('S', z3.IntSort(), z3.RealSort())
    c.assume(S(0) == 0)
    c.assume(S(ii + 1) == S(ii) + blk.at())
    c.prove('full sum, base', S(0) == P(0 * M))
    c.prove('full sum, step', z3.Implies(S(ii) == P(ii * M), S(ii + 1) == P((ii + 1) * M)),
            hints=[(ii + 1) * M == ii * M + M])
    c.cover()
  chk.verify('lemma: additive losses', TR, 'the microbatches partition the batch; sums over them add up to the sum over the batch', body,
             assumed=['induction principle for finite sums (base and step proved)'])


# ------------------------------------------------------ the optimiser update
def verify_update(chk):
  tr = mod()

  def body(c):
    has = c.choose('mutables', [True, False])
    calls = []
    ts = types.SimpleNamespace(step='s')
    lr, g, mut = object(), object(), ({'u': object()} if has else None)
    met = {'a': 'A'}
    new = object()

    def apply_gradient(grads, learning_rate, **kw):
      calls.append((grads, learning_rate, kw))
      return new
    ts.apply_gradient = apply_gradient
    acc = []

    def accumulate(*a, **kw):
      acc.append((a, kw))
      return g, dict(met), mut
    avg = types.SimpleNamespace(from_model_output=lambda x: ('avg', x))
    with patched(tr, accumulate_grads_microbatched=accumulate,
                 clu=types.SimpleNamespace(metrics=types.SimpleNamespace(Average=avg, LastValue=avg)),
                 jnp=StubNS(tr.jnp, asarray=lambda x, *a: x)):
      out, m2 = tr.train_with_lr(ts, 'batch', lr, 'rng', 'model', 3, None, 'spec')
    c.prove('gradients are accumulated once', len(acc) == 1)
    names = ['model', 'train_state', 'batch', 'dropout_rng', 'num_microbatches', 'data_partition_spec']
    got = dict(zip(names, acc[0][0]))
    got.update(acc[0][1])
    c.prove('... for this model, state, batch, randomness and count',
            (got['model'], got['batch'], got['dropout_rng'], got['num_microbatches'], got['data_partition_spec']) ==
            ('model', 'batch', 'rng', 3, 'spec') and got['train_state'] is ts)
    c.prove('exactly one update', len(calls) == 1 and out is new)
    c.prove('... with the accumulated gradient and the learning rate', calls[0][0] is g and calls[0][1] is lr)
    kw = calls[0][2]
    c.prove('... and the mutables left by the microbatches', (kw.get('flax_mutables') is mut) if has else not kw.get('flax_mutables'))
    c.prove('the accumulated metrics are kept', m2.get('a') == 'A')
    c.cover()
  chk.verify('train_with_lr / apply_grads', TR, 'one accumulation, one update with the accumulated gradient, mutables handed on', body)


def verify_step(chk):
  """state.step' = state.step + 1 for each optimiser class, by tracing."""
  from t5x import optimizers, adafactor, train_state as tsl
  import jax
  import flax
  opts = {'OptaxWrapper(sgd)': lambda: optimizers.sgd(0.1), 'OptaxWrapper(adam)': lambda: optimizers.adam(0.1),
          'Adafactor': lambda: adafactor.Adafactor(1e-3),
          'MultiOptimizer': lambda: optimizers.MultiOptimizer(
              [(flax.traverse_util.ModelParamTraversal(lambda p, _: 'w' in p), adafactor.Adafactor(1e-2))])}
  files = {'Adafactor': 't5x/adafactor.py'}
  for nm, mk in opts.items():
    def body(c, mk=mk, nm=nm):
      d = jx.Dims(c, 'p')
      ip = jx.Interp(c, d)
      ip.havoc_all = True
      step = ip.arg('step', (), 'int32')
      w, g = ip.arg('w', (3,), 'float32'), ip.arg('g', (3,), 'float32')
      mut = ip.arg('mut', (2,), 'float32')

      def run(step, w, g, mut):
        opt = mk()
        if 'Multi' in nm:
          opt = optimizers.MultiOptimizer(list(zip(opt.traversals, opt.sub_optimizers)))
        o = opt.create(flax.core.freeze({'w': w, 'b': w}) if 'Multi' in nm else {'w': w})
        st = tsl.FlaxOptimTrainState(o.replace(state=o.state.replace(step=step)))
        gr = jax.tree.map(lambda _: g, o.target)
        n = st.apply_gradient(gr, learning_rate=0.1, flax_mutables={'u': mut})
        return n.step, n.flax_mutables
      s2, mu = ip.call(run, step, w, g, mut)
      j = c.int('j', 0).t
      c.prove('the step advances by exactly one', s2.at() == step.at() + 1)
      c.prove('the mutables of the update are stored', mu['u'].at(j) == mut.at(j))
      c.cover()
    chk.verify(f'FlaxOptimTrainState.apply_gradient [{nm}]', files.get(nm, 't5x/optimizers.py'),
               'for every step: step + 1; mutables stored', body)


# ---------------------------------------------------------------- bounded
def small_model(mut, order_tag=True):
  import jax.numpy as jnp
  from t5x import metrics as me

  class Model:
    @staticmethod
    def loss_fn(params, batch, rng, u=None):
      z = batch['x'] @ params['w'] + params['n']['b']
      per = (z ** 2) * batch['s'] + jnp.sin(batch['y'].sum((1, 2)) * params['n']['b'][0])
      ms = {'s': me.Sum(total=per.sum()), 'n': me.AveragePerStep(steps=1, total=batch['s'].sum()),
            'id': me.Sum(total=(batch['s'] * batch['i'] ** 2).sum())}
      if u is None:
        return per.sum(), ms
      new = {'u': u['u'] * 3 + batch['i'].sum(), 'v': {'c': u['v']['c'] + 1}}
      return per.sum(), (ms, new if isinstance(u, dict) else type(u)(new))
  return Model


def batch_of(rng, B):
  return {'x': rng.randn(B, 3).astype(np.float32), 's': rng.randint(1, 5, (B,)).astype(np.float32),
          'y': rng.randn(B, 2, 2).astype(np.float32), 'i': np.arange(1, B + 1).astype(np.int32)}


def expect(batch, w, b):
  z = batch['x'].astype(np.float64) @ w + b
  ys = batch['y'].astype(np.float64).sum((1, 2))
  gw = (2 * z * batch['s']) @ batch['x']
  gb = (2 * z * batch['s']).sum() + (np.cos(ys * b) * ys).sum()
  tot = (z ** 2 * batch['s'] + np.sin(ys * b)).sum()
  return gw, gb, tot


def search_accumulate(rec):
  import jax
  import jax.numpy as jnp
  tr = mod()
  acc = need(tr, 'accumulate_grads_microbatched')
  rng = np.random.RandomState(env.SEED)
  for B in (1, 2, 3, 4, 6, 8, 12):
    batch = batch_of(rng, B)
    w, b = rng.randn(3).astype(np.float32), np.float32(0.3)
    params = {'w': jnp.asarray(w), 'n': {'b': jnp.asarray([b])}}
    gw, gb, tot = expect(batch, w.astype(np.float64), float(b))
    for mut in (False, True):
      u0 = {'u': jnp.asarray(1.0), 'v': {'c': jnp.asarray(0)}}
      ts = types.SimpleNamespace(params=params, flax_mutables=u0 if mut else {})
      for k in [None, 0, 1] + list(range(2, B + 3)):
        ok_split = k is None or k <= 1 or B % k == 0
        order = list(batch) if (B + (k or 0)) % 2 else list(reversed(batch))
        bt = {n: jnp.asarray(batch[n]) for n in order}

        def case():
          def f(bt, params, u0):
            ts = types.SimpleNamespace(params=params, flax_mutables=u0 if mut else {})
            return acc(small_model(mut), ts, bt, jax.random.PRNGKey(0), k)
          try:
            g, ms, um = jax.jit(f)(bt, params, u0)
          except Exception as e:   # noqa
            if ok_split:
              raise
            return None
          if not ok_split:
            return f'a batch of {B} was split into {k} microbatches without an error'
          n = k or 1
          if not (f32close(g['w'], gw, 1e-3, 1e-3) and f32close(g['n']['b'][0], gb, 1e-3, 1e-3)):
            return f'gradient {np.asarray(g["w"])}, {np.asarray(g["n"]["b"])}; full batch {gw}, {gb}'
          if not f32close(ms['s'].total, tot, 1e-3, 1e-3):
            return f'metric {float(ms["s"].total)}, full batch {tot}'
          if not f32close(ms['n'].total, batch['s'].sum()) or int(ms['n'].steps) != n:
            return f'step metric total {float(ms["n"].total)} steps {int(ms["n"].steps)}; expected {batch["s"].sum()} over {n}'
          if not f32close(ms['id'].total, (batch['s'] * batch['i'] ** 2).sum()):
            return f'examples seen differ: {float(ms["id"].total)} expected {(batch["s"] * batch["i"] ** 2).sum()}'
          if mut:
            u = 1.0
            for blk in np.split(batch['i'], n):
              u = u * 3 + blk.sum()
            if not f32close(um['u'], u) or int(um['v']['c']) != n:
              return f'mutables {float(um["u"])} after {int(um["v"]["c"])} microbatches; expected {u} after {n}'
          elif um:
            return f'unexpected mutables {um}'
        rec.run(['accumulate', B, k, mut, order], case)
    if rec.full:
      return


def search_precision(rec):
  """Gradients of low precision parameters are accumulated without loss."""
  import jax
  import jax.numpy as jnp
  from t5x import metrics as me
  tr = mod()
  acc = need(tr, 'accumulate_grads_microbatched')

  class Model:
    @staticmethod
    def loss_fn(params, batch, rng):
      l = (params['w'] * batch['x'].astype(params['w'].dtype)).sum()
      return l.astype(jnp.float32), {'s': me.Sum(total=batch['x'].sum())}
  for dt in ('bfloat16', 'float16', 'float32'):
    for k in (64, 512, 4096):
      def case():
        ts = types.SimpleNamespace(params={'w': jnp.ones((), dt)}, flax_mutables={})
        g, ms, _ = jax.jit(lambda x: acc(Model, ts, {'x': x}, jax.random.PRNGKey(0), k))(jnp.ones((k,), jnp.float32))
        if float(g['w']) != k:
          return f'sum of {k} unit gradients of a {dt} parameter is {float(g["w"])}'
      rec.run(['precision', dt, k], case)


class Part:
  """Partitioner that only jits."""

  def __init__(self):
    from jax.sharding import PartitionSpec
    self.data_partition_spec = PartitionSpec('data')
    self.mesh = None

  def partition(self, fn, in_axis_resources=None, out_axis_resources=None, static_argnums=(), donate_argnums=()):
    import jax
    return jax.jit(fn)

  def compile(self, fn, *args):
    return fn.lower(*args).compile()


def search_trainer(rec):
  """Whole training steps of Trainer and MoeTrainer against a numpy update."""
  import jax
  import jax.numpy as jnp
  from t5x import optimizers, train_state as tsl
  tr = mod()
  from t5x.contrib.moe import trainer as moe
  import flax
  rng = np.random.RandomState(env.SEED)
  for cls in ('Trainer', 'MoeTrainer'):
    for mut in (False, True):
      for B, k in ((4, None), (4, 1), (4, 2), (4, 4), (6, 3)):
        for steps in (1, 3):
          def case():
            w, b = rng.randn(3).astype(np.float32), np.float32(0.2)
            names = {'w': 'w', 'n': 'n'} if cls == 'Trainer' else {'w': 'w', 'n': 'expert'}

            class Model:
              @staticmethod
              def loss_fn(params, batch, r, u=None):
                return small_model(mut).loss_fn({'w': params['w'], 'n': params[names['n']]}, batch, r, u)
            params = flax.core.freeze({'w': jnp.asarray(w), names['n']: {'b': jnp.asarray([b])}})
            lr0 = 1e-3
            from t5x import adafactor  # noqa
            start = 5

            class Sgd(optimizers.OptimizerDef):
              """w - learning_rate * g, with the learning rate the trainer passes."""

              def init_state(self, p):
                return optimizers.OptimizerState(jnp.asarray(0, jnp.int32), jax.tree.map(lambda x: jnp.zeros(()), p))

              def apply_gradient(self, hp, p, st, g):
                return (jax.tree.map(lambda a, d: a - hp.learning_rate * d, p, g),
                        optimizers.OptimizerState(st.step + 1, st.param_states))
            od = Sgd(optimizers._OptaxWrapperHyperParams())   # pylint: disable=protected-access
            opt = od.create(params)
            opt = opt.replace(state=opt.state.replace(step=jnp.asarray(start, jnp.int32)))
            st = tsl.FlaxOptimTrainState(opt, flax_mutables=flax.core.freeze({'u': jnp.asarray(1.0), 'v': {'c': jnp.asarray(0)}}) if mut else tsl.EMPTY_DICT)
            kw = dict(model=Model, train_state=st, partitioner=Part(), eval_names=[], summary_dir=None,
                      train_state_axes=None, rng=jax.random.PRNGKey(0), learning_rate_fn=lambda s: lr0 * (s + 1), num_microbatches=k)
            T = tr.Trainer(**kw) if cls == 'Trainer' else moe.MoeTrainer(num_expert_partitions=4, **kw)
            bs = [batch_of(rng, B) for _ in range(steps)]
            try:
              T.train(iter(bs), steps).result()
              n = T.train_state
            finally:
              T.close()
            w_, b_, u = w.astype(np.float64), float(b), 1.0
            sc = 4.0 if cls == 'MoeTrainer' else 1.0
            for t, bt in enumerate(bs):
              gw, gb, _ = expect(bt, w_, b_)
              lr = lr0 * (start + t + 1)
              w_, b_ = w_ - lr * gw, b_ - lr * gb * sc
              for blk in np.split(bt['i'], k or 1):
                u = u * 3 + blk.sum()
            if int(n.step) != start + steps:
              return f'step {int(n.step)} after {steps} steps from {start}'
            if not (f32close(n.params['w'], w_, 1e-3, 1e-3) and f32close(n.params[names['n']]['b'][0], b_, 1e-3, 1e-3)):
              return f'parameters {np.asarray(n.params["w"])} {np.asarray(n.params[names["n"]]["b"])}; expected {w_} {b_}'
            if mut and (not f32close(n.flax_mutables['u'], u) or int(n.flax_mutables['v']['c']) != steps * (k or 1)):
              return f'mutables {n.flax_mutables}; expected {u}'
          rec.run(['trainer', cls, mut, B, k, steps], case)
        if rec.full:
          return


def search_steps(rec):
  """Every optimiser advances the step by one per update."""
  import jax
  import jax.numpy as jnp
  import flax
  from t5x import optimizers, adafactor, train_state as tsl
  params = flax.core.freeze({'a': {'kernel': jnp.ones((4, 3)), 'bias': jnp.ones((3,))}, 'b': {'kernel': jnp.ones((2, 2))}})
  mk = {'sgd': lambda: optimizers.sgd(.1), 'adam': lambda: optimizers.adam(.1), 'adafactor': lambda: adafactor.Adafactor(1e-2),
        'adafactor skip': lambda: adafactor.Adafactor(1e-2, skip_nan_updates=True),
        'adamw': lambda: optimizers.adamw(.1), 'lion': lambda: optimizers.lion(1e-2), 'rmsprop': lambda: optimizers.rmsprop(.1),
        'multi': lambda: optimizers.MultiOptimizer([
            (flax.traverse_util.ModelParamTraversal(lambda p, _: 'kernel' in p), adafactor.Adafactor(1e-2)),
            (flax.traverse_util.ModelParamTraversal(lambda p, _: 'bias' in p), adafactor.Adafactor(1e-1))])}
  for nm, f in mk.items():
    for s0 in (0, 1, 7, 100000):
      for bad in (False, True):
        def case():
          o = f().create(params)
          o = o.replace(state=o.state.replace(step=jnp.asarray(s0, jnp.int32)))
          st = tsl.FlaxOptimTrainState(o)
          g = jax.tree.map(lambda x: x * 0.5, params)
          if bad:
            g = jax.tree.map(lambda x: x * jnp.nan, g)
          for t in range(2):
            st = st.apply_gradient(g, learning_rate=0.1)
            if int(st.step) != s0 + t + 1:
              return f'step {int(st.step)} after {t + 1} updates from {s0}'
        rec.run(['step', nm, s0, bad], case)


if __name__ == '__main__':
  def build(chk):
    for m in (False, True):
      verify_loop(chk, m)
      verify_direct(chk, m)
    verify_reject(chk)
    verify_lemma(chk)
    verify_update(chk)
    verify_step(chk)
    chk.search('accumulated gradients against the full batch', 'batches <= 12, all counts up to batch size + 2', search_accumulate)
    chk.search('sum of many low precision gradients', '3 dtypes, up to 4096 microbatches', search_precision)
    chk.search('training steps of both trainers', '5 splits, 1 and 3 steps', search_trainer)
    chk.search('step counter of every optimiser', '8 optimisers, 4 steps', search_steps)
  main('T01', build)
