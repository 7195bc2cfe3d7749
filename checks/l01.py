"""L01: weighted label-smoothed cross entropy, z-loss, normalisation, gradient."""

import itertools

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.h import patched, f32close
from vc.transform import StubNS

LO = 't5x/losses.py'


def mod():
  from t5x import losses
  return losses


# ------------------------------------------------- cross entropy and gradient
def spec_ce(x, t, z):
  """-sum(t * log softmax x) + z * log(Z)^2, written with a constant shift."""
  import jax
  import jax.numpy as jnp
  m = jax.lax.stop_gradient(jnp.max(x, axis=-1, keepdims=True))
  e = jnp.exp(x - m)
  s = jnp.sum(e, axis=-1, keepdims=True)
  lse = jnp.log(s) + m
  ce = -jnp.sum(t * ((x - m) - jnp.log(s)), axis=-1)
  zl = z * jnp.squeeze(lse, -1) ** 2
  return ce + zl, zl


def verify_ce(chk):
  lo = mod()
  import jax
  import jax.numpy as jnp
  for grad in (False, True):
    def body(c, grad=grad):
      d = jx.Dims(c, 'b', 'L', 'V')
      ip = jx.Interp(c, d)
      x = ip.arg('logits', ('b', 'L', 'V'), 'float32')
      t = ip.arg('targets', ('b', 'L', 'V'), 'float32')
      z = ip.arg('z', (), 'float32')
      g = ip.arg('g', ('b', 'L'), 'float32')
      row = (c.int('i', 0).t, c.int('l', 0).t)
      j = c.int('j', 0).t
      c.assume(jx.inb(row + (j,), x.shape))
      V = d.t('V')

      def real(x, t, z, g):
        (l, tz), f = jax.vjp(lambda a, b: lo.cross_entropy_with_logits(a, b, z), x, t)
        return (l, tz) + tuple(f((g, jnp.zeros_like(g))))

      def spec(x, t, z, g):
        (l, tz), f = jax.vjp(lambda a, b: spec_ce(a, b, z), x, t)
        return (l, tz) + tuple(f((g, jnp.zeros_like(g))))
      if not grad:
        real = lambda x, t, z, g: lo.cross_entropy_with_logits(x, t, z)
        spec = lambda x, t, z, g: spec_ce(x, t, z)
      o = ip.call(real, x, t, z, g)
      ns = len(c.user.get('sums', []))
      s = ip.call(spec, x, t, z, g)
      # the shift is the row maximum in both: maxima of the same row agree
      exts = c.user.get('exts', [])
      for e in exts:
        c._push(e.at(*row[:e.nout], *([z3.IntVal(0)] * max(0, e.nout - 2))) == exts[0].at(*row[:exts[0].nout]))
      # log(x) is additive inverse of exp; only congruence is needed
      o[0].at(*row), s[0].at(*row), o[1].at(*row), s[1].at(*row)
      for k in range(2, len(o)):
        o[k].at(*row, j), s[k].at(*row, j)
      # row of targets is a distribution
      one = jx.sum_spec(c, [V], lambda u: t.at(*row, u))
      c._push(one.at() == 1)
      gr = g.at(*row)

      def hints():
        hs = []
        ss = c.user['sums']
        for a, p in enumerate(ss):
          ip_ = (row + (z3.IntVal(0),) * 3)[:p.nout] if p is not one else ()
          for q in ss[:a]:
            iq = (row + (z3.IntVal(0),) * 3)[:q.nout] if q is not one else ()
            hs.append(jx.lemma_linear(c, [(1, p, ip_), (-1, q, iq)]))
          if p is not one:
            hs.append(jx.lemma_linear(c, [(1, p, ip_), (-gr, one, ())]))
            hs.append(jx.lemma_linear(c, [(1, p, ip_), (gr, one, ())]))
          hs.append(jx.lemma_strict(c, p, ip_))
        return hs
      hs = hints()
      if grad:
        for a, p in enumerate(c.user['sums']):
          for q in c.user['sums'][:a]:
            if p is not one and q is not one and core.check_sat(list(c.pc) + [jx.lemma_linear(c, [(1, p, row[:p.nout]), (-1, q, row[:q.nout])]), p.at(*row[:p.nout]) != q.at(*row[:q.nout])], 1000, use_cvc5=False)[0] == 'unsat':
              c._push(p.at(*row[:p.nout]) == q.at(*row[:q.nout]))
      hs = hints()
      c.prove('loss is -sum t log softmax(x) + z log(Z)^2', o[0].at(*row) == s[0].at(*row), hints=hs, ms=30000)
      c.prove('the reported z-loss is z log(Z)^2', o[1].at(*row) == s[1].at(*row), hints=hs, ms=30000)
      if grad:
        c.prove('gradient for the logits is the derivative of the loss', o[2].at(*row, j) == s[2].at(*row, j), hints=hs, ms=6000)
        c.prove('gradient for the targets is the derivative of the loss', o[3].at(*row, j) == s[3].at(*row, j), hints=hs, ms=6000)
      c.cover()
    chk.verify('cross_entropy_with_logits' + (' fwd/bwd' if grad else ''), LO,
               'for all batches, lengths, vocabularies, logits, z and target distributions: value' + (' and gradient equal those of the mathematical loss' if grad else ' equals the mathematical loss'),
               body, assumed=['the derivative of the mathematical loss is taken by jax autodiff of the harness formula'] if grad else [])


# ------------------------------------------------------- weighted cross entropy
def verify_weighted(chk):
  lo = mod()
  import jax.numpy as jnp
  for wts, lnf, V in itertools.product((True, False), (True, False), ('V', 1)):
    def body(c, wts=wts, lnf=lnf, V=V):
      names = ('b', 'L') + (('V',) if V == 'V' else ())
      d = jx.Dims(c, *names, lo={'b': 1, 'L': 1, 'V': 2})
      got = {}

      def ce_h(ip, eqn, ins):
        key = 'ce' if 'ce' not in got else 'tz'
        got.setdefault('ins', ins)
        got[key] = ip.fresh(ip.shape(eqn.outvars[0].aval.shape), eqn.outvars[0].aval.dtype, key)
        return got[key]
      ip = jx.Interp(c, d, contracts={'vc_ce': ce_h, 'vc_tz': ce_h})
      x = ip.arg('logits', ('b', 'L', V), 'float32')
      t = ip.arg('targets', ('b', 'L'), 'int32')
      w = ip.arg('weights', ('b', 'L'), 'float32')
      ls, z, n = (ip.arg(k, (), 'float32') for k in ('label_smoothing', 'z_loss', 'lnf'))
      row = (c.int('i', 0).t, c.int('l', 0).t)
      j = c.int('j', 0).t
      c.assume(jx.inb(row + (j,), x.shape))
      c.assume(z3.And(ls.at() >= 0, ls.at() < 1, n.at() > 0))
      Vt = d.t('V') if V == 'V' else z3.IntVal(1)

      def stub(logits, targets, z_loss=0.0):
        a = (logits, targets, jnp.asarray(z_loss, jnp.float32))
        return (jx.opaque('ce', logits.shape[:-1], logits.dtype, *a), jx.opaque('tz', logits.shape[:-1], logits.dtype, *a))

      def fun(x, t, w, ls, z, n):
        return lo.compute_weighted_cross_entropy(x, t, weights=w if wts else None, label_smoothing=ls, z_loss=z,
                                                 loss_normalizing_factor=n if lnf else None)
      with patched(lo, cross_entropy_with_logits=stub):
        out = ip.call(fun, x, t, w, ls, z, n)
      if 'ce' not in got:
        raise core.Unsupported('cross_entropy_with_logits is not called')
      X, T, Z = got['ins'][:3]
      conf = 1 - ls.at()
      low = ls.at() / z3.ToReal(Vt - 1) if V == 'V' else ls.at()
      c.prove('pre: the logits are passed unchanged', X.at(*row, j) == x.at(*row, j), kind='pre')
      c.prove('pre: the z-loss coefficient is passed unchanged', Z.at() == z.at(), kind='pre')
      c.prove('pre: soft targets are smoothed one-hot targets',
              T.at(*row, j) == z3.If(t.at(*row) == j, conf, low), kind='pre', ms=20000)
      tot, tz, ws = out
      eps = core.zreal(float(np.float32(1e-20)))
      # the documented constant: entropy of the smoothed target distribution
      V1 = z3.ToReal(Vt - 1)
      nc = -(conf * jx.LOG(conf) + V1 * low * jx.LOG(low + eps))
      ww = (lambda *k: w.at(*k)) if wts else (lambda *k: z3.RealVal(1))
      dv = n.at() if lnf else z3.RealVal(1)
      S = [jx.sum_spec(c, [d.t('b'), d.t('L')], lambda i, l: ww(i, l) * (got['ce'].at(i, l) - nc) / dv),
           jx.sum_spec(c, [d.t('b'), d.t('L')], lambda i, l: ww(i, l) * got['tz'].at(i, l) / dv),
           jx.sum_spec(c, [d.t('b'), d.t('L')], lambda i, l: ww(i, l))]
      # the two logarithms the code forms are those of the documented constant
      hs = jx.pair_lemmas(c) 
      c.prove('loss is the weighted sum of (cross entropy - entropy of the targets) / factor', tot.at() == S[0].at(), hints=hs, ms=30000)
      c.prove('z-loss is the weighted sum of the per-token z-loss / factor', tz.at() == S[1].at(), hints=hs, ms=20000)
      if wts:
        c.prove('weight sum is the sum of the weights', ws.at() == S[2].at(), hints=hs, ms=20000)
      else:
        c.prove('weight sum is the number of tokens', jx.R(ws.at()) == z3.ToReal(d.t('b') * d.t('L')), ms=20000)
      # a token of weight zero contributes nothing
      if wts:
        c.prove('a token of weight zero contributes nothing',
                z3.Implies(w.at(*row) == 0, S[0].val((), row) == 0))
      c.cover()
    chk.verify(f'compute_weighted_cross_entropy [weights={wts}, factor={lnf}, vocab={V}]', LO,
               'total = sum w*(CE(logits, smoothed onehot) - const)/factor; z likewise; weight sum', body,
               assumed=['cross_entropy_with_logits contract (proved above) is used at the call'])


# -------------------------------------------------------------- normalisation
def verify_norm(chk):
  lo = mod()
  E = lo.SpecialLossNormalizingFactor
  import jax.numpy as jnp

  def passthrough(c):
    s1, s2 = object(), object()
    for k in (None, 1.5, 7, 0):
      for b in ({}, {'decoder_loss_weights': s1}, {'decoder_loss_weights': s1, 'decoder_target_tokens': s2}):
        f, w = lo.get_loss_normalizing_factor_and_weights(k, b)
        c.prove('a constant (or no) factor and the given weights pass through', f is k and w is b.get('decoder_loss_weights'))
    for s, e in (('num_real_target_tokens', E.NUM_REAL_TARGET_TOKENS), ('NUM_TOTAL_TARGET_TOKENS', E.NUM_TOTAL_TARGET_TOKENS),
                 ('Average_Per_Sequence', E.AVERAGE_PER_SEQUENCE)):
      c.prove('names select their factor', lo.convert_special_loss_normalizing_factor_to_enum(s) is e)
    try:
      lo.convert_special_loss_normalizing_factor_to_enum('nonsense')
      ok = False
    except ValueError:
      ok = True
    c.prove('an unknown name is rejected', ok)
    c.cover()
  chk.verify('get_loss_normalizing_factor_and_weights [constant]', LO, 'constants and weights pass through untouched; names are resolved', passthrough)

  for kind_, given, packed in itertools.product(list(E) + [e.name for e in E], (True, False), (True, False)):
    nm = kind_ if isinstance(kind_, str) else kind_.name
    if packed and nm != 'AVERAGE_PER_SEQUENCE':
      continue
    if isinstance(kind_, str) and packed:
      continue

    def body(c, kind_=kind_, nm=nm, given=given, packed=packed):
      d = jx.Dims(c, 'b', 'L')
      got = {}

      def seg_h(ip, eqn, ins):
        got['seg'] = ins
        got['norm'] = ip.fresh(ins[2].shape, ins[2].dtype, 'norm')
        return got['norm']

      UNDEF = z3.Real('undefined_quotient')

      def nan_h(ip, eqn, ins):
        return jx.SArr(ins[0].shape, ins[0].dtype, lambda *i: jx.ite(ins[0].at(*i) == UNDEF, z3.RealVal(0), ins[0].at(*i)))
      ip = jx.Interp(c, d, contracts={'vc_seg': seg_h, 'vc_nan_to_num': nan_h})
      ip.undef = UNDEF
      t = ip.arg('targets', ('b', 'L'), 'int32')
      w = ip.arg('weights', ('b', 'L'), 'float32')
      pos, seg = ip.arg('positions', ('b', 'L'), 'int32'), ip.arg('segments', ('b', 'L'), 'int32')
      row = (c.int('i', 0).t, c.int('l', 0).t)
      c.assume(jx.inb(row, t.shape))

      def n2n(x, nan=0.0, posinf=None, neginf=None, **kw):
        if nan != 0 or posinf != 0 or neginf != 0:
          raise core.Unsupported('nan_to_num with other replacement values')
        return jx.opaque('nan_to_num', x.shape, x.dtype, x)

      def fun(t, w, pos, seg):
        b = {'decoder_target_tokens': t}
        if given:
          b['decoder_loss_weights'] = w
        if packed:
          b['decoder_positions'], b['decoder_segment_ids'] = pos, seg
        f, ww = lo.get_loss_normalizing_factor_and_weights(kind_, b)
        return jnp.asarray(f, jnp.float32), ww
      with patched(lo, _sum_weights_per_segment=lambda p, s, w: jx.opaque('seg', w.shape, w.dtype, p, s, w),
                   jnp=StubNS(jnp, nan_to_num=n2n)):
        f, ww = ip.call(fun, t, w, pos, seg)
      base = (lambda i, l: w.at(i, l)) if given else (lambda i, l: z3.If(t.at(i, l) > 0, z3.RealVal(1), z3.RealVal(0)))
      B, L = d.t('b'), d.t('L')
      if nm == 'AVERAGE_PER_SEQUENCE':
        if packed:
          if 'norm' not in got:
            raise core.Unsupported('_sum_weights_per_segment is not called')
          P, Sg, W = got['seg']
          c.prove('pre: positions, segments and weights are passed on', z3.And(
              P.at(*row) == pos.at(*row), Sg.at(*row) == seg.at(*row), W.at(*row) == base(*row)), kind='pre')
          nrm = lambda i, l: got['norm'].at(i, l)
        else:
          S = jx.new_sum(c, [L], lambda idx, k: base(idx[0], k[0]), 1, z3.RealSort(), 'rowsum')
          nrm = lambda i, l: S.at(i)
        hs = jx.pair_lemmas(c, row)
        S2 = jx.sum_spec(c, [B, L], lambda i, l: ww.at(i, l))
        q = base(*row) / nrm(*row)
        c.assume(q != UNDEF)
        ww.at(*row)
        hs += jx.pair_lemmas(c, row)
        c.prove('weights are divided by the total weight of their own example (0 where that is 0)',
                ww.at(*row) == z3.If(nrm(*row) == 0, z3.RealVal(0), q), hints=hs, ms=30000)
        c.prove('factor is the sum of the new weights', f.at() == S2.at(), hints=jx.pair_lemmas(c, row), ms=30000)
      else:
        c.prove('weights are the given ones, or 1 on real target tokens', ww.at(*row) == base(*row))
        S2 = jx.sum_spec(c, [B, L], lambda i, l: base(i, l))
        if nm == 'NUM_REAL_TARGET_TOKENS':
          c.prove('factor is the total weight of the real tokens', f.at() == S2.at(), hints=jx.pair_lemmas(c, row), ms=20000)
        else:
          c.prove('factor is the number of target tokens', f.at() == z3.ToReal(B * L))
      c.cover()
    chk.verify(f'get_loss_normalizing_factor_and_weights [{kind_}, weights given={given}, packed={packed}]', LO,
               'factor and weights of the documented kind', body,
               assumed=['_sum_weights_per_segment contract (unit below)', 'nan_to_num maps undefined quotients to 0'])


def verify_segments(chk):
  lo = mod()
  for L in (1, 2, 3, 5, 7):
    def body(c, L=L):
      d = jx.Dims(c, 'b')
      ip = jx.Interp(c, d)
      pos, seg = ip.arg('positions', ('b', L), 'int32'), ip.arg('segments', ('b', L), 'int32')
      w = ip.arg('weights', ('b', L), 'float32')
      i = c.int('i', 0).t
      c.assume(i < d.t('b'))
      at = lambda a, k: a.at(i, z3.IntVal(k))
      # a packed row: segments 1,2,.. then padding 0; positions restart at each segment
      c.assume(z3.Or(at(seg, 0) == 1, at(seg, 0) == 0))
      c.assume(at(pos, 0) == 0)
      for k in range(1, L):
        p, q = at(seg, k - 1), at(seg, k)
        c.assume(z3.Or(q == 0, z3.And(p != 0, z3.Or(q == p, q == p + 1))))
        c.assume(at(pos, k) == z3.If(q == 0, z3.IntVal(0), z3.If(q == p, at(pos, k - 1) + 1, z3.IntVal(0))))
      for k in range(L):
        c.assume(at(w, k) >= 0)
        c.assume(z3.Implies(at(seg, k) == 0, at(w, k) == 0))
      out = ip.call(lo._sum_weights_per_segment, pos, seg, w)
      for k in range(L):
        tot = sum(z3.If(at(seg, m) == at(seg, k), at(w, m), z3.RealVal(0)) for m in range(L))
        c.prove('each real token gets the total weight of its own example',
                z3.Implies(z3.And(at(seg, k) != 0, tot != 0), at(out, k) == tot), ms=6000)
      c.cover()
    chk.verify(f'_sum_weights_per_segment [length {L}]', LO, 'every batch, packing and weights at this length', body,
               kind=f'bounded: length {L}, batch unbounded', seconds=200)


def verify_loss_fn(chk):
  from t5x import models
  from t5x.contrib.moe import models as moe

  def body(c):
    for with_seg in (False, True):
      S = {k: object() for k in ('logits', 'w', 'f', 'loss', 'z', 'tgt', 'params', 'rng', 'metrics', 'lnf', 'ls', 'zl')}
      log = {}

      class M:
        _loss_normalizing_factor, _label_smoothing, _z_loss = S['lnf'], S['ls'], S['zl']

        def _compute_logits(self, params, batch, rng=None, **kw):
          c.prove('logits come from the given parameters, batch and dropout key', params is S['params'] and rng is S['rng'])
          return S['logits']

        def _compute_metrics(self, **kw):
          log['m'] = kw
          return S['metrics']
      batch = {'decoder_target_tokens': S['tgt']}
      if with_seg:
        batch['decoder_segment_ids'] = object()
      else:
        batch['decoder_target_tokens'] = S['tgt'] = np.zeros((1, 2))

      def norm(f, b):
        c.prove('the configured factor and this batch select the weights', f is S['lnf'] and b is batch)
        return S['f'], S['w']

      def ce(logits, targets, weights=None, label_smoothing=0.0, z_loss=0.0, loss_normalizing_factor=None):
        c.prove('the cross entropy sees the configured smoothing, z-loss, weights and factor',
                logits is S['logits'] and targets is S['tgt'] and weights is S['w'] and label_smoothing is S['ls']
                and z_loss is S['zl'] and loss_normalizing_factor is S['f'])
        log['ce'] = 1
        return S['loss'], S['z'], object()
      import t5x.losses as lo_
      with patched(models, losses=StubNS(lo_, get_loss_normalizing_factor_and_weights=norm, compute_weighted_cross_entropy=ce)):
        out = models.BaseTransformerModel.loss_fn(M(), S['params'], batch, S['rng'])
      c.prove('the loss returned is the cross entropy', out[0] is S['loss'] and log.get('ce') == 1)
    c.cover()
  chk.verify('BaseTransformerModel.loss_fn', 't5x/models.py', 'wires the configured smoothing, z-loss and factor into the cross entropy (opaque values)', body)


# -------------------------------------------------------------------- bounded
def ref(logits, targets, w, ls, z, lnf, pos=None, seg=None):
  """float64 reference; returns loss, zloss, gradient."""
  x = logits.astype(np.float64)
  V = x.shape[-1]
  w0 = w
  if isinstance(lnf, str):
    if w is None:
      w = (targets > 0).astype(np.float64)
    w = w.astype(np.float64)
    if lnf == 'NUM_REAL_TARGET_TOKENS':
      f = w.sum()
    elif lnf == 'NUM_TOTAL_TARGET_TOKENS':
      f = targets.size
    else:
      n = np.zeros_like(w)
      for i in range(w.shape[0]):
        if seg is None:
          n[i] = w[i].sum()
        else:
          for s in set(seg[i].tolist()):
            n[i][seg[i] == s] = w[i][seg[i] == s].sum()
      w = np.where(n != 0, w / np.where(n == 0, 1, n), 0)
      f = w.sum()
  else:
    f = 1.0 if lnf is None else lnf
    w = np.ones(targets.shape) if w is None else w.astype(np.float64)
  conf = 1 - ls
  low = ls / (V - 1) if V > 1 else ls
  nc = -(conf * np.log(conf) + (V - 1) * low * np.log(low + 1e-20))
  t = np.where(np.arange(V) == targets[..., None], conf, low)
  m = x.max(-1, keepdims=True)
  lse = m + np.log(np.exp(x - m).sum(-1, keepdims=True))
  ce = -(t * (x - lse)).sum(-1) - nc
  zl = z * lse[..., 0] ** 2
  p = np.exp(x - lse)
  g = (p * (t.sum(-1, keepdims=True)) - t + 2 * z * lse * p) * w[..., None] / f
  return ((ce + zl) * w / f).sum(), (zl * w / f).sum(), g


def search(rec):
  import jax
  import jax.numpy as jnp
  lo = mod()
  cw, gf = need(lo, 'compute_weighted_cross_entropy'), need(lo, 'get_loss_normalizing_factor_and_weights')
  rng = np.random.RandomState(env.SEED)
  fns = {}

  def run(logits, targets, w, ls, z, lnf, extra):
    key = (lnf, w is None, extra is not None, ls)
    if key not in fns:
      def f(logits, targets, w, ls, z, pos, seg):
        b = {'decoder_target_tokens': targets}
        if not key[1]:
          b['decoder_loss_weights'] = w
        if key[2]:
          b['decoder_positions'], b['decoder_segment_ids'] = pos, seg
        fac, ww = gf(lnf, b)

        def L(x):
          a, zz, s = cw(x, targets, weights=ww, label_smoothing=key[3], z_loss=z, loss_normalizing_factor=fac)
          return a, zz
        (a, zz), g = jax.value_and_grad(L, has_aux=True)(logits)
        return a, zz, g
      fns[key] = jax.jit(f)
    z0 = np.zeros(targets.shape, np.int32)
    pos, seg = extra if extra is not None else (z0, z0)
    return [np.asarray(v) for v in fns[key](logits, targets, np.ones(targets.shape, np.float32) if w is None else w, ls, z, pos, seg)]

  for (b, L, V) in ((1, 1, 2), (2, 3, 5), (3, 6, 4), (2, 8, 3)):
    for it in range(3 if not env.THOROUGH else 30):
      scale = (1.0, 10.0, 60.0)[it % 3]
      logits = (rng.randn(b, L, V) * scale).astype(np.float32)
      targets = rng.randint(0, V, (b, L)).astype(np.int32)
      targets[0, -1] = 0 if L > 1 else targets[0, -1]
      w = (rng.rand(b, L) * (rng.rand(b, L) > .3)).astype(np.float32)
      w[0, 0] = .5
      # packing with trailing padding
      pos, seg = np.zeros((b, L), np.int32), np.zeros((b, L), np.int32)
      for i in range(b):
        n, s = 0, 1
        while n < L - (i % 2):
          k = rng.randint(1, 4)
          k = min(k, L - n)
          pos[i, n:n + k] = np.arange(k)
          seg[i, n:n + k] = s
          n, s = n + k, s + 1
      wp = np.where(seg > 0, w, 0).astype(np.float32)
      wp[:, 0] = 1.
      for lnf, ls, z in itertools.product((None, 7.0, 'NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE', 'packed'),
                                          (0.0, 0.1, 0.4), (0.0, 0.02)):
        for ww in (w, None):
          packed = lnf == 'packed'
          if isinstance(lnf, str) and ww is None and not (targets > 0).any():
            continue
          k = 'AVERAGE_PER_SEQUENCE' if packed else lnf
          wv = (wp if ww is not None else None) if packed else ww
          tg = np.where(seg > 0, np.maximum(targets, 1), 0) if packed else targets

          def case():
            o = run(logits, tg, wv, ls, z, k, (pos, seg) if packed else None)
            e = ref(logits, tg, wv, ls, z, k, pos, seg if packed else None)
            for nm, a, r in zip(('loss', 'z-loss', 'gradient'), o, e):
              if not f32close(a, r, 2e-3, 2e-4):
                return f'{nm}: got {np.asarray(a).tolist()} expected {np.asarray(r).tolist()}'
          rec.run([logits, tg, wv, ls, z, lnf, packed and [pos, seg]], case)
      if rec.full:
        return


def search_ce(rec):
  import jax
  import jax.numpy as jnp
  lo = mod()
  ce = need(lo, 'cross_entropy_with_logits')
  rng = np.random.RandomState(env.SEED + 1)
  f = jax.jit(lambda x, t, z, g, h: (ce(x, t, z), jax.vjp(lambda a, b: ce(a, b, z), x, t)[1]((g, jnp.zeros_like(g)))))
  for it in range(12):
    b, L, V = 2, 3, 2 + it % 4
    x = (rng.randn(b, L, V) * (1, 8, 50, 300)[it % 4]).astype(np.float32)
    t = rng.dirichlet(np.ones(V), (b, L)).astype(np.float32)
    g = rng.randn(b, L).astype(np.float32)
    for z in (0.0, 0.01, 0.3):
      def case():
        (l, zl), (gx, gt) = f(x, t, z, g, g)
        X = x.astype(np.float64)
        m = X.max(-1, keepdims=True)
        lse = m + np.log(np.exp(X - m).sum(-1, keepdims=True))
        p = np.exp(X - lse)
        e = [-(t * (X - lse)).sum(-1) + z * lse[..., 0] ** 2, z * lse[..., 0] ** 2,
             g[..., None] * (p - t + 2 * z * lse * p), -g[..., None] * (X - lse)]
        for nm, a, r in zip(('loss', 'z-loss', 'logit gradient', 'target gradient'), (l, zl, gx, gt), e):
          if not f32close(a, r, 2e-3, 2e-3):
            return f'{nm}: got {np.asarray(a).tolist()} expected {r.tolist()}'
      rec.run([x, t, z, g], case)


def search_segments(rec):
  """All packings of rows up to length 6."""
  import jax
  lo = mod()
  f = jax.jit(need(lo, '_sum_weights_per_segment'))
  rng = np.random.RandomState(env.SEED)
  for L in range(1, 7):
    rows = []
    for pad in range(0, L):
      n = L - pad
      for bits in itertools.product((0, 1), repeat=n - 1):
        seg, pos = [1], [0]
        for b in bits:
          seg.append(seg[-1] + b)
          pos.append(0 if b else pos[-1] + 1)
        rows.append((seg + [0] * pad, pos + [0] * pad))
    seg = np.array([r[0] for r in rows], np.int32)
    pos = np.array([r[1] for r in rows], np.int32)
    for it in range(4):
      w = np.where(seg > 0, rng.randint(0, 3, seg.shape) if it else 1, 0).astype(np.float32)
      out = np.asarray(f(pos, seg, w))
      for i in range(len(rows)):
        tot = np.array([w[i][seg[i] == s].sum() for s in seg[i]])
        rel = (seg[i] > 0) & (tot > 0)
        rec.check([pos[i], seg[i], w[i]], np.allclose(out[i][rel], tot[rel], atol=1e-4), f'got {out[i].tolist()} expected {tot.tolist()}')


if __name__ == '__main__':
  def build(chk):
    verify_ce(chk)
    verify_weighted(chk)
    verify_norm(chk)
    verify_segments(chk)
    verify_loss_fn(chk)
    chk.search('loss and gradient against a float64 reference', '4 shapes, 3 scales, 6 normalisations, with and without weights', search)
    chk.search('cross entropy and its gradient for target distributions', '36 cases', search_ce)
    chk.search('packed normalisation for every packing', 'rows up to length 6', search_segments)
  main('L01', build)
