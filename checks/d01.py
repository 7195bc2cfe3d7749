"""D01: top-k / top-p masks and the binary searches they stand on."""

import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.transform import StubNS

BS = 't5x/binary_search.py'
DEC = 't5x/decoding.py'


def mods():
  from t5x import binary_search, decoding
  return binary_search, decoding


class patched:
  """Temporarily replaces module attributes."""

  def __init__(self, mod, **kw):
    self.mod, self.kw = mod, kw

  def __enter__(self):
    self.old = {k: getattr(self.mod, k) for k in self.kw}
    for k, v in self.kw.items():
      setattr(self.mod, k, v)

  def __exit__(self, *a):
    for k, v in self.old.items():
      setattr(self.mod, k, v)


# ------------------------------------------------------------- bit searches
def verify_int(chk):
  bs, _ = mods()

  def body(c):
    d = jx.Dims(c, 'b')
    ip = jx.Interp(c, d, bv=True)
    thr = ip.arg('T', ('b',), 'int32')
    alw = ip.arg('always', ('b',), 'bool')
    out = ip.call(lambda t, a: bs.int32_bsearch(t.shape, lambda x: (x > t) | a), thr, alw)
    g = c.int('row', 0)
    c.assume(g < core.lift(d.t('b')))
    g = g.t
    r, T, A = out.at(g), thr.at(g), alw.at(g)
    c.prove('returns the largest value whose predicate is False', z3.Implies(z3.Not(A), r == T))
    c.prove('returns the smallest int32 when the predicate is always True',
            z3.Implies(A, r == z3.BitVecVal(-2**31, 32)))
    c.cover()
  chk.verify('int32_bsearch', BS, 'for every monotone predicate (x > T, or always True), any batch: returns max{x : not p(x)}', body)


def verify_float(chk):
  bs, _ = mods()

  def body(c):
    d = jx.Dims(c, 'b')
    g = c.int('row', 0)
    c.assume(g < core.lift(d.t('b')))
    g = g.t
    y = z3.FP('y', z3.Float32())
    yb = z3.BitVec('ybits', 32)
    c._push(z3.fpBVToFP(yb, z3.Float32()) == y)
    yi = yb ^ z3.If(yb < 0, z3.BitVecVal(2**31 - 1, 32), z3.BitVecVal(0, 32))
    got = {}

    def stub(batch_shape, predicate):
      v = {n: jx.opaque('ibs_' + n, batch_shape, np.int32) for n in 'rqabol'}
      args = [x for n in 'rqabol' for x in (v[n], predicate(v[n]))]
      return jx.opaque('ibs_out', batch_shape, np.int32, *args)

    def fresh(n):
      def h(ip, eqn, ins):
        a = eqn.outvars[0].aval
        if n == 'q':
          return jx.SArr(ip.shape(a.shape), a.dtype, lambda *i: yi)
        if n == 'o':
          return jx.SArr(ip.shape(a.shape), a.dtype, lambda *i: z3.BitVecVal(-2**31, 32))
        if n == 'l':
          return jx.SArr(ip.shape(a.shape), a.dtype, lambda *i: z3.BitVecVal(0xff7fffff ^ 0x7fffffff, 32))
        return ip.fresh(ip.shape(a.shape), a.dtype, 'ibs_' + n)
      return h

    def out_h(ip, eqn, ins):
      r, pr, q, pq, a, pa, b, pb, o, po, l, pl = [x.at(g) for x in ins]
      c.prove('pre of int32_bsearch: the predicate on bit patterns is monotone',
              z3.Implies(z3.And(a < b, pa), pb), kind='pre', ms=60000)
      c.prove('pre of int32_bsearch: the predicate is False at the smallest pattern', z3.Not(po), kind='pre')
      c.assume(z3.Not(pr))
      c.assume(z3.Implies(q > r, pq))
      c.assume(z3.Implies(l > r, pl))   # instance at the lowest finite value
      got['called'] = True
      return ins[0]
    con = {'vc_ibs_' + n: fresh(n) for n in 'rqabol'}
    con['vc_ibs_out'] = out_h
    ip = jx.Interp(c, d, bv=True, fp=True, contracts=con)
    F = ip.arg('F', ('b',), 'float32')
    strict = ip.arg('strict', ('b',), 'bool')
    f, s = F.at(g), strict.at(g)
    fin = lambda x: z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))
    p = lambda x: z3.If(s, z3.fpGT(x, f), z3.fpGEQ(x, f))
    lowest = z3.FPVal(-3.4028234663852886e38, z3.Float32())
    c.assume(fin(f))
    c.assume(z3.Not(p(lowest)))

    def fun(t, s):
      import jax.numpy as jnp
      return bs.float32_bsearch(t.shape, lambda x: jnp.where(s, x > t, x >= t))
    with patched(bs, int32_bsearch=stub):
      out = ip.call(fun, F, strict)
    if not got:
      raise core.Unsupported('int32_bsearch is not called')
    r = out.at(g)
    c.prove('every finite value above the result satisfies the predicate',
            z3.Implies(z3.And(fin(y), z3.fpGT(y, r)), p(y)), ms=60000)
    c.prove('every finite value failing the predicate is at most the result',
            z3.Implies(z3.And(fin(y), z3.Not(p(y))), z3.fpLEQ(y, r)), ms=60000)
    c.prove('the predicate is False at the result', z3.Not(p(r)), ms=60000)
    c.prove('the result is finite', fin(r), ms=60000)
    c.cover()
  chk.verify('float32_bsearch', BS, 'for every monotone float predicate (x > F or x >= F) that is False somewhere: largest finite x with not p(x); IEEE bit-exact', body,
             assumed=['int32_bsearch contract (proved above) is used at the call'])

  def mono(c):
    ip = jx.Interp(c, None, bv=True, fp=True)
    x, y = ip.arg('x', (), 'int32'), ip.arg('y', (), 'int32')
    fx, fy = ip.call(bs._monotonic_int32_to_float32, x), ip.call(bs._monotonic_int32_to_float32, y)
    X, Y, fx, fy = x.at(), y.at(), fx.at(), fy.at()
    ok = z3.And(z3.Not(z3.fpIsNaN(fx)), z3.Not(z3.fpIsNaN(fy)))
    c.prove('order preserving', z3.Implies(z3.And(ok, X < Y), z3.fpLEQ(fx, fy)))
    bx = ip.call(bs._monotonic_int32_to_float32_bit_pattern, x)
    by = ip.call(bs._monotonic_int32_to_float32_bit_pattern, y)
    c.prove('the bit pattern map is injective', z3.Implies(bx.at() == by.at(), X == Y))
    c.cover()
  chk.verify('_monotonic_int32_to_float32', BS, 'monotone bijection from int32 order to float32 total order', mono)


# --------------------------------------------------------------- the masks
FLT_MAX = core.zreal(3.4028234663852886e38)


def bsearch_contract(ghost):
  """Stub for float32_bsearch carrying its (proved) contract.

  requires p monotone and p False at some finite value;
  ensures  not p(r), and p(q) for the ghost value q whenever q > r.
  """
  def stub(batch_shape, predicate):
    r = jx.opaque('bs_r', batch_shape, np.float32)
    q = jx.opaque('bs_q', batch_shape, np.float32)
    a = jx.opaque('bs_a', batch_shape, np.float32)
    b = jx.opaque('bs_b', batch_shape, np.float32)
    lo = jx.opaque('bs_lo', batch_shape, np.float32)
    args = [r, predicate(r), q, predicate(q), a, predicate(a), b, predicate(b), lo, predicate(lo)]
    return jx.opaque('bs_out', batch_shape, np.float32, *args)
  return stub


def contracts(ghost):
  def fresh(nm):
    def h(ip, eqn, ins):
      v = eqn.outvars[0].aval
      if nm == 'q':
        return jx.SArr(ip.shape(v.shape), v.dtype, lambda *i: ghost.q(ip, i))
      if nm == 'lo':
        return jx.SArr(ip.shape(v.shape), v.dtype, lambda *i: -FLT_MAX)
      return ip.fresh(ip.shape(v.shape), v.dtype, 'bs_' + nm)
    return h

  def out(ip, eqn, ins):
    r, pr, q, pq, a, pa, b, pb, lo, plo = ins
    c, g = ip.c, ghost.row
    sums = c.user.get('sums', [])
    ev = lambda x: x.at(*g)
    ta, tb = ev(pa), ev(pb)
    hs = ghost.sum_hints(ip, sums)
    c.prove('pre of float32_bsearch: the predicate is monotone',
            z3.Implies(z3.And(ev(a) < ev(b), ta), tb), kind='pre', hints=hs)
    c.prove('pre of float32_bsearch: the predicate is False at the lowest finite value',
            z3.Not(ev(plo)), kind='pre', hints=ghost.lo_hints(ip, sums))
    c.assume(z3.Not(ev(pr)))
    c.assume(z3.Implies(ev(q) > ev(r), ev(pq)))
    ghost.r = ev(r)
    return r
  cs = {'vc_bs_' + n: fresh(n) for n in ('r', 'q', 'a', 'b', 'lo')}
  cs['vc_bs_out'] = out
  return cs


def verify_topk(chk):
  bs, _ = mods()
  for rank, names in ((1, ('V',)), (2, ('b', 'V')), (3, ('a', 'b', 'V'))):
    def body(c, rank=rank, names=names):
      d = jx.Dims(c, *names)
      gh = types.SimpleNamespace()
      ip = jx.Interp(c, d, contracts=contracts(gh))
      x = ip.arg('x', names, 'float32')
      k = ip.arg('k', (), 'int32')
      rep = ip.arg('replace', (), 'float32')
      row = tuple(c.int('row%d' % i, 0).t for i in range(rank - 1))
      j = c.int('col', 0).t
      c.assume(jx.inb(row + (j,), x.shape))
      c.assume(k.at() >= 1)
      gh.row = row
      v = x.at(*row, j)
      gh.q = lambda ip, i: -v
      V = d.t('V')
      # values are finite floats
      c._push(z3.And(v <= FLT_MAX, v >= -FLT_MAX))

      def bounded(k_):
        c._push(z3.Implies(jx.inb([k_], [V]), z3.And(x.at(*row, k_) <= FLT_MAX, x.at(*row, k_) >= -FLT_MAX)))

      def sum_hints(ip, sums):
        return [jx.lemma_linear(c, [(1, s, row), (-1, t, row)], '>=') for s in sums for t in sums if s is not t]

      def lo_hints(ip, sums):
        out = []
        for s in sums:
          w = z3.Int(c.fresh_name('w'))
          bounded(w)
          out.append(z3.Or(z3.And(w >= 0, w < V, jx.R(s.val(row, [w])) != 0), jx.R(s.at(*row)) == 0))
        return out
      gh.sum_hints, gh.lo_hints = sum_hints, lo_hints
      with patched(bs, float32_bsearch=bsearch_contract(gh)):
        out = ip.call(bs.topk_mask, x, k, rep)
      o = out.at(*row, j)
      cnt = jx.sum_spec(c, [V], lambda u: jx.ite(x.at(*row, u) > v, z3.IntVal(1), z3.IntVal(0)), z3.IntSort())
      hs = []
      for s in c.user['sums']:
        if s is not cnt:
          hs.append(jx.lemma_linear(c, [(1, s, row), (-1, cnt, ())], '>='))
          hs.append(jx.lemma_linear(c, [(1, s, row), (-1, cnt, ())], '<='))
      kept = cnt.at() < k.at()
      c.prove('a value is kept exactly when fewer than k values exceed it',
              o == z3.If(kept, v, rep.at()), hints=hs)
      c.cover()
    chk.verify(f'topk_mask [rank {rank}]', BS, 'for all shapes, k>=1, replace values: keeps v iff |{u > v}| < k (ties kept)', body,
               assumed=['float32_bsearch contract (proved above) is used at the call'])


def verify_topp(chk):
  bs, _ = mods()
  for rank, names in ((1, ('V',)), (2, ('b', 'V'))):
    def body(c, rank=rank, names=names):
      d = jx.Dims(c, *names)
      gh = types.SimpleNamespace()
      con = contracts(gh)
      P = {}

      def softmax_h(ip, eqn, ins):
        if 'p' not in P:
          P['p'] = ip.fresh(ins[0].shape, ins[0].dtype, 'probs')
          P['of'] = ins[0]
        return P['p']
      con['vc_softmax'] = softmax_h
      ip = jx.Interp(c, d, contracts=con)
      x = ip.arg('x', names, 'float32')
      p = ip.arg('p', (), 'float32')
      rep = ip.arg('replace', (), 'float32')
      row = tuple(c.int('row%d' % i, 0).t for i in range(rank - 1))
      j = c.int('col', 0).t
      c.assume(jx.inb(row + (j,), x.shape))
      c.assume(z3.And(p.at() > 0, p.at() <= 1))
      V = d.t('V')
      gh.row = row
      nxt = z3.Real('next_above')      # the smallest probability above v, or anything larger
      gh.q = lambda ip, i: nxt
      pr = lambda u: P['p'].at(*row, u)

      def tame(u):
        c._push(z3.Implies(jx.inb([u], [V]), z3.And(pr(u) >= 0, pr(u) <= 1)))
        c._push(z3.Implies(z3.And(jx.inb([u], [V]), pr(u) > pr(j)), pr(u) >= nxt))

      def lin(parts, rel):
        w = z3.Int(c.fresh_name('w'))
        tame(w)
        body = sum(a * jx.R(s.val(i, [w])) for a, s, i in parts)
        tot = sum(a * jx.R(s.at(*i)) for a, s, i in parts)
        ok = {'>=': lambda t: t >= 0, '==': lambda t: t == 0}[rel]
        return z3.Or(z3.And(w >= 0, w < V, z3.Not(ok(body))), ok(tot))

      gh.sum_hints = lambda ip, sums: [lin([(1, s, row), (-1, t, row)], '>=') for s in sums for t in sums if s is not t]

      def lo_hints(ip, sums):
        # the probabilities sum to one, so the mass above -FLT_MAX is >= p
        one = jx.sum_spec(c, [V], lambda u: pr(u))
        c._push(one.at() >= 1)
        return [lin([(1, s, row), (-1, one, ())], '==') for s in sums if s is not one]
      gh.lo_hints = lo_hints
      j_ = j
      import jax
      stub = lambda z, axis=-1, **kw: jx.opaque('softmax', z.shape, z.dtype, z) if axis in (-1, z.ndim - 1) else (_ for _ in ()).throw(core.Unsupported('softmax axis'))
      with patched(bs, float32_bsearch=bsearch_contract(gh), jax=StubNS(jax, nn=StubNS(jax.nn, softmax=stub))):
        out = ip.call(bs.topp_mask, x, p, rep)
      if 'p' not in P:
        raise core.Unsupported('softmax is not called')
      c.prove('probabilities are those of the given logits', P['of'].at(*row, j) == x.at(*row, j))
      c.assume(nxt > pr(j))
      tame(j)
      above = jx.sum_spec(c, [V], lambda u: jx.ite(pr(u) > pr(j_), pr(u), z3.RealVal(0)))
      hs = []
      for s in c.user['sums']:
        if s is not above and len(s.dims) == 1:
          n = s.nout
          hs.append(lin([(1, s, row[:n]), (-1, above, ())], '>='))
          hs.append(lin([(-1, s, row[:n]), (1, above, ())], '>='))
      kept = above.at() < p.at()
      c.prove('a value is kept exactly when the more probable values do not reach mass p',
              out.at(*row, j) == z3.If(kept, x.at(*row, j), rep.at()), hints=hs)
      c.cover()
    chk.verify(f'topp_mask [rank {rank}]', BS, 'for all shapes, 0<p<=1: keeps v iff the total probability of strictly more probable values is < p', body,
               assumed=['float32_bsearch contract (proved above) is used at the call',
                        'jax.nn.softmax returns values in [0,1] summing to one over the last axis',
                        'finitely many probabilities: a least one above v exists or none does (float rounding of the running sum ignored)'])


# --------------------------------------------- which mask decoding applies
def verify_wiring(chk):
  _, dec = mods()
  modes = {
      'greedy (temperature 0)': dict(temp=0.0, topk=1, topp=0.0),
      'plain sampling': dict(topk=0, topp=0.0),
      'top-k': dict(topk=3, topp=0.0),
      'top-p': dict(topk=0, topp=0.5),
      'traced top-k and top-p': dict(topk=None, topp=None),
      'per-example temperature': dict(topk=3, topp=0.0, vec=True),
  }
  for nm, cfg in modes.items():
    def body(c, cfg=cfg):
      import jax
      import jax.numpy as jnp
      d = jx.Dims(c, 'b', 'L', 'V')
      seen = []
      con = {}
      mask = {}

      def mask_h(which):
        def h(ip, eqn, ins):
          x, lim = ins
          key = which
          f = mask.setdefault(which, z3.Function('mask_' + which, z3.IntSort(), z3.IntSort(), z3.RealSort()))
          seen.append((which, x, lim))
          return jx.SArr(x.shape, x.dtype, lambda *i: f(i[0], i[-1]))
        return h
      con['vc_topk'] = mask_h('topk')
      con['vc_topp'] = mask_h('topp')
      got = {}

      def cat_h(ip, eqn, ins):
        got['logits'] = ins[0]
        return ip.fresh(ip.shape(eqn.outvars[0].aval.shape), eqn.outvars[0].aval.dtype, 'sampled')
      con['vc_categorical'] = cat_h

      class Stop(jx.JLoop):
        name = 'sampling loop'
      class Cut(Exception):
        pass
      ip = jx.Interp(c, d, contracts=con)
      logits = ip.arg('logits', ('b', 'V'), 'float32')
      inputs = ip.arg('inputs', ('b', 'L'), 'int32')
      traced = cfg['topk'] is None
      args = [inputs, logits]
      if traced:
        args += [ip.arg('topk', (), 'int32'), ip.arg('topp', (), 'float32')]
      tmp = ip.arg('temperature', ('b',) if cfg.get('vec') else (), 'float32')
      args.append(tmp)

      # only the body of the loop matters: run it once on an arbitrary state
      def while_loop(cond, bodyf, init):
        return bodyf(init)

      def fun(inp, lg, *rest):
        k, p = (rest[0], rest[1]) if traced else (cfg['topk'], cfg['topp'])
        t = rest[-1] if 'temp' not in cfg else cfg['temp']
        return dec._temperature_sample_single_trial(
            inp, {}, lambda s: (lg, s.cache), 1, jax.random.PRNGKey(0), 1, t, k, p)
      stub_bs = StubNS(dec.binary_search,
                       topk_mask=lambda x, k, r: jx.opaque('topk', x.shape, x.dtype, x, jnp.asarray(k)),
                       topp_mask=lambda x, p, r: jx.opaque('topp', x.shape, x.dtype, x, jnp.asarray(p)))
      stub_rnd = StubNS(dec.random, categorical=lambda key, lg: jx.opaque('categorical', lg.shape[:-1], np.int32, lg))
      with patched(dec, binary_search=stub_bs, random=stub_rnd, lax=StubNS(dec.lax, while_loop=while_loop)):
        out = ip.call(fun, *args)
      row, j = c.int('row', 0).t, c.int('col', 0).t
      c.assume(jx.inb((row, j), logits.shape))
      out[0].at(row, z3.IntVal(0))
      if 'temp' in cfg:
        c.prove('temperature zero never samples', z3.BoolVal('logits' not in got))
        c.cover()
        return
      if 'logits' not in got:
        raise core.Unsupported('categorical is not called')
      lg = got['logits']
      at = (lambda: lg.at(row, j)) if lg.ndim == 2 else (lambda: lg.at(row, z3.IntVal(0), j))
      t = tmp.at(row) if cfg.get('vec') else tmp.at()
      mint = core.zreal(float(dec.MIN_TEMPERATURE))
      import jax.numpy as jnp
      mint = core.zreal(float(np.float32(dec.MIN_TEMPERATURE)))
      c.assume(t > mint)
      scaled = logits.at(row, j) / t
      val = at()

      def mk(which):
        f = mask.get(which)
        return None if f is None else f(row, j)
      if traced:
        k, p = args[2].at(), args[3].at()
        c.assume(z3.And(k >= 0, p >= 0))
        tk, tp = mk('topk'), mk('topp')
        c.prove('with no limit set the scaled logits are sampled', z3.Implies(z3.And(k == 0, p == 0), val == scaled))
        if tk is not None:
          c.prove('a positive k applies the top-k mask', z3.Implies(z3.And(k > 0, p == 0), val == tk))
        if tp is not None:
          c.prove('a positive p applies the top-p mask', z3.Implies(z3.And(k == 0, p > 0), val == tp))
        for which, x, lim in seen:
          if which == 'topk':
            c.prove('the mask sees the scaled logits and the requested limit', z3.And(x.at(row, j) == scaled, lim.at() == k))
          else:
            c.prove('the top-p mask sees the requested limit', lim.at() == p)
      elif cfg['topk']:
        c.prove('the top-k mask is applied', z3.BoolVal(mk('topk') is not None) if mk('topk') is None else val == mk('topk'))
        for which, x, lim in seen:
          xv = x.at(row, j) if x.ndim == 2 else x.at(row, z3.IntVal(0), j)
          c.prove('the mask sees the scaled logits and the requested limit', z3.And(xv == scaled, lim.at() == cfg['topk']))
      elif cfg['topp']:
        c.prove('the top-p mask is applied', z3.BoolVal(False) if mk('topp') is None else val == mk('topp'))
        for which, x, lim in seen:
          c.prove('the mask sees the scaled logits and the requested limit', z3.And(x.at(row, j) == scaled, lim.at() == core.zreal(cfg['topp'])))
      else:
        c.prove('the scaled logits are sampled', val == scaled)
      c.cover()
    chk.verify(f'_temperature_sample_single_trial: filter [{nm}]', DEC,
               'the sampler draws from exactly the filtered, temperature-scaled scores; a limit of 0 filters nothing', body,
               assumed=['jax.random.categorical samples from the distribution of its logits'])


# ------------------------------------------------------------ bounded part
def search(rec):
  import jax
  import jax.numpy as jnp
  bs, dec = mods()
  rng = np.random.RandomState(env.SEED)
  topk, topp = need(bs, 'topk_mask'), need(bs, 'topp_mask')
  REP = -1e7

  def arrays():
    yield np.array([1., 2., 3., 4.])
    yield np.array([0., -0., 0., -1.])
    yield np.array([-5., -5., -5.])
    yield np.array([1e30, -1e30, 0., 3e-38])
    yield np.array([[2., 2., 1.], [-1., -2., -3.]])
    for n in range(60 if env.TIER != 'thorough' else 400):
      shp = [(7,), (3, 5), (2, 2, 6), (1, 1), (4, 1), (2, 17)][n % 6]
      a = rng.randn(*shp) * 10 ** rng.randint(-3, 4)
      if n % 3 == 0:
        a = np.round(a)
      yield a
  tk = jax.jit(lambda a, k: topk(a, k, REP))
  tp = jax.jit(lambda a, p: topp(a, p, REP))
  for a in arrays():
    a = a.astype(np.float32)
    V = a.shape[-1]
    for k in (1, 2, 3, V, V + 2):
      def one():
        out = np.asarray(tk(a, k))
        gt = (a[..., None, :] > a[..., :, None]).sum(-1)
        exp = np.where(gt < k, a, np.float32(REP))
        if not np.array_equal(out, exp):
          return f'got {out.tolist()} expected {exp.tolist()}'
      rec.run(['topk_mask', a, k], one)
    for p in (0.1, 0.37, 0.5, 0.9, 1.0):
      def two():
        x = np.clip(a, -60, 60)
        pr = np.asarray(jax.nn.softmax(jnp.asarray(x), -1)).astype(np.float64)
        out = np.asarray(tp(x, p))
        above = (np.where(pr[..., None, :] > pr[..., :, None], pr[..., None, :], 0)).sum(-1)
        keep = above < p
        sure = np.abs(above - p) > 1e-5
        got = out != np.float32(REP)
        if not np.array_equal(got[sure], keep[sure]):
          return f'kept {got.tolist()} expected {keep.tolist()}'
        if not np.array_equal(out[got], x[got]):
          return 'kept values were changed'
      rec.run(['topp_mask', a, p], two)
    if rec.full:
      return


def search_exact_mass(rec):
  import jax.numpy as jnp
  bs, _ = mods()
  topp = need(bs, 'topp_mask')
  for m in (1, 2, 4, 8):
    for extra in (1, 3, 8):
      for perm in range(3):
        x = np.array([0.] * m + [-200. - 10 * i for i in range(extra)], np.float32)
        x = np.random.RandomState(perm).permutation(x)[None]
        for p in (1.0, 0.75, 0.5):
          def case():
            out = np.asarray(topp(jnp.asarray(x), p, np.float32(-1e7)))
            if not np.array_equal(out, np.where(x == 0, x, np.float32(-1e7))):
              return f'{m} equally likely tokens carry the whole mass; got {out.tolist()}'
          rec.run(['topp_mask exact mass', x, p], case)


def search_bits(rec):
  import jax.numpy as jnp
  bs, _ = mods()
  rng = np.random.RandomState(env.SEED)
  ib, fb = need(bs, 'int32_bsearch'), need(bs, 'float32_bsearch')
  ints = np.array([0, 1, -1, 2**31 - 1, -2**31, 2**30, -2**30, 12345, -98765] + list(rng.randint(-2**31, 2**31 - 1, 40)), np.int32)

  def i():
    r = np.asarray(ib(ints.shape, lambda x: x > jnp.asarray(ints)))
    if not np.array_equal(r, ints):
      return f'{r.tolist()} for thresholds {ints.tolist()}'
  rec.run(['int32_bsearch', ints], i)
  with np.errstate(all='ignore'):
    fl = rng.randint(-2**31, 2**31 - 1, 200).astype(np.int32).view(np.float32)
  fl = fl[np.isfinite(fl)]
  fl = np.concatenate([fl, np.array([0., 1., -1., 3.4028235e38, 1e-45, -1e-45, 2.5e-39], np.float32)])
  fl = fl[np.abs(fl) > 1.2e-38]

  def f():
    r = np.asarray(fb(fl.shape, lambda x: x > jnp.asarray(fl)))
    bad = [(float(a), float(b)) for a, b in zip(fl, r) if a != b]
    if bad:
      return f'(threshold, result): {bad[:5]}'
  rec.run(['float32_bsearch', len(fl)], f)


def search_sampler(rec):
  import jax
  import jax.numpy as jnp
  _, dec = mods()
  ts = need(dec, 'temperature_sample')
  V = 7
  rng = np.random.RandomState(env.SEED)
  fns = {}

  def get(topk, topp, traced):
    key = (topk, topp) if not traced else None
    if key not in fns:
      def f(lg, seed, k, p, t):
        return ts(jnp.zeros((2, 8), jnp.int32), {}, lambda s: (lg, s.cache), 1, jax.random.PRNGKey(seed),
                  num_decodes=1, temperature=t, topk=k if traced else topk, topp=p if traced else topp)[0]
      fns[key] = jax.jit(f)
    return fns[key]

  for n in range(12 if env.TIER != 'thorough' else 60):
    lg = np.round(rng.randn(2, V) * 3, 2).astype(np.float32)
    lg[:, :2] = -30.   # neither pad nor eos
    for topk, topp in ((0, 0.0), (1, 0.0), (2, 0.0), (0, 0.3), (0, 0.7)):
      for traced in (False, True):
        for temp in (1.0, 0.0, 0.3, np.array([0.0, 1.0], np.float32)):
          def case():
            toks = np.asarray(get(topk, topp, traced)(lg, n, topk, topp, jnp.asarray(temp, jnp.float32)))
            tv = np.broadcast_to(np.asarray(temp, np.float32), (2,))
            for b in range(2):
              s = lg[b] / max(tv[b], 1e-4)
              pr = np.exp(s - s.max())
              pr /= pr.sum()
              above = np.array([pr[pr > v].sum() for v in pr])
              cnt = np.array([(pr > v).sum() for v in pr])
              ok = np.ones(V, bool)
              if topk:
                ok &= cnt < topk
              if topp:
                ok &= above < topp + 1e-5
              ok &= pr > 1e-7
              if tv[b] == 0.0:
                ok = lg[b] == lg[b].max()
              bad = [int(t) for t in toks[b, 0] if not ok[t]]
              if bad:
                return f'drew tokens {bad} outside the allowed set {np.flatnonzero(ok).tolist()}'
          rec.run(['sample', lg, topk, topp, traced, np.asarray(temp)], case)
    if rec.full:
      return


if __name__ == '__main__':
  def build(chk):
    verify_int(chk)
    verify_float(chk)
    verify_topk(chk)
    verify_topp(chk)
    verify_wiring(chk)
    chk.search('masks against the set definition', 'ranks 1-3, vocabularies <= 17', search)
    chk.search('top-p where the retained mass is exact', '36 rows of powers of two equally likely tokens', search_exact_mass)
    chk.search('binary searches at random and extreme thresholds', '250 thresholds', search_bits)
    chk.search('tokens drawn by temperature_sample', '7 tokens, batch 2, 12 score tables', search_sampler)
  main('D01', build)
