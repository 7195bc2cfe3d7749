"""A01: attention masks and relative-position buckets."""

import itertools

from vc import env
env.setup()
import numpy as np
import z3

from vc import arr, core, jx
from vc.check import main, need
from vc.core import AND, IMP, OR, forall, lift, zint, zreal
from vc.h import Fake
from vc.transform import StubNS, clone

FILES = {'t5': 't5x/examples/t5/layers.py', 'decoder_only': 't5x/examples/decoder_only/layers.py',
         'scalable_t5': 't5x/examples/scalable_t5/layers.py'}


def real(which):
  import importlib
  return importlib.import_module(FILES[which][:-3].replace('/', '.'))


def scalar(v):
  """Element term -> truth of a mask entry (an entry is 0 or 1)."""
  return v if z3.is_bool(v) else v != 0


def val01(v, b):
  """v is the number (or truth value) of b."""
  if z3.is_bool(v):
    return v == b
  one = z3.RealVal(1) if v.sort() == z3.RealSort() else z3.IntVal(1)
  zero = z3.RealVal(0) if v.sort() == z3.RealSort() else z3.IntVal(0)
  return v == z3.If(b, one, zero)


def shape_is(c, r, want, what='the shape of the mask'):
  ok = len(r.shape) == len(want)
  c.prove(what, lift(z3.And(*[zint(a) == zint(b) for a, b in zip(r.shape, want)])) if ok else False)
  if not ok:
    raise core.Unsupported('rank of the mask')


# -------------------------------------------------------------------- masks
def masks(chk, which):
  L, f = real(which), FILES[which]
  import jax.numpy as jnp

  def ints(c, n, *ns):
    vs = [z3.Int(x) for x in ns]
    return vs

  for seg, pre in itertools.product((False, True), repeat=2):
    def body(c, seg=seg, pre=pre):
      d = jx.Dims(c, 'B', 'L')
      ip = jx.Interp(c, d)
      tok = ip.arg('tokens', ('B', 'L'), 'int32')
      args, names = [tok], []
      if pre:
        args.append(ip.arg('prefix', ('B', 'L'), 'int32'))
        names.append('decoder_causal_attention')
      if seg:
        args.append(ip.arg('segments', ('B', 'L'), 'int32'))
        names.append('decoder_segment_ids')
      for dt in ('float32', 'bfloat16', 'bool'):
        r = ip.call(lambda t, *a: L.make_decoder_mask(t, dtype=getattr(jnp, dt if dt != 'bool' else 'bool_'), **dict(zip(names, a))), *args)
        B, n = d.t('B'), d.t('L')
        shape_is(c, r, (B, 1, n, n))
        b, i, j = zint(c.int('b', 0)), zint(c.int('query', 0)), zint(c.int('key', 0))
        c.assume(lift(z3.And(b < B, i < n, j < n)))
        for k in range(1, len(args)):   # the fields are 0/1 and segment numbers
          if names[k - 1] == 'decoder_causal_attention':
            c.assume(forall(2, lambda x, y: z3.And(args[1].at(zint(x), zint(y)) >= 0, args[1].at(zint(x), zint(y)) <= 1)))
        c.assume(forall(2, lambda x, y: tok.at(zint(x), zint(y)) >= 0))
        ok = i >= j
        if pre:
          ok = z3.Or(ok, z3.And(args[1].at(b, i) == 1, args[1].at(b, j) == 1))
        want = z3.And(ok, tok.at(b, i) > 0, tok.at(b, j) > 0)
        if seg:
          want = z3.And(want, args[-1].at(b, i) == args[-1].at(b, j))
        c.prove(f'attention is allowed exactly when the rule says [{dt}]', lift(val01(r.at(b, z3.IntVal(0), i, j), want)))
      c.cover()
    chk.verify(f'{which}: make_decoder_mask' + (' [packed]' if seg else '') + (' [prefix]' if pre else ''), f,
               'mask[b,0,i,j] = 1 iff (i >= j or both in the prefix), same segment and neither padding; any batch and length', body)

  fns = dict(multiply=(jnp.multiply, lambda x, y: x * y), greater_equal=(jnp.greater_equal, lambda x, y: x >= y),
             equal=(jnp.equal, lambda x, y: x == y), logical_and=(jnp.logical_and, lambda x, y: z3.And(x != 0, y != 0)))
  for nm, (fn, spec) in fns.items():
    def body(c, fn=fn, spec=spec, nm=nm):
      for rank, extra in itertools.product((1, 2, 3), (0, 1, 2)):
        dims = ('B', 'C')[:rank - 1]
        d = jx.Dims(c, *dims, 'Q', 'K')
        ip = jx.Interp(c, d)
        q, k = ip.arg('q', dims + ('Q',), 'int32'), ip.arg('k', dims + ('K',), 'int32')
        r = ip.call(lambda a, b: L.make_attention_mask(a, b, fn, extra_batch_dims=extra), q, k)
        shape_is(c, r, [1] * extra + [d.t(x) for x in dims] + [1, d.t('Q'), d.t('K')])
        lead = [zint(c.int('b', 0)) for _ in dims]
        i, j = zint(c.int('i', 0)), zint(c.int('j', 0))
        c.assume(lift(z3.And(i < d.t('Q'), j < d.t('K'), *[x < d.t(n) for x, n in zip(lead, dims)])))
        v = r.at(*[z3.IntVal(0)] * extra, *lead, z3.IntVal(0), i, j)
        w = spec(q.at(*lead, i), k.at(*lead, j))
        c.prove(f'entry (i, j) is the pairwise function of query i and key j [rank {rank}, {extra} extra]',
                lift(val01(v, w) if z3.is_bool(w) else v == (z3.ToReal(w) if v.sort() == z3.RealSort() else w)))
      c.cover()
    chk.verify(f'{which}: make_attention_mask [{nm}]', f, 'shape [1..., batch..., 1, q, k], entries f(query, key); rank 1-3, 0-2 extra dims, any extents', body)

  def causal(c):
    for rank, extra in itertools.product((1, 2, 3), (0, 1)):
      dims = ('B', 'C')[:rank - 1]
      d = jx.Dims(c, *dims, 'L')
      ip = jx.Interp(c, d)
      x = ip.arg('x', dims + ('L',), 'int32')
      r = ip.call(lambda a: L.make_causal_mask(a, extra_batch_dims=extra), x)
      shape_is(c, r, [1] * extra + [d.t(n) for n in dims] + [1, d.t('L'), d.t('L')])
      lead = [zint(c.int('b', 0)) for _ in dims]
      i, j = zint(c.int('i', 0)), zint(c.int('j', 0))
      c.assume(lift(z3.And(i < d.t('L'), j < d.t('L'), *[y < d.t(n) for y, n in zip(lead, dims)])))
      c.prove(f'query at or after key [rank {rank}, {extra} extra]', lift(val01(r.at(*[z3.IntVal(0)] * extra, *lead, z3.IntVal(0), i, j), i >= j)))
    c.cover()
  chk.verify(f'{which}: make_causal_mask', f, 'entry (i, j) is i >= j whatever the values; any extents', causal)

  def combine(c):
    d = jx.Dims(c, 'B', 'Q', 'K')
    sh = [d.t(x) for x in ('B', 'Q', 'K')]
    b, i, j = (zint(c.int(x, 0)) for x in 'bij')
    c.assume(lift(z3.And(b < sh[0], i < sh[1], j < sh[2])))
    for present in itertools.product((True, False), repeat=3):
      ip = jx.Interp(c, d)
      ms = [ip.arg(f'm{t}', ('B', 'Q', 'K'), 'float32') for t in range(sum(present))]
      full = lambda a: [next(a) if p else None for p in present]
      if not ms:
        c.prove('no mask gives none', L.combine_masks(None, None, None) is None and L.combine_biases(None) is None and L.combine_masks() is None)
        continue
      r = ip.call(lambda *a: L.combine_masks(*full(iter(a))), *ms)
      shape_is(c, r, sh)
      c.prove(f'conjunction of the given masks {present}', lift(val01(r.at(b, i, j), z3.And(*[m.at(b, i, j) != 0 for m in ms]) if len(ms) > 1 else None)
                                                               if len(ms) > 1 else r.at(b, i, j) == ms[0].at(b, i, j)))
      r = ip.call(lambda *a: L.combine_biases(*full(iter(a))), *ms)
      shape_is(c, r, sh)
      c.prove(f'sum of the given biases {present}', lift(r.at(b, i, j) == sum((m.at(b, i, j) for m in ms[1:]), ms[0].at(b, i, j))))
    c.cover()
  chk.verify(f'{which}: combine_masks/combine_biases', f, 'conjunction resp. sum of the masks that are given (1 to 3, each may be absent); any extents', combine)


# ------------------------------------------------------------------ buckets
LOG = z3.Function('LOG', z3.RealSort(), z3.RealSort())


def log(x):
  if isinstance(x, arr.Arr):
    return arr.Arr(x.shape, lambda *i: core.SymReal(LOG(zreal(x(*i)))))
  if isinstance(x, (core.SymInt, core.SymReal, core.SymFrac)):
    return core.SymReal(LOG(zreal(x)))
  return np.log(x)


def npx():
  ab = lambda x: core.ite(x < 0, -x, x)
  e1 = lambda f: (lambda x: arr.Arr(x.shape, lambda *i: f(x(*i))) if isinstance(x, arr.Arr) else f(x))
  two = lambda f: arr.lift2(f)
  return arr.ns(np, log=log, abs=e1(ab), absolute=e1(ab), negative=e1(lambda x: -x),
                maximum=two(lambda a, b: core.ite(arr.zcmp(a, b), b, a)), minimum=two(lambda a, b: core.ite(arr.zcmp(a, b), a, b)))


def bucket_fn(m):
  f = need(m.RelativePositionBiases, '_relative_position_bucket')
  return f


def buckets(chk, which):
  f = FILES[which]
  m = clone(f)
  m.np = npx()

  def run(c, bi):
    c._push(LOG(z3.RealVal(1)) == 0)
    nb, md = c.int('num_buckets', 2), c.int('max_distance', 1)
    half = lift(zint(nb) / 2) if bi else nb
    me = lift(zint(half) / 2)
    c.assume(AND(me >= 1, md > me))
    rel = arr.fresh('rel', (c.int('q', 1), c.int('k', 1)), inp=True)
    r = bucket_fn(m)(rel, bidirectional=bi, num_buckets=nb, max_distance=md)
    if not isinstance(r, arr.Arr) or r.ndim != 2:
      raise core.Unsupported('bucket array')
    i, j, i2, j2 = (c.int(x, 0) for x in ('i', 'j', 'i2', 'j2'))
    c.assume(AND(i < rel.shape[0], i2 < rel.shape[0], j < rel.shape[1], j2 < rel.shape[1]))
    p, p2 = zint(rel(i, j)), zint(rel(i2, j2))
    v, v2 = zint(r(i, j)), zint(r(i2, j2))
    h, e, d = zint(half), zint(me), zint(md)
    # facts about the logarithms (instances of the axioms)
    R = lambda t: z3.ToReal(t)
    ld = LOG(R(d) / R(e))
    c.prove('lemma: the largest distance is above half the range', lift(ld > 0), hints=[z3.Implies(d > e, R(d) / R(e) > 1), *logs(z3.RealVal(1), R(d) / R(e))])
    c._push(ld > 0)
    return nb, md, h, e, d, p, p2, v, v2, ld

  def logs(a, b):
    return [z3.Implies(z3.And(a > 0, a < b), LOG(a) < LOG(b))]

  eps = core.zreal(float(np.finfo(np.float32).eps))

  def growth(e, h, ld, n):
    """Bucket of distance n >= max_exact by the documented formula."""
    x = LOG(z3.ToReal(n) / z3.ToReal(e) + eps) / ld * z3.ToReal(h - e)
    return x

  for bi in (False, True):
    def body(c, bi=bi):
      nb, md, h, e, d, p, p2, v, v2, ld = run(c, bi)
      n = z3.If(p < 0, -p, p) if bi else z3.If(p > 0, 0, -p)
      off = z3.If(p > 0, h, 0) if bi else z3.IntVal(0)
      X = growth(e, h, ld, n)
      one = z3.RealVal(1)
      Q = z3.ToReal(n) / z3.ToReal(e)
      # arithmetic facts
      fact = z3.Implies(n >= e, z3.And(Q >= 1, Q + eps > 1))
      c.prove('lemma: quotient of a large distance', lift(fact))
      c._push(fact)
      c._push(z3.Implies(n >= e, LOG(Q + eps) > 0))
      pos = z3.Implies(n >= e, X >= 0)
      u, w, k = z3.Reals('u w k')
      c.prove('lemma: sign of the growth', lift(z3.Implies(z3.And(u > 0, w > 0, k >= 0), u / w * k >= 0)))
      c._push(z3.Implies(z3.And(LOG(Q + eps) > 0, ld > 0, z3.ToReal(h - e) >= 0), X >= 0))
      c.prove('growth is not negative', lift(pos))
      c._push(pos)
      c.prove('a distance below half the range has its own bucket', lift(z3.Implies(n < e, v == off + n)))
      spec = z3.If(e + z3.ToInt(X) < h - 1, e + z3.ToInt(X), h - 1)
      c.prove('a larger one has a bucket by the logarithm of the distance', lift(z3.Implies(n >= e, v == off + spec)))
      c.prove('the bucket is inside the table', lift(z3.And(v >= 0, v < zint(nb), v >= off, v < off + h)))
      if bi:
        c.prove('past and future have different halves', lift(z3.If(p > 0, v >= h, v < h)))
      # last bucket
      D = z3.ToReal(d) / z3.ToReal(e)
      c._push(z3.Implies(n >= d, Q >= D))
      c._push(z3.Implies(z3.And(n >= d, Q >= D, D > 0), LOG(Q + eps) > LOG(D)))
      c._push(z3.Implies(z3.And(LOG(Q + eps) >= ld, ld > 0, z3.ToReal(h - e) >= 0), X >= z3.ToReal(h - e)))
      c.prove('distances from max_distance on share the last bucket', lift(z3.Implies(z3.And(n >= d, d > 0), v == off + h - 1)))
      c.cover()
    chk.verify(f'{which}: _relative_position_bucket' + (' [bidirectional]' if bi else ' [causal]'), f,
               'exact below half the range, logarithmic after it, in the table, last bucket from max_distance on; any distance, bucket count, maximum', body, seconds=150,
               assumed=['np.log is strictly increasing with log 1 = 0; floats as reals', 'at least 2 buckets per direction and max_distance > half of them',
                        'order facts of division and multiplication by positive reals'])

  def mono(c):
    # over the contract above: f(n) by the formula
    nb, e, h, n1, n2 = z3.Ints('nb e h n1 n2')
    x1, x2 = z3.Reals('x1 x2')
    F = lambda n, x: z3.If(n < e, n, z3.If(e + z3.ToInt(x) < h - 1, e + z3.ToInt(x), h - 1))
    c._push(z3.And(e >= 1, h > e, n1 >= 0, n1 <= n2, z3.Implies(n1 >= e, x1 >= 0), z3.Implies(n2 >= e, x2 >= 0), z3.Implies(n1 >= e, x1 <= x2)))
    c.prove('the bucket does not decrease with the distance', lift(F(n1, x1) <= F(n2, x2)))
    l1, l2, w, k = z3.Reals('l1 l2 w k')
    c.prove('the growth does not decrease with the logarithm', lift(z3.Implies(z3.And(l1 <= l2, w > 0, k >= 0), l1 / w * k <= l2 / w * k)),
            hints=[z3.Implies(z3.And(w > 0, l1 <= l2), l1 / w <= l2 / w), z3.Implies(z3.And(k >= 0, l1 / w <= l2 / w), l1 / w * k <= l2 / w * k)])
    c.cover()
  chk.verify(f'{which}: lemma: buckets grow with the distance', f, 'f(n1) <= f(n2) for n1 <= n2 (from the formula proved above)', mono,
             assumed=['order facts of division and multiplication by positive reals'])


def bias(chk, which):
  f = FILES[which]
  m = clone(f)
  import jax
  import jax.numpy as jnp
  cls = m.RelativePositionBiases

  def body(c):
    H, NB, Q, K = (c.int(x, 1) for x in ('heads', 'buckets', 'q', 'k'))
    tab = arr.fresh('table', (H, NB))
    tabr = arr.Arr((H, NB), lambda h, b: core.SymReal(z3.Function('tab', z3.IntSort(), z3.IntSort(), z3.RealSort())(zint(h), zint(b))))
    bk = z3.Function('bucket_of', z3.IntSort(), z3.IntSort())
    seen = []

    def bucket(rel, bidirectional=True, num_buckets=32, max_distance=128):
      c.prove('the bucket table has the size of the module', AND(num_buckets == NB, max_distance == MD), kind='pre')
      seen.append((rel, bidirectional))
      return arr.Arr(rel.shape, lambda i, j: lift(bk(zint(rel(i, j)))))

    def iota(dtype, shape, dim):
      return arr.Arr(shape, lambda *i: lift(zint(i[dim])))

    def dot(a, b, dims, **k):
      ((ca, cb), (ba, bb)) = dims
      if [tuple(x) for x in (ca, cb, ba, bb)] != [(1,), (0,), (), ()] or a.ndim != 2 or b.ndim != 3:
        raise core.Unsupported('contraction')
      PROD = z3.Function('product', z3.RealSort(), z3.RealSort(), z3.RealSort())
      S = z3.Function(c.fresh_name('contraction'), *[z3.IntSort()] * 3, z3.RealSort())

      def term(h, t, i, j):
        x, y = zreal(a(h, t)), zreal(arr.number(b(t, i, j)))
        return z3.If(y == 0, 0, z3.If(y == 1, x, PROD(x, y)))
      hq, iq, jq = c.int('h', 0), c.int('i', 0), c.int('j', 0)
      c.assume(AND(hq < a.shape[0], iq < b.shape[1], jq < b.shape[2]))
      probe.extend((hq, iq, jq))
      rel, _ = seen[0]
      t0 = lift(bk(zint(rel(iq, jq))))
      only = forall(1, lambda t: IMP(AND(t >= 0, t < NB, t != t0), lift(term(hq, t, iq, jq) == 0)))
      c.assume(AND(t0 >= 0, t0 < NB))   # instance of the contract of the bucket function
      c.prove('lemma: only the bucket of the pair contributes', AND(t0 >= 0, t0 < NB, only))
      # a sum with a single non-zero term is that term
      c.assume(lift(S(zint(hq), zint(iq), zint(jq)) == term(hq, t0, iq, jq)))
      return arr.Arr((a.shape[0], b.shape[1], b.shape[2]), lambda h, i, j: core.SymReal(S(zint(h), zint(i), zint(j))))
    probe = []
    MD = c.int('max_distance', 1)
    self = Fake(num_buckets=NB, max_distance=MD, num_heads=H, dtype=np.float32, embedding_init=None, _relative_position_bucket=bucket,
                has_variable=lambda *a: True)

    def param(name, init, shape, dtype=None, axes=None):
      c.prove('the table has one row per head and one column per bucket', len(shape) == 2 and AND(shape[0] == H, shape[1] == NB))
      return tabr
    old = dict(m.__dict__)
    m.param_with_axes = param
    m.lax = StubNS(jax.lax, broadcasted_iota=iota, dot_general=dot)
    m.jnp = arr.ns(jnp, newaxis=None)
    m.np = npx()
    try:
      fn = cls.__call__
      while hasattr(fn, '__wrapped__'):
        fn = fn.__wrapped__
      bi = c.choose('bidirectional', [True, False]) if hasattr(c, 'choose') else True
      r = fn(self, Q, K, bidirectional=bi)
    finally:
      m.__dict__.update(old)
    if not isinstance(r, arr.Arr) or r.ndim != 4 or not seen or not probe:
      raise core.Unsupported('bias array')
    rel, b2 = seen[0]
    c.prove('the direction is the one requested', b2 is bi)
    c.prove('the shape of the bias', AND(r.shape[0] == 1, r.shape[1] == H, r.shape[2] == Q, r.shape[3] == K))
    h, i, j = probe
    c.prove('the position passed on is key minus query', rel(i, j) == j - i)
    c.prove('the bias of a pair is the table entry of its bucket', lift(zreal(r(0, h, i, j)) == zreal(tabr(h, lift(bk(zint(j - i)))))))
    c.cover()
  chk.verify(f'{which}: RelativePositionBiases.__call__', f, 'bias[0,h,i,j] = table[h, bucket(j - i)] for every length, head and bucket count', body,
             assumed=['lax.dot_general contracts by its index definition; a sum with one non-zero term is that term', 'flax returns the parameter of the requested shape'])


# ------------------------------------------------------------------- search
def search_masks(which):
  def fn(rec):
    L = real(which)
    import jax.numpy as jnp
    rng = np.random.default_rng(0)
    for i in range(70):
      if rec.full:
        return
      B, n = int(rng.integers(1, 4)), int(rng.integers(1, 9))
      seg = np.zeros((B, n), np.int32)
      tok = np.zeros((B, n), np.int32)
      pre = np.zeros((B, n), np.int32)
      for b in range(B):
        t, s = 0, 1
        while t < n and rng.random() < 0.85:
          k = int(rng.integers(1, n - t + 1))
          seg[b, t:t + k] = s
          tok[b, t:t + k] = rng.integers(1, 32000, k)
          pre[b, t:t + int(rng.integers(0, k + 1))] = 1
          t, s = t + k, s + 1
      us, up = bool(i % 2), bool(i // 2 % 2)
      dt = (np.float32, np.int32, np.bool_, jnp.bfloat16)[i % 4]

      def run():
        got = np.asarray(L.make_decoder_mask(jnp.asarray(tok), dtype=dt, decoder_causal_attention=jnp.asarray(pre) if up else None,
                                             decoder_segment_ids=jnp.asarray(seg) if us else None))
        if got.shape != (B, 1, n, n):
          return f'shape {got.shape}'
        for b, q, k in itertools.product(range(B), range(n), range(n)):
          ok = (q >= k or (up and pre[b, q] and pre[b, k])) and tok[b, q] > 0 and tok[b, k] > 0 and (not us or seg[b, q] == seg[b, k])
          if float(got[b, 0, q, k]) != float(bool(ok)):
            return f'example {b}: query {q}, key {k}: {got[b, 0, q, k]}, expected {int(bool(ok))}'
      rec.run([which, 'decoder mask', tok, pre if up else None, seg if us else None], run)
    for n in (130, 257, 300):
      def run():
        got = np.asarray(L.make_decoder_mask(jnp.ones((1, n), jnp.int32), dtype=np.float32))
        bad = np.argwhere(got[0, 0] != np.tril(np.ones((n, n)))) if got.shape == (1, 1, n, n) else [got.shape]
        return f'length {n}: (query, key) {bad[0]} is wrong' if len(bad) else None
      rec.run([which, 'long sequence', n], run)
    for i in range(40):
      k = int(rng.integers(1, 5))
      ms = [rng.integers(0, 2, (2, 1, 3, 4)).astype(np.float32) if rng.random() < 0.8 else None for _ in range(k)]

      def run():
        have = [x for x in ms if x is not None]
        got, add = L.combine_masks(*ms), L.combine_biases(*ms)
        if not have:
          return None if got is None and add is None else f'{got}'
        want = np.all([x != 0 for x in have], axis=0)
        if not np.array_equal(np.asarray(got), want.astype(np.float32)):
          return f'{k} masks combine to {got}'
        return None if np.allclose(np.asarray(add), np.sum(have, axis=0)) else f'{k} biases combine to {add}'
      rec.run([which, 'combine', ms], run)
    for q, k, e in itertools.product((1, 2, 5), (1, 3), (0, 1, 2)):
      a, b = rng.integers(0, 4, (2, q)), rng.integers(0, 4, (2, k))

      def run():
        got = np.asarray(L.make_attention_mask(a, b, jnp.equal, extra_batch_dims=e))
        want = (a[:, :, None] == b[:, None, :])[:, None].reshape((1,) * e + (2, 1, q, k)).astype(np.float32)
        if got.shape != want.shape or not np.array_equal(got, want):
          return f'attention mask {got}'
        got = np.asarray(L.make_causal_mask(a, extra_batch_dims=e))
        want = np.broadcast_to(np.tril(np.ones((q, q))), (1,) * e + (2, 1, q, q))
        return None if got.shape == want.shape and np.array_equal(got, want) else f'causal mask {got}'
      rec.run([which, 'pairs', a, b, e], run)
  return fn


def search_buckets(which):
  def fn(rec):
    L = real(which)
    f = need(L.RelativePositionBiases, '_relative_position_bucket')
    rel = np.arange(-2100, 2101, dtype=np.int32)[None, :]
    for nb in (2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 64, 100, 128):
      for bi in (False, True):
        half = nb // 2 if bi else nb
        e = half // 2
        if e < 1:
          continue
        for md in sorted({e + 1, e + 2, 2 * e, 20, 128, 200, 1000, 2000}):
          if md <= e:
            continue
          if rec.full:
            return

          def run():
            with np.errstate(all='ignore'):
              r = np.asarray(f(rel, bidirectional=bi, num_buckets=nb, max_distance=md))[0]
            p = rel[0].astype(np.int64)
            n = np.abs(p) if bi else np.maximum(-p, 0)
            off = np.where(p > 0, half, 0) if bi else 0
            v = r - off
            with np.errstate(all='ignore'):
              x = np.log(n / e) / np.log(md / e) * (half - e)
            lo = np.minimum(e + np.floor(np.where(n >= e, x, 0) - 1e-3), half - 1)
            hi = np.minimum(e + np.floor(np.where(n >= e, x, 0) + 1e-3), half - 1)
            bad = np.where(n < e, v != n, (v < np.maximum(lo, e)) | (v > hi))
            bad |= (n >= md) & (v != half - 1)
            if bad.any():
              k = int(np.flatnonzero(bad)[np.argmin(n[bad])])
              return f'position {p[k]}: bucket {r[k]} of {nb} (max distance {md}, {"both ways" if bi else "causal"})'
            o = np.argsort(n, kind='stable')
            for s in ((p[o] > 0), (p[o] <= 0)):
              if (np.diff(v[o][s]) < 0).any():
                return f'buckets decrease with the distance ({nb}, {md})'
          rec.run([which, 'buckets', nb, md, bi], run)
  return fn


def search_bias(which):
  def fn(rec):
    L = real(which)
    import jax
    for q, k, bi in itertools.product((1, 4, 9), (1, 7, 40), (False, True)):
      if rec.full:
        return

      def run():
        mod = L.RelativePositionBiases(num_buckets=8, max_distance=16, num_heads=3, dtype=np.float32)
        v = mod.init(jax.random.PRNGKey(q), q, k, bidirectional=bi)
        tab = np.asarray(v['params']['rel_embedding'])
        got = np.asarray(mod.apply(v, q, k, bidirectional=bi))
        with np.errstate(all='ignore'):
          b = np.asarray(L.RelativePositionBiases._relative_position_bucket(np.arange(k, dtype=np.int32)[None] - np.arange(q, dtype=np.int32)[:, None], bi, 8, 16))
        want = tab[:, b][None]
        return None if got.shape == want.shape and np.allclose(got, want) else f'bias of {q}x{k} differs from the table'
      rec.run([which, 'bias', q, k, bi], run)
  return fn


def build(chk):
  for which in FILES:
    masks(chk, which)
    buckets(chk, which)
    bias(chk, which)
    chk.search(f'{which}: masks', '70 packed batches up to length 8, lengths up to 300, 40 combinations, 18 shapes', search_masks(which))
    chk.search(f'{which}: buckets', 'distances up to 2100, 15 bucket counts, up to 8 maxima', search_buckets(which))
    chk.search(f'{which}: bias table', '18 lengths', search_bias(which))


if __name__ == '__main__':
  main('A01', build)
