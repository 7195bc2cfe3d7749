"""D04: prompt alignment and prefix removal."""

import itertools

from vc import env
env.setup()
import numpy as np
import z3

from vc import arr, core
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, SymInt, forall, lift, zint
from vc.transform import LoopSpec, StubNS, clone

DEC = 't5x/decoding.py'
MOD = 't5x/models.py'


# ------------------------------------------------------ binary arithmetic
I = z3.IntSort()
P2 = z3.Function('pow2', I, I)          # 2**i
LOW = z3.Function('low', I, I, I)       # s mod 2**i
BIT = z3.Function('bit', I, I, z3.BoolSort())   # bit i of s


def binary(c):
  """2**i, `s & 2**i` and s mod 2**i; the facts are proved as lemmas."""
  i, s = z3.Ints('bi bs')
  c._push(P2(0) == 1)
  c._push(z3.ForAll([i], z3.Implies(i >= 0, z3.And(P2(i) >= 1, P2(i + 1) == 2 * P2(i))), patterns=[P2(i)]))
  c._push(z3.ForAll([s], LOW(s, 0) == 0, patterns=[LOW(s, 0)]))
  c._push(z3.ForAll([s, i], z3.Implies(z3.And(s >= 0, i >= 0), z3.And(LOW(s, i) >= 0, LOW(s, i) <= s)), patterns=[LOW(s, i)]))
  c._push(z3.ForAll([s, i], z3.Implies(z3.And(s >= 0, i >= 0), LOW(s, i + 1) == LOW(s, i) + z3.If(BIT(s, i), P2(i), 0)),
                    patterns=[BIT(s, i), LOW(s, i + 1)]))
  c._push(z3.ForAll([s, i], z3.Implies(z3.And(s >= 0, i >= 0, s < P2(i)), LOW(s, i) == s), patterns=[LOW(s, i)]))

  def pow2(e):
    return lift(P2(zint(e)))

  def bitand(a, b):
    for x, y in ((a, b), (b, a)):
      t = zint(y)
      if z3.is_app(t) and t.decl().eq(P2):
        return core.ite(lift(BIT(zint(x), t.arg(0))), y, 0)
      t = z3.simplify(t)
      if z3.is_int_value(t) and t.as_long() > 0 and t.as_long() & (t.as_long() - 1) == 0:
        return core.ite(lift(BIT(zint(x), z3.IntVal(t.as_long().bit_length() - 1))), y, 0)
    raise core.Unsupported('bitwise and with something that is no power of two')
  c.user['pow2'] = pow2
  c.user['bitand'] = bitand


def lemmas(chk):
  def body(c):
    s, p, q, b, r = z3.Ints('s p q b r')
    S = SymInt
    # s = p*q' + r', q' = 2q + b
    c._push(z3.And(s >= 0, p >= 1, b >= 0, b <= 1, r >= 0, r < p, q >= 0, s == p * (2 * q + b) + r))
    c.prove('s mod 2p = s mod p + p * bit', lift(z3.And(s == (2 * p) * q + (p * b + r), p * b + r >= 0, p * b + r < 2 * p)))
    c.cover()
  chk.verify('lemma: low bits', DEC, '(s mod 2^(i+1)) = (s mod 2^i) + 2^i * bit(s, i)', body)

  def unique(c):
    p, q, r, q2, r2 = z3.Ints('p q r q2 r2')
    c._push(z3.And(p >= 1, r >= 0, r < p, r2 >= 0, r2 < p, p * q + r == p * q2 + r2))
    d = q - q2
    c._push(z3.Implies(d >= 1, p * d >= p))
    c._push(z3.Implies(d <= -1, p * d <= -p))
    c._push(p * d == r2 - r)
    c.prove('quotient and remainder are unique', lift(z3.And(q == q2, r == r2)))
    c.cover()
  chk.verify('lemma: division is unique', DEC, 'p*q + r = p*q2 + r2 with remainders below p: equal', unique,
             assumed=['p*d >= p for p, d >= 1 (order of the integers)'])


class Log2:

  def __init__(self, n, up=False):
    self.n, self.up = n, up

  def astype(self, d):
    if not self.up or np.dtype(d).kind != 'i':
      raise core.Unsupported('number of bits')
    return self.bits()

  def bits(self):
    if not self.up:
      raise core.Unsupported('number of bits')
    c = core.ctx()
    nb = c.int('nbits', 0, inp=False)
    c.assume(lift(P2(zint(nb)) >= zint(self.n)))
    return nb

  __vc_int__ = bits
  __trunc__ = bits


def module():
  m = clone(DEC)
  import jax.numpy as jnp
  m.jnp = arr.ns(jnp)
  ceil = lambda x: Log2(x.n, True) if isinstance(x, Log2) else np.ceil(x)
  m.np = StubNS(np, log2=lambda n: Log2(n) if isinstance(n, SymInt) else np.log2(n), ceil=ceil)
  return m


class Shift(LoopSpec):
  """After i rounds each row moved by the low i bits of its shift."""
  name = 'loop over the bits of the shift'

  def __init__(self, right, B, L):
    self.right, self.B, self.L = right, B, L

  def names(self, env):
    xs = [k for k, v in env.items() if isinstance(v, arr.Arr) and v.ndim == 2 and k in ('prompts', 'temp')]
    v = 'temp' if 'temp' in xs else 'prompts'
    if v not in xs or not isinstance(env.get('shifts'), arr.Arr):
      raise core.Unsupported('loop variables of the alignment')
    return v

  def applies(self, L, env):
    if L.seq is None or 'shifts' not in env:
      return False
    self.p0, self.s = env[self.names(env)], env['shifts']
    return True

  def moved(self, x, low):
    B, n, p0, s = self.B, self.L, self.p0, self.s

    def f(b, t):
      q = low(s(b))
      src = t - q if self.right else t + q
      want = core.ite(AND(src >= 0, src < n), p0(b, core.ite(AND(src >= 0, src < n), src, 0)), 0)
      return IMP(AND(b >= 0, b < B, t >= 0, t < n), x(b, t) == want)
    return forall(2, f)

  def inv(self, L, env):
    x = env[self.names(env)]
    if not (arr.eqdim(x.shape[0], self.B) and arr.eqdim(x.shape[1], self.L)):
      yield 'the shape is kept', lift(z3.And(zint(x.shape[0]) == zint(self.B), zint(x.shape[1]) == zint(self.L)))
    yield 'each row has moved by the low bits of its shift', self.moved(x, lambda s: lift(LOW(zint(s), zint(L.i))))

  def havoc(self, L, env):
    return {self.names(env): arr.fresh('moved', (self.B, self.L))}


def setup(c, m, right):
  binary(c)
  B, L = c.int('batch', 1), c.int('length', 1)
  p = arr.fresh('token', (B, L), inp=True)
  m.__vc_rt__.loop_specs = {'_right_align_prompts#0': Shift(True, B, L), '_left_align_prompts#0': Shift(False, B, L)}
  return B, L, p


def align(chk):
  m = module()

  def shape_ok(c, r, B, L):
    if not isinstance(r, arr.Arr) or r.ndim != 2:
      raise core.Unsupported('result of the alignment')
    c.prove('the shape is kept', lift(z3.And(zint(r.shape[0]) == zint(B), zint(r.shape[1]) == zint(L))))

  def right(c):
    B, L, p = setup(c, m, True)
    r = m._right_align_prompts(p)
    shape_ok(c, r, B, L)
    b, k, t = c.int('b', 0), c.int('last', 0), c.int('t', 0)
    c.assume(AND(b < B, k < L, t < L))
    last = AND(p(b, k) != 0, forall(1, lambda u: IMP(AND(u > k, u < L), p(b, u) == 0)))
    sh = L - 1 - k
    # instances of the definition of the last token
    c.prove('a row is moved right until its last token is at the end', IMP(last, r(b, t) == core.ite(t >= sh, p(b, core.ite(t >= sh, t - sh, 0)), 0)))
    c.prove('a row of padding stays padding', IMP(forall(1, lambda u: IMP(AND(u >= 0, u < L), p(b, u) == 0)), r(b, t) == 0))
    c.cover()
  asm = ['2**i and & by their binary definition (lemmas)', 'ceil(log2(n)) bits are enough for n', 'jnp.argmax/argmin: first index of the extremum; pad/where/slices by index']
  chk.verify('_right_align_prompts', DEC, 'each row is moved right by exactly its trailing padding (any batch, length, tokens)', right, assumed=asm, seconds=300)

  def left(c):
    B, L, p = setup(c, m, False)
    r = m._left_align_prompts(p)
    shape_ok(c, r, B, L)
    b, k, t = c.int('b', 0), c.int('first', 0), c.int('t', 0)
    c.assume(AND(b < B, k < L, t < L))
    first = AND(p(b, k) != 0, forall(1, lambda u: IMP(AND(u >= 0, u < k), p(b, u) == 0)))
    c.prove('a row is moved left until its first token is at the start', IMP(first, r(b, t) == core.ite(t + k < L, p(b, core.ite(t + k < L, t + k, 0)), 0)))
    c.prove('a row of padding stays padding', IMP(forall(1, lambda u: IMP(AND(u >= 0, u < L), p(b, u) == 0)), r(b, t) == 0))
    c.cover()
  chk.verify('_left_align_prompts', DEC, 'each row is moved left by exactly its leading padding', left, assumed=asm, seconds=300)

  def both(c):
    # contracts of the two functions (proved above), composed
    f, g, h = (z3.Function(n, I, I) for n in ('prompt', 'right', 'left'))
    P, R, Lf = (lambda i, f=f: lift(f(zint(i))) for f in (f, g, h))
    n, k = c.int('length', 1), c.int('last', 0)
    c.assume(AND(k < n, P(0) != 0, P(k) != 0, forall(1, lambda u: IMP(AND(u > k, u < n), P(u) == 0))))
    sh = n - 1 - k
    c.assume(forall(1, lambda t: IMP(AND(t >= 0, t < n), R(t) == core.ite(t >= sh, P(core.ite(t >= sh, t - sh, 0)), 0)), patterns=[lambda t: g(t)]))
    # sh is the first token of the right aligned row
    c.prove('the first token of the aligned row', AND(R(sh) != 0, forall(1, lambda u: IMP(AND(u >= 0, u < sh), R(u) == 0))))
    c.assume(forall(1, lambda t: IMP(AND(t >= 0, t < n), Lf(t) == core.ite(t + sh < n, R(core.ite(t + sh < n, t + sh, 0)), 0)), patterns=[lambda t: h(t)]))
    t = c.int('t', 0)
    c.assume(t < n)
    c.prove('left alignment undoes right alignment', Lf(t) == P(t))
    c.cover()
  chk.verify('lemma: round trip', DEC, 'left(right(p)) = p for prompts that start with a token', both, assumed=['contracts of both functions (proved above)'])

  def last(c):
    B, L, p = setup(c, m, True)
    b, k = c.int('b', 0), c.int('last', 1)
    c.assume(AND(b < B, k < L))
    cnt = c.func('count', I, I)
    # prompts start with one padding (begin of sequence), then tokens, then padding
    c.assume(forall(2, lambda i, u: IMP(AND(i == b, u >= 0, u < L), IFF(p(i, u) != 0, AND(u >= 1, u <= k)))))

    def count(x, axis=None, **kw):
      if not isinstance(x, arr.Arr) or x.ndim != 2 or axis not in (1, -1):
        raise core.Unsupported('sum')
      c.prove('what is summed is the indicator of the tokens', forall(1, lambda u: IMP(AND(u >= 0, u < L), arr.number(x(b, u)) == core.ite(AND(u >= 1, u <= k), 1, 0))))
      c.assume(lift(cnt(zint(b))) == k)
      return arr.Arr((x.shape[0],), lambda i: lift(cnt(zint(i))))
    m.jnp = arr.ns(__import__('jax').numpy, sum=count)
    try:
      need(m, '_pick_last_prompt_token')
      r = m._pick_last_prompt_token(p)
      c.prove('the last token of the prompt', r(b) == p(b, k))
    finally:
      m.jnp = arr.ns(__import__('jax').numpy)
    c.cover()
  chk.verify('_pick_last_prompt_token', DEC, 'for prompts with a leading begin-of-sequence padding: the last token', last,
             assumed=['the sum of the indicator of positions 1..k is k', 'jax clamps out-of-range indices'])


# ------------------------------------------------------------ remove_prefix
def prefix(chk):
  m = clone(MOD)
  import jax
  import jax.numpy as jnp

  def body(c):
    L, k = c.int('length', 1), c.int('prefix', 0)
    c.assume(k <= L)
    x = arr.fresh('token', (L,), inp=True)
    x.dtype = np.int32

    def roll(a, shift, axis=None):
      if not isinstance(a, arr.Arr) or a.ndim != 1 or axis not in (None, 0, -1):
        raise core.Unsupported('roll')
      n = a.shape[0]

      def fn(i):
        j = i - shift
        return a(core.ite(j < 0, j + n, core.ite(j >= n, j - n, j)))
      c.prove('the shift of the roll is at most one turn', lift(z3.And(zint(shift) <= zint(n), -zint(shift) <= zint(n))), kind='pre')
      return arr.Arr(a.shape, fn)
    m.jnp = arr.ns(jnp, roll=roll)
    f = need(m, 'remove_prefix')
    f = getattr(f, '__wrapped__', None) or f
    try:
      r = f(x, k)
    finally:
      m.jnp = jnp
    if not isinstance(r, arr.Arr) or r.ndim != 1:
      raise core.Unsupported('result of remove_prefix')
    t = c.int('t', 0)
    c.assume(t < L)
    c.prove('the shape is kept', lift(zint(r.shape[0]) == zint(L)))
    c.prove('the tokens after the prefix, then padding', r(t) == core.ite(t + k < L, x(core.ite(t + k < L, t + k, 0)), 0))
    c.cover()
  chk.verify('remove_prefix', MOD, 'row t is the token at prefix + t, or padding past the end, for prefix 0..length', body,
             assumed=['jax.vmap applies the function to each row', 'jnp.roll by its index definition'])


# ------------------------------------------------------------------ search
def search_align(rec):
  import jax
  from t5x import decoding as d
  need(d, '_right_align_prompts')
  need(d, '_left_align_prompts')

  def check(p):
    def run():
      r = np.asarray(d._right_align_prompts(p))
      l = np.asarray(d._left_align_prompts(p))
      n = p.shape[1]
      for b in range(len(p)):
        nz = np.flatnonzero(p[b])
        if not len(nz):
          if r[b].any() or l[b].any():
            return f'row of padding became {r[b]} / {l[b]}'
          continue
        s, f = n - 1 - nz[-1], nz[0]
        if not np.array_equal(r[b], np.concatenate([np.zeros(s, p.dtype), p[b, :n - s]])):
          return f'{p[b]} right aligned to {r[b]}'
        if not np.array_equal(l[b], np.concatenate([p[b, f:], np.zeros(f, p.dtype)])):
          return f'{p[b]} left aligned to {l[b]}'
      back = np.asarray(d._left_align_prompts(r))
      for b in range(len(p)):
        if p[b, 0] and not np.array_equal(back[b], p[b]):
          return f'{p[b]} came back as {back[b]}'
    rec.run(['align', p], run)
  for n in range(1, 8):
    allrows = np.array(list(itertools.product((0, 7), repeat=n)), np.int32) * np.arange(1, n + 1, dtype=np.int32)
    check(allrows)
    if rec.full:
      return
  rng = np.random.default_rng(0)
  for n in list(range(1, 12)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257, 1000]:
    p = rng.integers(1, 32000, (24, n)).astype(np.int32)
    for b in range(24):
      lo, hi = sorted(rng.integers(0, n + 1, 2))
      p[b, hi:] = 0
      if b % 2:
        p[b, :lo] = 0
      if b % 5 == 0:
        p[b, rng.random(n) < 0.3] = 0
    check(p)
    if rec.full:
      return


def search_last(rec):
  from t5x import decoding as d
  need(d, '_pick_last_prompt_token')
  rng = np.random.default_rng(1)
  for n in range(2, 40):
    p = np.zeros((8, n), np.int32)
    ks = rng.integers(1, n, 8)
    for b, k in enumerate(ks):
      p[b, 1:k + 1] = rng.integers(1, 99, k)

    def run():
      got = np.asarray(d._pick_last_prompt_token(p))
      want = p[np.arange(8), ks]
      return None if np.array_equal(got, want) else f'{got}, expected {want}'
    rec.run(['last', p], run)


def search_prefix(rec):
  import jax
  from t5x import models
  need(models, 'remove_prefix')
  fns = [models.remove_prefix, jax.jit(models.remove_prefix)]
  rng = np.random.default_rng(2)
  for n in (1, 2, 3, 5, 8, 17, 64):
    ks = np.arange(n + 1, dtype=np.int32)
    for tok in range(4):
      x = rng.integers(0, 5 if tok % 2 else 2 ** 31 - 1, (n + 1, n)).astype(np.int32)
      want = np.zeros_like(x)
      for b, k in enumerate(ks):
        want[b, :n - k] = x[b, k:]
      for f in fns:
        def run():
          got = np.asarray(f(x, ks))
          bad = [b for b in range(n + 1) if not np.array_equal(got[b], want[b])] if got.shape == want.shape else ['shape']
          return f'prefix {bad[0]} of {x[bad[0]]}: {got[bad[0]]}' if bad else None
        rec.run(['prefix', x, ks], run)


def search_model(rec):
  """Decoder-only prediction drops exactly the prompt."""
  import jax
  import jax.numpy as jnp
  from t5x import models
  need(models, 'DecoderOnlyModel')
  rng = np.random.default_rng(3)
  for i in range(60):
    if rec.full:
      return
    B, n, nd = int(rng.integers(1, 4)), int(rng.integers(2, 9)), int(rng.integers(1, 4))
    lens = rng.integers(0, n, B)
    inputs = np.zeros((B, n), np.int32)
    causal = np.zeros((B, n), np.int32)
    for b, k in enumerate(lens):
      inputs[b, 1:k + 1] = rng.integers(2, 9, k)
      causal[b, :k + 1] = 1
    cont = rng.integers(2, 99, (B, nd, n)).astype(np.int32)
    scores = np.sort(rng.normal(size=(B, nd)).astype(np.float32), -1)
    allout = i % 2 == 0

    def case():
      seen = {}

      def decode(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, initial_index=None, **kw):
        out = np.array(cont)
        for b, k in enumerate(lens):
          out[b, :, :k] = inputs[b, 1:k + 1]
        seen['init'] = np.asarray(initial_index)
        return jnp.asarray(out), jnp.asarray(scores)
      mod = types_module()
      m = object.__new__(models.DecoderOnlyModel)
      m.__dict__.update(_decode_fn=decode, _output_vocabulary=_V(), _inputs_bidirectional_attention=False, module=mod,
                        _input_vocabulary=_V())
      m._compute_kv_cache = lambda params, inputs, causal, *a, **k: ({}, jnp.sum(causal, -1) - 1)
      batch = {'decoder_input_tokens': jnp.asarray(inputs), 'decoder_causal_attention': jnp.asarray(causal)}
      out, aux = m.predict_batch_with_aux({}, batch, rng=jax.random.PRNGKey(0), return_all_decodes=allout, num_decodes=nd)
      out = np.asarray(out)
      full = np.array(cont)
      for b, k in enumerate(lens):
        full[b, :, :k] = inputs[b, 1:k + 1]
      for b, k in enumerate(lens):
        for d in (range(nd) if allout else [None]):
          got = out[b, d] if allout else out[b]
          src = full[b, d] if allout else full[b, -1]
          want = np.concatenate([src[k:], np.zeros(k, np.int32)])
          if not np.array_equal(got, want):
            return f'prompt of {k} tokens, decode {d}: {got}, expected {want}'
    rec.run(['decoder-only', inputs, nd, allout], case)


class _V:
  eos_id = 1


def types_module():
  class M:
    def __getattr__(self, n):
      if n == 'scan_layers':
        raise AttributeError(n)
      raise core.Unsupported(f'module attribute {n}')
  return M()


def build(chk):
  lemmas(chk)
  align(chk)
  prefix(chk)
  chk.search('alignment of prompts', 'all padding patterns up to length 7, 25 lengths up to 1000 with random rows', search_align, case_seconds=60)
  chk.search('last prompt tokens', 'lengths up to 39', search_last)
  chk.search('prefix removal', '7 lengths, every prefix', search_prefix)
  chk.search('prompts removed from decoder-only predictions', '60 random batches', search_model)


if __name__ == '__main__':
  main('D04', build)
