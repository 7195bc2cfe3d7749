"""D02: the sampling loop: prompts, end of sequence, limits and scores."""

import random

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.h import patched
from vc.transform import StubNS

DEC = 't5x/decoding.py'
CALM = 't5x/contrib/calm/decoding.py'
EOS = 1


def mods():
  from t5x import decoding
  from t5x.contrib.calm import decoding as calm
  return decoding, calm


# ------------------------------------------------------------- one trial
class Row:
  """What the contract says about one arbitrary row r of the batch."""

  def __init__(self, c, ip, d, inputs, steps, i0):
    self.c, self.ip = c, ip
    self.inputs = inputs
    self.L = d.t('L')
    self.r = c.int('row', 0).t
    self.e = z3.Int(c.fresh_name('e'))       # a row that goes on
    self.p = z3.Function(c.fresh_name('plen'), z3.IntSort(), z3.IntSort())
    self.steps, self.i0 = steps, i0
    self.B = inputs.shape[0]
    c.assume(self.r < self.B)
    c._push(z3.And(self.e >= 0, self.e < self.B))
    k, x = z3.Ints('pk px')
    # the prompt of a row: BOS padding, p tokens, padding
    rng = z3.And(x >= 0, x < self.B)
    c._push(z3.ForAll([x], z3.Implies(rng, z3.And(self.p(x) >= 0, self.p(x) < self.L)), patterns=[self.p(x)]))
    c._push(z3.ForAll([x, k], z3.Implies(z3.And(rng, k >= 0, k < self.L), (inputs.at(x, k) != 0) == z3.And(k >= 1, k <= self.p(x))),
                      patterns=[inputs.at(x, k)]))
    if i0 is not None:
      c._push(z3.ForAll([x], z3.Implies(rng, z3.And(i0.at(x) >= 0, i0.at(x) <= self.p(x))), patterns=[i0.at(x)]))
    if steps is not None:
      c.assume(steps >= 0)
    # two columns, and the column of an end token already generated
    self.j, self.k = c.int('colj', 0).t, c.int('colk', 0).t
    c.assume(z3.And(self.j < self.L + 2, self.k < self.L + 2))
    self.w = z3.Int(c.fresh_name('eosat'))

  def limit(self, x):
    """Number of positions a row may fill."""
    if self.steps is None:
      return self.L
    n = self.p(x) + self.steps
    return z3.If(n < self.L, n, self.L)

  def start(self, x):
    return z3.IntVal(0) if self.i0 is None else self.i0.at(x)


class Sampling(jx.JLoop):
  name = 'sampling loop'

  def __init__(self, c, row, names):
    self.c, self.row, self.names = c, row, names

  def match(self, k, what, init):
    return what == 'while' and len(init) == len(self.names)

  def get(self, st, n):
    return st[self.names.index(n)]

  def core_inv(self, st, x, w, w2=None):
    """Facts about row x; w: the column of a generated end token."""
    R = self.row
    seq, cur, tok = self.get(st, 'sequences'), self.get(st, 'cur_index').at(x), self.get(st, 'cur_token').at(x, z3.IntVal(0))
    ended, n = self.get(st, 'ended').at(x, z3.IntVal(0)), self.get(st, 'ghost').at()
    M, p, s = R.limit(x), R.p(x), R.start(x)
    sq = lambda k: seq.at(x, k)
    k = z3.Int(self.c.fresh_name('k') + '#')
    q = lambda f: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.L + 2), f))
    yield 'position', z3.And(n >= 0, z3.If(s + n <= M, cur == s + n, cur > M))
    yield 'a row goes on below its limit', z3.Or(ended, cur < M)
    yield 'the prompt was consumed before the end', z3.Implies(ended, cur >= p)
    yield 'the prompt is kept', q(z3.Implies(z3.And(k >= 1, k <= p), sq(k) == R.inputs.at(x, k)))
    yield 'nothing at position 0', sq(z3.IntVal(0)) == 0
    yield 'nothing after the current position', q(z3.Implies(z3.And(k > p, z3.Or(k > cur, k > M)), sq(k) == 0))
    yield 'no end token while it goes on', z3.Implies(z3.Not(ended), q(z3.Implies(k > p, sq(k) != EOS)))
    wit = lambda v: z3.And(v > p, v <= cur, sq(v) == EOS)
    yield 'ended by an end token or the limit', z3.Implies(ended, z3.Or(cur >= M, wit(w), *([wit(w2)] if w2 is not None else [])))
    yield 'the model sees the last token', z3.Or(ended, tok == sq(cur), z3.And(n == 0, tok == 0, s == 0))

  def inv(self, st, old):
    R = self.row
    x = R.r
    seq = self.get(st, 'sequences')
    self.counts()
    hs = self.hints() if old is not None else ()
    w2 = None
    if old is not None:
      c0 = self.get(old, 'cur_index').at(x)
      M = R.limit(x)
      w2 = z3.If(c0 < M, c0, M) + 1
    for nm, f in self.core_inv(st, x, R.w, w2):
      yield (nm, f, *hs)
    yield ('only padding after an end token', z3.Implies(z3.And(R.p(x) < R.j, R.j < R.k, seq.at(x, R.j) == EOS), seq.at(x, R.k) == 0), *hs)
    if old is not None:
      yield from self.step_clauses(st, old)
      return

  def counts(self):
    """The number of nonzero entries of a row is the length of its prompt."""
    c, R = self.c, self.row
    for s in c.user.get('sums', []):
      if len(s.dims) != 1 or s.nout > 2 or not jx.deq(s.dims[0], R.L):
        continue
      for x in (R.r, R.e):
        ix = row_ix(s, x)
        key = ('count', id(s), x.get_id())
        if key in c.names:
          continue
        c.names[key] = s
        w = z3.Int(c.fresh_name('w'))
        v = s.val(ix, [w])
        c._push(z3.Or(z3.And(w >= 0, w < R.L, v != z3.If(z3.And(w >= 1, w <= R.p(x)), z3.IntVal(1), z3.IntVal(0))), s.at(*ix) == R.p(x)))

  def on_havoc(self, st):
    c, R = self.c, self.row
    ended = self.get(st, 'ended')
    k = z3.Int(c.fresh_name('k') + '#')
    z = z3.IntVal(0)
    c._push(z3.Or(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.B), ended.at(k, z))), z3.Not(ended.at(R.e, z))))
    for nm, f in self.core_inv(st, R.e, z3.Int(c.fresh_name('eosat'))):
      c._push(f)
    self.old = st

  def variant(self, st):
    return self.row.L - self.get(st, 'ghost').at()

  def step_clauses(self, new, old):
    R, c = self.row, self.c
    x = R.r
    z = z3.IntVal(0)
    cur, M, p = self.get(old, 'cur_index').at(x), R.limit(x), R.p(x)
    i = z3.If(cur < M, cur, M)
    ended = self.get(old, 'ended').at(x, z)
    seq, nseq = self.get(old, 'sequences'), self.get(new, 'sequences')
    t = self.ghost['token'].at(x)
    gen = z3.And(z3.Not(ended), i + 1 > p)
    yield 'only the next position is written', z3.Implies(R.j != i + 1, nseq.at(x, R.j) == seq.at(x, R.j))
    yield 'the sampled token is recorded', z3.Implies(gen, nseq.at(x, i + 1) == t)
    lp, nlp = self.get(old, 'log_prob').at(x), self.get(new, 'log_prob').at(x)
    ci, sq, ct = self.ghost['seen']()
    yield 'the model is given the state of the row', z3.Implies(z3.Not(ended), z3.And(ci.at(x) == cur, z3.Implies(R.j < R.L, sq.at(x, R.j) == seq.at(x, R.j)),
                                                            ct.at(x, z) == self.get(old, 'cur_token').at(x, z)))
    yield 'the score adds the log-probability of exactly the generated tokens', nlp == lp + z3.If(gen, self.ghost['lp'](x), z3.RealVal(0))


def names_of(tree):
  import jax
  out = []
  for path, _ in jax.tree_util.tree_flatten_with_path(tree)[0]:
    k = path[0]
    nm = getattr(k, 'name', None) or str(getattr(k, 'idx', k))
    if len(path) > 1:
      sub = path[1]
      nm2 = getattr(sub, 'name', None) or str(sub)
      nm = nm2 if nm in ('1', 'state') else nm
    out.append(nm)
  return out


def trial(chk, dec, file, nm, cfg, calm=False):
  import jax
  import jax.numpy as jnp

  def body(c):
    d = jx.Dims(c, 'b', 'L', 'V')
    G = {}
    con = {}

    def model_h(ip, eqn, ins):
      G['seen'] = ins
      a = eqn.outvars[0].aval
      G['logits'] = ip.fresh(ip.shape(a.shape), a.dtype, 'logits')
      return G['logits']

    def cat_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      G['drawn from'] = ins[0]
      t = ip.fresh(ip.shape(a.shape), a.dtype, 'sampled')
      G['sampled'] = t
      V = d.t('V')
      k, x = z3.Ints('sk sx')
      z = (x,) + (z3.IntVal(0),) * (t.ndim - 1)
      c._push(z3.ForAll([x], z3.And(t.at(*z) >= 0, t.at(*z) < V), patterns=[t.at(*z)]))
      return t

    def lsm_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      r = ip.fresh(ip.shape(a.shape), a.dtype, 'logsoftmax')
      G.setdefault('lsm', []).append((ins[0], r))
      return r

    def mask_h(which):
      f = z3.Function('mask_' + which, z3.IntSort(), z3.IntSort(), z3.RealSort())
      return lambda ip, eqn, ins: jx.SArr(ins[0].shape, ins[0].dtype, lambda *i: f(i[0], i[-1]))
    con.update(vc_model=model_h, vc_categorical=cat_h, vc_lsm=lsm_h, vc_topk=mask_h('topk'), vc_topp=mask_h('topp'))
    ip = jx.Interp(c, d, contracts=con)
    inputs = ip.arg('inputs', (cfg['vec'] * d['b'] if cfg.get('vec', 1) > 1 else 'b', 'L'), 'int32')
    i0 = ip.arg('initial_index', ('b',), 'int32') if cfg.get('index') else None
    steps = ip.arg('steps', (), 'int32') if cfg.get('steps') == 'traced' else None
    vec = cfg.get('vec')
    tmp = ip.arg('temperature', ('b',) if vec else (), 'float32')
    at2 = lambda a, x, k: a.at(x, k) if a.ndim == 2 else a.at(x, z3.IntVal(0), k)
    at1 = lambda a, x: a.at(x) if a.ndim == 1 else a.at(x, z3.IntVal(0))
    heat = lambda x: tmp.at() if not vec else tmp.at(x) if vec == 1 else tmp.at(x / vec)
    sv = steps.at() if steps is not None else None
    row = Row(c, ip, d, inputs, sv, i0)
    lp = None

    def while_loop(cond, bodyf, init):
      G['names'] = names_of((jnp.zeros((), jnp.int32), init))
      G['names'][0] = 'ghost'
      n = jnp.zeros((), jnp.int32)
      loop.names = G['names']
      return real_while(lambda s: cond(s[1]), lambda s: (s[0] + 1, bodyf(s[1])), (n, init))[1]
    real_while = lambda a, b_, i: jax.lax.while_loop(a, b_, i)
    loop = Sampling(c, row, [])
    loop.ghost = G_ = {}
    ip.loops = [loop]
    zero = cfg.get('temp') == 0.0

    def fun(inp, t, *rest):
      rest = list(rest)
      ix = rest.pop(0) if i0 is not None else None
      ms = rest.pop(0) if steps is not None else cfg.get('steps')
      kw = dict(initial_index=ix, max_decode_steps=ms, rescale_log_probs=cfg.get('rescale', True), topk=cfg.get('topk', 0), topp=cfg.get('topp', 0.0))
      if vec:
        kw['num_decodes'] = vec

      def model(s):
        lg = jx.opaque('model', (s.cur_index.shape[0], d['V']), np.float32, s.cur_index, s.sequences, s.cur_token)
        return (lg, s.cache, jnp.zeros(()), jnp.zeros((), jnp.int32)) if calm else (lg, s.cache)
      r = dec._temperature_sample_single_trial(inp, {}, model, EOS, jax.random.PRNGKey(0), temperature=0.0 if zero else t, **kw)
      return r[0], r[1]
    stub_bs = StubNS(dec.binary_search,
                     topk_mask=lambda x, k, r: jx.opaque('topk', x.shape, x.dtype, x, jnp.asarray(k)),
                     topp_mask=lambda x, p, r: jx.opaque('topp', x.shape, x.dtype, x, jnp.asarray(p)))
    stub_rnd = StubNS(dec.random, categorical=lambda key, lg: jx.opaque('categorical', lg.shape[:-1], np.int32, lg))
    stub_jax = StubNS(jax, nn=StubNS(jax.nn, log_softmax=lambda x, axis=-1: jx.opaque('lsm', x.shape, x.dtype, x) if axis in (-1, x.ndim - 1) else need_axis()))

    # what the step must record: the sampled or greedy token and its score
    class Token:

      def at(self, x):
        V = d.t('V')
        lg = G['logits']
        if 'greedy' not in G:
          f = z3.Function(c.fresh_name('greedy'), z3.IntSort(), z3.IntSort())
          G['greedy'] = f
        f = G['greedy']
        k = z3.Int(c.fresh_name('k') + '#')
        c._push(z3.And(f(x) >= 0, f(x) < V, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < V), lg.at(x, k) <= lg.at(x, f(x)))),
                       z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < f(x)), lg.at(x, k) < lg.at(x, f(x))))))
        if zero or 'sampled' not in G:
          return f(x)
        return z3.If(heat(x) > mint, at1(G['sampled'], x), f(x))
    mint = core.zreal(float(np.float32(dec.MIN_TEMPERATURE)))
    G_['token'] = Token()
    G_['seen'] = lambda: G['seen']

    def score(x):
      lg, V = G['logits'], d.t('V')
      tok = G_['token'].at(x)
      hot = heat(x) > mint
      src = {}
      for a, r in G.get('lsm', []):
        src[id(r)] = (a, r)
      k = z3.Int(c.fresh_name('col'))
      of = lambda a, want: z3.Implies(z3.And(k >= 0, k < V), at2(a, x, k) == want(k))
      rs = list(src.values())
      if not cfg.get('rescale', True):
        # log-probabilities of the model itself
        if not rs:
          raise core.Unsupported('log_softmax is not called')
        for a, _ in rs:
          c.prove('the score uses the scores of the model', of(a, lambda k: lg.at(x, k)))
        for a, r in rs[1:]:
          same_lsm(c, x, rs[0], (a, r), at2)
        return at2(rs[0][1], x, tok)
      if zero:
        return z3.RealVal(0)
      if not rs:
        raise core.Unsupported('log_softmax is not called')
      a, r = rs[0]
      dr = G['drawn from']
      c.prove('the score uses the scores sampled from', z3.Implies(hot, of(a, lambda k: at2(dr, x, k))))
      return z3.If(hot, at2(r, x, tok), z3.RealVal(0))
    G_['lp'] = score

    def hints():
      # the number of end tokens against the start: differs at most where written
      st = loop.old
      x = row.r
      cur, M = loop.get(st, 'cur_index').at(x), row.limit(x)
      i1 = z3.If(cur < M, cur, M) + 1
      out = []
      ss = [s for s in c.user.get('sums', []) if len(s.dims) == 1]
      for s in ss:
        for t in ss:
          if s is t or s.nout > 2 or t.nout > 2:
            continue
          six, tix = row_ix(s, x), row_ix(t, x)
          key = ('diff', id(s), id(t))
          if key in c.names or not jx.deq(s.dims[0], t.dims[0]):
            continue
          D = jx.sum_spec(c, [s.dims[0]], lambda k, s=s, t=t, six=six, tix=tix: s.val(six, [k]) - t.val(tix, [k]), z3.IntSort())
          c.names[key] = D
          out.append(jx.lemma_linear(c, [(1, s, six), (-1, t, tix), (-1, D, ())]))
          out.append(jx.lemma_delta(c, D, (), [i1]))
      return out
    loop.hints = hints
    args = [inputs, tmp] + ([i0] if i0 is not None else []) + ([steps] if steps is not None else [])
    with patched(dec, binary_search=stub_bs, random=stub_rnd, jax=stub_jax, lax=StubNS(dec.lax, while_loop=while_loop)):
      toks, lps = ip.call(fun, *args)
    if 'names' not in G:
      raise core.Unsupported('no while loop')
    x, j, k = row.r, row.j, row.k
    z = z3.IntVal(0)
    L, M, p = row.L, row.limit(x), row.p(x)
    inr = lambda a: z3.And(a >= 0, a < L)
    o = lambda a: toks.at(x, a)
    c.prove('the output has the length of the input', z3.BoolVal(jx.deq(toks.shape[1], L)) if not z3.is_expr(toks.shape[1]) else toks.shape[1] == L)
    c.prove('the prompt is returned verbatim', z3.Implies(z3.And(inr(j), j < p), o(j) == inputs.at(x, j + 1)))
    c.prove('nothing past the limit', z3.Implies(z3.And(inr(j), j >= p, j >= M), o(j) == 0))
    w = row.w
    c.prove('stops only when an end token was generated or the limit is reached',
            z3.Or(z3.And(w - 1 >= p, w - 1 < L, o(w - 1) == EOS), loop.get(loop.old, 'cur_index').at(x) >= M))
    c.prove('only padding after the first generated end token',
            z3.Implies(z3.And(row.j >= 1, row.k <= L, p < row.j, row.j < row.k, o(row.j - 1) == EOS), o(row.k - 1) == 0))
    c.cover()
  chk.verify(f'{"calm " if calm else ""}_temperature_sample_single_trial [{nm}]', file,
             'any batch, length, vocabulary, prompts, model outputs and draws: loop invariants over the sampling state', body,
             assumed=['the model and the sampler are arbitrary functions; random.categorical returns a token of the vocabulary',
                      'prompts are a BOS padding, tokens, padding (documented); the number of nonzero entries of such a row is its prompt length'])


def need_axis():
  raise core.Unsupported('log_softmax axis')


def row_ix(s, x):
  return (x,) + (z3.IntVal(0),) * (s.nout - 1) if s.nout else ()


def same_lsm(c, x, a, b, at2):
  """log_softmax is a function of its row."""
  k, m = z3.Int(c.fresh_name('k') + '#'), z3.Int(c.fresh_name('k') + '#')
  V = a[0].shape[-1]
  c._push(z3.Or(z3.Exists([k], z3.And(k >= 0, k < jx.I(V), at2(a[0], x, k) != at2(b[0], x, k))),
                z3.ForAll([m], at2(a[1], x, m) == at2(b[1], x, m))))


# ----------------------------------------------------- several decodes
def outer(chk, dec, file, n, cfg, calm=False):
  import jax
  import jax.numpy as jnp

  def body(c):
    d = jx.Dims(c, 'b', 'L', 'H', 'U')
    G = {}
    names = ['inputs', 'cache', 'index', 'position', 'steps', 'initial']

    def single_h(ip, eqn, ins):
      G['args'] = ins
      a = eqn.outvars[0].aval
      G['tokens'] = ip.fresh(ip.shape(a.shape), a.dtype, 'tokens')
      return G['tokens']

    def lp_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      G['lp'] = ip.fresh(ip.shape(a.shape), a.dtype, 'scores')
      return G['lp']
    other = {k: (lambda k: lambda ip, eqn, ins: G.setdefault(k, ip.fresh(ip.shape(eqn.outvars[0].aval.shape), eqn.outvars[0].aval.dtype, k)))(k) for k in ('exits', 'conf')}
    ip = jx.Interp(c, d, contracts={'vc_single': single_h, 'vc_lp': lp_h, 'vc_exits': other['exits'], 'vc_conf': other['conf']})
    inputs = ip.arg('inputs', ('b', 'L'), 'int32')
    off = cfg.get('offset', 0)
    cache = ip.arg('cached', ('U', 'b', 'H') if off else ('b', 'H'), 'float32')
    pos = ip.arg('position', ('b',) if cfg.get('index') else (), 'int32')
    if off and cfg.get('index'):
      pos = ip.arg('position', ('U', 'b'), 'int32')
    init = ip.arg('initial', ('b',), 'int32') if cfg.get('index') else None
    steps = ip.arg('steps', (), 'int32') if cfg.get('steps') else None
    hard = cfg.get('hard')
    K = {}

    def single(inp, cch, model, eos, rng, *a, **kw):
      G['static'] = (model, eos, rng, a, kw)
      x = [inp, cch['cached_key'], cch['cache_index'], jnp.asarray(kw['max_decode_steps'] if kw['max_decode_steps'] is not None else -1)]
      if kw['initial_index'] is not None:
        x.append(kw['initial_index'])
      t = jx.opaque('single', inp.shape, np.int32, *x)
      l = jx.opaque('lp', (inp.shape[0],), np.float32, inp)
      if calm:
        return t, l, jx.opaque('exits', inp.shape, np.int32, inp), jx.opaque('conf', inp.shape, np.float32, inp)
      return t, l
    key = jax.random.PRNGKey(7)
    model = object()
    cb, lcb = object(), object()

    def fun(inp, ch, ps, *rest):
      rest = list(rest)
      ix = rest.pop(0) if init is not None else None
      ms = rest.pop(0) if steps is not None else None
      r = dec.temperature_sample(inp, {'cached_key': ch, 'cache_index': ps}, model, 5, key, num_decodes=n, temperature=0.75, topk=4, topp=0.0, cache_offset=off,
                                 initial_index=ix, max_decode_steps=ms, max_decode_steps_hard_limit=hard, rescale_log_probs=cfg.get('rescale', True),
                                 state_callback_fn=cb, logit_callback_fn=lcb)
      return (r[0], *r[1]) if calm else r
    args = [inputs, cache, pos] + ([init] if init is not None else []) + ([steps] if steps is not None else [])
    with patched(dec, _temperature_sample_single_trial=single):
      toks, lps, *more = ip.call(fun, *args)
    if 'args' not in G:
      raise core.Unsupported('the trial is not called')
    r, k, h, u = (c.int(x, 0).t for x in ('row', 'decode', 'h', 'u'))
    j = c.int('col', 0).t
    B, L = d.t('b'), d.t('L')
    c.assume(z3.And(r < B, k < n, h < d.t('H'), u < d.t('U'), j < L))
    A = G['args']
    row = r * n + k
    sh = lambda a, want: z3.And(*[jx.I(x) == y for x, y in zip(a.shape, want)]) if a.ndim == len(want) else z3.BoolVal(False)
    c.prove('the trial runs every example once per decode', sh(A[0], [B * n, L]))
    c.prove('each row gets the prompt of its example', A[0].at(row, j) == inputs.at(r, j))
    cc = (u, r, h) if off else (r, h)
    c2 = (u, row, h) if off else (row, h)
    c.prove('each row gets the cache of its example', A[1].at(*c2) == cache.at(*cc))
    if cfg.get('index'):
      if off:
        c.prove('each row gets the cache position of its example', A[2].at(u, row) == pos.at(u, r))
      else:
        c.prove('each row gets the cache position of its example', A[2].at(row) == pos.at(r))
      c.prove('each row gets the initial index of its example', z3.BoolVal(False) if len(A) < 5 else A[4].at(row) == init.at(r))
    else:
      c.prove('the common cache position is kept', z3.BoolVal(A[2].ndim == 0) if A[2].ndim else A[2].at() == pos.at())
    if steps is not None:
      s = steps.at()
      c.prove('the steps are limited', A[3].at() == (z3.If(s < hard, s, hard) if hard and hard > 0 else s))
    else:
      c.prove('no step limit is invented', A[3].at() == -1)
    m_, e_, rng_, a_, kw_ = G['static']
    import inspect
    sig = inspect.signature(dec_single).bind(None, None, m_, e_, rng_, *a_, **kw_)
    sig.apply_defaults()
    sv = sig.arguments
    want = dict(eos_id=5, temperature=0.75, topk=4, topp=0.0, rescale_log_probs=cfg.get('rescale', True), state_callback_fn=cb, logit_callback_fn=lcb, tokens_to_logits=model)
    if 'num_decodes' in sv:
      want['num_decodes'] = n
    for q, v in want.items():
      c.prove(f'{q} is passed on', z3.BoolVal(sv[q] is v or (not isinstance(v, object.__class__) and type(v) in (int, float, bool) and sv[q] == v)))
    c.prove('the key is passed on', z3.BoolVal(sv['prng_key'] is key))
    # the results: a permutation of the rows of the same example, by score
    T, P = G['tokens'], G['lp']
    c.prove('result shapes', z3.And(sh(toks, [B, n, L]), sh(lps, [B, n])))
    src = [z3.And(lps.at(r, k) == P.at(r * n + m), toks.at(r, k, j) == T.at(r * n + m, j),
                  *[x.at(r, k, j) == G[y].at(r * n + m, j) for x, y in zip(more, ('exits', 'conf'))]) for m in range(n)]
    c.prove('each result is a decode of its own example with its score', z3.Or(*src))
    k2 = c.int('decode2', 0).t
    c.assume(k2 < n)
    c.prove('ascending scores', z3.Implies(k < k2, lps.at(r, k) <= lps.at(r, k2)))
    # nothing is returned twice: when the scores are distinct so are the sources
    dist = z3.Distinct(*[P.at(r * n + m) for m in range(n)]) if n > 1 else z3.BoolVal(True)
    c.prove('no decode is returned twice', z3.Implies(z3.And(dist, k != k2), lps.at(r, k) != lps.at(r, k2)))
    c.cover()
  dec_single = need(dec, '_temperature_sample_single_trial')
  chk.verify(f'{"calm " if calm else ""}temperature_sample [{n} decodes, {cfg or "plain"}]', file,
             'any batch, length and cache: rows of the trial belong to their example; results are that example\'s decodes, ascending scores', body,
             assumed=['the contract of _temperature_sample_single_trial (proved above)'])


# ------------------------------------------------------------ bounded part
def search(rec):
  import jax
  import jax.numpy as jnp
  dec, calm = mods()
  V = 6
  rnd = random.Random(env.SEED)
  for t in range(70 if env.TIER != 'thorough' else 400):
    if rec.full:
      return
    cm = t % 3 == 2
    mod = calm if cm else dec
    ts = need(mod, 'temperature_sample')
    B, L, n = rnd.randint(1, 3), rnd.randint(2, 7), rnd.choice([1, 1, 2, 3])
    ps = [rnd.randint(0, L - 1) for _ in range(B)]
    inp = np.array([[0] + [rnd.randint(1, V - 1) for _ in range(p)] + [0] * (L - 1 - p) for p in ps], np.int32)
    table = np.array([[[[rnd.uniform(-3, 3) for _ in range(V)] for _ in range(V)] for _ in range(L + 3)] for _ in range(B)], np.float32)
    table[..., EOS] += rnd.choice([-2, 0, 2])
    table = np.round(table, 2)
    steps = rnd.choice([None, None, 0, 1, 2, L])
    hard = rnd.choice([None, None, 1, 3])
    index = rnd.random() < 0.4
    temp = rnd.choice([0.0, 1.0, 0.5]) if not cm else rnd.choice([0.0, 1.0])
    vec = not cm and rnd.random() < 0.25
    topk = rnd.choice([0, 1, 2])
    resc = rnd.random() < 0.5
    tv = np.array([rnd.choice([0.0, 1.0]) for _ in range(B)], np.float32) if vec else np.full(B, temp, np.float32)
    frozen = rnd.random() < 0.2

    def run():
      tab = jnp.asarray(table)

      def model(s):
        at, ex = s.cache['cache_index'], s.cache['cached_key'][:, 0]
        lg = tab[ex, jnp.broadcast_to(at, ex.shape).clip(0, L + 2), s.cur_token[:, 0]]
        new = {'cached_key': s.cache['cached_key'], 'cache_index': at + 1}
        return (lg, new, jnp.zeros(()), jnp.zeros((), jnp.int32)) if cm else (lg, new)
      import flax
      ch = {'cached_key': jnp.arange(B)[:, None], 'cache_index': jnp.asarray(np.array(ps, np.int32)) if index else jnp.zeros((), jnp.int32)}
      out = ts(jnp.asarray(inp), flax.core.freeze(ch) if frozen and not cm else ch, model, EOS, jax.random.PRNGKey(t), num_decodes=n,
               temperature=jnp.asarray(tv) if vec else float(temp), topk=topk, topp=0.0,
               initial_index=jnp.asarray(np.array(ps, np.int32)) if index else None, max_decode_steps=steps if steps is None or steps <= L else L,
               max_decode_steps_hard_limit=hard, rescale_log_probs=resc)
      toks = np.asarray(out[0])
      sc = np.asarray(out[1][0] if cm else out[1])
      if toks.shape != (B, n, L) or sc.shape != (B, n):
        return f'shapes {toks.shape} {sc.shape}'
      ms = None if steps is None else (min(steps, hard) if hard else steps)
      for b in range(B):
        p = ps[b]
        M = L if ms is None else min(L, p + ms)
        if any(sc[b, k] > sc[b, k + 1] + 1e-6 for k in range(n - 1)):
          return f'scores not ascending: {sc[b].tolist()}'
        for k in range(n):
          o = toks[b, k].tolist()
          full = [0] + o
          if o[:p] != inp[b, 1:p + 1].tolist():
            return f'prompt {inp[b].tolist()} became {o}'
          want, pos = 0.0, p
          while pos < M:
            lg = table[b, pos, full[pos]].astype(np.float64)
            tk = o[pos]
            hot = tv[b] > 1e-4
            s = lg / tv[b] if hot else lg
            if hot and topk:
              s = np.where((s[None, :] > s[:, None]).sum(1) < topk, s, -1e7)
            if (not hot or topk == 1) and lg[tk] != lg.max():
              return f'row {b} takes token {tk} at {pos}, scores {lg.tolist()}'
            if hot and s[tk] < -1e6:
              return f'row {b} takes the filtered token {tk}'
            ls = lambda z: z - z.max() - np.log(np.exp(z - z.max()).sum())
            want += (ls(s)[tk] if hot else 0.0) if resc else ls(lg)[tk]
            pos += 1
            if tk == EOS:
              break
          if any(o[pos:]):
            return f'row {b}: {o} goes on after its end (prompt {p} tokens, limit {M})'
          if abs(want - sc[b, k]) > 1e-3 + 1e-4 * abs(want):
            return f'row {b}: {o} scored {sc[b, k]}, expected {want}'
    rec.run({'calm': cm, 'inputs': inp.tolist(), 'decodes': n, 'steps': steps, 'hard limit': hard, 'initial index': index, 'temperature': tv.tolist() if vec else temp, 'top-k': topk, 'rescale': resc, 'case': t}, run)


# ------------------------------------------------ the model's own wiring
MOD = 't5x/models.py'


class _Vocab:
  def __init__(self, eos):
    self.eos_id = eos


def _decoders(rec):
  """Decode functions with and without a starting index."""
  def plain(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, cache_offset=0, eos_id=None, decode_rng=None, **kw):
    return rec(inputs, cache, tokens_to_logits, num_decodes, cache_offset, eos_id, decode_rng, None, kw)

  def prefilled(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, cache_offset=0, eos_id=None, decode_rng=None, initial_index=None, **kw):
    return rec(inputs, cache, tokens_to_logits, num_decodes, cache_offset, eos_id, decode_rng, initial_index, kw)
  return plain, prefilled


class _Module:
  """The network by its contract: what it is applied to is recorded."""

  def __init__(self, log, scan, prefill):
    self.log = log
    if scan is not None:
      self.scan_layers = scan
    if prefill:
      self.decode = self._with
    else:
      self.decode = self._without
    self.encode = self._encode

  def _encode(self):
    pass

  def _with(self, encoded, prefill=False, prefill_lengths=None):
    pass

  def _without(self, encoded):
    pass

  def apply(self, variables, *a, method=None, **k):
    import jax.numpy as jnp
    if method == self._encode:
      self.log.append(('encode', variables, a, k))
      x = a[0]
      return jx.opaque('encoded', tuple(x.shape) + (2,), np.float32, x)
    self.log.append(('apply', variables, a, k, method))
    x = a[2] if method is not None else a[0]
    return jx.opaque('step_logits', tuple(x.shape) + (7,), np.float32, x), {'cache': 'new cache'}


def predicting(chk, encdec):
  import jax
  import jax.numpy as jnp
  from t5x import decoding, models

  def body(c, nd):
    cls = models.EncoderDecoderModel if encdec else models.DecoderOnlyModel
    need(models, cls.__name__, 'predict_batch_with_aux')
    return_all = c.choose('all decodes', [False, True] + ([None] if encdec else []))
    dflt_all = c.choose('configured: all decodes', [False, True]) if return_all is None else False
    nd_arg = None if return_all is None else nd
    prompt = c.choose('prompt with targets', [False, True]) if encdec else None
    dec_index = c.choose('decode function takes a start', [False, True]) if encdec else True
    mod_prefill = c.choose('module can prefill', [False, True]) if encdec else True
    setting = c.choose('caller settings', ['none', 'empty', 'some', 'end', 'random', 'both'])
    scan = c.choose('scanned layers', [None, False, True]) if setting == 'none' else None
    d = jx.Dims(c, 'b', 'S', 'L')
    ip = jx.Interp(c, d, contracts={f'vc_{k}': (lambda k: lambda ip, eqn, ins: ip.fresh(ip.shape(eqn.outvars[0].aval.shape), eqn.outvars[0].aval.dtype, k))(k)
                                    for k in ('encoded', 'step_logits', 'lengths', 'decodes', 'scores', 'cut')})
    enc, dec = ip.arg('encoder', ('b', 'S'), 'int32'), ip.arg('decoder', ('b', 'L'), 'int32')
    causal = ip.arg('causal', ('b', 'L'), 'int32')
    x_, y_ = z3.Ints('tx ty')
    c._push(z3.ForAll([x_, y_], dec.at(x_, y_) >= 0, patterns=[dec.at(x_, y_)]))
    key, key2, own_eos = ip.arg('key', (2,), 'uint32'), ip.arg('key2', (2,), 'uint32'), 3
    cap = {}

    def f(enc, dec, causal, key, key2):
      log = []

      def record(inputs, cache, t2l, n, off, eos, rng, index, kw):
        cap.update(cache=cache, n=n, off=off, eos=eos, index=index is not None, kw=kw, calls=cap.get('calls', 0) + 1, rng=rng is not None)
        outs['inputs'] = inputs
        if rng is not None:
          outs['rng'] = rng
        if index is not None:
          outs['index'] = index
        B, L = dec.shape
        tok = jnp.zeros((B * n, 1), jnp.int32)
        del log[:]
        st = decoding.DecodingState(cur_index=0, sequences=None, cur_token=tok, cache='flat cache')
        lg, nc = t2l(st)
        cap['step'] = list(log)
        cap['newcache'] = nc
        outs['logits'] = lg
        if encdec and log and log[-1][0] == 'apply':
          outs['flat_encoded'], outs['flat_raw'] = log[-1][2][0], log[-1][2][1]
        outs['decodes'] = jx.opaque('decodes', (B, n, L), np.int32, inputs)
        outs['scores'] = jx.opaque('scores', (B, n), np.float32, inputs)
        return outs['decodes'], outs['scores']
      outs = {}
      plain, prefilled = _decoders(record)
      m = object.__new__(cls)
      m.__dict__.update(_decode_fn=prefilled if dec_index else plain, _output_vocabulary=_Vocab(own_eos), _input_vocabulary=_Vocab(own_eos), module=_Module(log, scan, mod_prefill),
                        _default_decoder_params=models.DecoderParams(return_all_decodes=dflt_all, num_decodes=nd), _inputs_bidirectional_attention=False)

      if encdec:
        def kv(params, encoded_inputs=None, encoder_input_tokens=None, decoder_input_tokens=None, prefill_decoder_prompt=False):
          cap['kv'] = (params, prefill_decoder_prompt)
          outs['kv_encoded'], outs['kv_enc'], outs['kv_dec'], outs['encoded'] = encoded_inputs, encoder_input_tokens, decoder_input_tokens, None
          lens = jx.opaque('lengths', (dec.shape[0],), np.int32, decoder_input_tokens)
          outs['lengths'] = lens
          return 'prefilled cache', lens if prefill_decoder_prompt else None
      else:
        def kv(params, inputs, causal_attention_mask):
          cap['kv'] = (params, True)
          outs['kv_dec'], outs['kv_causal'] = inputs, causal_attention_mask
          lens = jx.opaque('lengths', (dec.shape[0],), np.int32, inputs)
          outs['lengths'] = lens
          return 'prefilled cache', lens
      m._compute_kv_cache = kv
      given = {'none': None, 'empty': {}, 'some': {'alpha': 0.25, 'topk': 3}, 'end': {'eos_id': 9}, 'random': {'decode_rng': key2}, 'both': {'decode_rng': key2}}[setting]
      before = None if given is None else dict(given)
      rng = None if setting == 'random' else key
      batch = {'encoder_input_tokens': enc, 'decoder_input_tokens': dec, 'decoder_causal_attention': causal} if encdec else {'decoder_input_tokens': dec, 'decoder_causal_attention': causal}
      seen_batch = dict(batch)

      def cut(seq, n):
        cap['cut'] = cap.get('cut', 0) + 1
        outs['cut_in'], outs['cut_n'] = seq, n
        outs['cut_out'] = jx.opaque('cut', tuple(seq.shape), np.int32, seq, n)
        return outs['cut_out']
      kw = dict(rng=rng, decoder_params=given, return_all_decodes=return_all, num_decodes=nd_arg)
      if encdec and prompt:
        kw['prompt_with_targets'] = True
      with patched(models, remove_prefix=cut) if not encdec else patched(models):
        try:
          out, aux = m.predict_batch_with_aux('params', batch, **kw)
          cap['rejected'] = False
        except ValueError:
          cap['rejected'] = True
          return {}
      cap['settings kept'] = given is None or (set(given) == set(before) and all(given[k] is before[k] for k in before))
      cap['batch kept'] = set(batch) == set(seen_batch) and all(batch[k] is seen_batch[k] for k in batch)
      cap['aux'] = sorted(aux)
      outs['out'], outs['aux'] = out, aux['scores']
      # a second prediction with the same settings is the same prediction
      if setting != 'random' and given is not None:
        n0 = cap['calls']
        keep, keepcap = dict(outs), dict(cap)
        with patched(models, remove_prefix=cut) if not encdec else patched(models):
          try:
            m.predict_batch_with_aux('params', batch, **kw)
            again = (cap['eos'], cap['index'], cap['kw'], cap['rng'])
          except ValueError:
            again = 'rejected'
        cap.clear()
        cap.update(keepcap)
        cap['again'] = again
        outs.clear()
        outs.update(keep)
      return {k: v for k, v in outs.items() if v is not None}
    r = ip.call(f, enc, dec, causal, key, key2)
    if setting == 'both':
      c.prove('a random key given twice is rejected', cap['rejected'])
      c.cover()
      return
    c.prove('valid settings are accepted', not cap['rejected'])
    if cap.get('calls') != 1 or len([x for x in cap['step'] if x[0] == 'apply']) != 1:
      raise core.Unsupported('the decode function and the network are not used through their contracts')
    b, l, s, e = (c.int(x, 0).t for x in ('row', 'col', 'src', 'decode'))
    B, L, S = d.t('b'), d.t('L'), d.t('S')
    c.assume(z3.And(b < B, l < L, s < S, e < nd))
    want = (z3.If(dec.at(b, l) != own_eos, dec.at(b, l), 0) if prompt else z3.IntVal(0)) if encdec else dec.at(b, l) * causal.at(b, l)
    P = lambda w, x: c.prove(w, core.lift(x))
    shp = lambda x, *w: z3.And(z3.BoolVal(len(x.shape) == len(w)), *[core.zint(p) == core.zint(q) for p, q in zip(x.shape, w)])
    P('the prompt has one row per example', shp(r['inputs'], B, L))
    P('the prompt given to the decoder: the targets without end tokens, or nothing' if encdec else 'the prompt given to the decoder: exactly the input positions', r['inputs'].at(b, l) == want)
    P('the cache is prepared for the same prompt', r['kv_dec'].at(b, l) == want)
    c.prove('the parameters are passed on', cap['kv'][0] == 'params' and cap['step'][-1][1] == {'params': 'params', 'cache': 'flat cache'})
    pre = dec_index and mod_prefill
    c.prove('a prefilled start is used exactly when both sides support it', cap['kv'][1] == pre and cap['index'] == pre)
    if pre:
      P('decoding starts where prefilling ended', r['index'].at(b) == r['lengths'].at(b))
    c.prove('the prepared cache is decoded', cap['cache'] == 'prefilled cache')
    c.prove('the number of decodes is the one asked for', cap['n'] == nd)
    c.prove('scanned layers: the cache has its layer axis first', cap['off'] == (1 if scan else 0))
    c.prove('the end token: the caller\'s, or the vocabulary\'s', cap['eos'] == (9 if setting == 'end' else own_eos))
    c.prove('other settings of the caller reach the decoder', cap['kw'] == ({'alpha': 0.25, 'topk': 3} if setting == 'some' else {}))
    if cap['rng']:
      src = key2 if setting == 'random' else key
      P('the random key reaches the decoder', z3.And(*[r['rng'].at(z3.IntVal(k)) == src.at(z3.IntVal(k)) for k in range(2)]))
    else:
      c.prove('the random key reaches the decoder', False)
    c.prove('the settings of the caller are left as they were', cap['settings kept'])
    c.prove('the batch is left as it was', cap['batch kept'])
    if 'again' in cap:
      c.prove('predicting again with the same settings gives the same calls', cap['again'] == (cap['eos'], cap['index'], cap['kw'], cap['rng']))
    k = cap['step'][-1]
    c.prove('one step: the current tokens, the flat cache, the cache updated, no dropout', k[3].get('decode') is True and k[3].get('enable_dropout') is False and k[3].get('mutable') == ['cache'] and cap['newcache'] == 'new cache')
    P('one step: one row of scores per decode', shp(r['logits'], B * nd, 7))
    if encdec:
      P('each decode of an example sees the encoding of this example', z3.And(shp(r['flat_encoded'], B * nd, S, 2), shp(r['flat_raw'], B * nd, S)))
      P('each decode of an example sees the inputs of this example', r['flat_raw'].at(b * nd + e, s) == enc.at(b, s))
      P('each decode of an example sees the encoding of this example (values)', r['flat_encoded'].at(b * nd + e, s, z3.IntVal(0)) == r['kv_encoded'].at(b, s, z3.IntVal(0)))
      P('the cache is prepared with the encoder inputs', r['kv_enc'].at(b, s) == enc.at(b, s))
    else:
      P('the cache is prepared with the input positions', r['kv_causal'].at(b, l) == causal.at(b, l))
    everything = dflt_all if return_all is None else return_all
    c.prove('scores are reported', cap['aux'] == ['scores'])
    out, src = r['out'], r['decodes']
    if not encdec:
      c.prove('the prompt is cut off once', cap.get('cut') == 1)
      P('the prompt cut off is the prefilled one', r['cut_n'].at(b) == r['lengths'].at(b))
      P('the result is what remains', z3.And(shp(out, *r['cut_out'].shape), out.at(*([b, e, l] if everything else [b, l])) == r['cut_out'].at(*([b, e, l] if everything else [b, l]))))
      out = r['cut_in']
    if everything:
      P('all decodes are returned', z3.And(shp(out, B, nd, L), shp(r['aux'], B, nd)))
      P('all decodes are returned with their scores', z3.And(out.at(b, e, l) == src.at(b, e, l), r['aux'].at(b, e) == r['scores'].at(b, e)))
    else:
      P('one decode per example is returned', z3.And(shp(out, B, L), shp(r['aux'], B)))
      P('the best decode is returned with its score', z3.And(out.at(b, l) == src.at(b, z3.IntVal(nd - 1), l), r['aux'].at(b) == r['scores'].at(b, z3.IntVal(nd - 1))))
    c.cover()
  for nd in (1, 3):
    chk.verify(f'{"EncoderDecoderModel" if encdec else "DecoderOnlyModel"}.predict_batch_with_aux / _compute_logits_from_slice [{nd} decodes]', MOD,
               'any batch: the prompt, cache, start, end token, key and settings reach the decoder unchanged, the caller\'s settings stay as they were, the best decode (or all) is returned', lambda c, nd=nd: body(c, nd),
               seconds=300, max_paths=4000, kind='any batch and lengths; 1 and 3 decodes',
               assumed=['the decode function sorts decodes by increasing score (D03)', '_compute_kv_cache and the network by their contracts'])


def caches(chk, encdec):
  """_compute_kv_cache: what the network is prefilled with."""
  import jax
  import jax.numpy as jnp
  from t5x import models

  def body(c):
    cls = models.EncoderDecoderModel if encdec else models.DecoderOnlyModel
    need(models, cls.__name__, '_compute_kv_cache')
    pre = c.choose('prefill', [False, True]) if encdec else True
    posemb = c.choose('position embedder', [False, True]) if encdec else False
    bidir = c.choose('inputs see each other', [False, True]) if not encdec else False
    d = jx.Dims(c, 'b', 'S', 'L')
    ip = jx.Interp(c, d, contracts={'vc_encoded': lambda ip, eqn, ins: ip.fresh(ip.shape(eqn.outvars[0].aval.shape), np.float32, 'encoded')})
    enc, dec, causal = ip.arg('encoder', ('b', 'S'), 'int32'), ip.arg('decoder', ('b', 'L'), 'int32'), ip.arg('causal', ('b', 'L'), 'int32')
    cap = {}

    def f(enc, dec, causal):
      calls = []

      class Mod:
        def decode(self):
          pass

        def apply(self, variables, *a, method=None, **k):
          names = ('encoder_input_tokens', 'decoder_input_tokens', 'decoder_target_tokens') if encdec else ('decoder_input_tokens', 'decoder_target_tokens')
          calls.append((variables, {**dict(zip(names, a)), **k}, method))
          cc = {'decoder': {'n': len(calls)}}
          if posemb:
            cc['decoder']['position_embedder'] = {'position_embedder_index': 'old', 'kept': 1}
          return 'unused', {'cache': cc}
      m = object.__new__(cls)
      m.__dict__.update(module=Mod(), _inputs_bidirectional_attention=bidir)
      if encdec:
        e = jx.opaque('encoded', tuple(enc.shape) + (2,), np.float32, enc)
        cache, n = m._compute_kv_cache('params', encoded_inputs=e, encoder_input_tokens=enc, decoder_input_tokens=dec, prefill_decoder_prompt=pre)
      else:
        cache, n = m._compute_kv_cache('params', dec, causal)
      out = {} if n is None else {'n': n}
      cap.update(none=n is None, count=len(calls))
      idx = cache['decoder'].get('position_embedder', {}).get('position_embedder_index')
      cap['cache'] = cache['decoder']['n']
      if idx is not None and not isinstance(idx, str):
        out['pos'] = idx
      for i, (v, k, me) in enumerate(calls):
        cap[i] = (v.get('params'), v.get('cache', {}).get('decoder', {}).get('n') if 'cache' in v else None, me == m.module.decode,
                  {x: y for x, y in k.items() if isinstance(y, (bool, list)) or y is None})
        for x, y in k.items():
          if hasattr(y, 'aval') or hasattr(y, 'shape'):
            out[f'{i} {x}'] = y
      if encdec:
        out['e'] = e
      return out
    r = ip.call(f, enc, dec, causal)
    want_calls = 2 if pre else 1
    if cap['count'] != want_calls:
      c.prove('one call creates the cache, one fills it', False)
      return
    b, l, s = (c.int(x, 0).t for x in ('row', 'col', 'src'))
    B, L, S = d.t('b'), d.t('L'), d.t('S')
    c.assume(z3.And(b < B, l < L, s < S))
    P = lambda w, x: c.prove(w, core.lift(x))
    shp = lambda x, *w: z3.And(z3.BoolVal(len(x.shape) == len(w)), *[core.zint(p) == core.zint(q) for p, q in zip(x.shape, w)])
    c.prove('the cache is created in decoding mode, without dropout, by the parameters', cap[0][0] == 'params' and cap[0][3].get('decode') is True and cap[0][3].get('enable_dropout') is False and cap[0][3].get('mutable') == ['cache'])
    P('the cache has the shape of the whole target', shp(r['0 decoder_input_tokens'], B, L))
    c.prove('the latest cache is returned', cap['cache'] == want_calls)
    c.prove('a start is returned exactly when prefilling', cap['none'] == (not pre))
    if pre:
      c.prove('the created cache is filled without dropout, by the same parameters', cap[1][0] == 'params' and cap[1][1] == 1 and cap[1][3].get('prefill') is True and cap[1][3].get('enable_dropout') is False
              and cap[1][3].get('mutable') == ['cache'])
      P('the network is prefilled with the prompt', z3.And(shp(r['1 decoder_input_tokens'], B, L), r['1 decoder_input_tokens'].at(b, l) == dec.at(b, l)))
      P('prefilling ends where decoding starts', z3.And(shp(r['n'], B), r['n'].at(b) == r['1 prefill_lengths'].at(b)))
      n0 = len(c.user.get('sums', []))
      code = list(c.user.get('sums', []))
      w = ip.call(lambda x: jnp.sum((x != 0) if encdec else (x[:, 1:] != 0), axis=-1), dec)
      spec = list(c.user.get('sums', []))[n0:]
      for t in spec:
        for s_ in code:
          if len(s_.dims) == len(t.dims) and s_.nout == t.nout and all(jx.deq(x, y) for x, y in zip(s_.dims, t.dims)):
            ix = [b] * t.nout
            c._push(jx.lemma_linear(c, [(1, s_, tuple(ix)), (-1, t, tuple(ix))]))
      P('decoding starts after the last prompt token', r['n'].at(b) == w.at(b))
      if encdec:
        P('prefilling attends to the encoding of the example', z3.And(r['1 encoded'].at(b, s, z3.IntVal(0)) == r['e'].at(b, s, z3.IntVal(0)), r['1 encoder_input_tokens'].at(b, s) == enc.at(b, s)))
        c.prove('only the decoder runs', cap[1][2])
        if posemb:
          P('positions continue after the prompt', r['pos'].at(b) == w.at(b))
      else:
        P('the mask covers the whole input', r['1 decoder_target_tokens'].at(b, l) == causal.at(b, l))
        c.prove('bidirectional attention exactly when configured', ('1 decoder_causal_attention' in r) == bidir)
        if bidir and '1 decoder_causal_attention' in r:
          P('bidirectional attention over the input', r['1 decoder_causal_attention'].at(b, l) == causal.at(b, l))
    c.cover()
  chk.verify(f'{"EncoderDecoderModel" if encdec else "DecoderOnlyModel"}._compute_kv_cache', MOD,
             'any batch: the cache is created for the whole target, prefilled with the prompt, and decoding starts after its last token', body, seconds=200,
             assumed=['the network fills the cache for the positions it is given'])


def search_predict(rec):
  """Concrete batches: the calls the decode function and the network see."""
  import jax
  import jax.numpy as jnp
  from t5x import decoding, models
  rng = np.random.default_rng(7)
  for i in range(24):
    if rec.full:
      return
    encdec = i % 2 == 0
    nd, B, L = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 6))
    own_eos = [1, 3][i % 5 % 2]
    prompt, allout = bool(i % 3), bool(i % 4 > 1)
    setting = [None, {}, {'alpha': 0.5}, {'eos_id': 4}][(i // 2) % 4]
    dec = rng.integers(0, 6, (B, L)).astype(np.int32)
    causal = rng.integers(0, 2, (B, L)).astype(np.int32)
    enc = rng.integers(0, 6, (B, 3)).astype(np.int32)
    dcs = rng.integers(0, 9, (B, nd, L)).astype(np.int32)
    scs = np.sort(rng.normal(size=(B, nd)).astype(np.float32), -1)

    def case():
      calls = []

      scan = i % 5 == 1

      class Mod:
        def encode(self):
          pass

        def decode(self, encoded, prefill=False, prefill_lengths=None):
          pass

        def apply(self, variables, *a, method=None, **k):
          if method == self.encode:
            return jnp.asarray(a[0]).astype(jnp.float32)[..., None] * 2
          calls.append(('net', a))
          return jnp.zeros((nd * B, 1, 5)), {'cache': 'c2'}

      def decode_fn(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, cache_offset=0, initial_index=None, eos_id=None, decode_rng=None, **kw):
        if cache_offset != (1 if scan else 0):
          raise AssertionError(f'cache offset {cache_offset}, layers scanned: {scan}')
        calls.append(('decode', np.asarray(inputs), cache, num_decodes, np.asarray(initial_index), eos_id, np.asarray(decode_rng).tolist(), kw))
        tokens_to_logits(decoding.DecodingState(cur_index=0, sequences=None, cur_token=jnp.zeros((nd * B, 1), jnp.int32), cache='c1'))
        return jnp.asarray(dcs), jnp.asarray(scs)
      cls = models.EncoderDecoderModel if encdec else models.DecoderOnlyModel
      m = object.__new__(cls)
      m.__dict__.update(_decode_fn=decode_fn, _output_vocabulary=_Vocab(own_eos), _input_vocabulary=_Vocab(own_eos), module=Mod(), _default_decoder_params=models.DecoderParams(), _inputs_bidirectional_attention=False)
      zero = jnp.zeros((B,), jnp.int32)
      if scan:
        m.module.scan_layers = True
      kvs = []

      def kv(*a, **k):
        kvs.append((a, k))
        return 'c0', zero
      m._compute_kv_cache = kv
      batch = {'encoder_input_tokens': jnp.asarray(enc), 'decoder_input_tokens': jnp.asarray(dec), 'decoder_causal_attention': jnp.asarray(causal)}
      own = None if setting is None else dict(setting)
      kw = dict(rng=jax.random.PRNGKey(3), decoder_params=own, return_all_decodes=allout, num_decodes=nd)
      if encdec:
        kw['prompt_with_targets'] = prompt
      res = []
      for _ in range(2):
        del calls[:]
        try:
          out, aux = m.predict_batch_with_aux({}, batch, **kw)
        except ValueError as e:
          return f'prediction {len(res) + 1} with the same settings is rejected: {e}'
        except AssertionError as e:
          return str(e)
        if own != setting:
          return f'the settings of the caller became {sorted(own)}'
        d, n = calls[0], calls[1]
        want = (np.where(dec != own_eos, dec, 0) if prompt else 0 * dec) if encdec else dec * causal
        if not np.array_equal(d[1], want):
          return f'the prompt is {d[1]}, expected {want}'
        a, k = kvs[-1]
        for nm, at, w in (('decoder_input_tokens', 3, want), ('encoder_input_tokens', 2, enc)) if encdec else (('inputs', 1, want), ('causal_attention_mask', 2, causal)):
          x = k[nm] if nm in k else a[at] if len(a) > at else None
          if x is None or not np.array_equal(x, w):
            return f'the cache is prepared for {nm} {x}, expected {w}'
        if d[3] != nd or d[5] != (setting or {}).get('eos_id', own_eos) or d[2] != 'c0' or d[7] != {k: v for k, v in (setting or {}).items() if k != 'eos_id'} or d[6] != [0, 3]:
          return f'the decoder gets {d[2:]}'
        if encdec and not (np.array_equal(n[1][1], np.repeat(enc, nd, 0)) and np.array_equal(n[1][0], np.repeat(enc, nd, 0)[..., None] * 2.0)):
          return 'a decode does not see the inputs of its example'
        if not np.array_equal(out, dcs if allout else dcs[:, -1]) or not np.array_equal(aux['scores'], scs if allout else scs[:, -1]):
          return 'the result is not the best decode (or all of them)'
        res.append(out)
    rec.run(['encoder-decoder' if encdec else 'decoder-only', i, nd, str(setting)], case)


def search_cache(rec):
  """Concrete prompts: what the cache is prefilled with."""
  import jax.numpy as jnp
  from t5x import models
  rng = np.random.default_rng(11)
  for i in range(24):
    if rec.full:
      return
    encdec = i % 2 == 0
    B, L = int(rng.integers(1, 4)), int(rng.integers(2, 7))
    lens = rng.integers(0, L, B)
    dec = np.zeros((B, L), np.int32)
    causal = np.zeros((B, L), np.int32)
    for b, n in enumerate(lens):
      dec[b, 1:n + 1] = rng.integers(1, 6, n)
      causal[b, :n + 1] = 1
    if not encdec and i % 3 == 0:
      dec[:, 0] = 7               # a begin-of-sequence token other than padding
    enc = rng.integers(1, 6, (B, 3)).astype(np.int32)
    bidir, pos = bool(i % 4 > 1), bool(i % 3)

    def case():
      calls = []

      class Mod:
        def decode(self):
          pass

        def apply(self, variables, *a, method=None, **k):
          names = ('encoder_input_tokens', 'decoder_input_tokens', 'decoder_target_tokens') if encdec else ('decoder_input_tokens', 'decoder_target_tokens')
          calls.append((variables, {**dict(zip(names, a)), **k}, method))
          cc = {'decoder': {'n': len(calls)}}
          if pos:
            cc['decoder']['position_embedder'] = {'position_embedder_index': -1}
          return None, {'cache': cc}
      m = object.__new__(models.EncoderDecoderModel if encdec else models.DecoderOnlyModel)
      m.__dict__.update(module=Mod(), _inputs_bidirectional_attention=bidir)
      if encdec:
        cache, n = m._compute_kv_cache('p', encoded_inputs=enc * 2.0, encoder_input_tokens=jnp.asarray(enc), decoder_input_tokens=jnp.asarray(dec), prefill_decoder_prompt=True)
      else:
        cache, n = m._compute_kv_cache('p', jnp.asarray(dec), jnp.asarray(causal))
      if len(calls) != 2 or cache['decoder']['n'] != 2:
        return f'{len(calls)} calls of the network'
      if not np.array_equal(n, lens):
        return f'decoding starts at {n}, expected {lens}'
      k = calls[1][1]
      if not np.array_equal(k['prefill_lengths'], lens) or not np.array_equal(k['decoder_input_tokens'], dec) or np.shape(calls[0][1]['decoder_input_tokens']) != dec.shape:
        return 'the network is prefilled with something else'
      if encdec:
        if not np.array_equal(k['encoded'], enc * 2.0) or not np.array_equal(k['encoder_input_tokens'], enc):
          return 'prefilling attends to other inputs'
        if pos and not np.array_equal(cache['decoder']['position_embedder']['position_embedder_index'], lens):
          return 'positions do not continue after the prompt'
      else:
        if not np.array_equal(k['decoder_target_tokens'], causal) or (k['decoder_causal_attention'] is not None) != bidir:
          return 'the attention of the prefilled positions is wrong'
    rec.run(['encoder-decoder' if encdec else 'decoder-only', i, dec, bidir], case)


if __name__ == '__main__':
  def build(chk):
    dec, calm = mods()
    for m, f, cm in ((dec, DEC, False), (calm, CALM, True)):
      trial(chk, m, f, 'greedy', dict(temp=0.0), cm)
      trial(chk, m, f, 'plain', dict(), cm)
      trial(chk, m, f, 'prefilled', dict(index=True, topk=3), cm)
      trial(chk, m, f, 'steps', dict(steps='traced', topp=0.5), cm)
      trial(chk, m, f, 'prefilled, steps', dict(index=True, steps='traced'), cm)
      trial(chk, m, f, 'model scores', dict(rescale=False, topk=3), cm)
      if not cm:
        trial(chk, m, f, 'temperatures', dict(vec=1, topk=3), cm)
        trial(chk, m, f, 'temperatures, two decodes', dict(vec=2), cm)
        trial(chk, m, f, 'temperatures, model scores', dict(vec=2, rescale=False), cm)
      for n in (1, 2, 3):
        outer(chk, m, f, n, {}, cm)
      outer(chk, m, f, 2, dict(index=True, steps=True, hard=4), cm)
      outer(chk, m, f, 3, dict(index=True, offset=1, rescale=False), cm)
      outer(chk, m, f, 2, dict(steps=True, offset=1), cm)
    predicting(chk, True)
    predicting(chk, False)
    caches(chk, True)
    caches(chk, False)
    chk.search('prefilled caches', '24 random prompts', search_cache)
    chk.search('predictions', '24 batches, two predictions with the same settings each', search_predict)
    chk.search('sampling with scripted models', '70 (400) random tables, prompts, limits, temperatures', search, case_seconds=90)
  main('D02', build)
