"""O01: Adafactor factorisation rules, slots and updates."""

import itertools
import random

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx, seq
from vc.check import main, need
from vc.core import AND, IMP, NOT, OR, forall, lift, zint
from vc.h import patched
from vc.transform import LoopSpec, StubNS, clone

AF = 't5x/adafactor.py'
MO = 't5x/contrib/moe/adafactor_utils.py'


def mod():
  from t5x import adafactor
  return adafactor


# ------------------------------------------------------------ rule matching
def hparam_map(chk):
  m = clone(AF)

  class Pat:

    def __init__(self, M, i):
      self.M, self.i = M, i

    def search(self, k, *a):
      if a:
        raise core.Unsupported('search with a range')
      return object() if self.M(self.i, k) else None

    def __getattr__(self, n):
      raise core.Unsupported(f'pattern.{n}')

  class Loop(LoopSpec):
    name = 'loop over the rules'

    def inv(self, L, env):
      yield 'no earlier rule matches', self.first(env['key']) >= L.i

  def body(c):
    need(m, 'HParamMap')
    I, B = z3.IntSort(), z3.BoolSort()
    n = c.int('rules', 0)
    mf, val, fst = c.func('matches', I, I, B), c.func('value', I, I), c.func('first', I, I)
    M = lambda i, k: lift(mf(zint(i), zint(k)))
    F = lambda k: lift(fst(zint(k)))
    c.assume(forall(1, lambda k: AND(F(k) >= 0, F(k) <= n, IMP(F(k) < n, M(F(k), k))), patterns=[lambda k: fst(k)]))
    c.assume(forall(2, lambda k, i: IMP(AND(i >= 0, i < F(k)), NOT(M(i, k))), patterns=[lambda k, i: z3.MultiPattern(fst(k), mf(i, k))]))
    o = m.HParamMap.__new__(m.HParamMap)
    o._rules = seq.SymSeq(n, lambda i: (Pat(M, i), lift(val(zint(i)))))
    sp = Loop()
    sp.first = F
    m.__vc_rt__.loop_specs = {'HParamMap.__getitem__#0': sp}
    k = c.int('key', inp=False)
    try:
      v = o[k]
      c.prove('the value of the first rule that matches the name', AND(F(k) < n, v == lift(val(zint(F(k))))))
    except KeyError:
      c.prove('an error only if no rule matches', F(k) == n)
    c.cover()
  chk.verify('HParamMap.__getitem__', AF, 'any number of rules: value of the first match, KeyError if none', body,
             assumed=['re.search is a function of pattern and name'])


# ----------------------------------------------------------- factorisation
def factored_dims(chk, n):
  """The two largest dimensions, for every size of them."""
  m = clone(AF)
  real = dict(m.__dict__)

  def body(c):
    m.__dict__.update(real)
    factored = c.choose('factored', [True, False])
    low = c.int('min_dim_size_to_factor', 0)
    shape = tuple(c.int(f'size{i}', 0) for i in range(n))

    def argsort(s, *a, **k):
      if a or k:
        raise core.Unsupported('argsort options')
      if not (isinstance(s, (tuple, list)) and len(s) == n and all(x is y for x, y in zip(s, shape))):
        raise core.Unsupported('argsort of something else')
      p = c.choose('order', list(itertools.permutations(range(n))))
      for x, y in zip(p, p[1:]):
        c.assume(s[x] <= s[y])
      return list(p)
    m.np = StubNS(np, argsort=argsort)
    try:
      o = m.Adafactor(factored=factored, min_dim_size_to_factor=128)
      o.hyper_params = o.hyper_params.replace(min_dim_size_to_factor=low)
      r = o._factored_dims(shape)
      big = OR(*[AND(shape[i] >= low, shape[j] >= low) for i in range(n) for j in range(i)]) if n > 1 else False
      if r is None:
        c.prove('not factored only if off, or no two dimensions are large enough', OR(not factored, NOT(big)))
      else:
        (d1,), (d0,) = r
        c.prove('factored only if on and two dimensions are large enough', AND(factored, big))
        c.prove('along two different dimensions', d1 != d0 and 0 <= d0 < n and 0 <= d1 < n)
        c.prove('the two largest', AND(shape[d1] <= shape[d0], *[shape[i] <= shape[d1] for i in range(n) if i not in (d0, d1)]))
      c.cover()
    finally:
      m.__dict__.update(real)
  chk.verify(f'Adafactor._factored_dims [rank {n}]', AF, 'all sizes and thresholds: the two largest dimensions or none', body,
             assumed=['np.argsort returns a sorting permutation'])


def want_rule(af, rule, shape):
  """(averaging dims, factor dims) by the documentation; None for an error."""
  n = len(shape)
  D = af.FactorDim
  if rule is None:
    return tuple(range(n)), None
  if rule is af.HEURISTIC_RULE:
    return None if n > 2 else (tuple(range(n)), af.HEURISTIC_RULE)
  if len(rule) != n:
    return None
  row = tuple(i for i, d in enumerate(rule) if d is D.ROW)
  col = tuple(i for i, d in enumerate(rule) if d is D.COLUMN)
  bat = [i for i, d in enumerate(rule) if d is D.BATCH]
  if n <= 2 and not bat:
    return tuple(range(n)), af.HEURISTIC_RULE
  return tuple(i for i in range(n) if i not in bat), (row, col) if row or col else None


def rules_of(af, n):
  yield None
  yield af.HEURISTIC_RULE
  yield from itertools.product(tuple(af.FactorDim), repeat=n)


def norm(r):
  if r is None:
    return None
  f = r[1]
  return tuple(int(x) for x in r[0]), tuple(tuple(int(y) for y in x) for x in f) if isinstance(f, tuple) else f


def parse_rule(chk, n):
  """Every rule for rank n; sizes are irrelevant (arbitrary)."""
  m = clone(AF)

  def body(c):
    need(m, 'Adafactor', '_parse_rule')
    shape = tuple(c.int(f'size{i}', 0) for i in range(n))
    bad = []
    for rule in list(rules_of(m, n)) + list(itertools.product(tuple(m.FactorDim), repeat=n + 1))[:20]:
      want = want_rule(m, rule, shape)
      try:
        got = norm(m.Adafactor._parse_rule(rule, shape, 'p'))
      except ValueError:
        got = None
      if got != want:
        bad.append((rule, got, want))
    c.prove('averaging and factored dimensions are those of the rule, wrong ranks are errors', not bad, note=str(bad[:2]))
    c.cover()
  chk.verify(f'Adafactor._parse_rule [rank {n}]', AF, 'every rule of this rank, any sizes', body)


def slots(chk, n, factored=True):
  """init_param_state: slot shapes for every rule and size."""
  m = clone(AF)
  real = dict(m.__dict__)

  def body(c):
    m.__dict__.update(real)
    import jax.numpy as jnp
    shape = tuple(c.int(f'size{i}', 1) for i in range(n))

    class Z:

      def __init__(self, shape, dtype=None):
        self.shape = tuple(shape) if isinstance(shape, (tuple, list, np.ndarray)) else (shape,)
        self.dtype = dtype

    def delete(s, ds, *a):
      if a:
        raise core.Unsupported('delete along an axis')
      if isinstance(s, np.ndarray):
        return np.delete(s, ds)
      ds = [int(x) for x in (ds if isinstance(ds, (tuple, list, np.ndarray)) else [ds])]
      return tuple(x for i, x in enumerate(s) if i not in ds)
    m.np = StubNS(np, delete=delete)
    m.jnp = StubNS(jnp, zeros=lambda s, dtype=None: Z(s, dtype))
    mom = c.choose('momentum', [None, 0.9, 0.0])
    rules = list(rules_of(m, n)) if factored else [None]
    rule = c.choose('rule', rules) if len(rules) <= 70 else None
    pool = [rule] if len(rules) <= 70 else [r for i, r in enumerate(rules) if (i * 7919) % len(rules) < 200]
    pair = c.choose('largest', [None] + [((i,), (j,)) for i in range(n) for j in range(n) if i != j][:4])
    for rule in pool:
      o = m.Adafactor(factored=factored, beta1=mom, dtype_momentum=jnp.bfloat16, factor_map=m.HParamMap([('q', 17), ('p', rule)]) if factored else None)
      o._factored_dims = lambda s: pair
      par = type('P', (), dict(shape=shape, ndim=n, dtype=np.dtype('float32')))()
      want = want_rule(m, rule, shape)
      try:
        st = o.init_param_state(par, 'a/p')
      except ValueError:
        c.prove('an error only for a parameter that needs an explicit rule', want is None)
        continue
      f = want[1] if want is not None else None
      if f is m.HEURISTIC_RULE:
        f = pair
      one = lambda z: len(z.shape) == 1 and z.shape[0] is 1 or z.shape == (1,)  # noqa: F632
      cut = lambda ds: [shape[i] for i in range(n) if i not in ds]
      same = lambda z, w: len(z.shape) == len(w) and all(x is y for x, y in zip(z.shape, w))
      if f is not None:
        ok = same(st.v_row, cut(f[1])) and same(st.v_col, cut(f[0])) and one(st.v) and st.v_row.dtype == st.v_col.dtype == jnp.float32
      else:
        ok = same(st.v, shape) and one(st.v_row) and one(st.v_col) and st.v.dtype == jnp.float32
      c.prove('row and column slots, or a full one, as the rule implies', want is not None and ok, note=f'{rule}')
      c.prove('a momentum slot only with momentum', (same(st.m, shape) and st.m.dtype == jnp.bfloat16) if mom is not None else one(st.m), note=f'{rule}')
    c.cover()
    m.__dict__.update(real)
  chk.verify(f'Adafactor.init_param_state [rank {n}{"" if factored else ", not factored"}]', AF, 'every rule of this rank' + (' (a fixed sample of them)' if 4 ** n + 2 > 70 else '') + ', any sizes: slot shapes', body,
             kind='bounded' if 4 ** n + 2 > 70 else 'unbounded',
             assumed=['_factored_dims by contract', 'np.delete and jnp.zeros by their shape'])


# ------------------------------------------------------------------ updates
def match_sums(c, code, spec):
  """Shows, in order, that sums of the specification are sums of the code."""
  for t in spec:
    for s in code:
      if len(s.dims) != len(t.dims) or s.nout != t.nout or not all(jx.deq(a, b) for a, b in zip(s.dims, t.dims)):
        continue
      ix = [z3.Int(c.fresh_name('mi')) for _ in range(t.nout)]
      goal = s.at(*ix) != t.at(*ix)
      if core.check_sat(list(c.pc) + [jx.lemma_linear(c, [(1, s, tuple(ix)), (-1, t, tuple(ix))]), goal], 3000, use_cvc5=False)[0] == 'unsat':
        q = [z3.Int(c.fresh_name('mq') + '#') for _ in ix]
        c._push(z3.ForAll(q, s.at(*q) == t.at(*q), patterns=[t.at(*q)]) if q else s.at() == t.at())
        break


def spec_update(jnp, fd, avg, h, step, p, st, g, mom):
  """One update by the documentation (arXiv 1804.04235, with options)."""
  lr = h['learning_rate']
  beta2 = 1.0 - (jnp.asarray(step - h['step_offset'], jnp.float32) + 1.0) ** (-h['decay_rate'])
  g2 = g * g + h['epsilon1']
  new = {}
  if fd is not None:
    row, col = fd
    r = new['v_row'] = beta2 * st['v_row'] + (1.0 - beta2) * jnp.mean(g2, axis=col)
    q = new['v_col'] = beta2 * st['v_col'] + (1.0 - beta2) * jnp.mean(g2, axis=row)
    # position of the row dimensions once the columns are gone
    left = [i for i in range(p.ndim) if i not in col]
    at = tuple(left.index(i) for i in row)
    rf = (r / jnp.mean(r, axis=at, keepdims=True)) ** -0.5
    u = g * jnp.expand_dims(rf, col) * jnp.expand_dims(q ** -0.5, row)
  else:
    v = new['v'] = beta2 * st['v'] + (1.0 - beta2) * g2
    u = g * v ** -0.5
  if h['clipping_threshold'] is not None:
    u = u / jnp.maximum(1.0, jnp.sqrt(jnp.mean(u * u, axis=avg, keepdims=True)) / h['clipping_threshold'])
  scale = lr
  if h['multiply_by_parameter_scale']:
    s = jnp.maximum(jnp.sqrt(jnp.mean(p * p, axis=avg, keepdims=True)), h['epsilon2'])
    if h['max_parameter_scale'] is not None:
      s = jnp.minimum(s, h['max_parameter_scale'])
    scale = lr * s
  u = scale * u
  if mom:
    u = new['m'] = h['beta1'] * st['m'] + (1.0 - h['beta1']) * u
  wd = h['weight_decay_rate']
  if h['weight_decay_rate_lr_exponent']:
    wd = (1.0 if wd is None else wd) * lr ** h['weight_decay_rate_lr_exponent']
  newp = (p if wd is None else (1.0 - wd) * p) - u
  if h['skip_nan_updates']:
    for k in new:
      new[k] = jnp.where(jnp.isnan(new[k]), st[k], new[k])
    newp = jnp.where(jnp.isnan(newp), p, newp)
  return newp, new


SYM = ('learning_rate', 'beta1', 'decay_rate', 'clipping_threshold', 'epsilon1', 'epsilon2', 'max_parameter_scale', 'weight_decay_rate')
BASE = dict(multiply_by_parameter_scale=True, clipping_threshold='sym', beta1=None, weight_decay_rate=None, weight_decay_rate_lr_exponent=None,
            max_parameter_scale=None, skip_nan_updates=False)
ALL = dict(beta1='sym', weight_decay_rate='sym', max_parameter_scale='sym')
CONFIGS = (
    ('plain', {}), ('everything', ALL), ('no clipping', dict(clipping_threshold=None)), ('absolute steps', dict(multiply_by_parameter_scale=False)),
    ('absolute steps for this parameter', dict(multiply_by_parameter_scale='map-off')), ('scaled steps for this parameter', dict(multiply_by_parameter_scale='map-on')),
    ('momentum', dict(beta1='sym')), ('weight decay', dict(weight_decay_rate='sym')), ('weight decay by rate', dict(weight_decay_rate_lr_exponent=2.0)),
    ('weight decay times rate', dict(weight_decay_rate_lr_exponent=2.0, weight_decay_rate=0.25)),
    ('no weight decay times rate', dict(weight_decay_rate_lr_exponent=2.0, weight_decay_rate=0.0)),
    ('bounded scale', dict(max_parameter_scale='sym')), ('skipping', dict(skip_nan_updates=True, beta1='sym')))


def update(chk, nm, dims, rule, pair, confs, factored=True):
  """apply_param_gradient against the formula, for all sizes and values."""
  af = mod()
  D = af.FactorDim
  for cn, over in confs:
    conf = dict(BASE, **over)

    def body(c, conf=conf):
      import jax.numpy as jnp
      core.QUERY_MS = max(core.QUERY_MS, 15000)
      d = jx.Dims(c, *dims, lo={k: 1 for k in dims})
      ip = jx.Interp(c, d)
      ip.nans = ip.finv = True
      n = len(dims)
      names = list(dims)
      want = want_rule(af, rule, (0,) * n)
      avg, fd = want
      if fd is af.HEURISTIC_RULE:
        fd = pair
      cut = lambda ds: tuple(x for i, x in enumerate(names) if i not in ds)
      sh = dict(v_row=cut(fd[1]) if fd else (1,), v_col=cut(fd[0]) if fd else (1,), v=(1,) if fd else tuple(names), m=tuple(names) if conf['beta1'] is not None else (1,))
      p, g = (ip.arg(k, tuple(names), 'float32') for k in ('param', 'grad'))
      st = {k: ip.arg(k, v, 'float32') for k, v in sh.items()}
      step, off = ip.arg('step', (), 'int32'), ip.arg('step_offset', (), 'int32')
      used = [k for k in SYM if conf.get(k, 'sym') == 'sym']
      hs = {k: ip.arg(k, (), 'float32') for k in used}
      mult = conf['multiply_by_parameter_scale']

      def hyper(vals, o):
        h = dict(conf, **vals)
        h['step_offset'] = o
        return h

      def real(p, g, step, off, st, vals):
        h = hyper(vals, off)
        if mult in ('map-off', 'map-on'):
          h['multiply_by_parameter_scale'] = af.HParamMap([('x', mult != 'map-on'), ('p', mult == 'map-on')])
        o = af.Adafactor(factored=factored, factor_map=af.HParamMap([('x', 3), ('a/p', rule)]) if factored else None)
        o._factored_dims = lambda s: pair
        np_, s = o.apply_param_gradient(step, o.hyper_params.replace(**h), p, af._AdafactorParamState(**st), g, 'a/p')
        return np_, {k: getattr(s, k) for k in ('v_row', 'v_col', 'v', 'm')}

      def spec(p, g, step, off, st, vals):
        h = hyper(vals, off)
        if mult in ('map-off', 'map-on'):
          h['multiply_by_parameter_scale'] = mult == 'map-on'
        return spec_update(jnp, fd, avg, h, step, p, st, g, conf['beta1'] is not None)
      np_, ns = ip.call(real, p, g, step, off, st, hs)
      cs = list(c.user.get('sums', []))
      sp, ss = ip.call(spec, p, g, step, off, st, hs)
      ix = [c.int(f'i{k}', 0).t for k in range(n)]
      c.assume(jx.inb(ix, p.shape) if n else z3.BoolVal(True))
      spec_sums = list(c.user.get('sums', []))[len(cs):]
      at = {}
      for k, v in sh.items():
        at[k] = tuple(ix[names.index(x)] if x in names else z3.IntVal(0) for x in v)
      # positive statistics: no division by zero
      match_sums(c, cs, spec_sums)
      for k in ss:
        c.prove(f'{k} follows the formula', ns[k].at(*at[k]) == ss[k].at(*at[k]))
      c.prove('slots not in use are placeholders', all(len(ns[k].shape) == 1 and jx.cint(ns[k].shape[0]) == 1 for k in sh if k not in ss))
      c.prove('the shapes of the slots in use stay', all(len(ns[k].shape) == len(st[k].shape) and all(jx.deq(a, b) for a, b in zip(ns[k].shape, st[k].shape)) for k in ss))
      c.prove('the parameter follows the formula', np_.at(*ix) == sp.at(*ix))
      c.cover()
    chk.verify(f'Adafactor.apply_param_gradient [{nm}; {cn}]', AF, 'any sizes, values, statistics, step and hyper-parameters: the documented update', body, seconds=150,
               assumed=['floats are reals, 1/0 is left open; NaN is an abstract predicate on values', '_factored_dims by contract'])


def updates(chk):
  D = mod().FactorDim
  B, R, C, N = D.BATCH, D.ROW, D.COLUMN, D.NONE
  H = mod().HEURISTIC_RULE
  some = [CONFIGS[1], CONFIGS[12]]
  update(chk, 'matrix, rows x columns', ('r', 'k'), H, ((0,), (1,)), CONFIGS)
  update(chk, 'vector', ('r',), H, None, CONFIGS)
  update(chk, 'matrix, columns x rows', ('r', 'k'), (C, R), ((1,), (0,)), some)
  update(chk, 'small matrix', ('r', 'k'), H, None, some)
  update(chk, 'scalar', (), H, None, some)
  update(chk, 'stacked matrices', ('b', 'r', 'k'), (B, R, C), None, CONFIGS)
  update(chk, 'two column dimensions', ('r', 'k', 'h'), (R, C, C), None, some)
  update(chk, 'two row dimensions', ('r', 'k', 'h'), (R, C, R), None, some)
  update(chk, 'column, batch, row', ('r', 'k', 'h'), (C, B, R), None, some)
  update(chk, 'rank 4', ('r', 'b', 'k', 'h'), (C, B, R, C), None, some)
  update(chk, 'columns first', ('k', 'h', 'r', 'b'), (C, C, R, B), None, some)
  update(chk, 'stacked vectors', ('b', 'k'), (B, N), None, some)
  update(chk, 'stacked, not factored', ('b', 'r', 'k'), (B, N, N), None, some)
  update(chk, 'not factored', ('b', 'r', 'k'), None, None, some, factored=False)


def whole(chk):
  """apply_gradient over a tree of three parameters."""
  af = mod()
  import flax

  for clip, frozen in ((False, False), (True, False), (True, True)):
    def body(c, clip=clip, frozen=frozen):
      import jax.numpy as jnp
      d = jx.Dims(c, 'r', 'k', 'h', lo={k: 1 for k in 'rkh'})
      seen = []

      def upd_h(ip, eqn, ins):
        a = eqn.outvars[0].aval
        seen.append(ins)
        return ip.fresh(ip.shape(a.shape), a.dtype, 'new')
      ip = jx.Interp(c, d, contracts={'vc_upd': upd_h, 'vc_slot': upd_h})
      shapes = {'a/w': ('r', 'k'), 'b': ('h',), 'c/d/e': ('k',)}
      ps = {k: ip.arg('p_' + k, v, 'float32') for k, v in shapes.items()}
      gs = {k: ip.arg('g_' + k, v, 'float32') for k, v in shapes.items()}
      vs = {k: ip.arg('v_' + k, v, 'float32') for k, v in shapes.items()}
      step, t = ip.arg('step', (), 'int32'), 2.0
      calls = {}

      def nest(flat, order=1):
        out = {}
        for k, v in list(flat.items())[::order]:
          cur = out
          q = k.split('/')
          for x in q[:-1]:
            cur = cur.setdefault(x, {})
          cur[q[-1]] = v
        return out

      def real(ps, gs, vs, step):
        o = af.Adafactor(1e-3, global_norm_clip_threshold=t if clip else None)

        def one(step, hp, param, state, grad, path):
          if path in calls:
            raise AssertionError(f'{path} updated twice')
          calls[path] = (step, hp, param, state.v, grad)
          return jx.opaque('upd', param.shape, param.dtype, param, grad, state.v, step), state.replace(v=jx.opaque('slot', state.v.shape, state.v.dtype, state.v, grad))
        o.apply_param_gradient = one
        z = jnp.zeros((1,))
        S = {k: af._AdafactorParamState(v_row=z, v_col=z, v=v, m=z) for k, v in vs.items()}
        fz = flax.core.freeze if frozen else lambda x: x
        np_, ns = o.apply_gradient(o.hyper_params, fz(nest(ps)), af.OptimizerState(step, fz(nest(S, -1))), fz(nest(gs, -1)))
        out = af.utils.flatten_dict_string_keys(np_)
        sl = af.utils.flatten_dict_string_keys(ns.param_states)
        assert set(out) == set(sl) == set(ps), f'{sorted(out)} {sorted(sl)}'
        return {k: (out[k], sl[k].v) for k in out}, ns.step

      def spec(gs):
        s = sum(jnp.sum(g * g) for g in gs.values())
        return s
      res, nstep = ip.call(real, ps, gs, vs, step)
      cs = list(c.user.get('sums', []))
      tot = ip.call(spec, gs)
      match_sums(c, cs, list(c.user.get('sums', []))[len(cs):])
      c.prove('the step advances by one', nstep.at() == step.at() + 1)
      c.prove('every parameter is updated once', sorted(calls) == sorted(shapes))
      i, j = c.int('i', 0).t, c.int('j', 0).t
      nrm = jx.sqrt_(c, tot.at())
      c.assume(tot.at() > 0)
      per = {}
      for ins in seen:
        for k in shapes:
          if ins[0] is ps[k] or (len(ins) == 4 and ins[0].ndim == len(shapes[k]) and all(jx.deq(a, b) for a, b in zip(ins[0].shape, ps[k].shape))):
            per[k] = ins
      for k in shapes:
        ix = (i, j)[:len(shapes[k])]
        if k not in per:
          raise core.Unsupported('the update of a parameter was not seen')
        p_, g_, v_, s_ = per[k][:4]
        if not p_.ndim == g_.ndim == v_.ndim == len(ix):
          c.prove(f'{k}: the update is given its own parameter, slot, gradient and the step', False)
          continue
        c.prove(f'{k}: the update is given its own parameter, slot and the step', z3.And(p_.at(*ix) == ps[k].at(*ix), v_.at(*ix) == vs[k].at(*ix), s_.at() == step.at()))
        f = z3.If(nrm <= core.zreal(t), core.zreal(1), core.zreal(t) / nrm) if clip else core.zreal(1)
        c.prove(f'{k}: the gradient' + (' is scaled to the global norm' if clip else ' is its own'), g_.at(*ix) == gs[k].at(*ix) * f)
      c.cover()
    chk.verify(f'Adafactor.apply_gradient [{"global norm clipping" if clip else "plain"}{", frozen" if frozen else ""}]', AF, 'three parameters of any sizes: each updated once with its own slot and (clipped) gradient', body, kind='bounded',
               assumed=['apply_param_gradient by contract', 'the global norm is positive'])


# ---------------------------------------------------------------- bounded
def np_update(fd, avg, h, step, p, st, g):
  f = lambda x: np.asarray(x, np.float64)
  p, g = f(p), f(g)
  st = {k: f(v) for k, v in st.items()}
  b2 = 1 - (step - h['step_offset'] + 1.0) ** -h['decay_rate']
  g2 = g * g + h['epsilon1']
  new = {}
  with np.errstate(all='ignore'):
    if fd is not None:
      row, col = fd
      r = new['v_row'] = b2 * st['v_row'] + (1 - b2) * g2.mean(axis=col)
      q = new['v_col'] = b2 * st['v_col'] + (1 - b2) * g2.mean(axis=row)
      left = [i for i in range(p.ndim) if i not in col]
      v = np.expand_dims(r / r.mean(axis=tuple(left.index(i) for i in row), keepdims=True), col) * np.expand_dims(q, row)
    else:
      v = new['v'] = b2 * st['v'] + (1 - b2) * g2
    u = g / np.sqrt(v)
    if h['clipping_threshold'] is not None:
      u = u / np.maximum(1, np.sqrt((u * u).mean(axis=avg, keepdims=True)) / h['clipping_threshold'])
    s = h['learning_rate']
    if h['multiply_by_parameter_scale']:
      rms = np.maximum(np.sqrt((p * p).mean(axis=avg, keepdims=True)), h['epsilon2'])
      s = s * (rms if h['max_parameter_scale'] is None else np.minimum(rms, h['max_parameter_scale']))
    u = s * u
    if h['beta1'] is not None:
      u = new['m'] = h['beta1'] * st['m'] + (1 - h['beta1']) * u
    wd = h['weight_decay_rate']
    if h['weight_decay_rate_lr_exponent']:
      wd = (1.0 if wd is None else wd) * h['learning_rate'] ** h['weight_decay_rate_lr_exponent']
    n = (p if wd is None else (1 - wd) * p) - u
  if h['skip_nan_updates']:
    new = {k: np.where(np.isnan(v), st[k], v) for k, v in new.items()}
    n = np.where(np.isnan(n), p, n)
  return n, new


def update_search(rec):
  import jax.numpy as jnp
  af = mod()
  D = tuple(af.FactorDim)
  rnd = random.Random(7)
  for t in range(900 if env.TIER == 'thorough' else 100):
    if rec.full:
      break
    tree, rules = {}, []
    for k in range(rnd.randint(1, 3)):
      n = rnd.randint(0, 4)
      shape = tuple(rnd.choice([1, 2, 3, 5]) for _ in range(n))
      heur = n <= 2 and rnd.random() < 0.6
      rule = af.HEURISTIC_RULE if heur else tuple(rnd.choice(D) for _ in range(n))
      if not heur and (af.FactorDim.ROW in rule) != (af.FactorDim.COLUMN in rule):
        rule = tuple(D[0] if x in (af.FactorDim.ROW, af.FactorDim.COLUMN) else x for x in rule)
      tree[f'm{k}/w'] = (shape, rule)
      rules.append((f'^m{k}/w$', rule))
    factored = rnd.random() < 0.8
    pick = lambda *a: rnd.choice(a)
    kw = dict(learning_rate=0.3, decay_rate=pick(0.8, 0.5), step_offset=pick(0, 2), clipping_threshold=pick(None, 1.0, 0.3), weight_decay_rate=pick(None, None, 0.1, 0.0),
              min_dim_size_to_factor=pick(2, 3, 128), weight_decay_rate_lr_exponent=pick(None, None, 2.0), global_norm_clip_threshold=pick(None, None, 0.5, 50.0),
              max_parameter_scale=pick(None, 0.2), beta1=pick(None, 0.9, 0.0), skip_nan_updates=pick(False, True), epsilon1=pick(1e-30, 1e-4))
    mult = pick(True, False, 'map')
    nan = kw['skip_nan_updates'] and rnd.random() < 0.6

    def run():
      rs = np.random.RandomState(t)
      rnd_order = -1 if t % 2 else 1
      mp = {k: (i % 2 == 0 if mult == 'map' else mult) for i, k in enumerate(tree)}
      o = af.Adafactor(factored=factored, factor_map=af.HParamMap(rules + [('.*', 99)]) if factored else None,
                       multiply_by_parameter_scale=af.HParamMap([(f'^{k}$', v) for k, v in mp.items()] + [('.*', True)]) if mult == 'map' else mult, **kw)
      nest = lambda f, o=1: {k.split('/')[0]: {'w': v} for k, v in list(f.items())[::o]}
      ps = {k: np.asarray(rs.randn(*s), np.float32) for k, (s, _) in tree.items()}
      st = o.init_state(nest({k: jnp.asarray(v) for k, v in ps.items()}))
      params = nest({k: jnp.asarray(v) for k, v in ps.items()})
      for step in range(kw['step_offset'], kw['step_offset'] + 3):
        if step == kw['step_offset']:
          st = st.replace(step=jnp.asarray(step, jnp.int32))
        gs = {k: np.asarray(rs.randn(*s) * 2, np.float32) for k, (s, _) in tree.items()}
        if nan:
          k = list(gs)[0]
          if gs[k].size:
            gs[k].flat[rs.randint(gs[k].size)] = np.nan
        scale = 1.0
        if kw['global_norm_clip_threshold']:
          nrm = np.sqrt(sum((v.astype(np.float64) ** 2).sum() for v in gs.values()))
          scale = min(1.0, kw['global_norm_clip_threshold'] / nrm) if not np.isnan(nrm) else nrm
        new, ns = o.apply_gradient(o.hyper_params, params, st, nest({k: jnp.asarray(v) for k, v in gs.items()}, rnd_order))
        if int(ns.step) != step + 1:
          return f'step {step} became {int(ns.step)}'
        for k, (shape, rule) in tree.items():
          a = k.split('/')[0]
          w = want_rule(af, rule if factored else None, shape)
          avg, fd = w
          if fd is af.HEURISTIC_RULE:
            fd = None
            if factored and len(shape) >= 2:
              od = sorted(range(len(shape)), key=lambda i: (shape[i], i))
              if shape[od[-2]] >= kw['min_dim_size_to_factor']:
                fd = ((od[-2],), (od[-1],))
          h = dict(kw, epsilon2=1e-3, multiply_by_parameter_scale=mp[k])
          old = st.param_states[a]['w']
          sl = {x: np.asarray(getattr(old, x)) for x in ('v_row', 'v_col', 'v', 'm')}
          shapes = dict(v_row=np.delete(shape, fd[1]) if fd else (1,), v_col=np.delete(shape, fd[0]) if fd else (1,), v=(1,) if fd else shape, m=shape if kw['beta1'] is not None else (1,))
          for x, v in sl.items():
            if v.shape != tuple(int(y) for y in shapes[x]):
              return f'{k} {rule}: slot {x} of shape {v.shape} instead of {shapes[x]}'
          n, s = np_update(fd, avg, h, step, params[a]['w'], sl, gs[k] * scale)
          got = np.asarray(new[a]['w'])
          if got.shape != n.shape or not np.allclose(got, n, rtol=2e-3, atol=2e-4, equal_nan=True):
            return f'{k} {rule} step {step}: {got.tolist()} instead of {n.tolist()}'
          for x, v in s.items():
            gv = np.asarray(getattr(ns.param_states[a]['w'], x))
            if gv.shape != v.shape or not np.allclose(gv, v, rtol=2e-3, atol=1e-5, equal_nan=True):
              return f'{k} {rule} step {step}: slot {x} {gv.tolist()} instead of {v.tolist()}'
        params, st = new, ns
    rec.run(dict(tree={k: str(v) for k, v in tree.items()}, factored=factored, multiply=mult, nan=nan, **{k: v for k, v in kw.items()}), run)


def map_search(rec):
  import jax.numpy as jnp
  af = mod()
  import re
  names = ('a/kernel', 'a/bias', 'b/kernel', 'dec/a/kernel', 'kernel')
  pats = ('a/kernel', 'kernel', 'kernel$', '^a', '^kernel$', 'b', 'dec.*', 'a.b')
  for ps in itertools.chain(itertools.product(pats, repeat=1), itertools.product(pats, repeat=2), itertools.islice(itertools.product(pats, repeat=3), 0, None, 7)):
    def run():
      h = af.HParamMap([(p, i) for i, p in enumerate(ps)])
      for k in names:
        w = next((i for i, p in enumerate(ps) if re.search(p, k)), None)
        try:
          g = h[k]
        except KeyError:
          g = None
        if g != w:
          return f'{k}: {g} instead of {w}'
      tree = {'a': {'kernel': 1, 'bias': 2}, 'b': {'kernel': 3}}
      try:
        g = h(tree)
      except KeyError:
        g = None
      try:
        w = {'a': {'kernel': h['a/kernel'], 'bias': h['a/bias']}, 'b': {'kernel': h['b/kernel']}}
      except KeyError:
        w = None
      if g != w:
        return f'{g} instead of {w}'
    rec.run(dict(patterns=ps), run)


def axes_search(rec):
  """set_param_axes and the rule tables."""
  af = mod()
  from t5x.contrib.moe import adafactor_utils as moe
  D = af.FactorDim
  std = dict(vocab='COLUMN', embed='ROW', mlp='COLUMN', heads='COLUMN', kv='COLUMN', joined_kv='COLUMN', relpos_buckets='NONE', layers='BATCH', stack='BATCH', q_wi_fused='COLUMN',
             o_wo_fused='COLUMN', multiquery_heads='COLUMN', kv_fused='COLUMN', layer_norm_scale='NONE', mlp_activations='COLUMN')
  tables = (('standard', af.standard_logical_factor_rules, std), ('mixture of experts', moe.logical_factor_rules, dict(std, expert='BATCH', expert_mlp='COLUMN', unmodeled='NONE', mlp_embed='ROW')))
  for nm, fn, w in tables:
    def run():
      g = {k: v.name for k, v in fn().items()}
      if g != w:
        return f'{sorted(set(g.items()) ^ set(w.items()))}'
    rec.run(dict(table=nm), run)
  logical = {'n': D.NONE, 'b': D.BATCH, 'r': D.ROW, 'c': D.COLUMN, 'N': 'unfactorized', 'B': 'batch', 'R': 'row', 'C': 'Column', 'D': 'col', 'M': 'none'}
  kind = {k: af.factor_name_to_factordim(v) for k, v in logical.items()}
  if kind != {'n': D.NONE, 'b': D.BATCH, 'r': D.ROW, 'c': D.COLUMN, 'N': D.NONE, 'B': D.BATCH, 'R': D.ROW, 'C': D.COLUMN, 'D': D.COLUMN, 'M': D.NONE}:
    rec.run(dict(names=logical), lambda: f'{kind}')
  axs = [ax for n in range(0, 4) for ax in itertools.product('nbrcRC', repeat=n)] + [tuple('NBRCD'), tuple('Mbrc'), tuple('Bc'), tuple('BRD')]
  for ax in axs:
    def run():
      ks = tuple(kind[x] for x in ax)
      err = {D.ROW, D.COLUMN, D.NONE} <= set(ks)
      w = ks if {D.ROW, D.COLUMN} <= set(ks) else tuple(D.NONE if x in (D.ROW, D.COLUMN) else x for x in ks)
      import flax
      from jax.sharding import PartitionSpec
      o = af.Adafactor(1e-3, logical_factor_rules=logical)
      try:
        o.set_param_axes({'x': {'k': PartitionSpec(*ax)}, 'y': PartitionSpec('r')})
      except ValueError:
        return None if err else 'rejected'
      if err:
        return 'accepted'
      g = o.hyper_params.factor_map
      if dict(g) != {'x/k': w, 'y': (D.NONE,)}:
        return f'{dict(g)} instead of {w}'
    rec.run(dict(axes=ax), run)

  def off():
    o = af.Adafactor(1e-3)
    o.set_param_axes({'x': ('r',)})
    return None if o.hyper_params.factor_map is None else 'changed without rules'
  rec.run(dict(rules=None), off)


def run(chk):
  hparam_map(chk)
  for n in range(0, 5):
    factored_dims(chk, n)
  for n in range(0, 6):
    parse_rule(chk, n)
  for n in range(0, 5):
    slots(chk, n)
  slots(chk, 3, factored=False)
  updates(chk)
  whole(chk)
  chk.search('rules for parameter names', 'rule lists of up to three of 8 patterns', map_search)
  chk.search('factorisation from axis names', 'all axis lists up to rank 3, the shipped tables', axes_search)
  chk.search('whole updates', '100 (900) random trees, rules and settings, three steps each', update_search, case_seconds=90)


if __name__ == '__main__':
  main('O01', run)
