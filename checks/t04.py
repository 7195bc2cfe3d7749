"""T04: the learning-rate schedule is the product of its factors."""

import itertools
import math
import types

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, SymReal, zreal, lift
from vc.transform import LoopSpec, StubNS, clone

UT = 't5x/utils.py'
NAMES = ['constant', 'linear_warmup', 'linear_decay', 'rsqrt_decay', 'rsqrt_normalized_decay', 'decay_every', 'cosine_decay']


class Name:
  """A factor name: one of the documented ones or any other text."""

  def __init__(self, code):
    self.code = code

  def strip(self, *a):
    return self

  def __eq__(self, o):
    if isinstance(o, str):
      return lift(self.code == NAMES.index(o)) if o in NAMES else False
    return lift(self.code == o.code)

  def __ne__(self, o):
    return NOT(self == o)

  def __hash__(self):
    raise core.Unsupported('hash of a factor name')

  def __format__(self, spec):
    return 'name'

  def __str__(self):
    return 'name'

  def __mod__(self, o):
    raise core.Unsupported('formatting')


class Factors:
  """`factors`: any list of names joined by '*'."""

  def __init__(self, names):
    self.names = names

  def split(self, sep=None, maxsplit=-1):
    if sep != '*' or maxsplit != -1:
      raise core.Unsupported('another separator')
    return self.names


def real(x):
  return SymReal(zreal(x))


def sqrt(x):
  return core.rpow(x, 0.5)


def cosf(x):
  return SymReal(z3.Function('cos', z3.RealSort(), z3.RealSort())(zreal(x)))


def mx(a, b):
  return core.ite(a >= b, a, b)


def mn(a, b):
  return core.ite(a <= b, a, b)


def jstub():
  import jax.numpy as jnp
  return StubNS(
      jnp, maximum=mx, minimum=mn, sqrt=sqrt, cos=cosf, asarray=lambda x, dtype=None: x, array=lambda x, dtype=None: x,
      where=lambda c, a, b: core.ite(c, a, b), clip=lambda x, lo=None, hi=None: mn(mx(x, lo) if lo is not None else x, hi) if hi is not None else mx(x, lo),
      power=lambda a, b: core.rpow(a, b), float_power=lambda a, b: core.rpow(a, b), floor_divide=lambda a, b: a // b,
      mod=lambda a, b: a % b, remainder=lambda a, b: a % b, divide=lambda a, b: real(a) / real(b), multiply=lambda a, b: a * b,
      square=lambda a: a * a, floor=lambda x: real(SymReal(z3.ToReal(z3.ToInt(zreal(x))))), reciprocal=lambda a: 1.0 / real(a),
      float32=lambda x: real(x), abs=lambda x: mx(x, -x), pi=math.pi)


def spec_factor(code, t, p):
  """The documented value of one factor at the (offset) step t >= 0."""
  w, base, d = p['warmup_steps'], p['base_learning_rate'], p['decay_factor']
  if code == 'constant':
    return real(base)
  if code == 'linear_warmup':
    return mn(SymReal(z3.RealVal(1)), real(t) / real(w))
  if code == 'linear_decay':
    return real(base) * mn(real(t) / real(w), 1 + real(d) * (real(w) - real(t)))
  if code == 'rsqrt_decay':
    return 1 / sqrt(real(mx(t, w)))
  if code == 'rsqrt_normalized_decay':
    return sqrt(real(w)) / sqrt(real(mx(t, w)))
  if code == 'decay_every':
    return core.rpow(real(d), real(t // p['steps_per_decay']))
  if code == 'cosine_decay':
    prog = mx(SymReal(z3.RealVal(0)), (real(t) - real(w)) / real(p['steps_per_cycle']))
    return mx(SymReal(z3.RealVal(0)), 0.5 * (1 + cosf(math.pi * (prog % 1.0))))


def params(c):
  return dict(base_learning_rate=c.real('base'), warmup_steps=c.int('warmup', 1), decay_factor=c.real('decay'),
              steps_per_decay=c.int('per_decay', 1), steps_per_cycle=c.int('per_cycle', 1), step_offset=c.int('offset'),
              min_learning_rate=c.real('floor'))


def axioms(c, p, t):
  # square roots of positive numbers are positive
  x = z3.Real('x')
  f = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
  c._push(z3.ForAll([x], z3.Implies(x > 0, f(x, z3.RealVal('1/2')) > 0), patterns=[f(x, z3.RealVal('1/2'))]))
  for y in (p['warmup_steps'], mx(t, p['warmup_steps'])):
    c.assume(sqrt(real(y)) > 0)


def module():
  m = clone(UT)
  m.jnp = jstub()
  return m


def verify(chk):
  m = module()

  # one factor at a time, then every list by induction
  def spec(p, t, codes):
    class Spec(LoopSpec):
      name = 'factors'

      def acc(self, env):
        return self.__dict__.get('var')

      def applies(self, L, env):
        cand = [k for k, v in env.items() if type(v) is float and v == 1.0]
        if len(cand) != 1 or not isinstance(L.seq, seq.SymSeq):
          return False
        self.var = cand[0]
        return True

      def inv(self, L, env):
        return [('the product of the first i factors', real(env[self.var]) == real(PROD(L.i))),
                ('all names seen are known', core.forall(1, lambda j: IMP(AND(j >= 0, j < L.i), codes(j) < len(NAMES))))]

      def havoc(self, L, env):
        return {self.var: core.ctx().real('acc', inp=False)}

    P = z3.Function('product', z3.IntSort(), z3.RealSort())

    def PROD(i):
      return SymReal(P(core.zint(i)))
    return Spec(), PROD

  def body(c):
    p = params(c)
    n = c.int('n', 0)
    codes = seq.fresh_seq('codes', 'int', 0)
    c.assume(codes.length == n)
    c.assume(core.forall(1, lambda i: codes.get(i) >= 0))
    names = seq.SymSeq(n, lambda i: Name(codes.get(i)))
    step = c.int('step', 0)
    t = mx(0, step - p['step_offset'])
    axioms(c, p, t)
    sp, PROD = spec(p, t, codes.get)
    c.assume(PROD(0) == 1)
    # defining equations of the product, instantiated per factor kind
    for code, nm in enumerate(NAMES):
      f = spec_factor(nm, t, p)
      c.assume(core.forall(1, lambda i: IMP(AND(i >= 0, i < n, codes.get(i) == code), PROD(i + 1) == PROD(i) * f)))
    m.__vc_rt__.loop_specs = {f'create_learning_rate_scheduler.step_fn#{k}': sp for k in range(2)}
    try:
      fn = m.create_learning_rate_scheduler(factors=Factors(names), **p)
      r = fn(step)
    except ValueError:
      c.prove('rejected only if some factor is unknown', core.exists(1, lambda i: AND(i >= 0, i < n, codes.get(i) >= len(NAMES))))
      c.cover()
      return
    c.prove('no unknown factor is accepted', core.forall(1, lambda i: IMP(AND(i >= 0, i < n), codes.get(i) < len(NAMES))))
    lo = real(p['min_learning_rate'])
    c.prove('rate: the product of all factors, floored', real(r) == mx(real(PROD(n)), lo))
    c.cover()
  chk.verify('create_learning_rate_scheduler', UT,
             'every list of factors, hyper-parameters, step: rate(step) == max(product of the documented factors at max(0, step - offset), '
             'floor); invariant: the accumulator is the product of the factors seen', body, seconds=200,
             assumed=['jnp operations are those of the reals; sqrt, cos and real powers are uninterpreted functions',
                      'warm-up, decay period and cycle are at least one step'])

  # the parser and rejection for concrete lists
  def lists(c):
    p = params(c)
    step = c.int('step', 0)
    t = mx(0, step - p['step_offset'])
    axioms(c, p, t)
    m.__vc_rt__.loop_specs = {}
    for text, want in (('constant', ['constant']), (' constant*rsqrt_decay ', ['constant', 'rsqrt_decay']),
                       ('constant  *linear_warmup', ['constant', 'linear_warmup']), ('decay_every * constant', ['decay_every', 'constant'])):
      r = m.create_learning_rate_scheduler(factors=text, **p)(step)
      e = SymReal(z3.RealVal(1))
      for nm in want:
        e = e * spec_factor(nm, t, p)
      c.prove(f'{text!r}', real(r) == mx(e, real(p['min_learning_rate'])))
    for text in ('', 'Constant', 'constant linear_warmup', 'constant *', 'constant, rsqrt_decay', 'constant * foo', 'rsqrt'):
      try:
        m.create_learning_rate_scheduler(factors=text, **p)(step)
        ok = False
      except ValueError:
        ok = True
      c.prove(f'{text!r} is rejected', ok)
    c.cover()
  chk.verify('create_learning_rate_scheduler (text)', UT, 'names are separated by * and trimmed; unknown names are errors', lists, kind='bounded')


# --------------------------------------------------------------- the search
def ref(names, t, p):
  """-> value, allowed rounding of the float32 evaluation."""
  w, base, d = p['warmup_steps'], p['base_learning_rate'], p['decay_factor']
  t = max(0, t - p['step_offset'])
  r = slack = 1.0
  for nm in names:
    if nm == 'constant':
      f, e = base, 0
    elif nm == 'linear_warmup':
      f, e = min(1.0, t / w), 0
    elif nm == 'linear_decay':
      f = base * min(t / w, 1.0 + d * (w - t))
      e = abs(base) * (1 + abs(d) * abs(w - t)) * 1e-6
    elif nm == 'rsqrt_decay':
      f, e = 1 / math.sqrt(max(t, w)), 0
    elif nm == 'rsqrt_normalized_decay':
      f, e = math.sqrt(w) / math.sqrt(max(t, w)), 0
    elif nm == 'decay_every':
      f, e = d ** (t // p['steps_per_decay']), 0
    elif nm == 'cosine_decay':
      prog = max(0.0, (t - w) / p['steps_per_cycle'])
      f, e = max(0.0, 0.5 * (1 + math.cos(math.pi * (prog % 1.0)))), 1e-6 * (1 + prog)
    r *= f
    slack *= abs(f) * (1 + 1e-5) + e
  return max(r, p['min_learning_rate']), slack - abs(r) + 1e-5 * abs(r) + 1e-9


def search(rec):
  import jax
  import jax.numpy as jnp
  import t5x.utils as u
  rng = np.random.default_rng(1)
  combos = [()] + [(a,) for a in NAMES] + list(itertools.permutations(NAMES, 2)) + [(a, a) for a in NAMES]
  for k in (3, 4, 7):
    combos += [tuple(rng.choice(NAMES, k)) for _ in range(25)]
  grids = [
      dict(base_learning_rate=0.5, warmup_steps=4, decay_factor=0.5, steps_per_decay=3, steps_per_cycle=8, step_offset=0, min_learning_rate=1e-8),
      dict(base_learning_rate=2.0, warmup_steps=1, decay_factor=0.125, steps_per_decay=1, steps_per_cycle=1, step_offset=5, min_learning_rate=0.0),
      dict(base_learning_rate=0.01, warmup_steps=10000, decay_factor=0.99, steps_per_decay=1000, steps_per_cycle=4096, step_offset=1000, min_learning_rate=1e-3),
      dict(base_learning_rate=1.0, warmup_steps=7, decay_factor=2.0, steps_per_decay=5, steps_per_cycle=16, step_offset=-6, min_learning_rate=-1.0),
  ]
  for names in combos:
    if not names:
      continue
    for p in grids:
      w, o = p['warmup_steps'], p['step_offset']
      steps = sorted({s for s in [0, 1, 2, 3, w - 1, w, w + 1, w + o - 1, w + o, w + o + 1, o, o + 1, o - 1, p['steps_per_decay'] + o - 1,
                                  p['steps_per_decay'] + o, 2 * p['steps_per_decay'] + o, w + o + p['steps_per_cycle'] - 1,
                                  w + o + p['steps_per_cycle'], w + o + p['steps_per_cycle'] + 1, w + o + p['steps_per_cycle'] // 2,
                                  3 * w + o, 25] if s >= 0})

      def case():
        f = u.create_learning_rate_scheduler(factors=' * '.join(names), **p)
        # compiled over all the steps, as the training step does
        got = np.asarray(jax.vmap(f)(jnp.asarray(steps, jnp.int32)))
        if got.dtype != np.float32 or got.shape != (len(steps),):
          return f'rates of type {got.dtype}, shape {got.shape}'
        for s, g in zip(steps, got):
          e, tol = ref(names, s, p)
          if not abs(g - e) <= tol:
            return f'rate at step {s} is {g}, documented {e}'
        s = steps[len(steps) // 2]
        g = float(f(s))
        e, tol = ref(names, s, p)
        if not abs(g - e) <= tol:
          return f'rate at the Python step {s} is {g}, documented {e}'
      rec.run(['schedule', list(names), p], case)
      if rec.full:
        return
  for text in ('', 'Constant', 'constant linear_warmup', 'constant *', 'constant * linear', 'rsqrt', 'cosine', 'constant, rsqrt_decay', 'constant*constants'):
    def case():
      try:
        v = u.create_learning_rate_scheduler(factors=text)(3)
      except ValueError:
        return None
      return f'factors {text!r} accepted: {v}'
    rec.run(['unknown', text], case)
  for f in ('constant*linear_warmup', ' constant  *  linear_warmup '):
    def case():
      v = float(u.create_learning_rate_scheduler(factors=f, base_learning_rate=2., warmup_steps=4)(1))
      if abs(v - 0.5) > 1e-6:
        return f'{f!r}: {v}'
    rec.run(['spacing', f], case)


if __name__ == '__main__':
  def build(chk):
    verify(chk)
    chk.search('schedules against the documented formulas', '138 factor lists, 4 settings, steps around every boundary', search)
  main('T04', build)
