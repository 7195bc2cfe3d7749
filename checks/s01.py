"""S01: renaming restored states by an assignment map; axis-name overrides."""

import itertools
import random
import re

from vc import env
env.setup()
import z3

from vc import core, maps, seq
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, SymInt, forall, lift, zint
from vc.h import patched
from vc.transform import LoopSpec, StubNS, clone

SU = 't5x/state_utils.py'
UT = 't5x/utils.py'


# --- unbounded: apply_assignment_map ---------------------------------------
class World:
  """An arbitrary checkpoint, target and rule list over opaque names.

  M(p, k): pattern p fully matches name k;  E(p, r, k): expanding r for it;
  first(k): index of the first rule matching k (n if none)."""

  def __init__(self, c):
    I, B = z3.IntSort(), z3.BoolSort()
    self.n = c.int('rules', 0)
    pat, rep = c.func('pattern', I, I), c.func('replacement', I, I)
    non = c.func('skips', I, B)
    m, e = c.func('fullmatch', I, I, B), c.func('expand', I, I, I, I)
    fst = c.func('first', I, I)
    self.pat = lambda i: lift(pat(zint(i)))
    self.rep = lambda i: lift(rep(zint(i)))
    self.skip = lambda i: lift(non(zint(i)))
    self.M = lambda p, k: lift(m(zint(p), zint(k)))
    self.E = lambda p, r, k: lift(e(zint(p), zint(r), zint(k)))
    self.first = lambda k: lift(fst(zint(k)))
    # definition of `first`
    F = self.first
    c.assume(forall(1, lambda k: AND(F(k) >= 0, F(k) <= self.n, IMP(F(k) < self.n, self.M(self.pat(F(k)), k))), patterns=[lambda k: fst(k)]))
    c.assume(forall(2, lambda k, i: IMP(AND(i >= 0, i < F(k)), NOT(self.M(self.pat(i), k))), patterns=[lambda k, i: z3.MultiPattern(fst(k), pat(i))]))
    self.ckpt = maps.SymMap.fresh('ckpt')
    self.opt = maps.SymMap.fresh('target')
    self.hit = lambda k: self.first(k) < self.n
    self.mapped = lambda k: AND(self.hit(k), NOT(self.skip(self.first(k))))
    self.skipped = lambda k: AND(self.hit(k), self.skip(self.first(k)))
    self.src = lambda k: self.E(self.pat(self.first(k)), self.rep(self.first(k)), k)
    self.rules = seq.SymSeq(self.n, lambda i: (self.pat(i), None if self.skip(i) else self.rep(i)))
    self.ckpt0 = maps.SymMap(self.ckpt.harr, self.ckpt.varr)
    self.opt0 = maps.SymMap(self.opt.harr, self.opt.varr)


class Match:

  def __init__(self, w, p, k):
    self.w, self.p, self.k = w, p, k

  def expand(self, r):
    return self.w.E(self.p, r, self.k)


class Re:

  def __init__(self, w):
    self.w = w

  def fullmatch(self, p, k):
    return Match(self.w, p, k) if self.w.M(p, k) else None

  def __getattr__(self, n):
    raise core.Unsupported(f're.{n}')


class MapLoop(LoopSpec):
  name = 'loop over the target entries'

  def __init__(self, w):
    self.w = w

  def vars(self, env):
    return env['result'], env['explicitly_skipped_keys'], env['unmapped_old_keys']

  def applies(self, L, env):
    r, s, u = self.vars(env)
    return isinstance(r, maps.SymMap) and isinstance(s, maps.KSet) and isinstance(u, maps.SymMap) and hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w = self.w
    r, s, u = self.vars(env)
    pos, i = L.seq.pos, L.i
    done = lambda k: AND(w.opt0.has(k), pos(k) < i)
    fa = lambda f: forall(1, f)
    yield 'the mapped entries seen so far are in the result', fa(lambda k: IFF(r.has(k), AND(done(k), w.mapped(k))))
    yield 'with the value of the source their first rule names', fa(lambda k: IMP(r.has(k), AND(w.ckpt0.has(w.src(k)), r.val(k) == w.ckpt0.val(w.src(k)))))
    yield 'the skipped entries seen so far', fa(lambda k: IFF(s.has(k), AND(done(k), w.skipped(k))))
    yield 'the remaining source entries are source entries', fa(lambda k: IMP(u.has(k), AND(w.ckpt0.has(k), u.val(k) == w.ckpt0.val(k))))

  def havoc(self, L, env):
    for nm in ('result', 'explicitly_skipped_keys', 'unmapped_old_keys', 'used_patterns'):
      if hasattr(env.get(nm), 'havoc'):
        env[nm].havoc(nm)
    return {}


class RuleLoop(LoopSpec):
  name = 'loop over the rules'

  def __init__(self, w):
    self.w = w

  def inv(self, L, env):
    w, k = self.w, env['k']
    yield 'no earlier rule matches', w.first(k) >= L.i


class KeepLoop(LoopSpec):
  """Re-adding the entries of the checkpoint that nothing was mapped from."""
  name = 'loop over the unmapped source entries'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    if not (isinstance(env['result'], maps.SymMap) and hasattr(L.seq, 'pos')):
      return False
    r = env['result']
    self.r0 = maps.SymMap(r.harr, r.varr)
    return True

  def inv(self, L, env):
    w, r, r0 = self.w, env['result'], self.r0
    fa = lambda f: forall(1, f)
    yield 'no mapped entry is lost or changed', fa(lambda k: IMP(r0.has(k), AND(r.has(k), r.val(k) == r0.val(k))))
    yield 'only entries of the checkpoint that are not skipped are added', fa(lambda k: IMP(
        AND(r.has(k), NOT(r0.has(k))), AND(w.ckpt0.has(k), NOT(env['explicitly_skipped_keys'].has(k)), r.val(k) == w.ckpt0.val(k))))

  def havoc(self, L, env):
    env['result'].havoc('result')
    return {}


class CopyLoop(KeepLoop):
  name = 'loop over the target entries without a value'

  def inv(self, L, env):
    yield from super().inv(L, env)
    w, r, r0 = self.w, env['result'], self.r0
    done = lambda k: AND(w.opt0.has(k), NOT(r0.has(k)), L.seq.pos(k) < L.i)
    yield 'unmapped target entries the checkpoint has are copied', forall(1, lambda k: IMP(
        AND(done(k), w.ckpt0.has(k), NOT(env['explicitly_skipped_keys'].has(k))), r.has(k)))


def assignment(chk):
  m = clone(SU)

  def setup(c, w, require=False):
    c.user['symdict'] = True
    out = {}

    def flatten(d, *a, **k):
      return {'C': w.ckpt, 'T': w.opt}[d]

    def unflatten(d, sep=None):
      out['d'] = d
      out['sep'] = sep
      return ('tree', d)
    m.flatten_state_dict = flatten
    m.traverse_util = StubNS(m.traverse_util, unflatten_dict=unflatten)
    m.re = Re(w)
    m.__vc_rt__.loop_specs = {
        'apply_assignment_map#0': MapLoop(w), 'apply_assignment_map#1': RuleLoop(w),
        'apply_assignment_map#2': KeepLoop(w), 'apply_assignment_map#3': CopyLoop(w)}
    return out

  real = dict(m.__dict__)

  def body(c):
    w = World(c)
    out = setup(c, w)
    try:
      try:
        r = m.apply_assignment_map('C', 'T', w.rules, require_all_rules_match=False)
        err = False
      except ValueError:
        err = True
      if err:
        miss = lambda k: AND(w.opt0.has(k), w.mapped(k), NOT(w.ckpt0.has(w.src(k))))
        c.prove('an error means a rule names a source that is missing', NOT(forall(1, lambda k: NOT(miss(k)))))
        return
      if not (isinstance(r, tuple) and r[0] == 'tree' and isinstance(r[1], maps.SymMap)):
        raise core.Unsupported('result is not rebuilt from the flat dictionary')
      d = r[1]
      c.prove('the result is rebuilt with the separator it was flattened with', out['sep'] == '/')
      k = c.int('k', inp=False)
      c.prove('every rule names a source that exists', IMP(AND(w.opt0.has(k), w.mapped(k)), w.ckpt0.has(w.src(k))))
      c.prove('a mapped entry takes the value of the source its first matching rule names',
              IMP(AND(w.opt0.has(k), w.mapped(k)), AND(d.has(k), d.val(k) == w.ckpt0.val(w.src(k)))))
      c.prove('an entry whose rule says skip is omitted', IMP(AND(w.opt0.has(k), w.skipped(k)), NOT(d.has(k))))
      c.prove('an entry no rule matches comes from the equally named source entry',
              IMP(AND(w.opt0.has(k), NOT(w.hit(k)), w.ckpt0.has(k)), AND(d.has(k), d.val(k) == w.ckpt0.val(k))))
      c.prove('an entry no rule matches and the checkpoint lacks has no value',
              IMP(AND(w.opt0.has(k), NOT(w.hit(k)), NOT(w.ckpt0.has(k))), NOT(d.has(k))))
      c.prove('nothing outside the target is invented',
              IMP(AND(d.has(k), NOT(w.opt0.has(k))), AND(w.ckpt0.has(k), d.val(k) == w.ckpt0.val(k))))
      c.prove('the checkpoint and the target are not changed', forall(1, lambda q: AND(
          IFF(w.ckpt.has(q), w.ckpt0.has(q)), w.ckpt.val(q) == w.ckpt0.val(q), IFF(w.opt.has(q), w.opt0.has(q)))))
      c.cover()
    finally:
      m.__dict__.update(real)
  chk.verify('apply_assignment_map', SU, 'value of the first matching rule; skip; equal name; missing source is an error', body,
             assumed=['flatten_state_dict/unflatten_dict are inverse on the trees (property S02)', 're.fullmatch and Match.expand are functions of pattern, name and template'],
            seconds=240)

  def resuming(c):
    w = World(c)
    m.__vc_rt__.loop_specs = {}
    o = object()
    c.prove('a resumed run is restored unchanged', m.apply_assignment_map(o, object(), w.rules, is_resuming=True) is o)
    c.cover()
  chk.verify('apply_assignment_map [resuming]', SU, 'identity', resuming)


# --- unbounded: _RegexMap ---------------------------------------------------
def regexmap(chk):
  m = clone(UT)

  class Pat:

    def __init__(self, w, i):
      self.w, self.i = w, i

    def fullmatch(self, k):
      return Match(self.w, self.i, k) if self.w.M(self.w.pat(self.i), k) else None

    def __getattr__(self, n):
      raise core.Unsupported(f'pattern.{n}')

  class Loop(LoopSpec):
    name = 'loop over the patterns'

    def __init__(self, w):
      self.w = w

    def inv(self, L, env):
      yield 'no earlier pattern matches', self.w.first(env['key']) >= L.i

  def body(c):
    w = World(c)
    need(m, '_RegexMap')
    o = m._RegexMap.__new__(m._RegexMap)
    vals = lambda i: w.rep(i)
    o._kvs = seq.SymSeq(w.n, lambda i: (Pat(w, i), vals(i)))
    m.__vc_rt__.loop_specs = {'_RegexMap.__getitem__#0': Loop(w)}
    k = c.int('key', inp=False)
    try:
      v = o[k]
      c.prove('the value of the first pattern that fully matches', AND(w.hit(k), v == vals(w.first(k))))
    except KeyError:
      c.prove('no value only if no pattern matches', NOT(w.hit(k)))
    c.cover()
  chk.verify('_RegexMap.__getitem__', UT, 'value of the first full match, KeyError if none', body,)


# --- the real code over real names and patterns ------------------------------
NAMES = ('a', 'b', 'aa', 'ab', 'p/a', 'p/b', 'p/ab', 'q/a', 'q/r/a', 'q/r/b')
PATS = (('a', 'b'), ('b', 'a'), ('a', 'a'), ('a', None), ('.*', None), ('p/(.*)', r'q/\1'), ('p/(.*)', None), ('q/r/(.*)', r'p/\1'),
        ('a.*', 'b'), ('(p|q)/a', r'\1/b'), ('p/a', r'q/a'), ('a|b', 'aa'), ('.*/a', 'a'), ('p/', 'a'), ('p', 'a'), ('aa', r'a'), ('b', 'missing'),
        ('ab', r'\g<0>'), ('(.)(.)', r'\2'), ('(?P<x>q)/r/.*', r'\g<x>/a'))


def nest(d):
  out = {}
  for k, v in d.items():
    t = out
    ps = k.split('/')
    for p in ps[:-1]:
      t = t.setdefault(p, {})
    t[ps[-1]] = v
  return out


def oracle(ck, opt, rules, require):
  """(dict of the target's entries, error?) from the statement."""
  res, used, err = {}, set(), None
  for k in opt:
    for i, (p, r) in enumerate(rules):
      m = re.fullmatch(p, k)
      if m:
        used.add(i)
        if r is not None:
          s = m.expand(r)
          if s not in ck:
            err = 'missing source'
          else:
            res[k] = ck[s]
        break
    else:
      if k in ck:
        res[k] = ck[k]
  if err is None and require and len(used) < len(rules):
    err = 'unused rule'
  return res, err


def search_assignment(rec):
  from t5x import state_utils as su
  rnd = random.Random(1)

  def leafs():
    return {'driver': 'zarr', 'kvstore': {'driver': 'file', 'path': 'x'}, 'metadata': {'shape': [rnd.randrange(9)]}}

  def gen():
    big = rnd.random() < 0.5
    # a leaf name must not also be a directory name: the pool has none
    ck = rnd.sample(NAMES, rnd.randrange(1, len(NAMES) + 1))
    op = rnd.sample(NAMES, rnd.randrange(1, len(NAMES) + 1))
    rules = rnd.sample(PATS, rnd.choice((0, 1, 1, 2, 2, 3, 4)))
    return ck, op, rules

  def one(ck, op, rules, require, resume=False):
    ckd = {k: (100 + i if i % 3 else leafs()) for i, k in enumerate(ck)}
    opd = {k: -1 - i for i, k in enumerate(op)}
    c, o = nest(ckd), nest(opd)
    import copy
    c0, o0 = copy.deepcopy(c), copy.deepcopy(o)
    want, err = oracle(ckd, opd, rules, require)
    try:
      got = su.apply_assignment_map(c, o, rules, require_all_rules_match=require, is_resuming=resume)
    except ValueError as e:
      got = None
      if resume:
        return f'raised while resuming: {e}'
      if err is None:
        return f'raised {e}'
      return None
    if resume:
      return None if got == c0 else f'resuming changed the checkpoint to {got}'
    if err is not None:
      return f'no error although there is an {err}: {got}'
    flat = dict(su.flatten_state_dict(got))
    for k in opd:
      if k in want and k not in flat:
        return f'{k} has no value, expected {want[k]}'
      if k in flat and k not in want:
        return f'{k} got {flat[k]} and should have none'
      if k in want and flat[k] != want[k]:
        return f'{k} got {flat[k]}, expected {want[k]}'
    for k, v in flat.items():
      if k not in opd and ckd.get(k) != v:
        return f'{k} = {v} was invented'
    if (c, o) != (c0, o0):
      return 'the arguments were changed'
  # rule chains on small trees, exhaustively
  for ck in itertools.chain.from_iterable(itertools.combinations(('a', 'b', 'p/a', 'q/a'), n) for n in (1, 2, 3, 4)):
    for op in (('a', 'b'), ('a', 'b', 'p/a', 'q/a')):
      for rules in itertools.chain([()], [(x,) for x in PATS], itertools.permutations(PATS[:6], 2)):
        if rec.full:
          return
        for require in (False, True):
          rec.run({'checkpoint': ck, 'target': op, 'rules': rules, 'require all': require}, lambda: one(ck, op, rules, require))
  for i in range(3000):
    if rec.full:
      return
    ck, op, rules = gen()
    for require in (False, True):
      rec.run({'checkpoint': ck, 'target': op, 'rules': rules, 'require all': require}, lambda: one(ck, op, rules, require))
    if i % 20 == 0:
      rec.run({'checkpoint': ck, 'target': op, 'rules': rules, 'resuming': True}, lambda: one(ck, op, rules, True, True))


def search_config(rec):
  """assignment_map in a restore configuration is applied first."""
  from t5x import utils
  import inspect
  need(utils, 'RestoreCheckpointConfig')
  seen = []
  for rules in ([('a', 'b')], [('a', None)], None):
    for extra in (0, 1):
      def run():
        fn = lambda s, t, *, is_resuming=False: s
        kw = dict(path='/x', mode='specific', assignment_map=rules)
        if extra:
          kw['state_transformation_fns'] = [fn]
        cfg = utils.RestoreCheckpointConfig(**kw)
        fns = list(cfg.state_transformation_fns)
        if len(fns) != extra + (rules is not None):
          return f'{len(fns)} transformations'
        if extra and fns[-1] is not fn:
          return 'the renaming is not applied first'
        if rules:
          out = fns[0]({'a': 1, 'b': 2}, {'a': 0, 'b': 0}, is_resuming=False)
          want = {'a': 2, 'b': 2} if rules[0][1] else {'b': 2}
          if {k: v for k, v in out.items() if k in 'ab'} != want:
            return f'renamed to {out}'
          if fns[0]({'a': 1, 'b': 2}, {'a': 0, 'b': 0}, is_resuming=True) != {'a': 1, 'b': 2}:
            return 'renamed while resuming'
      rec.run({'rules': rules, 'other transformations': extra}, run)


def search_axes(rec):
  from t5x import utils
  import flax
  import numpy as np
  from flax.linen import partitioning as fp
  rnd = random.Random(2)
  names = ('w', 'b', 'l/w', 'l/b', 'l/m/w', 'm/w')
  shapes = {'w': (2, 3), 'b': (3,), 'l/w': (2, 3, 4), 'l/b': (1,), 'l/m/w': (), 'm/w': (2, 2)}
  pats = ('w', '.*', '.*/w', 'l/.*', 'l/b', 'b', '.', '(l|m)/w', 'w|b', 'l', '.*b', 'l/m/w', 'nothing')
  vals = (('x',), ('x', 'y'), ('x', 'y', 'z'), (), ('u',), ('u', 'v'), None, ('p', 'q'))
  for i in range(2500):
    if rec.full:
      return
    ns = rnd.sample(names, rnd.randrange(1, 6))
    have = [n for n in ns if rnd.random() < 0.7]
    rules = [(rnd.choice(pats), rnd.choice(vals)) for _ in range(rnd.choice((0, 1, 1, 2, 3)))]
    if rnd.random() < 0.6:       # mostly rules of the right rank
      rules = [(n if rnd.random() < 0.5 else n.replace('w', '[wv]'), tuple(f'{r}{j}' for j in range(len(shapes[n])))) for n in rnd.sample(ns, min(len(ns), 2)) for r in (rnd.choice('xyz'),)] + rules[:1]

    def run():
      params = nest({n: np.zeros(shapes[n]) for n in ns})
      old = {n: tuple(f'{n}{j}' for j in range(len(shapes[n]))) for n in have}
      axes = nest({n + '_axes': fp.AxisMetadata(names=old[n]) for n in have})
      v = {'params': params, 'params_axes': axes, 'other': {'k': 1}}
      want, bad = dict(old), False
      for n in ns:
        for p, r in rules:
          if re.fullmatch(p, n):
            if r is not None:
              want[n] = tuple(r)
              bad = bad or len(r) != len(shapes[n])
            break
      try:
        out = utils.override_params_axes_names(flax.core.freeze(v), rules)
      except ValueError as e:
        return None if bad else f'raised {e}'
      if bad:
        return 'an override of the wrong rank was accepted'
      out = flax.core.unfreeze(out)
      if set(out) != set(v) or out['other'] != {'k': 1}:
        return 'other collections changed'
      f = flax.traverse_util.flatten_dict(out['params_axes'], sep='/')
      got = {k: tuple(x.names) for k, x in f.items()}
      if got != {n + '_axes': t for n, t in want.items()}:
        return f'{got}, expected {want}'
      a, b = flax.traverse_util.flatten_dict(out['params'], sep='/'), flax.traverse_util.flatten_dict(params, sep='/')
      if set(a) != set(b) or any(a[k] is not b[k] and not np.array_equal(a[k], b[k]) for k in a):
        return 'parameters changed'
    rec.run({'params': ns, 'with axes': have, 'rules': rules}, run)

  def absent():
    try:
      utils.override_params_axes_names(flax.core.freeze({'params': {'w': np.zeros(2)}}), [('w', ('x',))])
    except ValueError:
      return None
    return 'a model without axis names was accepted'
  rec.run({'params_axes': 'absent'}, absent)


def build(chk):
  assignment(chk)
  regexmap(chk)
  chk.search('assignment maps', 'all maps of up to 2 rules over 15 x 2 trees of 4 names; 3000 random trees of up to 10 names, up to 4 of 20 rules', search_assignment)
  chk.search('assignment maps in restore configurations', '3 maps x 2', search_config)
  chk.search('axis-name overrides', '2500 random trees of up to 5 parameters, up to 4 rules', search_axes)


if __name__ == '__main__':
  main('S01', build)
