"""C06: importing legacy (T5/Mesh) checkpoints."""

import itertools
import random
import re

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, maps, seq, strs
from vc.check import main, need
from vc.core import AND, IFF, IMP, NOT, OR, SymInt, forall, lift, zint
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

IM = 't5x/checkpoint_importer.py'
I, B = z3.IntSort(), z3.BoolSort()


# ------------------------------------------------- CheckpointTranslator.apply
class World:
  """Any checkpoint and any list of rules over opaque names and values.

  M(i, k): rule i matches the whole of k; first(k): the first such rule (n if
  none); rule i sends (k, v) to (NK(i, k), NV(i, k, v)) or drops it."""

  def __init__(self, c):
    self.n = c.int('rules', 0)
    m, nk, nv, keep, fst, src = (c.func('fullmatch', I, I, B), c.func('new_name', I, I, I), c.func('new_value', I, I, I, I),
                                 c.func('emits', I, I, B), c.func('first', I, I), c.func('source', I, I))
    self.M = lambda i, k: lift(m(zint(i), zint(k)))
    self.NK = lambda i, k: lift(nk(zint(i), zint(k)))
    self.NV = lambda i, k, v: lift(nv(zint(i), zint(k), zint(v)))
    self.keep = lambda i, k: lift(keep(zint(i), zint(k)))
    F = self.first = lambda k: lift(fst(zint(k)))
    c.assume(forall(1, lambda k: AND(F(k) >= 0, F(k) <= self.n, IMP(F(k) < self.n, self.M(F(k), k))), patterns=[lambda k: fst(k)]))
    c.assume(forall(2, lambda k, i: IMP(AND(i >= 0, i < F(k)), NOT(self.M(i, k))), patterns=[lambda k, i: z3.MultiPattern(fst(k), m(i, k))]))
    self.ckpt = maps.SymMap.fresh('ckpt')
    self.ckpt0 = maps.SymMap(self.ckpt.harr, self.ckpt.varr)
    self.hit = lambda k: F(k) < self.n
    self.goes = lambda k: AND(self.hit(k), self.keep(F(k), k))
    self.new = lambda k: self.NK(F(k), k)
    # the rules send different variables to different names
    S = self.src = lambda q: lift(src(zint(q)))
    c.assume(forall(1, lambda k: IMP(AND(self.ckpt0.has(k), self.goes(k)), S(self.new(k)) == k), patterns=[lambda k: fst(k)]))
    self.rules = seq.SymSeq(self.n, lambda i: (Pat(self, i), Rule(self, i)))


class Match:

  def __init__(self, w, i, k):
    self.w, self.i, self.k = w, i, k

  def groups(self):
    return (('groups', self.i, self.k),)

  def __getattr__(self, n):
    raise core.Unsupported(f'match.{n}')


class Pat:

  def __init__(self, w, i):
    self.w, self.i = w, i

  def fullmatch(self, k):
    return Match(self.w, self.i, k) if self.w.M(self.i, k) else None

  def __getattr__(self, n):
    raise core.Unsupported(f'pattern.{n}')


class Rule:

  def __init__(self, w, i):
    self.w, self.i = w, i

  def __call__(self, opts, k, v, *groups):
    c, w = core.ctx(), self.w
    ok = len(groups) == 1 and isinstance(groups[0], tuple)
    c.prove('the rule gets the groups of its own match of this name', AND(groups[0][1] == self.i, groups[0][2] == k) if ok else False, kind='pre')
    c.prove('the rule gets the options of the call', isinstance(opts, dict) and opts == {'option': 7}, kind='pre')
    if w.keep(self.i, k):
      return w.NK(self.i, k), w.NV(self.i, k, v)
    return None, None


class Vars(LoopSpec):
  name = 'loop over the variables'

  def __init__(self, w):
    self.w = w

  def maps(self, env):
    return env['new_dict'], env['unmatched']

  def applies(self, L, env):
    r, u = self.maps(env)
    return isinstance(r, maps.SymMap) and isinstance(u, maps.SymMap) and hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w = self.w
    r, u = self.maps(env)
    done = lambda k: AND(w.ckpt0.has(k), L.seq.pos(k) < L.i)
    yield 'the names written so far', forall(1, lambda q: IFF(r.has(q), AND(done(w.src(q)), w.goes(w.src(q)), w.new(w.src(q)) == q)))
    yield 'with the values of their rules', forall(1, lambda q: IMP(r.has(q), r.val(q) == w.NV(w.first(w.src(q)), w.src(q), w.ckpt0.val(w.src(q)))))
    yield 'the variables no rule covers so far', forall(1, lambda k: IFF(u.has(k), AND(done(k), NOT(w.hit(k)))))

  def havoc(self, L, env):
    for m in self.maps(env):
      m.havoc('m')
    return {}


class Rules(LoopSpec):
  name = 'loop over the rules'

  def __init__(self, w):
    self.w = w

  def inv(self, L, env):
    yield 'no earlier rule matches', self.w.first(env['k']) >= L.i


def apply_rules(chk):
  m = clone(IM)

  def body(c):
    c.user['symdict'] = True
    w = World(c)
    m.__vc_rt__.loop_specs = {'CheckpointTranslator.apply#0': Vars(w), 'CheckpointTranslator.apply#1': Rules(w)}
    t = m.CheckpointTranslator.__new__(m.CheckpointTranslator)
    t.rules = w.rules
    c.user['symdict'] = True
    try:
      d = t.apply(w.ckpt, option=7)
    except ValueError:
      c.prove('an error means a variable no rule covers', NOT(forall(1, lambda k: IMP(w.ckpt0.has(k), w.hit(k)))))
      return
    if not isinstance(d, maps.SymMap):
      raise core.Unsupported('result of apply')
    k, q = c.int('k', inp=False), c.int('q', inp=False)
    c.prove('every variable is covered by a rule', IMP(w.ckpt0.has(k), w.hit(k)))
    c.prove('each variable is at the name of its first whole match, with the value of that rule',
            IMP(AND(w.ckpt0.has(k), w.goes(k)), AND(d.has(w.new(k)), d.val(w.new(k)) == w.NV(w.first(k), k, w.ckpt0.val(k)))))
    c.prove('nothing is invented', IMP(d.has(q), AND(w.ckpt0.has(w.src(q)), w.goes(w.src(q)), w.new(w.src(q)) == q)))
    c.prove('the checkpoint is not changed', forall(1, lambda x: AND(IFF(w.ckpt.has(x), w.ckpt0.has(x)), w.ckpt.val(x) == w.ckpt0.val(x))))
    c.cover()
  chk.verify('CheckpointTranslator.apply', IM, 'first rule matching the whole name gives name and value; uncovered variables are an error (any variables, any rules)', body,
             assumed=['re.fullmatch is a function of pattern and name', 'rules send different variables to different names'], seconds=240)

  def add(c):
    t = m.CheckpointTranslator()
    calls = []

    class FakeRe:

      def compile(self, p, *a):
        calls.append(p)
        return ('compiled', p)

      def __getattr__(self, n):
        raise core.Unsupported(f're.{n}')
    f, g = (lambda: 1), (lambda: 2)
    old = m.re
    m.re = FakeRe()
    try:
      r = t.add('x|y')(f)
      t.add('z')(g)
    finally:
      m.re = old
    c.prove('the decorated rule is returned', r is f)
    if [x[0] for x in t.rules] != [('compiled', 'x|y'), ('compiled', 'z')]:
      raise core.Unsupported('rules are kept in another form')
    c.prove('rules are kept in the order they were added', [x[1] for x in t.rules] == [f, g])
    c.cover()
  chk.verify('CheckpointTranslator.add', IM, 'the pattern itself is compiled; rules keep their order', add)


# --------------------------------------------------------------- the T5 rules
SLOTS = {'': ('target', ''), '_slot_vc': ('state/param_states', '/v_col'), '_slot_vr': ('state/param_states', '/v_row'), '_slot_v': ('state/param_states', '/v')}
TOWER = {'encoder': 'encoder', 'decoder': 'decoder', 'transformer': 'decoder'}
QKVO = {'q': 'query', 'k': 'key', 'v': 'value', 'o': 'out'}
NORMS = {'encoder': ['pre_attention_layer_norm', 'pre_mlp_layer_norm'],
         'decoder': ['pre_self_attention_layer_norm', 'pre_cross_attention_layer_norm', 'pre_mlp_layer_norm'],
         'transformer': ['pre_self_attention_layer_norm', 'pre_mlp_layer_norm']}


def families():
  """(name, source, target): source/target are functions of D (digits text)
  and N (the number) over text or symbolic text; '{b}' block, '{n}' number."""
  for s, (pre, suf) in SLOTS.items():
    yield 'shared embedding', f'shared/embedding{s}', f'{pre}/token_embedder/embedding{suf}'
    for e, t in TOWER.items():
      yield 'embedding', f'{e}/embedding{s}', f'{pre}/{t}/token_embedder/embedding{suf}'
      yield 'relative positions', e + '/block_{b}/layer_000/SelfAttention/relative_attention_bias' + s, pre + '/' + t + '/layers_{n}/relpos_bias/rel_embedding' + suf
      for q, w in QKVO.items():
        for a in ('SelfAttention', 'EncDecAttention'):
          at = 'attention' if e == 'encoder' else {'SelfAttention': 'self_attention', 'EncDecAttention': 'encoder_decoder_attention'}[a]
          yield 'attention', e + '/block_{b}/layer_{l}/' + a + '/' + q + s, pre + '/' + t + '/layers_{n}/' + at + '/' + w + '/kernel' + suf
      for io in ('wi', 'wo'):
        yield 'mlp', e + '/block_{b}/layer_{l}/DenseReluDense/' + io + '/kernel' + s, pre + '/' + t + '/layers_{n}/mlp/' + io + '/kernel' + suf
        yield 'mlp', e + '/block_{b}/layer_{l}/DenseReluDense/' + io + '_{i}/kernel' + s, pre + '/' + t + '/layers_{n}/mlp/' + io + '_{i}/kernel' + suf
      for nm in ('layer_norm', 'rms_norm'):
        for l, w in enumerate(NORMS[e]):
          for z in ('', '00'):
            yield 'layer norm', e + '/block_{b}/layer_' + z + f'{l}/{nm}/scale' + s, pre + '/' + t + '/layers_{n}/' + w + '/scale' + suf
      for nm in ('final_layer_norm', 'rms_norm'):
        yield 'final norm', f'{e}/{nm}/scale{s}', f'{pre}/{t}/{"encoder" if e == "encoder" else "decoder"}_norm/scale{suf}'
    for e in ('decoder', 'transformer'):
      yield 'logits', f'{e}/logits/kernel{s}', f'{pre}/decoder/logits_dense/kernel{suf}'


def compose(text, sub):
  """Text with {x} parts replaced by (symbolic) text."""
  out = ''
  for part in re.split(r'(\{\w\})', text):
    out = out + (sub[part[1]] if re.fullmatch(r'\{\w\}', part) else part)
  return out


def t5_rules(chk):
  m = clone(IM, overrides={'re': strs.RE})
  # the rules are registered when the module is executed: once more, with
  # symbolic regular expressions
  for kind in ('shared embedding', 'embedding', 'relative positions', 'attention', 'mlp', 'layer norm', 'final norm', 'logits'):
    def body(c, kind=kind):
      c.user['strings'] = True
      rules = need(m, 't5_importer').rules
      rules = [(strs.RE.compile(p.pattern), f) for p, f in rules]
      for nm, src, dst in families():
        if nm != kind:
          continue
        digits = '0123456789'
        D, Lr, Io = (strs.atom(c, x, within=digits, lo=1) for x in ('block', 'layer', 'io'))
        k = compose(src, {'b': D, 'l': Lr, 'i': Io})
        want = compose(dst, {'n': strs.int_to_str(strs.str_to_int(D)), 'i': Io})
        v = object()
        for pat, fn in rules:
          mt = pat.fullmatch(k)
          if mt:
            got = fn({}, k, v, *mt.groups())
            break
        else:
          c.prove(f'a rule covers {src}', False)
          continue
        c.prove(f'{src} -> {dst}', lift(got[0] == want) if not isinstance(got[0] == want, bool) else got[0] == want)
        c.prove('the value is unchanged', got[1] is v)
      c.cover()
    chk.verify(f't5_importer rules: {kind}', IM, 'whole name -> documented name for every block and sublayer number (digits symbolic), every tower and slot', body, seconds=240,
               assumed=['CheckpointTranslator.apply uses the first rule matching the whole name (proved above)', 're by definition'])

  def none(c):
    c.user['strings'] = True
    rules = [(strs.RE.compile(p.pattern), f) for p, f in need(m, 't5_importer').rules]
    seen = set()
    for nm, src, dst in families():
      if nm in seen and nm not in ('mlp', 'layer norm'):
        continue
      seen.add(nm)
      digits = '0123456789'
      sub = {x: strs.atom(c, x, within=digits, lo=1) for x in 'bli'}
      k = compose(src, sub)
      X = strs.atom(c, 'rest', without='')
      for bad in (k + '/' + X, k + '-' + X, 'x/' + k, k + '\n'):
        c.prove(f'a longer name is not taken for {src}', not any(bool(p.fullmatch(bad)) for p, _ in rules))
    c.cover()
  chk.verify('t5_importer rules: other names', IM, 'a name that only contains a covered one is not covered', none, seconds=240, assumed=['re by definition'])

  def step(c):
    need(m, 'global_step')
    v = object()
    c.prove('the step is state/step', m.global_step({}, 'global_step', v) == ('state/step', v))
    log = []

    class L(m.LazyArray):

      def __init__(self, tag=()):
        self.tag = tag

      def astype(self, d):
        log.append(np.dtype(d))
        return L(self.tag + ('cast',))

      def get(self):
        return ('loaded', self.tag)

      async def get_async(self):
        return None
    k, got = m.global_step({}, 'global_step', L())
    c.prove('a lazy step is loaded as an integer', k == 'state/step' and got == ('loaded', ('cast',)) and log == [np.dtype(np.int32)])
    c.cover()
  chk.verify('t5_importer rules: global_step', IM, 'state/step, loaded as int32', step)


# ------------------------------------------------------- _add_missing_param_states
class Name(SymInt):
  """A variable name: opaque, except target names and their slot names."""
  __slots__ = ('w',)

  def __init__(self, w, t):
    SymInt.__init__(self, zint(t))
    self.w = w

  def startswith(self, p):
    if p not in ('target', 'target/'):
      raise core.Unsupported(f'startswith({p!r})')
    return self.w.target(self)

  def __getitem__(self, k):
    if not (isinstance(k, slice) and k.start == len('target') and k.stop is None and k.step is None):
      raise core.Unsupported('slice of a name')
    return Rest(self)

  def split(self, sep=None, n=-1):
    if sep != '/' or n != -1:
      raise core.Unsupported('split of a name')
    return [Parts(self)]

  def __hash__(self):
    return hash(self.t)


class Parts:

  def __init__(self, n):
    self.n = n


class Rest:

  def __init__(self, n):
    self.n = n

  def __radd__(self, p):
    if p != 'state/param_states':
      raise core.Unsupported(f'{p!r} + name')
    return Leaf(self.n)


class Leaf:

  def __init__(self, n):
    self.n = n

  def __add__(self, s):
    if s not in Slots.KIND:
      raise core.Unsupported(f'slot {s!r}')
    return Name(self.n.w, self.n.w.slot(self.n, Slots.KIND[s]))


class Names(maps.SymMap):
  """Dictionary whose keys are handed out as names."""

  def __vc_seq__(self):
    s = maps.SymMap.__vc_seq__(self)
    w = self.w
    r = seq.SymSeq(s.length, lambda i: Name(w, s.get(i)))
    r.pos = s.pos
    return r


def named(w, m):
  r = Names(m.harr, m.varr)
  r.w = w
  return r


class Slots:
  KIND = {'/m': 0, '/v': 1, '/v_row': 2, '/v_col': 3}

  def __init__(self, c):
    tg, sl, own, kd = c.func('is_target', I, B), c.func('slot', I, I, I), c.func('owner', I, I), c.func('kind', I, I)
    self.target = lambda k: lift(tg(zint(k)))
    S = self.slot = lambda k, j: lift(sl(zint(k), zint(j)))
    O = self.owner = lambda q: lift(own(zint(q)))
    K = self.kind = lambda q: lift(kd(zint(q)))
    # concatenation is injective; slot names do not start with 'target'
    c.assume(forall(2, lambda k, j: IMP(AND(self.target(k), j >= 0, j <= 3), AND(O(S(k, j)) == k, K(S(k, j)) == j, NOT(self.target(S(k, j))))),
                    patterns=[lambda k, j: sl(k, j)]))
    c.assume(forall(1, lambda q: IMP(AND(K(q) >= 0), AND(K(q) <= 3, self.target(O(q)), S(O(q), K(q)) == q)), patterns=[lambda q: kd(q)]))
    self.d = named(self, maps.SymMap.fresh('legacy'))
    self.d0 = maps.SymMap(self.d.harr, self.d.varr)
    d0 = self.d0
    has = lambda k, j: d0.has(S(k, j))
    self.adds = lambda k, j: AND(d0.has(k), self.target(k), OR(
        j == 0, AND(OR(j == 2, j == 3), has(k, 1)), AND(j == 1, NOT(has(k, 1)), has(k, 2))))
    # legacy Adafactor: no momentum, full or factored
    c.assume(forall(1, lambda k: IMP(AND(d0.has(k), self.target(k)), AND(NOT(has(k, 0)), IFF(has(k, 2), has(k, 3)), NOT(AND(has(k, 1), has(k, 2)))))))


class AddLoop(LoopSpec):
  name = 'loop over the variables'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    return isinstance(env['updates'], maps.SymMap) and hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w, u = self.w, env['updates']
    done = lambda k: L.seq.pos(k) < L.i
    yield 'the placeholders of the variables seen', forall(1, lambda q: IFF(u.has(q), AND(w.kind(q) >= 0, done(w.owner(q)), w.adds(w.owner(q), w.kind(q)))))
    yield 'are placeholders', forall(1, lambda q: IMP(u.has(q), u.val(q) == w.zero))

  def havoc(self, L, env):
    env['updates'].havoc('updates')
    return {}


def add_missing(chk):
  m = clone(IM)
  real = dict(m.__dict__)

  def body(c):
    c.user['symdict'] = True
    w = Slots(c)
    w.zero = c.int('placeholder', inp=False)

    def zeros(shape, dtype=None):
      c.prove('a placeholder is one float32 zero', tuple(shape) == (1,) and np.dtype(dtype) == np.float32, kind='pre')
      return w.zero
    m.np = StubNS(np, zeros=zeros)
    m.__vc_rt__.loop_specs = {'_add_missing_param_states#0': AddLoop(w)}
    try:
      r = need(m, '_add_missing_param_states')(w.d)
    finally:
      m.__dict__.update(real)
    if not isinstance(r, maps.SymMap):
      raise core.Unsupported('result')
    q, k = c.int('q', inp=False), c.int('k', inp=False)
    c.prove('every variable keeps its value', IMP(w.d0.has(q), AND(r.has(q), r.val(q) == w.d0.val(q))))
    c.prove('only placeholders are added', IMP(AND(r.has(q), NOT(w.d0.has(q))), AND(w.kind(q) >= 0, w.adds(w.owner(q), w.kind(q)), r.val(q) == w.zero)))
    t = AND(w.d0.has(k), w.target(k))
    has = lambda j: w.d0.has(w.slot(k, j))
    c.prove('every variable has momentum', IMP(t, r.has(w.slot(k, 0))))
    c.prove('and all second moments, factored or not', IMP(AND(t, OR(has(1), has(2))), AND(r.has(w.slot(k, 1)), r.has(w.slot(k, 2)), r.has(w.slot(k, 3)))))
    c.cover()
  chk.verify('_add_missing_param_states', IM, 'adds exactly the slots the model expects and the legacy optimiser lacks; every other entry unchanged (any variables)', body,
             assumed=['string concatenation is injective', 'legacy Adafactor keeps no momentum and either full or factored second moments'], seconds=200)


# ----------------------------------------------------------------- relpos bias
class Rel:
  """Names with a layer number in front of relpos_bias."""

  def __init__(self, c):
    rl, ly, sb, iv = c.func('is_layer_bias', I, B), c.func('layer', I, I), c.func('without_layer', I, I), c.func('inverse', I, I)
    self.rel = lambda k: lift(rl(zint(k)))
    self.layer = lambda k: lift(ly(zint(k)))
    self.sub = lambda k: lift(sb(zint(k)))
    self.back = lambda k: lift(iv(zint(k)))
    c.assume(forall(1, lambda k: IMP(self.rel(k), self.layer(k) >= 0), patterns=[lambda k: ly(k)]))
    c.assume(forall(1, lambda k: IMP(NOT(self.rel(k)), self.sub(k) == k), patterns=[lambda k: sb(k)]))
    self.d = maps.SymMap.fresh('data')
    self.d0 = maps.SymMap(self.d.harr, self.d.varr)
    # distinct entries stay distinct when the bias is shared (one layer 0 each)
    self.shared = forall(1, lambda k: IMP(AND(self.d0.has(k), self.rel(k)), self.layer(k) == 0))
    c.assume(IMP(self.shared, forall(1, lambda k: IMP(self.d0.has(k), self.back(self.sub(k)) == k), patterns=[lambda k: sb(k)])))


class Digits:

  def __init__(self, n):
    self.n = n

  def __vc_int__(self):
    return self.n


class RelRe:

  def __init__(self, w):
    self.w = w

  def search(self, p, k):
    if p not in (r'layers_(\d+)/relpos_bias', r'layers_([0-9]+)/relpos_bias'):
      raise core.Unsupported(f'pattern {p!r}')
    w = self.w
    if not w.rel(k):
      return None
    core.ctx().assume(w.layer(k) >= 0)

    class M:
      groups = lambda self: (IntText(w.layer(k)),)
      group = lambda self, i: IntText(w.layer(k)) if i == 1 else (_ for _ in ()).throw(core.Unsupported('group'))
    return M()

  def sub(self, p, r, k, *a):
    if (p, r) not in ((r'layers_\d+/relpos_bias', 'relpos_bias'), (r'layers_[0-9]+/relpos_bias', 'relpos_bias')) or a:
      raise core.Unsupported(f'substitution {p!r}')
    return self.w.sub(k)

  def __getattr__(self, n):
    raise core.Unsupported(f're.{n}')


def IntText(n):
  return strs.int_to_str(n)


class MaxLoop(LoopSpec):
  name = 'loop for the largest layer'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    return hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w, mx = self.w, env['max_layer_ind']
    done = lambda k: AND(w.d0.has(k), w.rel(k), L.seq.pos(k) < L.i)
    yield 'no layer seen is larger', forall(1, lambda k: IMP(done(k), w.layer(k) <= mx))
    at = L.seq.get(w.arg)[0]
    yield 'it is a layer seen, or none', AND(mx >= 0, OR(mx == 0, NOT(forall(1, lambda k: NOT(AND(done(k), w.layer(k) == mx))))))

  def havoc(self, L, env):
    c = core.ctx()
    return {'max_layer_ind': c.int('max_layer', inp=False)}


class SubLoop(LoopSpec):
  name = 'loop that renames'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    return isinstance(env['modified_dict'], maps.SymMap) and hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w, r = self.w, env['modified_dict']
    yield 'the entries renamed so far', forall(1, lambda q: IFF(r.has(q), AND(w.d0.has(w.back(q)), L.seq.pos(w.back(q)) < L.i, w.sub(w.back(q)) == q)))
    yield 'keep their values', forall(1, lambda q: IMP(r.has(q), r.val(q) == w.d0.val(w.back(q))))

  def havoc(self, L, env):
    env['modified_dict'].havoc('modified')
    return {}


def relpos(chk):
  m = clone(IM)
  real = dict(m.__dict__)

  def body(c):
    c.user['symdict'] = True
    w = Rel(c)
    w.arg = 0
    m.re = RelRe(w)
    m.__vc_rt__.loop_specs = {'_maybe_correct_relpos_bias#0': MaxLoop(w), '_maybe_correct_relpos_bias#1': SubLoop(w)}
    try:
      r = need(m, '_maybe_correct_relpos_bias')(w.d)
    finally:
      m.__dict__.update(real)
    if not isinstance(r, maps.SymMap):
      raise core.Unsupported('result')
    k, q = c.int('k', inp=False), c.int('q', inp=False)
    c.prove('a shared bias loses its layer, values unchanged', IMP(AND(w.shared, w.d0.has(k)), AND(r.has(w.sub(k)), r.val(w.sub(k)) == w.d0.val(k))))
    c.prove('shared: nothing else', IMP(AND(w.shared, r.has(q)), AND(w.d0.has(w.back(q)), w.sub(w.back(q)) == q)))
    c.prove('biases of several layers stay where they are', IMP(NOT(w.shared), AND(IFF(r.has(q), w.d0.has(q)), IMP(r.has(q), r.val(q) == w.d0.val(q)))))
    c.cover()
  chk.verify('_maybe_correct_relpos_bias', IM, 'shared (layer 0 only): renamed without the layer; otherwise unchanged; values unchanged (any entries)', body,
             assumed=['re.search/re.sub of the two patterns by definition', 'different variables keep different names'], seconds=200)


# ------------------------------------------------------------ _update_state_dict
class Val(SymInt):
  __slots__ = ('w',)

  def __init__(self, w, t):
    SymInt.__init__(self, zint(t))
    self.w = w

  shape = property(lambda self: self.w.shape(self))

  def __hash__(self):
    return hash(self.t)


class Vals(Names):

  def __getitem__(self, k):
    return Val(self.w, maps.SymMap.__getitem__(self, k))

  def items(self):
    s, v = self.__vc_seq__(), self.varr
    w = self.w
    r = seq.SymSeq(s.length, lambda i: (s.get(i), Val(w, z3.Select(v, zint(s.get(i))))))
    r.pos, r.keyseq = s.pos, s
    return r


class Upd:

  def __init__(self, c):
    sh = c.func('shape', I, I)
    self.shape = lambda v: lift(sh(zint(v)))
    self.target = lambda k: (_ for _ in ()).throw(core.Unsupported('startswith'))

    def vals(nm):
      x = maps.SymMap.fresh(nm)
      r = Vals(x.harr, x.varr)
      r.w = self
      return r, x
    self.t5, self.t50 = vals('t5')
    self.opt, self.opt0 = vals('optimizer')


class DropLoop(LoopSpec):
  name = 'loop that drops unknown variables'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    self.s = L.seq
    return isinstance(env['t5_data'], maps.SymMap) and hasattr(L.seq, 'pos')

  def inv(self, L, env):
    w, d = self.w, env['t5_data']
    yield 'the unknown ones seen are gone', forall(1, lambda k: IFF(d.has(k), AND(w.t50.has(k), OR(w.opt0.has(k), L.seq.pos(k) >= L.i))))
    yield 'values are kept', forall(1, lambda k: IMP(d.has(k), d.val(k) == w.t50.val(k)))

  def havoc(self, L, env):
    env['t5_data'].havoc('t5')
    return {}


class Missing(LoopSpec):
  name = 'loop over the variables of the optimizer'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    return hasattr(L.seq, 'pos') and not isinstance(L.seq.get(0), tuple)

  def inv(self, L, env):
    w, d = self.w, env['t5_data']
    yield 'none seen is missing', forall(1, lambda k: IMP(AND(w.opt0.has(k), L.seq.pos(k) < L.i), d.has(k)))


class Shapes(LoopSpec):
  name = 'loop that compares shapes'

  def __init__(self, w):
    self.w = w

  def applies(self, L, env):
    return hasattr(L.seq, 'pos') and isinstance(L.seq.get(0), tuple)

  def inv(self, L, env):
    w, d = self.w, env['t5_data']
    yield 'those seen are known and have the shape of the model', forall(1, lambda k: IMP(
        AND(d.has(k), L.seq.pos(k) < L.i), AND(w.opt0.has(k), w.shape(w.opt0.val(k)) == w.shape(d.val(k)))))


class Any(LoopSpec):
  """Picks the contract by what the loop iterates."""

  def __init__(self, *specs):
    self.specs = specs

  def applies(self, L, env):
    for s in self.specs:
      if s.applies(L, env):
        self.s = s
        self.name = s.name
        return True
    return False

  def inv(self, L, env):
    return self.s.inv(L, env)

  def havoc(self, L, env):
    return self.s.havoc(L, env)


def update(chk):
  m = clone(IM)
  real = dict(m.__dict__)

  def key(t):
    if isinstance(t, tuple) and len(t) == 1 and isinstance(t[0], Parts):
      return t[0].n
    raise core.Unsupported('key of the nested dictionary')

  for strict in (True, False):
    def body(c, strict=strict):
      c.user['symdict'] = True
      w = Upd(c)
      out = {}

      def flatten(d, sep=None, **k):
        c.prove('names are joined with /', sep == '/' and not k, kind='pre')
        return {'STATE': w.opt}[d]

      def unflatten(d, sep=None):
        out['d'] = d
        return ('tree', d)
      m.traverse_util = StubNS(m.traverse_util, flatten_dict=flatten, unflatten_dict=unflatten)
      first = 0 if not strict else None
      specs = {}
      for i in range(4):
        specs[f'_update_state_dict#{i}'] = Any(Shapes(w), *([DropLoop(w)] if i == 0 else []), Missing(w))
      m.__vc_rt__.loop_specs = specs
      old = maps.zint
      maps.zint = lambda x: zint(key(x)) if isinstance(x, tuple) else zint(x)
      try:
        try:
          r = need(m, '_update_state_dict')('STATE', w.t5, strict=strict)
          err = None
        except (ValueError, KeyError) as e:
          err = type(e)
        known = lambda k: w.t50.has(k) if strict else AND(w.t50.has(k), w.opt0.has(k))
        good = AND(forall(1, lambda k: IMP(known(k), AND(w.opt0.has(k), w.shape(w.opt0.val(k)) == w.shape(w.t50.val(k))))),
                   forall(1, lambda k: IMP(w.opt0.has(k), w.t50.has(k))))
        if err is not None:
          c.prove('an error means an unknown name, a missing one or another shape', NOT(good))
          return
        if not (isinstance(r, tuple) and r[0] == 'tree' and isinstance(r[1], maps.SymMap)):
          raise core.Unsupported('result')
        d = r[1]
        k = c.int('k', inp=False)
        c.prove('every name is known to the model', IMP(d.has(k), w.opt0.has(k)))
        c.prove('every name of the model has an imported value', IMP(w.opt0.has(k), d.has(k)))
        c.prove('of the shape of the model', IMP(d.has(k), w.shape(d.val(k)) == w.shape(w.opt0.val(k))))
        c.prove('values are those imported', IMP(d.has(k), AND(w.t50.has(k), d.val(k) == w.t50.val(k))))
        if strict:
          c.prove('strict: nothing is dropped', IMP(w.t50.has(k), d.has(k)))
        c.cover()
      finally:
        maps.zint = old
        m.__dict__.update(real)
    chk.verify('_update_state_dict' + (' [strict]' if strict else ' [lenient]'), IM, 'the imported values under exactly the names of the model, shapes equal; else an error', body,
               assumed=['flatten_dict/unflatten_dict are inverse (property S02)'], seconds=200)


# --------------------------------------------------------------------- lazy
def lazy(chk):
  m = clone(IM)

  class A:

    def __init__(self, tag, d):
      self.tag, self.dtype = tag, d

    def astype(self, d):
      return A(('cast', self.tag, d), d)

  def body(c):
    d1, d2 = c.int('stored', inp=False), c.int('wanted', inp=False)
    old = m.jnp
    m.jnp = StubNS(old, dtype=lambda x: x)
    try:
      for cls in (m.LazyThreadPoolArray, m.LazyAwaitableArray):
        calls = []
        a = A('data', d1)

        def get():
          calls.append(1)
          return a

        async def aget():
          calls.append(1)
          return a
        isa = cls is m.LazyAwaitableArray
        x = cls((3, 4), d2, aget if isa else get)
        y = x.astype(d1).astype(d2)
        c.prove('shape and type are known', x.shape == (3, 4) and AND(x.dtype == d2, y.dtype == d2, x.astype(d1).dtype == d1))
        c.prove('a cast is lazy and of the same class', type(y) is cls and not calls and y.shape == (3, 4))
        for z in (x, y):
          if isa:
            co = z.get_async()
            try:
              co.send(None)
              raise core.Unsupported('get_async waits')
            except StopIteration as e:
              r = e.value
          else:
            r = z.get()
          if d1 == d2:
            c.prove('the stored array, not converted', r is a)
          else:
            c.prove('converted once to the requested type', isinstance(r.tag, tuple) and r.tag[:2] == ('cast', 'data') and r.tag[2] == d2)
        c.prove('loaded once per request', len(calls) == 2)
    finally:
      m.jnp = old
    c.cover()
  chk.verify('LazyThreadPoolArray.get / LazyAwaitableArray.get_async / astype', IM, 'no load before get; the stored values, cast only if the type differs (any types)', body)


# ------------------------------------------------------------------- search
def search_translator(rec):
  from t5x import checkpoint_importer as ci
  need(ci, 'CheckpointTranslator')
  rnd = random.Random(0)
  pats = ['a', 'b', 'a|b', 'a|ab', r'(\w+)/x', r'x/(\w+)', r'x/(\w+)(_slot)?', '.*', 'a.*', '(a|b)/c', 'a/.|b', r'\d+', 'p(?:q)?', '', 'a|b/c']
  names = ['a', 'b', 'ab', 'abc', 'a/x', 'x/a', 'x/a_slot', 'x/a/b', 'a/c', 'b/c', '12', 'p', 'pq', 'pqr', 'a\n', 'b\n', 'bc', 'a/xx']
  for i in range(1500):
    if rec.full:
      return
    rules = rnd.sample(pats, rnd.randrange(1, 5))
    drop = [rnd.random() < 0.15 for _ in rules]
    keys = rnd.sample(names, rnd.randrange(1, 6))

    def run():
      t = ci.CheckpointTranslator()
      for j, p in enumerate(rules):
        def f(opts, k, v, *g, j=j):
          return (None, None) if drop[j] else ((j, k, g, tuple(sorted(opts.items()))), ('new', v))
        if t.add(p)(f) is not f:
          return 'add() does not return the rule'
      flat = {k: object() for k in keys}
      want, bad = {}, []
      for k, v in flat.items():
        for j, p in enumerate(rules):
          mt = re.fullmatch(p, k)
          if mt:
            if not drop[j]:
              want[(j, k, mt.groups(), (('o', 1),))] = ('new', v)
            break
        else:
          bad.append(k)
      try:
        got = t.apply(flat, o=1)
      except ValueError as e:
        return None if bad and all(repr(k) in str(e) for k in bad) else f'rules {rules}: {keys} raised {e!r}, uncovered: {bad}'
      if bad:
        return f'rules {rules} accepted {bad}: {[k for k in got]}'
      return None if got == want else f'rules {rules}: {keys} became {list(got)}'
    rec.run(['translator', rules, keys], run)


def search_rules(rec):
  from t5x import checkpoint_importer as ci
  need(ci, 't5_importer')
  fams = list(families())
  for nm, src, dst in fams:
    for b, l, i in (('0', '0', '0'), ('003', '001', '1'), ('012', '2', '12'), ('110', '010', '0')):
      if rec.full:
        return
      k = src.format(b=b, l=l, i=i)
      want = dst.format(n=int(b), i=i)

      def run():
        v = np.ones(2)
        try:
          got = ci.t5_importer.apply({k: v})
        except Exception as e:  # pylint: disable=broad-except
          return f'{k}: {e!r}'
        return None if list(got) == [want] and got[want] is v else f'{k} became {list(got)}, expected {want}'
      rec.run(['rule', k], run)
  rnd = random.Random(1)
  for nm, src, dst in fams:
    k = src.format(b='2', l='1', i='0')
    for bad in (k + '/x', 'x' + k, k[1:], k + '.1', k + '\n', k.replace('/', '//', 1), k + '_slot_x'):
      def run():
        try:
          got = ci.t5_importer.apply({bad: 1})
        except (ValueError, KeyError):
          return None
        return f'{bad!r} was imported as {list(got)}'
      rec.run(['unknown', bad], run)
      if rec.full:
        return
  # every name of the default vocabulary goes to its own place
  def run():
    src = {s.format(b=b, l=l, i='0'): n for n, (nm, s, d) in enumerate(fams) for b in ('0', '1') for l in ('0',)
           if not ('EncDec' in s and s.startswith('encoder')) and not (nm == 'layer norm' and '_00' in s) and 'transformer' not in s and not (nm in ('layer norm', 'final norm') and 'rms' in s)}
    got = ci.t5_importer.apply(src)
    return None if len(got) == len(src) else f'{len(src)} variables share {len(got)} names'
  rec.run(['distinct'], run)


def search_fixups(rec):
  from t5x import checkpoint_importer as ci
  need(ci, '_add_missing_param_states')
  need(ci, '_maybe_correct_relpos_bias')
  rnd = random.Random(2)
  for i in range(400):
    if rec.full:
      return
    d, want = {'state/step': 5}, {'state/step': 5}
    for n in rnd.sample(['a', 'b/c', 'targets', 'decoder/x', 'state/param_states'], rnd.randrange(0, 5)):
      k = 'target/' + n
      d[k] = want[k] = object()
      s = 'state/param_states/' + n
      want[s + '/m'] = 'zero'
      full = rnd.choice(('v', 'row', 'none'))
      if full == 'v':
        d[s + '/v'] = want[s + '/v'] = object()
        want[s + '/v_row'] = want[s + '/v_col'] = 'zero'
      elif full == 'row':
        for x in ('/v_row', '/v_col'):
          d[s + x] = want[s + x] = object()
        want[s + '/v'] = 'zero'
    items = list(d.items())
    rnd.shuffle(items)

    def run():
      got = ci._add_missing_param_states(dict(items))
      z = lambda v: isinstance(v, np.ndarray) and v.shape == (1,) and v.dtype == np.float32 and v[0] == 0
      if set(got) != set(want):
        return f'{sorted(dict(items))} became {sorted(got)}'
      for k, v in want.items():
        if (not z(got[k])) if v == 'zero' else (got[k] is not v):
          return f'{k} became {got[k]}'
    rec.run(['slots', [k for k, _ in items]], run)
  for i in range(400):
    if rec.full:
      return
    d = {'target/decoder/layers_3/mlp/wi': object(), 'state/step': 1}
    only0 = rnd.random() < 0.5
    for t in rnd.sample(['encoder', 'decoder'], rnd.randrange(0, 3)):
      for l in ([0] if only0 else rnd.sample([0, 1, 2, 3, 10, 11], rnd.randrange(1, 4))):
        for x in ('target', 'state/param_states'):
          suf = '' if x == 'target' else rnd.choice(('/v', '/v_row', '/m'))
          d[f'{x}/{t}/layers_{l}/relpos_bias/rel_embedding{suf}'] = object()
    items = list(d.items())
    rnd.shuffle(items)

    def run():
      shared = all(int(x) == 0 for k in d for x in re.findall(r'layers_(\d+)/relpos_bias', k))
      got = ci._maybe_correct_relpos_bias(dict(items))
      want = {(k.replace('layers_0/relpos_bias', 'relpos_bias') if shared else k): v for k, v in items}
      return None if got.keys() == want.keys() and all(got[k] is v for k, v in want.items()) else f'{[k for k, _ in items]} became {list(got)}'
    rec.run(['relpos', [k for k, _ in items]], run)


def search_update(rec):
  from t5x import checkpoint_importer as ci
  need(ci, '_update_state_dict')
  rnd = random.Random(3)
  names = ['state/step', 'target/a', 'target/b/c', 'target/b/d', 'state/param_states/a/v', 'state/param_states/b/c/v_row']
  nest = lambda f: ci.traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in f.items()})
  for i in range(600):
    if rec.full:
      return
    opt = {k: np.zeros(rnd.choice([(2,), (2, 3)])) for k in rnd.sample(names, rnd.randrange(1, len(names) + 1))}
    t5 = {k: np.ones(v.shape) for k, v in opt.items()}
    for k in rnd.sample(names, rnd.randrange(0, 3)):
      what = rnd.choice(('drop', 'extra', 'shape'))
      if what == 'drop':
        t5.pop(k, None)
      elif what == 'extra':
        t5.setdefault(k, np.ones(2))
      elif k in t5:
        t5[k] = np.ones(t5[k].shape + (1,))
    strict = rnd.random() < 0.5

    def run():
      bad = [k for k in opt if k not in t5] + [k for k in t5 if (k not in opt and strict) or (k in opt and opt[k].shape != t5[k].shape)]
      try:
        got = ci._update_state_dict(nest(opt), dict(t5), strict=strict)
      except (ValueError, KeyError) as e:
        return None if bad else f'{e!r} for {sorted(t5)} into {sorted(opt)}'
      if bad:
        return f'accepted although {bad} are missing, unknown or of another shape (strict={strict})'
      flat = ci.traverse_util.flatten_dict(got, sep='/')
      return None if flat.keys() == opt.keys() and all(flat[k] is t5[k] for k in flat) else f'{sorted(t5)} into {sorted(opt)} gave {sorted(flat)}'
    rec.run(['update', sorted(opt), sorted(t5), strict], run)


def search_lazy(rec):
  import asyncio
  import jax.numpy as jnp
  import tensorstore as ts
  from t5x import checkpoint_importer as ci
  for cls, (d0, d1) in itertools.product(('LazyThreadPoolArray', 'LazyAwaitableArray'),
                                         itertools.product(('float32', 'int32', 'bfloat16', 'float16', 'int8'), repeat=2)):
    def run():
      C = getattr(ci, cls)
      src = jnp.arange(6, dtype=d0).reshape(2, 3)
      calls = []

      def get():
        calls.append(1)
        return src

      async def aget():
        calls.append(1)
        return src
      x = C((2, 3), d0, aget if 'Await' in cls else get)
      y = x.astype(d1)
      if calls:
        return 'loaded before it was asked for'
      for z, d in ((x, d0), (y, d1)):
        for r in (z.get(), asyncio.run(z.get_async())):
          if r.dtype != jnp.dtype(d) or not np.array_equal(np.asarray(r, np.float32), np.asarray(src, np.float32)):
            return f'{d0} as {d}: {r}'
        if z.shape != (2, 3) or z.dtype != jnp.dtype(d) or z.nbytes != 6 * jnp.dtype(d).itemsize:
          return f'{z} misdescribes itself'
    rec.run(['lazy', cls, d0, d1], run)
  for d, want in (('uint16', 'bfloat16'), ('float32', 'float32'), ('bfloat16', 'bfloat16'), ('int32', 'int32')):
    def run():
      spec = ts.Spec({'driver': 'zarr', 'kvstore': {'driver': 'memory'}, 'dtype': d, 'metadata': {'shape': [4, 5], 'dtype': {'uint16': '<u2', 'float32': '<f4', 'bfloat16': 'bfloat16', 'int32': '<i4'}[d]}})
      for cast in (None, 'float32'):
        x = ci.LazyAwaitableArray.from_tensor_store_spec_or_array(spec, None, cast)
        if x.shape != (4, 5) or x.dtype != jnp.dtype(cast or want):
          return f'specification of {d} (as {cast}) became {x}'
      y = ci.LazyAwaitableArray.from_tensor_store_spec_or_array(np.zeros((3,), np.int8), None)
      return None if y.shape == (3,) and y.dtype == np.int8 else f'{y}'
    rec.run(['spec', d], run)


def search_restore(rec):
  """restore_from_t5_checkpoint over generated listings."""
  from t5x import checkpoint_importer as ci
  rnd = random.Random(4)
  nest = lambda f: ci.traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in f.items()})
  for i in range(60):
    if rec.full:
      return
    tower = rnd.choice((('encoder', 'decoder'), ('transformer',)))
    L = rnd.randrange(1, 4)
    shared = rnd.random() < 0.5
    lazyp, strict = rnd.random() < 0.5, rnd.random() < 0.5
    src, want = {'global_step': np.int64(7)}, {'state/step': np.int32(7)}

    def put(s, t, shape):
      v = rnd.randrange(1000)
      a = np.full(shape, v, np.float32)
      src[s] = a
      want['target/' + t] = a
      p = 'state/param_states/' + t
      want[p + '/m'] = np.zeros((1,), np.float32)
      if rnd.random() < 0.5:
        src[s + '_slot_v'] = want[p + '/v'] = np.full(shape, v + 1, np.float32)
        want[p + '/v_row'] = want[p + '/v_col'] = np.zeros((1,), np.float32)
      else:
        src[s + '_slot_vr'] = want[p + '/v_row'] = np.full(shape[:1], v + 2, np.float32)
        src[s + '_slot_vc'] = want[p + '/v_col'] = np.full(shape[-1:], v + 3, np.float32)
        want[p + '/v'] = np.zeros((1,), np.float32)
    put('shared/embedding', 'token_embedder/embedding', (5, 4))
    for t in tower:
      o = TOWER[t]
      put(f'{t}/{"rms_norm" if t == "transformer" else "final_layer_norm"}/scale', f'{o}/{o}_norm/scale', (4,))
      for b in range(L):
        put(f'{t}/block_{b:03d}/layer_000/SelfAttention/q', f'{o}/layers_{b}/{"attention" if t == "encoder" else "self_attention"}/query/kernel', (4, 2))
        put(f'{t}/block_{b:03d}/layer_001/DenseReluDense/wi_0/kernel', f'{o}/layers_{b}/mlp/wi_0/kernel', (4, 3))
        if b == 0 or not shared:
          rel = f'{o}/layers_{b}/relpos_bias/rel_embedding' if not shared and L > 1 else f'{o}/relpos_bias/rel_embedding'
          put(f'{t}/block_{b:03d}/layer_000/SelfAttention/relative_attention_bias', rel, (2, 3))
    model = dict(want)
    if not strict:
      src['shared/embedding_slot_v' if 'shared/embedding_slot_v' not in src else 'decoder/logits/kernel'] = np.zeros((9,), np.float32)
      extra = 'decoder/logits/kernel' in src
      if not extra:
        src.pop('shared/embedding_slot_v')

    def run():
      lz = {k: ci.LazyThreadPoolArray(np.shape(v), v.dtype, lambda v=v: v) for k, v in src.items()}
      with patched(ci, load_tf_ckpt=lambda path: dict(lz)):
        got = ci.restore_from_t5_checkpoint(nest(model), 'p', lazy_parameters=lazyp, strict=strict)
      flat = ci.traverse_util.flatten_dict(got, sep='/')
      if flat.keys() != want.keys():
        return f'missing {sorted(want.keys() - flat.keys())[:3]}, extra {sorted(flat.keys() - want.keys())[:3]}'
      for k, v in want.items():
        g = flat[k]
        if isinstance(g, ci.LazyArray):
          if not lazyp:
            return f'{k} is still lazy'
          g = g.get()
        if not np.array_equal(np.asarray(g), v) or np.asarray(g).dtype != v.dtype:
          return f'{k} became {g}'
    rec.run(['restore', sorted(src), shared, lazyp, strict], run)


def build(chk):
  apply_rules(chk)
  t5_rules(chk)
  add_missing(chk)
  relpos(chk)
  update(chk)
  lazy(chk)
  chk.search('translator with arbitrary rules', '1500 random rule lists over 15 patterns and 18 names', search_translator)
  chk.search('T5 rules', 'every family x tower x slot x 4 numberings; 7 corruptions each', search_rules)
  chk.search('placeholder slots and relative positions', '800 random listings', search_fixups)
  chk.search('update of a state', '600 random states', search_update)
  chk.search('lazy arrays', '50 type pairs, 4 specifications', search_lazy)
  chk.search('whole imports', '60 generated listings', search_restore)


if __name__ == '__main__':
  main('C06', build)
