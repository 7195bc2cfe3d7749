"""O02: optimiser and train state round trips; optimisers made of parts."""

import itertools
import re

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq, maps
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, exists, lift, zint
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

OP = 't5x/optimizers.py'
TS = 't5x/train_state.py'
MARK, NONE = -1, -2


class Tree:
  """A parameter-shaped tree: a value (integer code) for each path of a set."""

  def __init__(self, has, val):
    self.harr, self.varr = has, val

  def has(self, p):
    return lift(z3.Select(self.harr, zint(p)))

  def val(self, p):
    return lift(z3.Select(self.varr, zint(p)))

  @staticmethod
  def fresh(name):
    m = maps.SymMap.fresh(name)
    return Tree(m.harr, m.varr)

  def __getattr__(self, n):
    raise core.Unsupported(f'tree.{n}')


def lam(f):
  p = z3.Int('p!tree')
  return z3.Lambda([p], f(p))


class W:
  """Ghost world: parts 0..n-1, a set of parameters, who selects what."""

  def __init__(self, c, disjoint=True):
    I, B = z3.IntSort(), z3.BoolSort()
    self.c = c
    self.n = c.int('parts', 0)
    self.sel_ = c.func('selects', I, I, B)
    D = Tree.fresh('params')
    self.D = D
    self.part = c.func('part_of', I, I)
    if disjoint:
      # the traversals do not overlap (init_state rejects overlaps)
      c.assume(forall(2, lambda i, p: IMP(AND(i >= 0, i < self.n, self.sel(i, p)), self.owner(p) == i),
                      patterns=[lambda i, p: self.sel_(i, p)]))

  def sel(self, i, p):
    return lift(self.sel_(zint(i), zint(p)))

  def owner(self, p):
    return lift(self.part(zint(p)))

  def some(self, i, p):
    """One of the first i parts selects p."""
    o = self.owner(p)
    return AND(o >= 0, o < i, self.sel(o, p))


class Focus:
  def __init__(self, i):
    self.i = i

  def __vc_ite__(self, c, o):
    return type(self)(core.SymInt(z3.If(c, zint(self.i), zint(o.i))))


def helpers(m, w):
  def sub(focus, tree):
    if not (isinstance(focus, Focus) and isinstance(tree, Tree)):
      raise core.Unsupported('a subtree of something else')
    return Tree(lam(lambda p: z3.And(z3.Select(tree.harr, p), w.sel_(zint(focus.i), p))), tree.varr)

  def upd(focus, tree, update):
    if not (isinstance(focus, Focus) and isinstance(tree, Tree) and isinstance(update, Tree)):
      raise core.Unsupported('an update of something else')
    hit = lambda p: z3.And(z3.Select(update.harr, p), w.sel_(zint(focus.i), p))
    return Tree(lam(lambda p: z3.Or(z3.Select(tree.harr, p), hit(p))),
                lam(lambda p: z3.If(hit(p), z3.Select(update.varr, p), z3.Select(tree.varr, p))))
  m._subtree_from_traversal = sub
  m._update_subtree_of_traversal = upd

  def tmap(f, tree, *rest):
    if rest or not isinstance(tree, Tree):
      raise core.Unsupported('tree.map')
    marker = m._Marker()
    a, b = f(marker), f(Other())
    code = lambda r, old: z3.IntVal(MARK) if isinstance(r, m._Marker) else z3.IntVal(NONE) if r is None else old if isinstance(r, Other) else core.Unsupported
    for r in (a, b):
      if not (isinstance(r, (m._Marker, Other)) or r is None):
        raise core.Unsupported('tree.map over other values')
    v = tree.varr
    return Tree(tree.harr, lam(lambda p: z3.If(z3.Select(v, p) == MARK, code(a, z3.Select(v, p)), code(b, z3.Select(v, p)))))
  m.jax = StubNS(m.jax, tree=StubNS(None, map=tmap), tree_util=StubNS(None, tree_map=tmap), tree_map=tmap)


class Other:
  def __getattr__(self, n):
    raise core.Unsupported(f'leaf.{n}')


class Parts(LoopSpec):
  """After i parts: the parameters of these parts are updated, no others."""
  name = 'loop over the parts'

  def __init__(self, w, params, newp, news, marks):
    self.w, self.p0, self.newp, self.news, self.marks = w, params, newp, news, marks

  def applies(self, L, env):
    self.vp = [k for k in ('new_params',) if isinstance(env.get(k), Tree)] if self.newp else []
    self.vs = [k for k in ('new_param_states', 'param_states') if isinstance(env.get(k), Tree)]
    return L.seq is not None and len(self.vs) == 1 and len(self.vp) == (1 if self.newp else 0)

  def inv(self, L, env):
    w, i = self.w, L.i
    fa = lambda f: forall(1, f)
    for k in self.vp:
      t = env[k]
      yield 'parameters: none appears or vanishes', fa(lambda p: IFF(t.has(p), self.p0.has(p)))
      yield 'parameters: those of the parts so far have their update, the others their old value', fa(
          lambda p: IMP(self.p0.has(p), t.val(p) == core.ite(w.some(i, p), self.newp(w.owner(p), p), self.p0.val(p))))
    t = env[self.vs[0]]
    yield 'slots: none appears or vanishes', fa(lambda p: IFF(t.has(p), self.p0.has(p)))
    yield 'slots: those of the parts so far are new, the others are marked', fa(
        lambda p: IMP(self.p0.has(p), t.val(p) == core.ite(w.some(i, p), self.news(w.owner(p), p), MARK)))

  def havoc(self, L, env):
    return {k: Tree.fresh(k) for k in self.vp + self.vs}


def verify_multi(chk):
  m = clone(OP)
  real = dict(m.__dict__)

  def same(c, w, i, t, of, what):
    c.prove(what, forall(1, lambda p: AND(IFF(t.has(p), AND(of.has(p), w.sel(i, p))), IMP(t.has(p), t.val(p) == of.val(p)))))

  def grad(c):
    m.__dict__.update(real)
    w = W(c)
    helpers(m, w)
    params = w.D
    grads = Tree(params.harr, Tree.fresh('grads').varr)
    states = Tree(params.harr, Tree.fresh('slots').varr)
    c.assume(forall(1, lambda p: AND(params.val(p) >= 0, grads.val(p) >= 0, OR(states.val(p) >= 0, states.val(p) == NONE))))
    I = z3.IntSort()
    NP, NS = c.func('new_param', I, I, I), c.func('new_slot', I, I, I)
    newp = lambda i, p: lift(NP(zint(i), zint(p)))
    news = lambda i, p: lift(NS(zint(i), zint(p)))
    c.assume(forall(2, lambda i, p: AND(newp(i, p) >= 0, news(i, p) >= 0)))
    step = c.int('step', 0)
    St = m.OptimizerState

    class HP(Focus):
      pass

    class Part(Focus):
      def apply_gradient(self, hp, ps, st, gs):
        if not (isinstance(hp, HP) and isinstance(ps, Tree) and isinstance(gs, Tree)):
          raise core.Unsupported('arguments of another kind')
        c.prove('each part gets its own hyper-parameters', hp.i == self.i, kind='pre')
        c.prove('each part gets the step', st.step == step, kind='pre')
        same(c, w, self.i, ps, params, 'each part gets exactly its parameters')
        same(c, w, self.i, gs, grads, 'each part gets exactly their gradients')
        same(c, w, self.i, st.param_states, states, 'each part gets exactly their slots')
        i = zint(self.i)
        return (Tree(ps.harr, lam(lambda p: NP(i, p))), St(step + 1, Tree(ps.harr, lam(lambda p: NS(i, p)))))
    opt = m.MultiOptimizer.__new__(m.MultiOptimizer)
    opt.traversals = seq.SymSeq(w.n, Focus)
    opt.sub_optimizers = seq.SymSeq(w.n, Part)
    m.__vc_rt__.loop_specs = {f'MultiOptimizer.apply_gradient#{k}': Parts(w, params, newp, news, True) for k in range(2)}
    r = opt.apply_gradient(seq.SymSeq(w.n, HP), params, St(step, states), grads)
    p2, s2 = r
    c.prove('the step advances by one', s2.step == step + 1)
    p = c.int('p')
    c.assume(params.has(p))
    c.prove('no parameter is lost', p2.has(p))
    mine = w.some(w.n, p)
    c.prove('a selected parameter has the update of its part', IMP(mine, p2.val(p) == newp(w.owner(p), p)))
    c.prove('a parameter no part selects keeps its value', IMP(NOT(mine), p2.val(p) == params.val(p)))
    c.prove('slots: those of its part, none when not selected', s2.param_states.val(p) == core.ite(mine, news(w.owner(p), p), NONE))
    c.cover()
  chk.verify('MultiOptimizer.apply_gradient', OP,
             'any number of parts with disjoint selections, any tree: a parameter changes iff a part selects it, to that part\'s update; '
             'each part sees exactly its parameters, gradients, slots, hyper-parameters; step + 1; invariant over the parts', grad,
             assumed=['_subtree_from_traversal / _update_subtree_of_traversal restrict and overwrite by path (checked on concrete trees below)',
                      'a part returns one new value and one slot per parameter it is given'])

  def init(c):
    m.__dict__.update(real)
    w = W(c, disjoint=False)
    helpers(m, w)
    I, B = z3.IntSort(), z3.BoolSort()
    params = w.D
    c.assume(forall(1, lambda p: params.val(p) >= 0))
    one_, two_ = c.func('one', I, I, B), c.func('two', I, I, B)
    one = lambda i, p: lift(one_(zint(i), zint(p)))
    two = lambda i, p: lift(two_(zint(i), zint(p)))
    c.assume(forall(1, lambda p: AND(NOT(one(0, p)), NOT(two(0, p)))))
    c.assume(forall(2, lambda i, p: IMP(i >= 0, AND(
        IFF(one(i + 1, p), OR(one(i, p), w.sel(i, p))), IFF(two(i + 1, p), OR(two(i, p), AND(one(i, p), w.sel(i, p)))))),
                    patterns=[lambda i, p: z3.MultiPattern(w.sel_(i, p), one_(i, p))]))
    cnt = maps.SymMap.fresh('count')     # number of parts recorded at a leaf
    g = {'cnt': z3.K(I, z3.IntVal(0))}
    count = lambda p: lift(z3.Select(g['cnt'], zint(p)))

    class Leaf:
      def __init__(self, p):
        self.p = p

      @property
      def _indices(self):
        return self

      def append(self, i):
        g['cnt'] = z3.Store(g['cnt'], zint(self.p), z3.Select(g['cnt'], zint(self.p)) + 1)

      def __vc_len__(self):
        return count(self.p)

    class Trav(Focus):
      def iterate(self, tree):
        if not isinstance(tree, Tree):
          raise core.Unsupported('iteration over something else')
        i = zint(self.i)
        ks = maps.KSet(lam(lambda p: z3.And(z3.Select(tree.harr, p), w.sel_(i, p)))).__vc_seq__()
        s = seq.SymSeq(ks.length, lambda k: Leaf(ks.get(k)))
        s.pos, s.part = ks.pos, self.i
        return s

    def cons(L_i, cond, overlap):
      yield 'a leaf holds one mark iff one part selected it', forall(1, lambda p: IMP(params.has(p), AND(
          count(p) >= 0, IFF(count(p) >= 1, cond(one, p)), IFF(count(p) >= 2, cond(two, p)))))
      yield 'no overlap found: none exists so far', IMP(NOT(overlap), forall(1, lambda p: IMP(params.has(p), NOT(cond(two, p)))))
      yield 'overlap found: some leaf was selected twice', IMP(overlap, exists(1, lambda p: AND(params.has(p), cond(two, p))))

    class Outer(LoopSpec):
      name = 'loop over the traversals'

      def applies(self, L, env):
        return 'overlap' in env and L.seq is not None

      def inv(self, L, env):
        return cons(L.i, lambda f, p: f(L.i, p), env['overlap'])

      def havoc(self, L, env):
        g['cnt'] = z3.Const(c.fresh_name('cnt'), z3.ArraySort(I, I))
        self.cur = L
        return {'overlap': c.bool('overlap', inp=False)}
    outer = Outer()

    class Inner(Outer):
      name = 'loop over the leaves of a traversal'

      def applies(self, L, env):
        return 'overlap' in env and hasattr(L.seq, 'pos')

      def inv(self, L, env):
        i = L.seq.part
        return cons(L.i, lambda f, p: core.ite(AND(w.sel(i, p), L.seq.pos(p) < L.i), f(i + 1, p), f(i, p)), env['overlap'])

    SL = c.func('slot', I, I, I)
    slot = lambda i, p: lift(SL(zint(i), zint(p)))
    c.assume(forall(2, lambda i, p: slot(i, p) >= 0))
    St = m.OptimizerState
    disjoint = forall(1, lambda p: IMP(params.has(p), NOT(two(w.n, p))))

    class Part(Focus):
      def init_state(self, ps):
        same(c, w, self.i, ps, params, 'each part sees exactly its parameters')
        i = zint(self.i)
        return St(0, Tree(ps.harr, lam(lambda p: SL(i, p))))
    m.__vc_rt__.loop_specs = {'MultiOptimizer.init_state#0': outer, 'MultiOptimizer.init_state#1': Inner(),
                              'MultiOptimizer.init_state#2': Owned(w, params, slot)}
    m.jnp = StubNS(m.jnp, asarray=lambda x, dtype=None: x)
    opt = m.MultiOptimizer.__new__(m.MultiOptimizer)
    opt.traversals = seq.SymSeq(w.n, Trav)
    opt.sub_optimizers = seq.SymSeq(w.n, Part)
    real_map = m.jax.tree.map

    def tmap(f, t, *rest):
      try:
        return real_map(f, t, *rest)
      except (core.Unsupported, AttributeError):
        return 'indices'
    m.jax = StubNS(m.jax, tree=StubNS(None, map=tmap))
    try:
      s = opt.init_state(params)
    except ValueError:
      c.prove('rejected only if two parts select one parameter', exists(1, lambda p: AND(params.has(p), two(w.n, p))))
      c.cover()
      return
    c.prove('overlapping selections are rejected', disjoint)
    c.prove('the step starts at zero', s.step == 0)
    c.cover()

  class Owned(LoopSpec):
    name = 'loop over the parts'

    def __init__(self, w, params, slot):
      self.w, self.p0, self.slot = w, params, slot

    def applies(self, L, env):
      return isinstance(env.get('param_states'), Tree) and L.seq is not None

    def inv(self, L, env):
      t, w = env['param_states'], self.w
      yield 'slots: none appears or vanishes', forall(1, lambda p: IFF(t.has(p), self.p0.has(p)))
      yield 'slots: a parameter without part stays marked', forall(1, lambda p: IMP(AND(self.p0.has(p), t.val(p) != MARK), t.val(p) >= 0))

    def havoc(self, L, env):
      return {'param_states': Tree.fresh('slots')}
  chk.verify('MultiOptimizer.init_state', OP,
             'any number of parts and parameters: rejected iff two parts select the same parameter (loop invariants over traversals and leaves); '
             'each part initialises exactly its parameters', init)

  def hyper(c):
    m.__dict__.update(real)
    n = c.int('n', 0)
    class HPr:
      def __init__(self, i, kw=None):
        self.i, self.kw = i, kw

      def replace(self, **kw):
        return HPr(self.i, kw)

      def __vc_ite__(self, cnd, o):
        raise core.Unsupported('merge')
    opt = m.MultiOptimizer.__new__(m.MultiOptimizer)
    base, other = seq.SymSeq(n, HPr), seq.SymSeq(n, lambda i: HPr(i + 100))
    opt.hyper_params = base
    k = c.int('k', 0)
    c.assume(k < n)
    r = opt.update_hyper_params(learning_rate=5)
    x = r.get(k)
    c.prove('an override reaches every part', AND(r.length == n, x.kw == {'learning_rate': 5}, x.i == k))
    x = opt.update_hyper_params().get(k)
    c.prove('without overrides each keeps its own', AND(x.i == k, x.kw is None))
    x = opt.update_hyper_params(hyper_params=other).get(k)
    c.prove('given hyper-parameters replace them', AND(x.i == k + 100, x.kw is None))
    x = opt.update_hyper_params(hyper_params=other, beta=1).get(k)
    c.prove('... before the overrides', AND(x.i == k + 100, x.kw == {'beta': 1}))
    c.cover()
  chk.verify('MultiOptimizer.update_hyper_params', OP, 'any number of parts: overrides apply to every part', hyper)


def verify_optax(chk):
  m = clone(OP)
  real = dict(m.__dict__)
  EMPTY = -3

  def restore(c):
    m.__dict__.update(real)
    c.user['symdict'] = True
    ref, src = maps.SymMap.fresh('ref'), maps.SymMap.fresh('src')
    src0, ref0 = src.copy(), ref.copy()
    got = {}

    def flatten(d, keep_empty_nodes=False, is_leaf=None, sep=None):
      if sep != '/':
        raise core.Unsupported('another separator')
      if d == 'REF':
        if not keep_empty_nodes:
          raise core.Unsupported('reference without empty nodes')
        return ref
      if d == 'SRC':
        return src
      raise core.Unsupported('flatten of something else')
    m.traverse_util = StubNS(m.traverse_util, flatten_dict=flatten, empty_node=EMPTY,
                             unflatten_dict=lambda d, sep=None: got.setdefault('flat', (d, sep)) and 'NESTED')
    m.to_state_dict = lambda x: {'OPT_STATE': 'REF', 'TARGET': 'T'}[x]

    def frm(target, state, *a):
      got.setdefault('from', []).append((target, state))
      return ('restored', target, state)
    m.from_state_dict = frm
    m.dict = lambda x=(): x if isinstance(x, maps.SymMap) else dict(x)

    class Spec(LoopSpec):
      name = 'loop over the reference slots'

      def applies(self, L, env):
        return hasattr(L.seq, 'pos')

      def inv(self, L, env):
        pos, i = L.seq.pos, L.i
        seen = lambda k: AND(ref0.has(k), pos(k) < i)
        yield 'source slots are kept', forall(1, lambda k: IMP(src0.has(k), AND(src.has(k), src.val(k) == src0.val(k))))
        yield 'every reference slot seen is there', forall(1, lambda k: IMP(seen(k), src.has(k)))
        yield 'only empty slots of the reference are added', forall(1, lambda k: IMP(AND(src.has(k), NOT(src0.has(k))), AND(
            ref0.has(k), ref0.val(k) == EMPTY, src.val(k) == EMPTY)))
        yield 'a slot that is seen and not in the source is empty', forall(1, lambda k: IMP(AND(seen(k), NOT(src0.has(k))), ref0.val(k) == EMPTY))

      def havoc(self, L, env):
        src.havoc('src')
        return {}
    m.__vc_rt__.loop_specs = {'OptaxWrapper.restore_state#0': Spec()}
    opt = m.OptaxWrapper.__new__(m.OptaxWrapper)
    lost = lambda k: AND(ref0.has(k), NOT(src0.has(k)), ref0.val(k) != EMPTY)
    try:
      t, s = opt.restore_state('TARGET', 'OPT_STATE', {'target': 'SRC_T', 'state': 'SRC'})
    except ValueError:
      c.prove('rejected only if a slot with a value is absent', exists(1, lost))
      c.cover()
      return
    k = c.int('k')
    c.prove('a form that lacks a slot is rejected', NOT(lost(k)))
    c.prove('parameters come from the form', t == ('restored', 'TARGET', 'SRC_T'))
    c.prove('slots come from the form', s == ('restored', 'OPT_STATE', 'NESTED') and got['flat'][1] == '/')
    d = got['flat'][0]
    c.prove('restored slots: those of the form, plus the empty ones of the reference',
            AND(IFF(d.has(k), OR(src0.has(k), ref0.has(k))), IMP(src0.has(k), d.val(k) == src0.val(k)),
                IMP(AND(d.has(k), NOT(src0.has(k))), d.val(k) == EMPTY)))
    c.cover()
  chk.verify('OptaxWrapper.restore_state', OP, 'any slots: rejected iff a non-empty slot is absent; otherwise every slot value comes from the form, '
             'empty nodes are re-inserted', restore,
             assumed=['flatten_dict / unflatten_dict are inverse for names without "/"; from_state_dict puts each entry in its place'])

  def base(c):
    m.__dict__.update(real)
    m.to_state_dict = lambda x: ('sd', x) if not isinstance(x, dict) else x
    m.from_state_dict = lambda t, s: ('restored', t, s)
    m.traverse_util = StubNS(m.traverse_util, flatten_dict=lambda d, sep=None: ('flat', d, sep), unflatten_dict=lambda d, sep=None: ('unflat', d, sep))
    od = m.OptimizerDef('hp')
    c.prove('form: parameters and state', od.state_dict('T', 'S') == {'target': ('sd', 'T'), 'state': ('sd', 'S')})
    c.prove('restored from the form', od.restore_state('T', 'S', {'target': 'a', 'state': 'b'}) == (('restored', 'T', 'a'), ('restored', 'S', 'b')))
    ow = m.OptaxWrapper.__new__(m.OptaxWrapper)
    d = ow.state_dict('T', 'S')
    c.prove('optax form: parameters', d['target'] == ('sd', 'T') and set(d) == {'target', 'state'})
    c.prove('optax form: the slots, flattened and rebuilt', d['state'] == ('unflat', ('flat', ('sd', 'S'), '/'), '/'))

    class Def:
      def state_dict(self, t, s):
        return ('form', t, s)

      def restore_state(self, t, s, d):
        return ('t', t, s, d), ('s', t, s, d)

      def update_hyper_params(self, **kw):
        return ('hp', kw)

      def apply_gradient(self, hp, t, s, g):
        return ('nt', hp, t, s, g), ('ns', hp, t, s, g)
    de = Def()
    o = m.Optimizer(de, 'S', 'T')
    c.prove('Optimizer.state_dict', o.state_dict() == ('form', 'T', 'S'))
    r = o.restore_state('D')
    c.prove('Optimizer.restore_state', r.target == ('t', 'T', 'S', 'D') and r.state == ('s', 'T', 'S', 'D') and r.optimizer_def is de)
    r = o.apply_gradient('G', learning_rate=3)
    hp = ('hp', {'learning_rate': 3})
    c.prove('Optimizer.apply_gradient', r.target == ('nt', hp, 'T', 'S', 'G') and r.state == ('ns', hp, 'T', 'S', 'G') and r.optimizer_def is de)
    c.cover()
  chk.verify('OptimizerDef / Optimizer / OptaxWrapper.state_dict', OP, 'forms hold parameters and state; restoring reads them back from the form', base)


def verify_state(chk):
  from t5x import train_state as tsl
  from flax.core import FrozenDict, freeze

  def body(c):
    mut = c.choose('mutables', [{}, {'a': {'b': 1}}, {'c': 2}])
    mut2 = c.choose('mutables of the form', [None, {}, {'a': {'b': 9}}, {'c': 3, 'd': 4}])

    class Opt(Fake):
      def state_dict(self):
        return {'target': 'P', 'state': {'step': 's', 'param_states': 'ps'}}

      def restore_state(self, d):
        return Opt(tag=('restored', d['target'], d['state']), state=Fake(step=d['state']['step'], param_states=d['state']['param_states']), target=d['target'])

      def replace(self, **kw):
        return Opt(tag=('replaced', kw), state=self.state, target=kw['target'])

      def apply_gradient(self, g, learning_rate):
        return Opt(tag=('applied', g, learning_rate), state=self.state, target=self.target)
    o = Opt(tag='o', state=Fake(step='s', param_states='ps'), target='P')
    st = tsl.FlaxOptimTrainState(o, params_axes='PA', flax_mutables=freeze(mut), flax_mutables_axes='MA')
    d = st.state_dict()
    want = {'target': 'P', 'state': {'step': 's', 'param_states': 'ps'}}
    if mut:
      want['flax_mutables'] = mut
    c.prove('form: optimiser state and mutables', d == want)
    form = {'target': 'P2', 'state': {'step': 's2', 'param_states': 'ps2'}}
    if mut2 is not None:
      form['flax_mutables'] = mut2
    r = st.restore_state(form)
    c.prove('restored: parameters, step, slots of the form', (r.params, r.step, r.param_states) == ('P2', 's2', 'ps2'))
    c.prove('restored: mutables of the form', dict(r.flax_mutables.unfreeze() if hasattr(r.flax_mutables, 'unfreeze') else r.flax_mutables) == (mut2 or {}))
    c.prove('restored: axis metadata kept', r.params_axes == 'PA' and r.flax_mutables_axes == 'MA')
    r = st.restore_state(st.state_dict())
    c.prove('round trip: nothing changes', (r.params, r.step, r.param_states) == ('P', 's', 'ps') and freeze(r.flax_mutables) == freeze(mut))
    r = st.replace_step('s9')
    c.prove('replace_step: the step and nothing else', (r.params, r.step, r.param_states, r.params_axes, r.flax_mutables_axes) == ('P', 's9', 'ps', 'PA', 'MA')
            and freeze(r.flax_mutables) == freeze(mut))
    r = st.replace_params('P9')
    c.prove('replace_params: the parameters and nothing else', (r.params, r.step, r.param_states, r.params_axes, r.flax_mutables_axes) == ('P9', 's', 'ps', 'PA', 'MA')
            and freeze(r.flax_mutables) == freeze(mut))
    r = st.replace_flax_mutables(freeze({'z': 1}))
    c.prove('replace_flax_mutables: nothing else', (r.params, r.step, r.param_states, r.params_axes) == ('P', 's', 'ps', 'PA') and r.flax_mutables == freeze({'z': 1}))
    r = st.apply_gradient('G', 0.5, freeze({'q': 1}))
    c.prove('apply_gradient: the update of the optimiser, the new mutables', r._optimizer.tag == ('applied', 'G', 0.5) and r.flax_mutables == freeze({'q': 1})
            and r.params_axes == 'PA' and r.flax_mutables_axes == 'MA')
    i = tsl.InferenceState(step='s', params=freeze({'p': 1}), params_axes='PA', flax_mutables=freeze(mut), flax_mutables_axes='MA')
    d = i.state_dict()
    want = {'target': {'p': 1}, 'state': {'step': 's'}}
    if mut:
      want['flax_mutables'] = mut
    c.prove('inference form', d == want)
    f2 = {'target': {'p': 2}, 'state': {'step': 's2', 'param_states': 'ps2'}}
    if mut2 is not None:
      f2['flax_mutables'] = mut2
    r = i.restore_state(f2)
    c.prove('inference restore', (r.step, r.params, r.params_axes, r.flax_mutables_axes) == ('s2', freeze({'p': 2}), 'PA', 'MA') and freeze(r.flax_mutables) == freeze(mut2 or {}))
    c.cover()
  chk.verify('FlaxOptimTrainState / InferenceState', TS, 'for every optimiser behaviour: forms and restored states exchange step, parameters, slots and mutables; '
             'axis metadata kept; replace_* touches one field', body)


# ------------------------------------------------------------------ search
def variables(rng, mut=False, axes=True):
  import jax.numpy as jnp
  from flax.linen import partitioning as fp
  from flax import core as fc
  names = ['kernel', 'bias', 'scale', 'wi', 'B', '0', 'layers_1', 'embed.x']

  def node(d):
    ks = [str(k) for k in rng.choice(names, rng.integers(1, 4), replace=False)]
    r = {}
    for k in ks:
      if d and rng.random() < 0.5:
        r[k] = node(d - 1)
      else:
        shp = [(), (3,), (2, 3), (4, 2)][rng.integers(0, 4)] if d < 2 or True else ()
        r[k] = np.asarray(rng.normal(size=shp), np.float32)
    return r

  def ax(t):
    r = {}
    for k, v in t.items():
      if isinstance(v, dict):
        r[k] = ax(v)
      else:
        r[k + '_axes'] = fp.AxisMetadata(names=tuple(f'ax{i}' for i in range(v.ndim)))
    return r
  p = node(2)
  v = {'params': p}
  if axes:
    v['params_axes'] = ax(p)
  if mut:
    for c_ in ('batch_stats', 'cache'):
      v[c_] = node(1)
      v[c_ + '_axes'] = ax(v[c_])
  return fc.freeze(v)


def makers():
  import optax
  import flax
  from t5x import adafactor, optimizers as o
  T = flax.traverse_util.ModelParamTraversal
  r = {n: (lambda n=n: getattr(o, n)(learning_rate=0.05)) for n in
       ('adabelief', 'adagrad', 'adam', 'adamw', 'fromage', 'lars', 'lamb', 'lion', 'radam', 'rmsprop', 'yogi')}
  r['sgd'] = lambda: o.sgd(0.1)
  r['sgd momentum'] = lambda: o.sgd(0.1, momentum=0.9)
  r['noisy'] = lambda: o.noisy_sgd(0.1, 0.0)
  r['chain'] = lambda: o.chain([optax.clip_by_global_norm(1.), optax.scale_by_adam(), optax.masked(optax.trace(0.9), lambda p: jmap(lambda x: x.ndim > 1, p)), optax.scale(-.1)])
  r['schedule'] = lambda: o.adamw(learning_rate=optax.linear_schedule(1e-2, 0., 10))
  r['multisteps'] = lambda: o.OptaxWrapper(optax.MultiSteps(optax.adam(0.1), 2).gradient_transformation())
  r['multi_transform'] = lambda: o.OptaxWrapper(optax.multi_transform({'a': optax.adam(0.1), 'b': optax.sgd(0.1)}, lambda p: jmap(lambda x: 'a' if x.ndim > 1 else 'b', p)))
  r['finite'] = lambda: o.OptaxWrapper(optax.apply_if_finite(optax.adam(.1), 2))
  r['adafactor'] = lambda: adafactor.Adafactor(1e-2, logical_factor_rules={f'ax{i}': adafactor.FactorDim.NONE for i in range(3)})
  r['adafactor momentum'] = lambda: adafactor.Adafactor(1e-2, beta1=0.9, factored=False)
  r['multi all'] = lambda: o.MultiOptimizer([(T(lambda p, _: 'kernel' in p), adafactor.Adafactor(1e-2, factored=False)),
                                             (T(lambda p, _: 'kernel' not in p), adafactor.Adafactor(1e-1, beta1=0.5, factored=False))])
  r['multi some'] = lambda: o.MultiOptimizer([(T(lambda p, _: 'bias' in p), adafactor.Adafactor(1e-2, factored=False)),
                                              (T(lambda p, _: p.endswith('wi') and 'bias' not in p), adafactor.Adafactor(1e-1, factored=False))])
  return r


def keyed(x):
  import jax
  return hasattr(x, 'dtype') and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key)


def jmap(f, t):
  import jax
  return jax.tree.map(f, t)


def arr(x):
  import jax
  try:
    return np.array(x)
  except TypeError:
    return np.array(jax.random.key_data(x))


def eqtree(a, b, close=False):
  import jax
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  if ta != tb:
    return f'structure: {ta} / {tb}'
  for x, y in zip(la, lb):
    x, y = arr(x), arr(y)
    if x.shape != y.shape or x.dtype != y.dtype or not (
        np.allclose(x, y, 1e-5, 1e-6) if close else np.array_equal(x, y, equal_nan=x.dtype.kind == 'f')):
      return f'{x} / {y}'
  return None


def search_roundtrip(rec):
  import copy
  import jax
  import flax
  from flax import traverse_util as tu
  from flax.core import freeze, unfreeze
  from t5x import train_state as tsl
  mk = makers()
  for seed in range(4):
    for name in mk:
      for mut in (False, True):
        rng = np.random.default_rng(seed * 10 + mut)
        v = variables(rng, mut)

        def fresh():
          return tsl.FlaxOptimTrainState.create(mk[name](), jax.tree.map(lambda x: np.array(x), v))

        def case():
          s = fresh()
          g = jax.tree.map(lambda x: np.asarray(np.random.default_rng(7).normal(size=x.shape), np.float32), s.params)
          for k in range(2):
            n = s.apply_gradient(g, learning_rate=0.01, flax_mutables=jax.tree.map(lambda x: x + 1, s.flax_mutables))
            if int(n.step) != int(s.step) + 1:
              return f'step {s.step} -> {n.step}'
            s = n
          d = s.state_dict()
          flat = tu.flatten_dict(d, keep_empty_nodes=True, sep='/')
          want = {'target/' + k for k in tu.flatten_dict(unfreeze(s.params), sep='/')}
          if {k for k in flat if k.startswith('target/')} != want:
            return 'parameters of the form'
          if mut and {k for k in flat if k.startswith('flax_mutables/')} != {'flax_mutables/' + k for k in tu.flatten_dict(unfreeze(s.flax_mutables), sep='/')}:
            return 'mutables of the form'
          if not mut and 'flax_mutables' in d:
            return 'a form with mutables the state does not have'
          plain = tu.unflatten_dict({k: (np.array(x) if x is not None and x is not tu.empty_node and not keyed(x) else x) for k, x in flat.items()}, sep='/')
          other = flax.core.freeze({'others': {'x': np.ones(2, np.float32)}})
          for onto in (s, fresh(), s.replace_flax_mutables(other)):
            r = onto.restore_state(copy.deepcopy(plain))
            e = eqtree((s.step, s.params, s.param_states, s.flax_mutables), (r.step, r.params, r.param_states, r.flax_mutables))
            if e:
              return f'round trip: {e}'
            if r.params_axes != s.params_axes or r.flax_mutables_axes != s.flax_mutables_axes:
              return 'axis metadata changed'
            if type(r.flax_mutables) is not type(s.flax_mutables):
              return f'mutables of type {type(r.flax_mutables)}'
          # the update continues identically
          n1 = s.apply_gradient(g, learning_rate=0.01, flax_mutables=s.flax_mutables)
          n2 = r.apply_gradient(g, learning_rate=0.01, flax_mutables=r.flax_mutables)
          e = eqtree((n1.params, n1.param_states, n1.step), (n2.params, n2.param_states, n2.step), close=True)
          if e:
            return f'the restored state updates differently: {e}'
          r = s.replace_step(np.int32(41))
          if int(r.step) != 41 or eqtree((s.params, s.param_states, s.flax_mutables), (r.params, r.param_states, r.flax_mutables)):
            return 'replace_step changes more than the step'
          q = s.as_logical_axes()
          if jax.tree_util.tree_structure(unfreeze(q.params), is_leaf=lambda x: not isinstance(x, dict)) != jax.tree_util.tree_structure(unfreeze(s.params)):
            return 'logical axes of another structure'
          for k, x in tu.flatten_dict(unfreeze(s.params)).items():
            a = tu.flatten_dict(unfreeze(q.params))[k]
            if tuple(a) != tuple(f'ax{i}' for i in range(x.ndim)):
              return f'axes of {k}: {a}'
          return None
        rec.run(['roundtrip', name, seed, mut], case)

        def lacking():
          s = fresh()
          d = s.state_dict()
          flat = tu.flatten_dict(d, keep_empty_nodes=True)
          for k in list(flat):
            if k[0] == 'flax_mutables' or flat[k] is None or flat[k] is tu.empty_node:
              continue
            bad = tu.unflatten_dict({q: x for q, x in flat.items() if q != k})
            try:
              s.restore_state(bad)
            except (ValueError, KeyError):
              continue
            return f'a form without {"/".join(k)} was accepted'
        if seed < 2 and not mut:
          rec.run(['lacking', name, seed], lacking)
      if rec.full:
        return


def search_multi(rec):
  import jax
  import flax
  from flax import traverse_util as tu
  from flax.core import freeze, unfreeze
  from t5x import optimizers as o, adafactor
  T = flax.traverse_util.ModelParamTraversal
  preds = {'kernel': lambda p, _: 'kernel' in p, 'nokernel': lambda p, _: 'kernel' not in p, 'bias': lambda p, _: p.endswith('bias'),
           'wi': lambda p, _: '/wi' in p, 'deep': lambda p, _: p.count('/') > 1, 'top': lambda p, _: p.count('/') == 1,
           'none': lambda p, _: False, 'all': lambda p, _: True}

  class Sgd(o.OptimizerDef):
    """Adds its own constant and remembers the gradient."""

    def __init__(self, k):
      super().__init__(o._OptaxWrapperHyperParams(learning_rate=None))
      self.k = k

    def init_state(self, ps):
      return o.OptimizerState(0, jax.tree.map(lambda x: x * 0 + self.k, ps))

    def apply_gradient(self, hp, ps, st, gs):
      n = jax.tree.map(lambda p, g, s: p - self.k * g - s * (hp.learning_rate or 1) - 1000 * st.step, ps, gs, st.param_states)
      return n, o.OptimizerState(st.step + 1, jax.tree.map(lambda s, g: s + g, st.param_states, gs))

  def path(t):
    return {'/' + '/'.join(k): v for k, v in tu.flatten_dict(unfreeze(t)).items()}
  for seed in range(8):
    v = variables(np.random.default_rng(100 + seed))['params']
    for n in (1, 2, 3):
      for ps in itertools.permutations(list(preds), n):
        for frozen in (False, True):
          if n == 3 and (seed > 2 or frozen):
            continue
          params = freeze(unfreeze(v)) if frozen else unfreeze(v)

          def case():
            flat = path(params)
            who = {k: [i for i, q in enumerate(ps) if preds[q](k, None)] for k in flat}
            over = any(len(x) > 1 for x in who.values())
            opt = o.MultiOptimizer([(T(preds[q]), Sgd(i + 2)) for i, q in enumerate(ps)])
            try:
              op = opt.create(params)
            except ValueError as e:
              return None if over else f'rejected: {e}'
            if over:
              return f'parts {ps} overlap on {[k for k, x in who.items() if len(x) > 1]} and are accepted'
            s0 = path(op.state.param_states)
            for k in flat:
              w = (who[k][0] + 2) if who[k] else None
              if (s0[k] is None) != (w is None) or (w is not None and not np.all(s0[k] == w)):
                return f'slot of {k}: {s0[k]}, expected {w}'
            g = jax.tree.map(lambda x: np.asarray(np.random.default_rng(3).normal(size=x.shape), np.float32), params)
            gf = path(g)
            cur, slots = dict(flat), dict(s0)
            for st in range(2):
              kw = {} if st == 0 else {'learning_rate': 0.5}
              op = op.apply_gradient(g, **kw)
              if int(op.state.step) != st + 1:
                return f'step {op.state.step} after {st + 1} updates'
              for k in flat:
                if who[k]:
                  i = who[k][0] + 2
                  cur[k] = cur[k] - i * gf[k] - slots[k] * (0.5 if st else 1) - 1000 * st
                  slots[k] = slots[k] + gf[k]
              got, gs = path(op.target), path(op.state.param_states)
              if set(got) != set(flat) or set(gs) != set(flat):
                return f'entries changed: {sorted(set(got) ^ set(flat))}'
              for k in flat:
                if not np.allclose(got[k], cur[k], 1e-5, 1e-4):
                  return f'{k} (part {who[k]}) is {got[k]}, expected {cur[k]}'
                if (gs[k] is None) != (not who[k]) or (who[k] and not np.allclose(gs[k], slots[k], 1e-5, 1e-5)):
                  return f'slot of {k} is {gs[k]}, expected {slots[k]}'
              if type(op.target) is not type(params):
                return f'parameters of type {type(op.target)}'
            r = op.restore_state(op.state_dict())
            return eqtree(op, r)
          rec.run(['multi', seed, list(ps), frozen], case)
      if rec.full:
        return


def search_create(rec):
  """Building states from model variables."""
  import jax
  from flax.core import freeze, unfreeze
  from t5x import train_state as tsl, optimizers as o
  for seed in range(20):
    for mut in (False, True):
      v = variables(np.random.default_rng(seed), mut)

      def case():
        for st in (tsl.FlaxOptimTrainState.create(o.adam(.1), v), tsl.InferenceState.create(v)):
          if int(st.step) != 0 or eqtree(unfreeze(st.params), unfreeze(v['params'])):
            return 'parameters or step'
          if st.params_axes != v['params_axes']:
            return 'axes of the parameters'
          w = {k: x for k, x in unfreeze(v).items() if k in ('batch_stats', 'cache')}
          if eqtree(unfreeze(st.flax_mutables), w):
            return 'mutables'
          a = {k[:-5]: x for k, x in unfreeze(v).items() if k in ('batch_stats_axes', 'cache_axes')}
          if unfreeze(st.flax_mutables_axes or {}) != a or (not mut and st.flax_mutables_axes is not None):
            return 'axes of the mutables'
          if isinstance(st, tsl.InferenceState):
            d = st.state_dict()
            r = st.replace_params(freeze({'x': 1})).replace_step(5).restore_state(d)
            if eqtree(r, st):
              return 'inference round trip'
            if mut != ('flax_mutables' in d):
              return 'mutables of the inference form'
      rec.run(['create', seed, mut], case)

      def missing():
        u = unfreeze(v)
        for grp in ['params'] + (['batch_stats', 'cache'] if mut else []):
          import copy
          w = copy.deepcopy(u)
          t = w[grp + '_axes']
          while True:
            k = sorted(t)[0]
            if isinstance(t[k], dict):
              t = t[k]
            else:
              del t[k]
              break
          for mk in (lambda: tsl.FlaxOptimTrainState.create(o.adam(.1), freeze(w)), lambda: tsl.InferenceState.create(freeze(w))):
            try:
              mk()
            except (ValueError, KeyError):
              continue
            return f'{grp}: parameters without axis names accepted'
      rec.run(['missing axes', seed, mut], missing)


# ------------------------------------------------- types of stored entries
CK = 't5x/checkpoints.py'


class Ty:
  """A leaf of a known type; conversions are recorded."""

  def __init__(self, dtype, tag='', via=()):
    self.dtype, self.tag, self.via = np.dtype(dtype), tag, tuple(via)
    self.shape, self.nbytes = (2,), 8

  def astype(self, t, *a, **k):
    return Ty(t, self.tag, self.via + (np.dtype(t).name,))

  def __repr__(self):
    return f'{self.tag}:{self.dtype.name}'


class SpecT:
  def __init__(self, d):
    self.d = d

  def to_json(self):
    import copy
    return copy.deepcopy(self.d)


def final_type(spec, dflt):
  """(type on disk, type of the data handed over) of a store description."""
  if spec.get('driver') == 'cast':
    return final_type(spec['base'], dflt)[0], spec.get('dtype')
  return spec.get('dtype') or dflt, spec.get('dtype') or dflt


def drive(co):
  try:
    co.send(None)
  except StopIteration as e:
    return e.value
  raise core.Unsupported('a store operation waits')


def verify_types(chk):
  import jax.numpy as jnp
  from vc import strs
  m = clone(CK)
  KEYS = ('target', 'state', 'flax_mutables')
  BF, F4, I4 = 'bfloat16', 'float32', 'int32'

  def args(c):
    c.user['strings'] = True
    first = c.choose('first component', ['target', 'state', 'flax_mutables'])
    name = first
    for k in range(c.choose('depth', [0, 1, 2, 3])):
      name = name + '/' + strs.atom(c, f'part{k}', without='/', lo=1)
    dt = c.choose('type', [None, BF, np.float32, jnp.bfloat16, np.dtype('float16')])
    axes = c.choose('layout', [None, ('x',), ()])
    log = []

    class SA:
      def __init__(self, **k):
        self.k = {'dtype': None, **k}
    ocp = StubNS(None, SaveArgs=SA, RestoreArgs=SA, ArrayRestoreArgs=SA)
    with patched(m, ocp=ocp):
      info = m._OrbaxParamInfo(name, axes)
      s = m._construct_save_args(info, dtype=dt)
      r = m._construct_restore_args(info, dtype=dt, mesh='M')
    want = np.dtype(dt) if first == 'target' and dt is not None else None
    same = lambda x: x is None if want is None else (x is not None and np.dtype(x) == want)
    c.prove('saving converts exactly the parameters', same(s.k['dtype']))
    c.prove('restoring converts exactly the parameters', same(r.k['dtype']))
    c.prove('Orbax gets an instance of np.dtype for saving', s.k['dtype'] is None or isinstance(s.k['dtype'], np.dtype))
    if axes is not None:
      c.prove('restored with its layout', r.k.get('mesh') == 'M' and r.k.get('mesh_axes') == axes)
    c.cover()
  chk.verify('_construct_save_args / _construct_restore_args', CK, 'every entry name: the configured type applies to the parameters and to nothing else', args, kind='up to 4 components, of any text')

  def cast(c):
    src, dst = c.choose('type', [F4, BF, 'float16', I4]), c.choose('to', [F4, BF, 'float16'])
    t = {'a': Ty(src, 'a'), 'b': {'c': Ty(dst, 'c'), 'n': 3, 's': 'text'}}
    r = m._cast(t, jnp.dtype(dst))
    c.prove('every array has the type', r['a'].dtype == r['b']['c'].dtype == np.dtype(dst))
    c.prove('converted from its own value, others untouched', r['a'].tag == 'a' and len(r['a'].via) == (src != dst) and r['b']['c'].via == () and r['b']['n'] == 3 and r['b']['s'] == 'text')
    c.cover()
  chk.verify('_cast', CK, 'every array of the tree is converted to the type; numbers and texts stay', cast, kind='all pairs of 4 types')

  def write(c):
    save = c.choose('save type', [None, BF, F4, 'float16'])
    part = c.choose('array stored in chunks', [True, False])
    src = c.choose('type', [F4, BF, I4])
    isjax = c.choose('jax array', [False, True]) if part else False
    written = {}

    class JaxArr(Ty):
      @property
      def addressable_shards(self):
        return [Fake(data=self, replica_id=0)]
    state = {k: {'w': (JaxArr if isjax else Ty)(src, k)} for k in KEYS}

    class CV:
      def __init__(self, n):
        pass

      async def wait_for_bytes(self, n):
        pass
      return_bytes = wait_for_bytes
    mkspec = lambda d: SpecT(d)
    infos = {k: {'w': Fake(name=f'{k}/w', shape=(2,), ts_spec=mkspec({'driver': 'zarr', 'dtype': src, 'kvstore': {'driver': 'file', 'path': f'{k}.w'}}) if part else None)} for k in KEYS}

    class T:
      def __init__(self, spec):
        self.spec = spec

      async def write(self, arr):
        written[arr.tag] = (arr, self.spec)

    async def ts_open(spec, *a, **k):
      return T(spec.to_json() if hasattr(spec, 'to_json') else spec)

    async def ser(arr, spec, *a, **k):
      written[arr.tag] = (arr, spec)

    def tmap(f, *trees, **k):
      if not isinstance(trees[0], dict):
        return f(*trees)
      return {kk: tmap(f, *[t[kk] for t in trees]) for kk in trees[0]}

    def run(t):
      return {k: {kk: drive(x) for kk, x in v.items()} for k, v in t.items()}

    class TSNS:
      Spec = SpecT
      open = staticmethod(ts_open)
      Context = staticmethod(lambda *a, **k: None)

    class Lazy:
      pass
    o = Fake(_parameter_infos=infos, _save_dtype=save, _get_state_dict_for_save=lambda d, *a, **k: dict(d), _transform_state_and_infos=lambda s, i, f: (state, infos))
    with patched(m, jax=StubNS(m.jax, tree_util=StubNS(None, tree_map=tmap), tree=StubNS(None, map=tmap), Array=JaxArr), _BytesConditionVariable=CV, _run_future_tree=run, ts=TSNS, LazyArray=Lazy,
                 array_serialization=StubNS(None, async_serialize=ser), _sync_global_devices=lambda n: None, _transform_state_and_infos=lambda s, i, f: (state, infos),
                 _update_ts_path_from_relative_to_absolute=lambda d, s: None):
      res = m.Checkpointer._write_state_to_tensorstore(o, '/d', Fake(state_dict=lambda: state), 1, ())
    for k in KEYS:
      want = save if save is not None and k == 'target' else src
      if part:
        if k not in written:
          raise core.Unsupported('the array is not written through its contract')
        arr, spec = written[k]
        disk, given = final_type(spec, src)
        c.prove('parameters are stored in the save type, other entries in their own', disk == want)
        c.prove('the data is handed over in its own type', arr.dtype.name == given)
        c.prove('the entry describes what is on disk', res[k]['w'].to_json()['dtype'] == want)
      else:
        c.prove('unchunked: parameters are stored in the save type, other entries in their own', res[k]['w'].dtype.name == want and res[k]['w'].tag == k)
    c.cover()
  chk.verify('Checkpointer._write_state_to_tensorstore [types]', CK, 'parameters are stored in the save type, every other entry in its own', write,
             kind='3 top entries, 3 types, 4 save types', assumed=['the cast driver of tensorstore converts to the base type'])

  def read(c):
    rd = c.choose('restore type', [None, BF, F4])
    lazy = c.choose('lazily', [False, True])
    src = c.choose('type', [F4, BF, I4])
    seen = {}

    class LA:
      def __init__(self, tag, dtype, get):
        self.tag, self.dtype, self.get_ = tag, np.dtype(dtype), get

      async def get_async(self):
        x = await self.get_()
        return x if x.dtype == self.dtype else x.astype(self.dtype)

      def astype(self, t):
        return LA(self.tag, t, self.get_)
      via = ()

    def from_(spec, get, dtype=None):
      return LA(spec.tag, dtype if dtype is not None else spec.dtype, get)

    async def rts(info, spec, ckpt_path=None, restore_dtype=None, **k):
      seen[spec.tag] = (restore_dtype, ckpt_path)
      return spec if restore_dtype is None else spec.astype(restore_dtype)

    def shard(arr, mesh, axes=None, restore_dtype=None, params_on_devices=True):
      return arr if restore_dtype is None or arr.dtype == np.dtype(restore_dtype) else arr.astype(restore_dtype)

    def tmap(f, *trees, **k):
      if not isinstance(trees[0], dict):
        return f(*trees)
      return {kk: tmap(f, *[t[kk] for t in trees]) for kk in trees[0]}

    def run(t):
      return tmap(drive, t)
    st_ = {k: {'w': Ty(src, k)} for k in KEYS}
    infos = {k: {'w': Fake(axes=None, tag=k)} for k in KEYS}
    o = Fake(restore_dtype=rd, _parameter_infos=infos, _partitioner=Fake(mesh='M', params_on_devices=True))
    o._create_lazy_awaitable_array = lambda *a, **k: m.Checkpointer._create_lazy_awaitable_array(o, *a, **k)
    with patched(m, jax=StubNS(m.jax, tree_util=StubNS(None, tree_map=tmap), tree=StubNS(None, map=tmap)), _read_ts=rts, _maybe_make_sharded_array=shard, _run_future_tree=run,
                 LazyAwaitableArray=Fake(from_tensor_store_spec_or_array=from_)):
      r = m.Checkpointer._read_state_from_tensorstore(o, '/p/checkpoint', st_, **({'lazy_parameters': True} if lazy else {}))
      got = {k: drive(r[k]['w'].get_async()) for k in KEYS} if lazy else {}
    for k in KEYS:
      want = rd if rd is not None and k == 'target' else src
      x = r[k]['w']
      c.prove('an entry is restored from its own stored value', x.tag == k)
      c.prove('parameters come back in the restore type, other entries in their own', x.dtype.name == want)
      if lazy:
        x = got[k]
        c.prove('lazily read: the type promised', x.dtype.name == want)
      c.prove('no entry passes through another type', set(x.via) <= {want} and seen[k][0] in (None, rd if k == 'target' else None))
    c.cover()
  chk.verify('Checkpointer._read_state_from_tensorstore / _create_lazy_awaitable_array [types]', CK, 'parameters come back in the restore type, every other entry in its own', read,
             kind='3 top entries, 3 types, 3 restore types', assumed=['_read_ts and _maybe_make_sharded_array convert to the type they are given (search below)'])

  def orbax(c):
    c.user['strings'] = True
    rd = c.choose('restore type', [None, BF, F4])
    has_fb = c.choose('fallback', [False, True])
    src = c.choose('type', [F4, I4])
    first = c.choose('restored as', ['array', 'host array'])
    st_ = {k: {'w': Ty(src, k)} for k in KEYS}
    names = {k: {'w': None} for k in KEYS}
    infos = {k: {'w': m._OrbaxParamInfo(f'{k}/w', None)} for k in KEYS}
    args = {}
    out = []

    class SA:
      def __init__(self, *a, **k):
        self.a, self.k = a, k

    def shard(arr, mesh, axes=None, restore_dtype=None, params_on_devices=True):
      if first == 'array' and not arr.tag.startswith('fb'):
        return arr                      # it already has its layout
      return arr if restore_dtype is None or arr.dtype == np.dtype(restore_dtype) else arr.astype(restore_dtype)

    def tmap(f, *trees, is_leaf=None, **k):
      if not isinstance(trees[0], dict):
        return f(*trees)
      return {kk: tmap(f, *[t[kk] for t in trees], is_leaf=is_leaf) for kk in trees[0]}

    class Man:
      def restore(self, s, args=None, directory=None):
        a = args.k['state']
        # the contract of Orbax: each entry in the type its arguments ask for
        def one(x, g):
          d = g.k.get('dtype')
          return x if d is None else x.astype(d)
        return {'state': tmap(one, st_, a.k['restore_args'])}

    def merge(sd, fb):
      return {**sd, 'flax_mutables': {'w': Ty(src, 'fb flax_mutables')}, 'target': {'w': Ty(src, 'fb target')}}

    def find(*a, **k):
      raise ValueError('no checkpoint file')
    o = Fake(directory='/d', _manager=Man(), _train_state=Fake(state_dict=lambda: st_, restore_state=lambda d: out.append(d) or 'restored'), _partitioner=Fake(mesh='M', params_on_devices=True),
             _restore_dtype=rd, _state_handler='h', _should_write_dataset_ckpt=False, latest_step=lambda: 3)
    with patched(m, jax=StubNS(m.jax, tree_util=StubNS(None, tree_map=tmap), tree=StubNS(None, map=tmap)), find_checkpoint=find, _construct_orbax_param_infos=lambda *a: infos,
                 _construct_orbax_restoration_transforms=lambda h, s, d, sd, f, ra: (sd, ra, None), _maybe_make_sharded_array=shard, state_utils=StubNS(m.state_utils, merge_state=merge),
                 ocp=StubNS(m.ocp, RestoreArgs=SA, ArrayRestoreArgs=SA, args=StubNS(None, PyTreeRestore=SA, Composite=SA)), monitoring=Fake(record_event_duration_secs=lambda *a, **k: None)):
      r = m.OrbaxCheckpointManagerInterface.restore(o, step=3, fallback_state={'x': 1} if has_fb else None)
    if r != 'restored' or len(out) != 1:
      raise core.Unsupported('the state is not restored through its contract')
    for k in KEYS:
      want = rd if rd is not None and k == 'target' else src
      x = out[0][k]['w']
      c.prove('parameters come back in the restore type, other entries in their own', x.dtype.name == want)
      c.prove('no entry passes through another type', set(x.via) <= {want})
    c.cover()
  chk.verify('OrbaxCheckpointManagerInterface.restore [types]', CK, 'parameters come back in the restore type, every other entry (also of the fallback state) in its own', orbax,
             kind='3 top entries, 2 types, 3 restore types', assumed=['Orbax restores each entry in the type its arguments ask for'])

  def osave(c):
    sd = c.choose('save type', [None, BF])
    st_ = {k: {'w': Ty(F4, k)} for k in KEYS}
    infos = {k: {'w': m._OrbaxParamInfo(f'{k}/w', None)} for k in KEYS}
    got = []

    class SA:
      def __init__(self, *a, **k):
        self.a, self.k = a, k

    def tmap(f, *trees, is_leaf=None, **k):
      if not isinstance(trees[0], dict):
        return f(*trees)
      return {kk: tmap(f, *[t[kk] for t in trees], is_leaf=is_leaf) for kk in trees[0]}
    o = Fake(_manager=Fake(save=lambda s, args=None, **k: got.append((s, args)) or True, should_save=lambda s: True), _train_state=Fake(state_dict=lambda: st_), _partitioner=Fake(mesh='M'), _save_dtype=sd,
             _dataset_iterator=None, _should_write_dataset_ckpt=False)
    with patched(m, jax=StubNS(m.jax, tree_util=StubNS(None, tree_map=tmap), tree=StubNS(None, map=tmap)), _construct_orbax_param_infos=lambda *a: infos, DatasetArgs=SA,
                 _transform_state_and_infos=lambda s, i, f: (s, i), _step_from_train_state=lambda t: 9, monitoring=Fake(record_event_duration_secs=lambda *a, **k: None),
                 ocp=StubNS(m.ocp, SaveArgs=SA, args=StubNS(None, PyTreeSave=SA, Composite=SA), utils=StubNS(m.ocp.utils, record_saved_duration=lambda *a: None))):
      m.OrbaxCheckpointManagerInterface.save(o, Fake(state_dict=lambda: st_, step=9))
    if len(got) != 1 or 'state' not in got[0][1].k:
      raise core.Unsupported('the state is not saved through its contract')
    a = got[0][1].k['state']
    item = a.a[0] if a.a else a.k.get('item')
    for k in KEYS:
      c.prove('every entry is saved', item[k]['w'].tag == k)
      g = a.k['save_args'][k]['w']
      want = np.dtype(sd) if k == 'target' and sd is not None else None
      x = g.k.get('dtype')
      c.prove('parameters are saved in the save type, other entries in their own', x is None if want is None else (x is not None and np.dtype(x) == want))
    c.prove('saved as the step of the state', got[0][0] == 9)
    c.cover()
  chk.verify('OrbaxCheckpointManagerInterface.save [types]', CK, 'the arguments ask for the save type for the parameters only', osave, kind='3 top entries',
             assumed=['Orbax stores each entry in the type its arguments ask for'])


def search_types(rec):
  """Real checkpoints: values and types of every entry after saving and restoring."""
  import jax, jax.numpy as jnp, optax
  from flax.core import FrozenDict
  from t5x import checkpoints as cp, optimizers, train_state as tsl, adafactor
  from vc import ck
  need(cp, 'Checkpointer', 'save')
  need(cp, 'OrbaxCheckpointManagerInterface', 'save')
  r = np.random.RandomState(5)
  # values that do not survive a detour through a shorter type
  P = {'a': {'w': (r.randn(4, 6) * 3).astype(np.float32), 'b': r.randn(3).astype(np.float32)}, 'k': r.randn(2, 2).astype(np.float32), 's': np.array(0.1, np.float32)}
  defs = {'adam': lambda: optimizers.wrap_optax_optimizer(optax.adam)(learning_rate=0.1), 'momentum': lambda: optimizers.wrap_optax_optimizer(optax.sgd)(learning_rate=0.1, momentum=0.9)}

  def fill(x, i):
    x = np.asarray(x)
    return (np.asarray(r.randn(*x.shape), x.dtype) if np.issubdtype(x.dtype, np.floating) else np.full(x.shape, 1001 + i, x.dtype))

  def conv(x, *ts):
    for t in ts:
      if t is not None:
        x = x.astype(t)
    return x
  combos = [(s, d) for s in (None, np.float32, jnp.bfloat16, np.float16) for d in (None, np.float32, jnp.bfloat16)]
  for kind in ('legacy', 'orbax'):
    for oname, mk in defs.items():
      for n, (save, rest) in enumerate(combos):
        if rec.full:
          return
        if env.TIER == 'quick' and oname == 'momentum' and n % 3:
          continue
        o = mk().create(FrozenDict(P))
        ps = jax.tree_util.tree_map(lambda x: fill(x, 1), o.state.param_states)
        o = o.replace(state=o.state.replace(param_states=ps))
        step = [257, 1001, 16777217, 0][n % 4]
        mut = {'stats': {'m': r.randn(3).astype(np.float32), 'n': np.arange(1001, 1004, dtype=np.int32)}}
        st_ = tsl.FlaxOptimTrainState(o, flax_mutables=FrozenDict(mut)).replace_step(np.int32(step))
        lazy = kind == 'legacy' and n % 2 == 0

        def run():
          with ck.scratch() as d:
            if kind == 'legacy':
              c = cp.Checkpointer(st_, ck.Part(), d, save_dtype=save, restore_dtype=rest)
              c.save(st_)
              part = ck.Part()
              part.params_on_devices = not lazy
              back = cp.Checkpointer(st_, part, d, restore_dtype=rest).restore(step=step, lazy_parameters=lazy)
            else:
              c = cp.OrbaxCheckpointManagerInterface(d, st_, ck.Part(), save_dtype=save, restore_dtype=rest)
              c.save(st_)
              c.wait_until_finished()
              back = c.restore(step=step)
              c.close()
            get = lambda x: x.get() if hasattr(x, 'get_async') else x
            bd = jax.tree_util.tree_map(get, back.state_dict(), is_leaf=lambda x: hasattr(x, 'get_async'))
            want = st_.state_dict()
            from flax import traverse_util
            fb, fw = traverse_util.flatten_dict(bd, sep='/'), traverse_util.flatten_dict(want, sep='/')
            if set(fb) != set(fw):
              return f'entries {sorted(set(fb) ^ set(fw))[:3]} appear or vanish'
            for k in fw:
              x, w = np.asarray(fb[k]), np.asarray(fw[k])
              if k.startswith('target/'):
                w = conv(w, save, rest)
              if k != 'state/step' and x.dtype != w.dtype:
                return f'{k} comes back as {x.dtype} instead of {w.dtype}'
              if not np.array_equal(x.astype(np.float64), w.astype(np.float64)):
                return f'{k} comes back as {x.reshape(-1)[:2]} instead of {w.reshape(-1)[:2]}'
        nm = lambda t: None if t is None else np.dtype(t).name
        rec.run({'checkpointer': kind, 'optimiser': oname, 'step': step, 'save type': nm(save), 'restore type': nm(rest), 'lazy': lazy}, run)


if __name__ == '__main__':
  def build(chk):
    verify_multi(chk)
    verify_optax(chk)
    verify_state(chk)
    verify_types(chk)
    chk.search('optimisers made of parts', '8 trees, all selections of up to 3 of 8 predicates', search_multi)
    chk.search('round trips of train states', '21 optimisers, 4 trees, every single absent entry', search_roundtrip)
    chk.search('states from model variables', '20 trees, each missing axis', search_create)
    chk.search('types of stored entries', '2 checkpointers, 2 optimisers, 12 pairs of save and restore type, real files', search_types)
  main('O02', build)
