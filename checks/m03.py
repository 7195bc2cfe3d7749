"""M03: logical axis rules, expert overrides, maps over named entries."""

import dataclasses
import itertools
import re

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, seq, opq
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, IFF, forall, lift
from vc.h import Fake, patched
from vc.opq import Opq, same
from vc.transform import LoopSpec, StubNS, clone

BP = 't5x/partitioning.py'
MP = 't5x/contrib/moe/partitioning.py'
TU = 't5x/contrib/moe/training_utils.py'

MODEL_AXES = ['vocab', 'mlp', 'heads', 'joined_kv']
REPLICATED = ['kv', 'relpos_buckets', 'abspos_buckets', 'length', 'layers', 'stack', 'mlp_activations']


def documented(a, p):
  """Mesh axes of each logical axis, by priority."""
  d = {'batch': ['data']}
  for x in MODEL_AXES:
    d[x] = ['model']
  for x in REPLICATED:
    d[x] = [None]
  d['embed'] = {(1, 1): [None], (2, 1): ['model'], (1, 2): ['data'], (2, 2): ['model', 'data']}[a, p]
  return d


def table(rules):
  d = {}
  for k, v in rules:
    d.setdefault(k, []).append(v)
  return d


def check_table(rules, a, p):
  """-> error text or None: the standard part of the rules."""
  want = documented(a, p)
  got = table(rules)
  if got != want:
    diff = {k: (got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)}
    return f'rules (found, documented): {diff}'
  # a mesh axis goes to the parameter dimension first, then to `embed`
  pos = {}
  for i, (k, v) in enumerate(rules):
    pos.setdefault((k, v), i)
  for k in MODEL_AXES:
    if ('embed', 'model') in pos and pos['embed', 'model'] < pos[k, 'model']:
      return f'`embed` takes the model axis before `{k}`'
  if ('embed', 'data') in pos and pos['embed', 'data'] < pos['batch', 'data']:
    return '`embed` takes the data axis before `batch`'
  return None


# -------------------------------------------------------------- deductive
class Grow(LoopSpec):
  """out[j] == want(src[j]) for every source element seen, nothing else."""

  def __init__(self, name, want, width=None):
    self.name, self.want, self.width = name, want, width

  def applies(self, L, env):
    if L.seq is None:
      return False
    cand = [k for k, v in env.items() if isinstance(v, seq.SymSeq) and v.length is 0 or (isinstance(v, seq.SymSeq) and isinstance(v.length, int) and v.length == 0)]
    cand = [k for k in cand if env[k] is not L.seq]
    if len(cand) != 1:
      return False
    self.var = cand[0]
    self.src = L.seq
    return True

  def inv(self, L, env):
    out = env[self.var]
    g = self.src.get
    return [('one result per element', out.length == L.i),
            ('each result is the one of its element', forall(1, lambda j: IMP(AND(j >= 0, j < L.i), same(out.get(j), self.want(g(j))))))]

  def havoc(self, L, env):
    new = opq.fresh_seq('sofar', self.width)
    env[self.var].length, env[self.var].get = new.length, new.get
    return {}


def newlist(c, width=None):
  c.user['newlist'] = lambda: seq.SymSeq(0, lambda i: Opq(0) if width is None else (Opq(0),) * width)


def verify(chk):
  b = clone(BP)
  real_b = dict(b.__dict__)

  def rules(c):
    a, p = c.int('activation_dims'), c.int('parameter_dims')
    extra = c.choose('extra', [None, [], [('embed', 'x')], [('a', 'b'), ('batch', None)], (('a', 'b'),)])
    try:
      r = b.standard_logical_axis_rules(a, p, extra)
    except ValueError:
      c.prove('rejected only when unsupported', OR(a < 1, a > 2, p < 1, p > 2))
      c.cover()
      return
    c.prove('accepted only when supported', AND(a >= 1, a <= 2, p >= 1, p <= 2))
    r = list(r)
    k = len(extra or ())
    std = r[:len(r) - k] if k else r
    c.prove('user rules follow the standard ones, in order', r[len(std):] == list(extra or ()))
    for x in (1, 2):
      for y in (1, 2):
        e = check_table(std, x, y)
        c.prove(f'activations {x}-D, parameters {y}-D: the documented rules', IMP(AND(a == x, p == y), e is None), note=e or '')
    c.cover()
  chk.verify('standard_logical_axis_rules', BP, 'all dimensionalities: the documented table, user rules appended, the rest rejected', rules)

  from t5x.contrib.moe import partitioning as moe_real  # noqa: F401
  m = clone(MP)
  real_m = dict(m.__dict__)

  def moe(c):
    m.__dict__.update(real_m)
    newlist(c, 2)
    c.user['opaque'] = True
    seen = {}
    base = opq.fresh_seq('base', 2)
    kind = c.choose('additional', ['none', 'some'])
    add = opq.fresh_seq('additional', 2) if kind == 'some' else None
    if add is not None:
      add.__class__ = seq.SymSeq

    def std(*a, **k):
      seen['args'] = (a, k)
      return base
    m.base_partitioning = StubNS(real_m['base_partitioning'], standard_logical_axis_rules=std, global_mesh_defined=lambda: False)
    want = lambda e: (e[0], core.ite(opq.Opq.__eq__(e[0], 'batch') if isinstance(e[0], Opq) else e[0] == 'batch',
                                     Opq(opq.code_of(('expert', 'data'))), e[1]))
    m.__vc_rt__.loop_specs = {f'standard_logical_axis_rules#{k}': Grow('rules', want, 2) for k in range(2)}
    a, p = c.int('activation_dims'), c.int('parameter_dims')
    r = m.standard_logical_axis_rules(a, p, add)
    a_, k_ = seen.get('args', ((), {}))
    bound = dict(zip(('activation_partitioning_dims', 'parameter_partitioning_dims', 'additional_rules'), a_), **k_)
    c.prove('the base rules are those of the given dimensionality',
            AND(bound.get('activation_partitioning_dims', 1) == a, bound.get('parameter_partitioning_dims', 1) == p))
    own = [('expert', 'expert'), ('expert_mlp', 'model'), ('expert_replicas', 'data'), ('unmodeled', None)]
    allr = base + seq.from_concrete(own)
    if add is not None and bound.get('additional_rules') is None:
      allr = allr + add
    if not isinstance(r, seq.SymSeq):
      raise core.Unsupported('a result of another kind')
    c.prove('base rules, expert rules, user rules: nothing else', r.length == allr.length)
    i = c.int('i', 0)
    c.assume(i < allr.length)
    got = r.get(i)
    c.prove('every rule is kept, with `batch` on the expert and data axes', same(got, want(allr.get(i))))
    c.cover()
  chk.verify('standard_logical_axis_rules (experts)', MP,
             'any base table, any user rules: all kept in order, batch -> (expert, data); contract of the base table: the unit above',
             moe, assumed=['axis names are known only through equality'])

  def override(c):
    m.__dict__.update(real_m)
    newlist(c)
    c.user['opaque'] = True
    PS = real_m['PartitionSpec']
    many = opq.fresh_seq('resources')
    data, both = PS('data'), PS(('expert', 'data'))
    c.prove('PartitionSpec(data) is a spec of its own', data != both)
    want = lambda e: core.ite(e == data, Opq(opq.code_of(both)), e)
    m.__vc_rt__.loop_specs = {f'override_partition_specs#{k}': Grow('resources', want) for k in range(2)}

    class SeqT(type):
      def __instancecheck__(cls, o):
        return isinstance(o, (seq.SymSeq, list, tuple))

    class Sequence(metaclass=SeqT):
      pass
    m.Sequence = Sequence
    r = m.override_partition_specs(many)
    if not isinstance(r, seq.SymSeq):
      raise core.Unsupported('a result of another kind')
    c.prove('one entry per resource', r.length == many.length)
    i = c.int('i', 0)
    c.assume(i < many.length)
    c.prove('exactly the plain data specs are widened', same(r.get(i), want(many.get(i))))
    for x, y in ((data, both), (PS('model'), PS('model')), (PS(), PS()), (PS(None), PS(None)), (PS('data', 'model'), PS('data', 'model')),
                 (PS('expert'), PS('expert')), (both, both), (None, None), (PS(None, 'data'), PS(None, 'data'))):
      g = m.override_partition_specs(x)
      c.prove(f'single {x}', g == y if y is not None else g is None)
      g = m.override_partition_specs((x, None))
      c.prove(f'pair with {x}', tuple(g) == (y, None))
    tree = {'a': data}
    c.prove('trees are left alone', m.override_partition_specs(tree) is tree and tree == {'a': data})
    c.cover()
  chk.verify('override_partition_specs', MP, 'any sequence of resources: entry i widened iff it is PartitionSpec(data), others unchanged', override,
             assumed=['resources are known only through equality'])

  def experts(c):
    m.__dict__.update(real_m)
    x = c.choose('axes', [None, (), ('embed',), ('embed', 'mlp')])
    PS = real_m['PartitionSpec']
    seen = {}

    class OptAxes:
      def state_dict(self):
        return {'target': 't', 'state': {'step': 0, 'param_states': 'PARAM_STATES'}}
    la = Fake(_optimizer=OptAxes(), flax_mutables=c.choose('mutables', [None, {'m': 1}]))
    flt = object()
    given = c.choose('filter', ['given', 'inferred', 'none'])

    def tmap(f, tree, match):
      seen['map'] = (tree, match, f(PS(*x)) if x is not None else f(None))
      return 'MAPPED'
    m.training_utils = StubNS(real_m['training_utils'], tree_map_with_names=tmap)
    m._infer_state_filter_fn = lambda ts: flt if given == 'inferred' else None
    m.InferenceState = type('IS', (), {})
    ts = Fake(as_logical_axes=lambda: la, restore_state=lambda d: ('RESTORED', d))
    part = m.MoePjitPartitioner.__new__(m.MoePjitPartitioner)
    part._state_filter_fn = flt if given == 'given' else None
    r = part.get_logical_axes(ts)
    if given == 'none':
      c.prove('no filter: the axes are unchanged', r is la and 'map' not in seen)
    else:
      c.prove('the filter decides over the optimiser slots', seen.get('map', (0, 0))[:2] == ('PARAM_STATES', flt))
      c.prove('`expert` comes first', seen['map'][2] == PS('expert', *(x or ())))
      ok = isinstance(r, tuple) and r[0] == 'RESTORED'
      d = r[1] if ok else {}
      c.prove('everything else is kept', ok and d.get('target') == 't' and d.get('state') == {'step': 0, 'param_states': 'MAPPED'}
              and d.get('flax_mutables') == la.flax_mutables)
    ia = m.InferenceState()
    ts2 = Fake(as_logical_axes=lambda: ia)
    c.prove('inference states are unchanged', part.get_logical_axes(ts2) is ia)
    c.cover()
  chk.verify('MoePjitPartitioner.get_logical_axes', MP, 'the expert axis is prepended to exactly the slots the filter names; all else kept', experts)

  t = clone(TU)
  real_t = dict(t.__dict__)

  def named(c):
    t.__dict__.update(real_t)
    n = c.int('n', 0)
    names = c.func('name', z3.IntSort(), z3.IntSort())
    vals = c.func('val', z3.IntSort(), z3.RealSort())
    match = c.func('matches', z3.IntSort(), z3.BoolSort())
    F = z3.Function('f', z3.RealSort(), z3.RealSort())
    pairs = seq.SymSeq(n, lambda i: (core.SymInt(names(core.zint(i))), core.SymReal(vals(core.zint(i)))))
    out = {}

    class TD:
      def unflatten(self, xs):
        out['xs'] = xs
        return 'TREE'
    tree = object()

    def flat(tr):
      if tr is not tree:
        raise core.Unsupported('another tree')
      return pairs, TD()
    t._tree_flatten_with_names = flat
    mf = lambda nm: lift(match(core.zint(nm)))
    k = c.int('k', 0)
    c.assume(k < n)
    nm, v = pairs.get(k)
    scale = c.real('scale')
    which = c.choose('which', ['scale', 'map', 'map all'])
    if which == 'scale':
      r = t.scale_sharded_grads(tree, mf, scale)
      want = lambda: core.ite(mf(nm), v * scale, v)
    elif which == 'map':
      r = t.tree_map_with_names(lambda x: core.SymReal(F(core.zreal(x))), tree, mf)
      want = lambda: core.ite(mf(nm), core.SymReal(F(core.zreal(v))), v)
    else:
      r = t.tree_map_with_names(lambda x: core.SymReal(F(core.zreal(x))), tree)
      want = lambda: core.SymReal(F(core.zreal(v)))
    c.prove('the tree is rebuilt from its own structure', r == 'TREE')
    xs = out['xs']
    if not isinstance(xs, seq.SymSeq):
      raise core.Unsupported('leaves of another kind')
    c.prove('as many leaves', xs.length == n)
    c.prove('leaf k: changed iff its name matches', xs.get(k) == want())
    c.cover()
  chk.verify('scale_sharded_grads / tree_map_with_names', TU,
             'any number of leaves, any filter: leaf k becomes f(leaf k) iff its name matches, in unchanged order; '
             'contract of _tree_flatten_with_names: (name, leaf) in tree order (searched)', named,
             assumed=['_tree_flatten_with_names returns the leaves in tree order, each with its own path (searched on real trees)'])


# ------------------------------------------------------------------ search
def search_rules(rec):
  from t5x import partitioning as bp
  from t5x.contrib.moe import partitioning as mp
  from flax.linen import partitioning as flax_partitioning
  P = mp.PartitionSpec
  names = ['batch', 'embed', *MODEL_AXES, *REPLICATED]
  extras = [None, [], [('new', 'model')], [('embed', 'data'), ('foo', None)], (('batch', 'model'), ('zig', 'data'))]
  for a, p in itertools.product([0, 1, 2, 3, -1], repeat=2):
    for ex in extras:
      def case():
        ok = a in (1, 2) and p in (1, 2)
        for f, moe in ((bp.standard_logical_axis_rules, False), (mp.standard_logical_axis_rules, True)):
          try:
            r = f(a, p, ex)
          except ValueError:
            if ok:
              return f'{f.__module__}: ({a}, {p}) rejected'
            continue
          if not ok:
            return f'{f.__module__}: ({a}, {p}) accepted'
          r = list(r)
          k = len(ex or ())
          std = r[:len(r) - k]
          tail = r[len(r) - k:]
          wide = lambda x: (x[0], ('expert', 'data')) if moe and x[0] == 'batch' else tuple(x)
          if [tuple(x) for x in tail] != [wide(x) for x in (ex or ())]:
            return f'{f.__module__}: user rules {ex} became {tail}'
          if moe:
            own = {'expert': ['expert'], 'expert_mlp': ['model'], 'expert_replicas': ['data'], 'unmodeled': [None]}
            t = table(std)
            got = {x: t.pop(x, None) for x in own}
            if got != own:
              return f'expert rules {got}'
            if t.pop('batch', None) != [('expert', 'data')]:
              return 'batch is not sharded over the expert and data axes'
            std = [('batch', 'data')] + [x for x in std if x[0] in t]
          e = check_table(std, a, p)
          if e:
            return f'{f.__module__}: {e}'
          # resolved shardings of 2-D and 3-D tensors
          if ex is None and not moe:
            w = documented(a, p)
            for ax in itertools.permutations(names, 2):
              s = tuple(flax_partitioning.logical_to_mesh_axes(ax, r))
              s += (None,) * (2 - len(s))
              one = [w[x] for x in ax]
              want = [None, None]
              for q in sorted(range(2), key=lambda q: ax[q] == 'embed'):
                want[q] = next((y for y in one[q] if y is not None and y not in want), None)
              if 'embed' not in ax and one[0] == one[1] and one[0] != [None]:
                continue    # two dimensions compete for one mesh axis: rule order decides
              if list(s) != want:
                return f'axes {ax} resolve to {s}, expected {want}'
      rec.run(['rules', a, p, repr(ex)], case)
  d, both = P('data'), P(('expert', 'data'))
  pool = [d, P('model'), P(), None, P('data', 'model'), P(None, 'data'), both, P('expert'), {'w': P('data')}]
  for n in range(0, 4):
    for xs in itertools.product(range(len(pool)), repeat=n):
      for mk in (tuple, list):
        def case():
          v = mk(pool[i] for i in xs)
          r = mp.override_partition_specs(v)
          want = [both if pool[i] == d else pool[i] for i in xs]
          if list(r) != want:
            return f'{v} became {r}'
          if any(isinstance(w, P) != isinstance(g, P) for w, g in zip(want, r)):
            return f'{v} became {r} (types)'
          if pool[-1] != {'w': d}:
            return 'a tree of specs was changed'
        rec.run(['override', list(xs), mk.__name__], case)
      if rec.full:
        return
  for x in pool:
    def case():
      r = mp.override_partition_specs(x)
      w = both if isinstance(x, P) and x == d else x
      if r != w:
        return f'{x} became {r}'
    rec.run(['override one', str(x)], case)
  for a, b in itertools.product([None, 1, 2, 4, 8], [None, (1, 1, 1, 1), (1, 2, 1, 2), (2, 2, 2, 1)]):
    def case():
      try:
        r = mp.compute_num_model_partitions(a, b)
      except ValueError:
        ok = (a is None and b is None) or (a is not None and b is not None and int(np.prod(b)) != a)
        return None if ok else f'{a}, {b} rejected'
      if a is None and b is None or (a is not None and b is not None and int(np.prod(b)) != a):
        return f'{a}, {b} accepted'
      if r != (a if a is not None else int(np.prod(b))):
        return f'{a}, {b}: {r} partitions'
    rec.run(['partitions', a, b], case)


def trees():
  """Parameter trees with keys whose orders differ, states and None leaves."""
  import flax
  from flax import core as fc

  def node(rng, d):
    if d == 0 or rng.random() < 0.25:
      return 'leaf'
    ks = rng.choice(['b', 'a', 'B', 'a_expert', 'expert', '10', '9', 'a0', 'a/b', 'k.v', 'mlp', 'kernel', '_'], rng.integers(1, 5), replace=False)
    t = {str(k): node(rng, d - 1) for k in ks}
    return t if rng.random() < 0.8 else fc.freeze({k: v for k, v in t.items()})
  for seed in range(60):
    rng = np.random.default_rng(seed)
    t = node(rng, 3)
    yield t


def number(t, c, none_every=0):
  import flax
  from collections.abc import Mapping
  if isinstance(t, Mapping):
    r = {k: number(t[k], c, none_every) for k in list(t)}
    return r if isinstance(t, dict) else type(t)(r)
  c[0] += 1
  if none_every and c[0] % none_every == 0:
    return None
  return float(c[0])


def paths(t, pre=''):
  from collections.abc import Mapping
  if isinstance(t, Mapping):
    r = {}
    for k in t:
      r.update(paths(t[k], pre + '/' + k if pre else k))
    return r
  return {pre: t}


def search_named(rec):
  import flax
  import jax
  from t5x.contrib.moe import training_utils as tu

  @flax.struct.dataclass
  class St:
    v_row: object
    m: object
    v: object
    a_expert: object

  filters = {'expert': r'.*expert.*', 'a': r'a', 'kernel': r'.*/kernel', 'all': '.*', 'none': 'zzz', 'alt': 'a/|b', 'end': r'.*9$'}
  for i, t in enumerate(trees()):
    for none_every in (0, 3):
      for fn, rx in filters.items():
        def case():
          tr = number(t, [0], none_every)
          want = paths(tr)
          mf = tu.match_fn(rx)
          for nm in want:
            if mf(nm) != (re.match(rx, nm) is not None):
              return f'match_fn({rx!r})({nm!r})'
          f = lambda x: -1.0 if x is None else x * 2 + 100
          got = tu.tree_map_with_names(f, tr, mf)
          exp = {k: f(v) if re.match(rx, k) else v for k, v in want.items()}
          if paths(got) != exp:
            g = paths(got)
            bad = {k: (g.get(k, 'missing'), exp.get(k, 'extra')) for k in set(g) | set(exp) if g.get(k, 0) != exp.get(k, 0)}
            return f'filter {rx!r}: (found, expected) {bad}'
          if jax.tree_util.tree_structure(got, is_leaf=lambda x: x is None) != jax.tree_util.tree_structure(tr, is_leaf=lambda x: x is None):
            return 'the tree structure changed'
          if not none_every:
            g = paths(tu.scale_sharded_grads(tr, mf, 0.25))
            exp = {k: v * 0.25 if re.match(rx, k) else v for k, v in want.items()}
            if g != exp:
              return f'gradients scaled: {g}, expected {exp}'
            if tu.scale_sharded_grads(tr, None, 0.25) is not tr and paths(tu.scale_sharded_grads(tr, None, 0.25)) != want:
              return 'scaled without a filter'
        rec.run(['named', i, none_every, fn], case)
      if rec.full:
        return
  for perm in itertools.permutations([0, 1, 2, 3]):
    for rx in ('.*/m$', '.*expert.*', '.*v.*', '.*v_row'):
      def case():
        vals = [float(p + 1) for p in perm]
        tr = {'w': St(*vals), 'a': {'z': St(*[v * 10 for v in vals])}}
        fields = ['v_row', 'm', 'v', 'a_expert']
        got = tu.tree_map_with_names(lambda x: x + 0.5, tr, tu.match_fn(rx))
        for pre, s, k in (('w', got['w'], 1), ('a/z', got['a']['z'], 10)):
          for f, v in zip(fields, vals):
            e = v * k + (0.5 if re.match(rx, f'{pre}/{f}') else 0)
            if getattr(s, f) != e:
              return f'{pre}/{f} is {getattr(s, f)}, expected {e}'
      rec.run(['states', list(perm), rx], case)
  def case():
    for bad in (None, ''):
      if tu.match_fn(bad)('x') or tu.match_fn(bad)(''):
        return 'an empty prefix matches'
  rec.run(['empty filter'], case)


def search_axes(rec):
  """The expert axis on real optimiser states."""
  import flax
  from flax import core as fc
  from flax.linen import partitioning as fp
  from t5x import adafactor, optimizers, train_state as ts
  from t5x.contrib.moe import partitioning as mp
  from t5x.contrib.moe import training_utils as tu
  P = mp.PartitionSpec
  A = fp.AxisMetadata

  def state(opt, mut):
    v = {'params': {'logits': np.ones((16, 16), np.float32), 'b': np.ones((8,), np.float32),
                    'expert': {'wi': {'kernel': np.ones((4, 256, 256), np.float32), 'bias': np.ones((4, 256), np.float32)}},
                    'mlp': {'kernel': np.ones((256, 256), np.float32)}},
         'params_axes': {'logits_axes': A(names=('vocab', 'embed')), 'b_axes': A(names=('embed',)),
                         'expert': {'wi': {'kernel_axes': A(names=('expert', 'embed', 'mlp')), 'bias_axes': A(names=('expert', 'mlp'))}},
                         'mlp': {'kernel_axes': A(names=('embed', 'mlp'))}}}
    if mut:
      v['other'] = {'u': np.ones((16, 16), np.float32)}
      v['other_axes'] = {'u_axes': A(names=('vocab', 'embed'))}
    if hasattr(opt, 'set_param_axes'):
      opt.set_param_axes(fc.freeze(v['params_axes']))
    return ts.FlaxOptimTrainState.create(opt, fc.freeze(v))

  def af(**kw):
    from t5x.contrib.moe import adafactor_utils
    return adafactor.Adafactor(learning_rate=.1, logical_factor_rules=adafactor_utils.logical_factor_rules(), **kw)

  opts = {'adamw': lambda: optimizers.adamw(learning_rate=1e-3), 'factored': lambda: af(factored=True),
          'unfactored': lambda: af(factored=False),
          'momentum': lambda: af(factored=True, beta1=0.9)}
  import jax
  is_leaf = lambda x: x is None or isinstance(x, P)

  def leaves(x):
    return {jax.tree_util.keystr(k): v for k, v in jax.tree_util.tree_flatten_with_path(x, is_leaf=is_leaf)[0]}
  for on, mk in opts.items():
    for rx in (None, '.*expert.*/v_.*', '.*mlp.*', 'nothing'):
      for mut in (False, True):
        def case():
          s = state(mk(), mut)
          base = s.as_logical_axes()
          part = mp.MoePjitPartitioner(num_expert_partitions=2, num_partitions=1, state_filter_fn=tu.match_fn(rx) if rx else None)
          got = part.get_logical_axes(s)
          rule = rx or ('.*expert.*/kernel/v_.*' if on in ('factored', 'momentum') else 'nothing')
          if got.params != base.params or got.flax_mutables != base.flax_mutables or got.step != base.step:
            return 'parameters, mutables or step axes changed'
          b, g = leaves(base.param_states), leaves(got.param_states)
          if set(b) != set(g):
            return f'slots {sorted(set(b) ^ set(g))} appeared or vanished'
          n = 0
          for k, v in b.items():
            nm = '/'.join(re.findall(r"[\w]+", k))
            name = re.sub(r'^\W+', '', nm)
            hit = re.search({'.*expert.*/v_.*': r'expert.*/v_', '.*mlp.*': 'mlp', 'nothing': 'zzz',
                             '.*expert.*/kernel/v_.*': r'expert.*/kernel/v_'}[rule], name) is not None
            n += hit
            if hit:
              w = P('expert', *(v or ()))
            else:
              w = v
            if g[k] != w:
              return f'slot {name}: {g[k]}, expected {w}'
          if rx is None and on == 'factored' and not n:
            return None
        rec.run(['axes', on, rx, mut], case)


if __name__ == '__main__':
  def build(chk):
    verify(chk)
    chk.search('rule tables and overrides', 'all dimensionalities -1..3, 5 user tables; all resource lists up to 3 of 9', search_rules)
    chk.search('named maps over trees', '60 random trees, 7 filters, states with 4 fields', search_named)
    chk.search('expert axis on optimiser states', '4 optimisers, 4 filters', search_axes)
  main('M03', build)
