"""D03: beams stay inside their example, and what is returned is scored."""

import random

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, jx
from vc.check import main, need
from vc.h import patched
from vc.transform import StubNS

DEC = 't5x/decoding.py'
EOS = 1
NEG = -1.0e7


def mod():
  from t5x import decoding
  return decoding


DT = {'float32': np.float32, 'int32': np.int32, 'bool': np.bool_}


# ------------------------------------------------------- the beam dimension
def dims_unit(chk, dec, offset, rest, k):
  """add / flatten / unflatten / expand, at any batch and element shape."""
  pre = ['u'] * offset

  def idx(c, *dims):
    r = []
    for n in dims:
      t = c.int(c.fresh_name('i'), 0).t
      c.assume(t < jx.I(n))
      r.append(t)
    return r

  def add(c):
    d = jx.Dims(c, 'u', 'b', 'h', 'g')
    ip = jx.Interp(c, d)
    x = ip.arg('x', (*pre, 'b', *rest), 'float32')
    y = ip.call(lambda a: dec.add_beam_dim(a, k, offset), x)
    ii = idx(c, *y.shape)
    c.prove('shape', z3.And(y.ndim == x.ndim + 1, *[jx.I(p) == jx.I(q) for p, q in zip(y.shape, (*x.shape[:offset + 1], k, *x.shape[offset + 1:]))]))
    c.prove('every beam starts as a copy of its example', y.at(*ii) == x.at(*ii[:offset + 1], *ii[offset + 2:]))
    c.cover()

  def flat(c):
    d = jx.Dims(c, 'u', 'b', 'h', 'g')
    ip = jx.Interp(c, d)
    x = ip.arg('x', (*pre, 'b', k, *rest), 'float32')
    y = ip.call(lambda a: dec.flatten_beam_dim(a, offset), x)
    ii = idx(c, *x.shape)
    i, j = ii[offset], ii[offset + 1]
    c.prove('beam j of example i is row i * k + j', y.at(*ii[:offset], i * k + j, *ii[offset + 2:]) == x.at(*ii))
    c.prove('row count', jx.I(y.shape[offset]) == d.t('b') * k)
    z = ip.call(lambda a: dec.unflatten_beam_dim(dec.flatten_beam_dim(a, offset), a.shape[offset], k, offset), x)
    c.prove('splitting undoes merging', z3.And(z.ndim == x.ndim, z.at(*ii) == x.at(*ii)))
    c.cover()

  def unflat(c):
    d = jx.Dims(c, 'u', 'b', 'h', 'g')
    ip = jx.Interp(c, d)
    x = ip.arg('x', (*pre, k * d['b'], *rest), 'float32')
    y = ip.call(lambda a: dec.unflatten_beam_dim(a, d['b'], k, offset), x)
    ii = idx(c, *y.shape)
    i, j = ii[offset], ii[offset + 1]
    c.prove('row i * k + j is beam j of example i', y.at(*ii) == x.at(*ii[:offset], i * k + j, *ii[offset + 2:]))
    jj = idx(c, *x.shape)
    z = ip.call(lambda a: dec.flatten_beam_dim(dec.unflatten_beam_dim(a, d['b'], k, offset), offset), x)
    c.prove('merging undoes splitting', z3.And(z.ndim == x.ndim, z.at(*jj) == x.at(*jj)))
    c.cover()

  def expand(c):
    d = jx.Dims(c, 'u', 'b', 'h', 'g')
    ip = jx.Interp(c, d)
    x = ip.arg('x', (*pre, 'b', *rest), 'float32')
    y = ip.call(lambda a: dec.flat_batch_beam_expand(a, k, offset), x)
    ii = idx(c, *x.shape)
    j = c.int('beam', 0).t
    c.assume(j < k)
    c.prove('the copies of example i are rows i * k .. i * k + k - 1', y.at(*ii[:offset], ii[offset] * k + j, *ii[offset + 1:]) == x.at(*ii))
    c.prove('row count', jx.I(y.shape[offset]) == d.t('b') * k)
    c.cover()
  nm = f'offset {offset}, rank {1 + offset + len(rest)}, {k} beams'
  how = 'any batch size and element shape'
  chk.verify(f'add_beam_dim [{nm}]', DEC, how, add)
  chk.verify(f'flatten_beam_dim [{nm}]', DEC, how, flat)
  chk.verify(f'unflatten_beam_dim [{nm}]', DEC, how, unflat)
  chk.verify(f'flat_batch_beam_expand [{nm}]', DEC, how, expand)


# ------------------------------------------------------------------ gathers
def sum_terms(c, v):
  """The applications of sums inside a term."""
  by = {s.name: s for s in c.user.get('sums', [])}
  seen, out, todo = set(), [], [v]
  while todo:
    t = todo.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().name() in by:
      out.append((by[t.decl().name()], tuple(t.children())))
    todo.extend(t.children())
  return out


def gather_unit(chk, dec, which, one_hot, offset, dtype, rest, new):
  def body(c):
    d = jx.Dims(c, 'u', 'b', 'o', 'e', 'h')
    ip = jx.Interp(c, d)
    pre = ['u'] * offset
    x = ip.arg('x', (*pre, 'b', 'o', *rest), dtype)
    ix = ip.arg('beam_indices', ('b', 'e' if new is None else new), 'int32')
    B, O = d.t('b'), d.t('o')
    E = d.t('e') if new is None else z3.IntVal(new)
    p, q = z3.Ints('gp gq')
    c._push(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < B, q >= 0, q < E), z3.And(ix.at(p, q) >= 0, ix.at(p, q) < O)), patterns=[ix.at(p, q)]))
    E_ = d['e'] if new is None else new

    kept = []

    def fun(a, i):
      kw = dict(batch_size=d['b'], old_beam_size=d['o'], new_beam_size=E_, one_hot=one_hot)
      if which == 'gather_beams':
        r = dec.gather_beams({'a': [a], 'b': {}}, i, **kw)
        kept.append(isinstance(r, dict) and set(r) == {'a', 'b'} and len(r['a']) == 1)
        return r['a'][0]
      r = dec.cache_gather_beams({'l': {'cached_key': a, 'cache_index': 3}}, i, offset=offset, **kw)
      kept.append(set(r) == {'l'} and set(r['l']) == {'cached_key', 'cache_index'} and r['l']['cache_index'] == 3)
      return r['l']['cached_key']
    y = ip.call(fun, x, ix)
    i, j = c.int('i', 0).t, c.int('j', 0).t
    c.assume(z3.And(i < B, j < E))
    u = c.int('u_', 0).t
    h = c.int('h_', 0).t
    c.assume(z3.And(u < d.t('u'), h < d.t('h')))
    tail = [h] * len(rest)
    ii = [u] * offset + [i, j] + tail
    c.prove('the structure and the index are kept', z3.BoolVal(all(kept)))
    c.prove('type', z3.BoolVal(str(y.dtype) == str(np.dtype(dtype))))
    c.prove('shape', z3.And(y.ndim == x.ndim, *[jx.I(a) == jx.I(b) for a, b in zip(y.shape, (*x.shape[:offset], B, E, *x.shape[offset + 2:]))]))
    v = y.at(*ii)
    for s, args in sum_terms(c, v):
      c._push(jx.lemma_delta(c, s, args, [ix.at(i, j)]))
    c.prove('exactly the requested beam of the same example', v == x.at(*[u] * offset, i, ix.at(i, j), *tail))
    c.cover()
  nm = f'{"one-hot" if one_hot else "direct"}, offset {offset}, {dtype}, rank {2 + offset + len(rest)}'
  chk.verify(f'{which} [{nm}]', DEC, 'any batch, beam counts, element shape and beam indices in range', body,
             assumed=['real arithmetic: the entries are finite (0 * x = 0)'] if one_hot and dtype == 'float32' else [])


def units(chk):
  dec = mod()
  for offset in (0, 1):
    for rest in ((), ('h',), ('h', 'g')):
      for k in (1, 2, 3, 4):
        if k in (1, 4) and rest != ('h',):
          continue
        dims_unit(chk, dec, offset, rest, k)
  for oh in (True, False):
    for dt in ('float32', 'int32', 'bool'):
      for rest in ((), ('h',)):
        gather_unit(chk, dec, 'gather_beams', oh, 0, dt, rest, None if oh else 4)
        for off in (0, 1):
          gather_unit(chk, dec, 'cache_gather_beams', oh, off, dt, rest, None if oh else 4)


# ---------------------------------------------------------------- selections
def topk_unit(chk, dec, batch, n, k):
  """The best k columns of every row, best first, ties by position."""
  import jax.numpy as jnp

  def body(c):
    d = jx.Dims(c)
    Z = z3.IntVal
    calls = []

    def idx_h(ip, eqn, ins):
      X, kk = ins[0], int(eqn.outvars[0].aval.shape[-1])
      f = z3.Function(c.fresh_name('top'), z3.IntSort(), z3.IntSort(), z3.IntSort())
      calls.append((X, kk, f))
      return jx.SArr((X.shape[0], kk), np.dtype('int32'), lambda r, j: f(r, j))
    ip = jx.Interp(c, d, contracts={'vc_topk_idx': idx_h})

    def top_k(x, kk):
      i = jx.opaque('topk_idx', (x.shape[0], kk), np.int32, x)
      return jnp.take_along_axis(x, i, axis=1, mode='promise_in_bounds'), i

    def before(X, r, p, q):
      return z3.Or(X.at(r, p) > X.at(r, q), z3.And(X.at(r, p) == X.at(r, q), p < q))

    def contract(call, r, qs):
      """lax.top_k at row r, used for columns qs."""
      X, kk, f = call
      W = jx.I(X.shape[1])
      c._push(z3.And(*[z3.And(f(r, Z(e)) >= 0, f(r, Z(e)) < W) for e in range(kk)]))
      for e in range(kk - 1):
        c._push(before(X, r, f(r, Z(e)), f(r, Z(e + 1))))
      for q in qs:
        c._push(z3.Implies(z3.And(q >= 0, q < W), z3.Or(*[q == f(r, Z(e)) for e in range(kk)], before(X, r, f(r, Z(kk - 1)), q))))
    x = ip.arg('x', (batch, n), 'float32')
    p, q = z3.Ints('xp xq')
    c._push(z3.ForAll([p, q], x.at(p, q) >= core.NEG_INF, patterns=[x.at(p, q)]))
    with patched(dec, lax=StubNS(dec.lax, top_k=top_k)):
      vals, idx = ip.call(lambda a: tuple(dec.top_k_two_stage(a, k)), x)
    r, m = c.int('row', 0).t, c.int('column', 0).t
    c.assume(z3.And(r < batch, m < n))
    sel = [idx.at(r, Z(j)) for j in range(k)]
    if len(calls) == 1:
      contract(calls[0], r, [m])
    else:
      one, two = calls
      rows = one[0].shape[0] // batch
      S = one[0].shape[1]
      lane = r * rows + m / S
      # the places of column m and of its lane among the candidates
      contract(two, r, [(m / S) * one[1] + e for e in range(one[1])])
      contract(one, lane, [m % S])
      for j in range(k):
        contract(one, r * rows + two[2](r, Z(j)) / one[1], [])
      # the first lane has no padding and k candidates
      contract(two, r, [Z(e) for e in range(one[1])])
      contract(one, r * rows, [])
    c.prove('the values are the columns named', z3.And(*[z3.And(s >= 0, s < n, vals.at(r, Z(j)) == x.at(r, s)) for j, s in enumerate(sel)]))
    c.prove('best first', z3.And(*[before(x, r, sel[j], sel[j + 1]) for j in range(k - 1)], z3.BoolVal(True)))
    c.prove('no better column is left out', z3.Or(*[m == s for s in sel], before(x, r, sel[-1], m)))
    c.cover()
  chk.verify(f'top_k_two_stage [{batch} x {n}, k = {k}]', DEC, 'all values at this size (the two stages need concrete sizes)', body,
             kind='bounded', assumed=['lax.top_k: the k largest columns, largest first, ties by position'])


def topk_beams_unit(chk, dec, old, k):
  def body(c):
    d = jx.Dims(c, 'b', 'h')
    ip = jx.Interp(c, d, contracts={'vc_gather': gather_handler(c)})
    s = ip.arg('scores', ('b', old), 'float32')
    x = ip.arg('x', ('b', old, 'h'), 'int32')
    f = ip.arg('flags', ('b', old), 'bool')
    with patched(dec, gather_beams=gather_stub(d)):
      ys, yx, yf = ip.call(lambda a, b_, e: tuple(dec.gather_topk_beams([a, b_, e], a, d['b'], k)), s, x, f)
    i, h = c.int('i', 0).t, c.int('h_', 0).t
    c.assume(z3.And(i < d.t('b'), h < d.t('h')))
    for j in range(k):
      for e in range(old):
        c.prove('beam k - 1 - j is the j-th best, in every entry alike',
                z3.Implies(rank([s.at(i, z3.IntVal(q)) for q in range(old)], e) == k - 1 - j,
                           z3.And(ys.at(i, z3.IntVal(j)) == s.at(i, z3.IntVal(e)), yx.at(i, z3.IntVal(j), h) == x.at(i, z3.IntVal(e), h),
                                  yf.at(i, z3.IntVal(j)) == f.at(i, z3.IntVal(e)))))
    c.prove('ascending', z3.And(z3.BoolVal(True), *[ys.at(i, z3.IntVal(j)) <= ys.at(i, z3.IntVal(j + 1)) for j in range(k - 1)]))
    c.cover()
  chk.verify(f'gather_topk_beams [{old} to {k} beams]', DEC, 'any batch, scores and entries', body)


def rank(vals, e):
  """How many come before vals[e]: larger, or equal and earlier."""
  return z3.Sum([z3.IntVal(0)] + [z3.If(z3.Or(v > vals[e], z3.And(v == vals[e], z3.BoolVal(q < e))), 1, 0) for q, v in enumerate(vals) if q != e])


def gather_stub(d):
  """Contract of gather_beams (proved for the real function)."""
  import jax

  def gather_beams(nested, beam_indices, batch_size, old_beam_size, new_beam_size, one_hot=True):
    def one(x):
      assert x.shape[1] == old_beam_size and beam_indices.shape[1] == new_beam_size, 'beam counts'
      assert x.shape[0] == batch_size and beam_indices.shape[0] == batch_size, 'batch'
      return jx.opaque('gather', (x.shape[0], new_beam_size, *x.shape[2:]), x.dtype, x, beam_indices)
    return jax.tree.map(one, nested)
  return gather_beams


def gather_handler(c, offset=0):
  def h(ip, eqn, ins):
    x, ix = ins
    a = eqn.outvars[0].aval
    i, j = z3.Int(c.fresh_name('gi')), z3.Int(c.fresh_name('gj'))
    # precondition of the gather
    v = ix.at(i, j)
    c.prove('the requested beams exist', z3.Implies(z3.And(i >= 0, i < jx.I(ix.shape[0]), j >= 0, j < jx.I(ix.shape[1])),
                                                    z3.And(v >= 0, v < jx.I(x.shape[1 + offset]))))
    return jx.SArr(ip.shape(a.shape), a.dtype, lambda *k: x.at(*k[:offset + 1], ix.at(k[offset], k[offset + 1]), *k[offset + 2:]))
  return h


# --------------------------------------------------------------- the search
class Search(jx.JLoop):
  """One round of the search at one arbitrary example."""
  name = 'beam search loop'

  def __init__(self, c):
    self.c, self.names, self.old, self.clauses = c, [], None, None

  def match(self, k, what, init):
    return what == 'while' and len(init) == len(self.names)

  def get(self, st, n):
    return st[self.names.index(n)]

  def inv(self, st, old):
    cur = self.get(st, 'cur_index').at()
    # the smallest start is the start of some example
    for e in self.c.user.get('exts', []):
      if not e.nout:
        self.c._push(e.ax_attained(()))
    yield 'position', z3.And(cur >= 0, cur <= self.limit, self.get(st, 'ghost').at() == cur)
    if old is not None:
      for cl in self.clauses(st, old):
        if self.part == 'round':
          yield cl
    for nm, f in self.state(st):
      yield nm, f

  def on_havoc(self, st):
    self.old = st
    if 'initial_index' in self.names:    # shown for an arbitrary example
      r = z3.Int(self.c.fresh_name('r') + '#')
      a = self.get(st, 'initial_index')
      self.c._push(z3.ForAll([r], a.at(r) == self.start(r), patterns=[a.at(r)]))

  def variant(self, st):
    return self.limit - self.get(st, 'ghost').at()


def names_of(tree):
  import jax
  out = []
  for path, _ in jax.tree_util.tree_flatten_with_path(tree)[0]:
    ks = [getattr(p, 'name', None) or str(getattr(p, 'key', getattr(p, 'idx', p))) for p in path]
    out.append('ghost' if ks == ['0'] else ks[-1])
  return out


def search_unit(chk, dec, k, index=False, maxlen=None, maxstep=-1, offset=0, part='round'):
  import jax
  import jax.numpy as jnp
  from t5x.decoding import DecodingState  # noqa

  def body(c):
    core.QUERY_MS = max(core.QUERY_MS, 20000)
    d = jx.Dims(c, 'b', 'L', 'V', 'H', 'U', 'M', lo={'b': 1, 'L': 1, 'V': 2, 'H': 1, 'U': 1, 'M': 1})
    G = {}
    Z = z3.IntVal
    B, V, H = d.t('b'), d.t('V'), d.t('H')
    n = 2 * k

    def model_h(ip, eqn, ins):
      G['seen'] = ins
      a = eqn.outvars[0].aval
      G['logits'] = ip.fresh(ip.shape(a.shape), a.dtype, 'logits')
      return G['logits']

    def cache_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      G['newcache'] = ip.fresh(ip.shape(a.shape), a.dtype, 'newcache')
      return G['newcache']

    def lsm_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      G['lsm of'] = ins[0]
      r = ip.fresh(ip.shape(a.shape), a.dtype, 'logsoftmax')
      G['lsm'] = r
      ks = [z3.Int(c.fresh_name('k') + '#') for _ in a.shape]
      # the scores of the tokens are finite (above the large negative constant)
      c._push(z3.ForAll(ks, z3.And(r.at(*ks) > NEG, r.at(*ks) <= 0), patterns=[r.at(*ks)]))
      return r

    def topk_h(which):
      def h(ip, eqn, ins):
        X = ins[0]
        kk = int(eqn.outvars[0].aval.shape[1])
        if 'top' not in G:
          f, fo, ft = [z3.Function(c.fresh_name(m), z3.IntSort(), z3.IntSort(), z3.IntSort()) for m in ('top', 'topbeam', 'toptoken')]
          G['top'] = (X, kk, f)
          G['ot'] = (fo, ft)
          # an index is a beam and a token: m = o * V + t
          c.user.setdefault('decomposed', {})[f.name()] = (fo, ft, z3.simplify(V))
          r_, j_ = z3.Int('tr#'), z3.Int('tj#')
          o_, t_ = fo(r_, j_), ft(r_, j_)
          c._push(z3.ForAll([r_, j_], z3.Implies(z3.And(r_ >= 0, r_ < B, j_ >= 0, j_ < kk), z3.And(
              f(r_, j_) >= 0, o_ >= 0, o_ < k, t_ >= 0, t_ < V, (f(r_, j_) == 0) == z3.And(o_ == 0, t_ == 0))), patterns=[f(r_, j_), fo(r_, j_), ft(r_, j_)]))
        X0, k0, f = G['top']
        if which == 'idx':
          return jx.SArr((X0.shape[0], k0), np.dtype('int32'), lambda r, j: f(r, j))
        return jx.SArr((X0.shape[0], k0), np.dtype('float32'), lambda r, j: X0.at(r, f(r, j)))
      return h

    def align_h(nm):
      def h(ip, eqn, ins):
        a = eqn.outvars[0].aval
        G[nm + ' of'] = ins[0]
        G[nm] = ip.fresh(ip.shape(a.shape), a.dtype, nm)
        return G[nm]
      return h
    pen = z3.Function('brevity', z3.IntSort(), z3.RealSort())

    def pen_h(ip, eqn, ins):
      a = eqn.outvars[0].aval
      return jx.SArr(ip.shape(a.shape), a.dtype, lambda *i: pen(ins[0].at(*i)))
    q_ = z3.Int('pq#')
    c._push(z3.ForAll([q_], z3.Implies(q_ >= 1, pen(q_) >= 1), patterns=[pen(q_)]))
    picks = []

    def pick_h(which):
      def h(ip, eqn, ins):
        Xk, kk = ins[0], int(eqn.outvars[0].aval.shape[1])
        w = int(Xk.shape[1])
        hit = [q for q in picks if q[0] is Xk and q[1] == kk]
        if not hit:
          f = z3.Function(c.fresh_name('pick'), z3.IntSort(), z3.IntSort(), z3.IntSort())
          picks.append((Xk, kk, f))
          r_, j_ = z3.Int('tr#'), z3.Int('tj#')
          c._push(z3.ForAll([r_, j_], z3.Implies(z3.And(r_ >= 0, r_ < B, j_ >= 0, j_ < kk), z3.And(f(r_, j_) >= 0, f(r_, j_) < w)), patterns=[f(r_, j_)]))
          bef = lambda p, q: z3.Or(Xk.at(x, p) > Xk.at(x, q), z3.And(Xk.at(x, p) == Xk.at(x, q), p < q))
          for j in range(kk - 1):
            c._push(bef(f(x, Z(j)), f(x, Z(j + 1))))
          for q in range(w):
            c._push(z3.Or(*[f(x, Z(j)) == q for j in range(kk)], bef(f(x, Z(kk - 1)), Z(q))))
          hit = [picks[-1]]
        f = hit[0][2]
        if which == 'idx':
          return jx.SArr((Xk.shape[0], kk), np.dtype('int32'), lambda r, j: f(r, j))
        return jx.SArr((Xk.shape[0], kk), np.dtype('float32'), lambda r, j: Xk.at(r, f(r, j)))
      return h

    def top_k(a, k):
      return jx.opaque('pickv', (a.shape[0], k), np.float32, a), jx.opaque('picki', (a.shape[0], k), np.int32, a)
    ip = jx.Interp(c, d, contracts={'vc_pickv': pick_h('val'), 'vc_picki': pick_h('idx'), 'vc_model': model_h, 'vc_cache': cache_h, 'vc_lsm': lsm_h, 'vc_topi': topk_h('idx'), 'vc_topv': topk_h('val'),
                                    'vc_right': align_h('right'), 'vc_left': align_h('left'), 'vc_pen': pen_h,
                                    'vc_gather': gather_handler(c), 'vc_cgather': gather_handler(c, offset)})
    ip.udiv = True
    inputs = ip.arg('inputs', ('b', 'L'), 'int32')
    cache = ip.arg('cached', ('U', 'b', 'H') if offset else ('b', 'H'), 'float32')
    pos = ip.arg('position', ('b',) if index else (), 'int32')
    i0 = ip.arg('initial_index', ('b',), 'int32') if index else None
    if index:
      x_ = z3.Int('ix#')
      c._push(z3.ForAll([x_], i0.at(x_) >= 0, patterns=[i0.at(x_)]))
    x = c.int('example', 0).t
    p = c.int('position_', 0).t
    h = c.int('h_', 0).t
    u = c.int('u_', 0).t
    N = (d.t('M') if maxlen else d.t('L')) + 1
    c.assume(z3.And(x < B, p < N, h < H, u < d.t('U')))
    # prompts: a BOS padding, tokens other than the end token, padding
    plen = c.int('prompt_length', 0).t
    q = c.int('q_', 0).t
    c.assume(z3.And(plen < d.t('L'), q < N))
    kx = z3.Int('pk#')
    if not index:
      c._push(z3.ForAll([kx], z3.Implies(z3.And(kx >= 0, kx < d.t('L')), z3.And((inputs.at(x, kx) != 0) == z3.And(kx >= 1, kx <= plen), inputs.at(x, kx) != EOS)),
                        patterns=[inputs.at(x, kx)]))
    loop = Search(c)
    loop.part = part
    loop.limit = N - 1
    ip.loops = [loop]
    ch = (lambda a, r: a.at(u, r, h)) if offset else (lambda a, r: a.at(r, h))
    ch2 = (lambda a, r, y: a.at(u, r, y, h)) if offset else (lambda a, r, y: a.at(r, y, h))
    start = loop.start = (lambda r: i0.at(r)) if index else (lambda r: Z(0))

    def model(s):
      args = (s.cur_index, s.sequences, s.cur_token, s.cache['l']['cached_key'], jnp.asarray(s.cache['l']['cache_index']))
      lg = jx.opaque('model', (s.cur_token.shape[0], d['V']), np.float32, *args)
      return lg, {'l': dict(s.cache['l'], cached_key=jx.opaque('cache', s.cache['l']['cached_key'].shape, np.float32, s.cur_index))}

    def top_k_two_stage(a, k):
      assert k == n or True
      return jx.opaque('topv', (a.shape[0], k), np.float32, a), jx.opaque('topi', (a.shape[0], k), np.int32, a)

    gather = gather_stub(d)

    def cache_gather_beams(nested, beam_indices, batch_size, old_beam_size, new_beam_size, one_hot=True, offset=0):
      def one(a):
        assert a.shape[1 + offset] == old_beam_size and beam_indices.shape[1] == new_beam_size, 'beam counts'
        assert a.shape[offset] == batch_size, 'batch'
        return jx.opaque('cgather', (*a.shape[:offset], batch_size, new_beam_size, *a.shape[2 + offset:]), a.dtype, a, beam_indices)
      return dec.cache_map(one, nested)

    def brevity(alpha, length):
      G['alpha'] = alpha
      ln = jnp.asarray(length)
      return jx.opaque('pen', ln.shape, np.float32, ln)

    def while_loop(cond, bodyf, init):
      zero = jnp.zeros((), jnp.int32)
      loop.names = names_of((zero, init))
      return real_while(lambda s: cond(s[1]), lambda s: (s[0] + 1, bodyf(s[1])), (zero, init))[1]
    real_while = jax.lax.while_loop

    def state(st):
      """What always holds of example x."""
      cur = loop.get(st, 'cur_index').at()
      fs, ff = loop.get(st, 'finished_scores'), loop.get(st, 'finished_flags')
      ls, fq = loop.get(st, 'live_seqs'), loop.get(st, 'finished_seqs')
      lp = loop.get(st, 'live_logprobs')
      asc = lambda a: z3.And(z3.BoolVal(True), *[a.at(x, Z(y)) <= a.at(x, Z(y + 1)) for y in range(k - 1)])
      yield 'finished beams ascend', asc(fs)
      yield 'live beams ascend', z3.Or(cur == 0, asc(lp))
      yield 'nothing after the current position', z3.And(*[z3.Implies(w > cur, z3.And(ls.at(x, Z(y), w) == 0, fq.at(x, Z(y), w) == 0)) for y in range(k) for w in (p, q)])
      if part == 'round':
        if 'initial_index' in loop.names:
          yield 'the start stays', loop.get(st, 'initial_index').at(x) == start(x)
        if 'cache_index' in loop.names:
          a = loop.get(st, 'cache_index')
          yield 'position indices are untouched', z3.And(*[a.at(x, Z(y)) == pos.at(x) for y in range(k)]) if index else a.at() == pos.at()
        return
      yield 'log-probabilities', z3.And(*[lp.at(x, Z(y)) <= 0 for y in range(k)])
      yield 'no end token in a beam that goes on', z3.And(*[z3.Implies(z3.And(lp.at(x, Z(y)) > NEG, w >= 1), ls.at(x, Z(y), w) != EOS) for y in range(k) for w in (p, q)])
      yield 'only padding after an end token', z3.And(*[z3.Implies(z3.And(ff.at(x, Z(y)), p >= 1, p < q, fq.at(x, Z(y), p) == EOS), fq.at(x, Z(y), q) == 0) for y in range(k)])
      for y in range(k):
        yield f'what did not finish is worth nothing, beam {y}', z3.Or(ff.at(x, Z(y)), fs.at(x, Z(y)) <= NEG)
      if not index:
        yield 'the prompt is kept', z3.And(*[z3.Implies(z3.And(w >= 1, w <= plen, w <= cur), z3.And(ls.at(x, Z(y), w) == inputs.at(x, w),
                                             z3.Implies(ff.at(x, Z(y)), fq.at(x, Z(y), w) == inputs.at(x, w)))) for y in range(k) for w in (p, q)])
        yield 'nothing finishes inside the prompt', z3.And(*[z3.Implies(ff.at(x, Z(y)), cur > plen) for y in range(k)])
      yield 'finished sequences are those that ended', z3.And(*[z3.Or(z3.Not(ff.at(x, Z(y))), cur >= 1) for y in range(k)])
      if 'initial_index' in loop.names:
        yield 'the start stays', loop.get(st, 'initial_index').at(x) == start(x)

    def clauses(new, old):
      cur = loop.get(old, 'cur_index').at()
      ls, lp = loop.get(old, 'live_seqs'), loop.get(old, 'live_logprobs')
      nls, nlp = loop.get(new, 'live_seqs'), loop.get(new, 'live_logprobs')
      nca, nc = loop.get(new, 'cached_key'), G['newcache']
      oc = loop.get(old, 'cached_key')
      ci, sq, ct, mc, mi = G['seen']
      yield 'one position per round', loop.get(new, 'cur_index').at() == cur + 1
      yield 'the model is given every beam of the example', z3.And(ci.at() == cur, *[
          z3.And(sq.at(x * k + y, p) == ls.at(x, Z(y), p), ct.at(x * k + y, Z(0)) == ls.at(x, Z(y), cur), ch(mc, x * k + y) == ch2(oc, x, Z(y)))
          for y in range(k)])
      # the candidates: a beam and a token each, best first
      X, kk, f = G['top']
      if kk != n:
        raise core.Unsupported('number of candidates')
      W = Z(k) * V
      o, t, forced = [], [], None
      tok_in = None
      for e in range(n):
        m = f(x, Z(e))
        if e:
          q = f(x, Z(e - 1))
          c._push(z3.Or(X.at(x, q) > X.at(x, m), z3.And(X.at(x, q) == X.at(x, m), q < m)))
        o.append(G['ot'][0](x, Z(e)))
        t.append(G['ot'][1](x, Z(e)))
      # a candidate not among the best comes after them
      lsm, lof = G['lsm'], G['lsm of']
      l3 = (lambda b_, v: lsm.at(x, b_, v)) if lsm.ndim == 3 else (lambda b_, v: lsm.at(x * k + b_, v))
      w = z3.Int(c.fresh_name('v'))
      yield 'log-probabilities of the scores of the model', z3.Implies(z3.And(w >= 0, w < V), z3.And(*[
          (lof.at(x, Z(y), w) if lof.ndim == 3 else lof.at(x * k + y, w)) == G['logits'].at(x * k + y, w) for y in range(k)]))
      m = c.int(c.fresh_name('candidate'), 0).t
      mo, mt = core.divmod_t(m, V)
      yield 'every continuation of every beam is a candidate', z3.Implies(z3.And(m < W, mo >= 0, mo < k),
          X.at(x, m) == pickn(lambda y: lp.at(x, Z(y)) + l3(Z(y), mt), mo, k))
      # prompts: the token of the input while there is one
      nxt = cur + 1
      inprompt = z3.And(z3.BoolVal(not index), nxt < d.t('L'), inputs.at(x, nxt) != 0)
      tok = [z3.If(inprompt, inputs.at(x, nxt), te) for te in t]
      cand = [z3.If(inprompt, core.zreal(0.0) if e == 0 else core.zreal(NEG), X.at(x, f(x, Z(e)))) for e in range(n)]
      done = [z3.And(te == EOS, ce > core.zreal(NEG)) for te, ce in zip(tok, cand)]
      alive = [ce + z3.If(de, core.zreal(NEG), core.zreal(0.0)) for ce, de in zip(cand, done)]
      seq = lambda e: z3.If(p == nxt, tok[e], ls.at(x, o[e], p))
      goes = lambda y, e: z3.And(nlp.at(x, Z(y)) == alive[e], nls.at(x, Z(y), p) == seq(e), ch2(nca, x, Z(y)) == ch(nc, x * k + o[e]))
      for y in range(k):
        yield 'a live beam is a candidate with the cache of its own beam', z3.Or(*[goes(y, e) for e in range(n)])
      for e in range(n):
        yield 'no better unfinished candidate is dropped', z3.Implies(alive[e] > nlp.at(x, Z(0)), z3.Or(*[goes(y, e) for y in range(k)]))
      fs, ff, fq = loop.get(old, 'finished_scores'), loop.get(old, 'finished_flags'), loop.get(old, 'finished_seqs')
      nfs, nff, nfq = loop.get(new, 'finished_scores'), loop.get(new, 'finished_flags'), loop.get(new, 'finished_seqs')
      ln = start(x) + nxt
      score = [jx.FDIV(ce, pen(ln)) + z3.If(de, core.zreal(0.0), core.zreal(NEG)) for ce, de in zip(cand, done)]
      allc = [fs.at(x, Z(y)) for y in range(k)] + score
      if part == 'ends':
        c.prove('the candidates have log-probabilities, the penalty is at least one', z3.And(pen(ln) >= 1, *[ce <= 0 for ce in cand]))
        for ce in cand:
          c._push(jx.FDIV(ce, pen(ln)) <= 0)
      ends = lambda y, g: z3.And(nfs.at(x, Z(y)) == allc[g],
                                 nff.at(x, Z(y)) == (ff.at(x, Z(g)) if g < k else done[g - k]),
                                 nfq.at(x, Z(y), p) == (fq.at(x, Z(g), p) if g < k else seq(g - k)))
      for y in range(k):
        yield 'a finished beam is an earlier one or a candidate that ended, with its score', z3.Or(*[ends(y, g) for g in range(3 * k)])
      for g in range(3 * k):
        yield 'no better finished hypothesis is dropped', z3.Implies(allc[g] > nfs.at(x, Z(0)), z3.Or(*[ends(y, g) for y in range(k)]))
    loop.state, loop.clauses = state, clauses

    def fun(inp, ca, ps, *rest):
      ix = rest[0] if index else None
      r = dec.beam_search(inp, {'l': {'cached_key': ca, 'cache_index': ps}}, model, EOS, num_decodes=k, alpha=0.6,
                          max_decode_len=d['M'] if maxlen else None, max_decode_step=maxstep, cache_offset=offset, initial_index=ix)
      return r[0], r[1]
    stub_jax = StubNS(jax, nn=StubNS(jax.nn, log_softmax=lambda a, axis=-1: jx.opaque('lsm', a.shape, a.dtype, a)))
    with patched(dec, jax=stub_jax, lax=StubNS(dec.lax, while_loop=while_loop, top_k=top_k), gather_beams=gather, cache_gather_beams=cache_gather_beams,
                 top_k_two_stage=top_k_two_stage, brevity_penalty=brevity,
                 _right_align_prompts=lambda a: jx.opaque('right', a.shape, np.int32, a),
                 _left_align_prompts=lambda a: jx.opaque('left', a.shape, np.int32, a)):
      seqs, scores = ip.call(fun, inputs, cache, pos, *([i0] if index else []))
    if loop.old is None:
      raise core.Unsupported('no while loop')
    st = loop.old
    ff = loop.get(st, 'finished_flags')
    anyf = z3.Or(*[ff.at(x, Z(y)) for y in range(k)])
    c.prove('the length-normalised scores are requested with the given alpha', z3.BoolVal(G.get('alpha') == 0.6))
    y = c.int('beam_', 0).t
    c.assume(y < k)
    want = lambda a, b_, *i: z3.If(anyf, loop.get(st, a).at(x, y, *i), loop.get(st, b_).at(x, y, *i))
    c.prove('the scores are those of the finished hypotheses, or of the live ones if none finished',
            scores.at(x, y) == want('finished_scores', 'live_logprobs'))
    c.prove('scores ascend', z3.Implies(loop.get(st, 'cur_index').at() > 0, z3.And(z3.BoolVal(True), *[scores.at(x, Z(z)) <= scores.at(x, Z(z + 1)) for z in range(k - 1)])))
    real = scores.at(x, y) > NEG
    if part == 'ends':
      cur, fs, lp = loop.get(st, 'cur_index').at(), loop.get(st, 'finished_scores'), loop.get(st, 'live_logprobs')
      best = jx.FDIV(lp.at(x, Z(k - 1)), pen(N))
      # every slot has ended and the worst of them is better than what the best live beam can still become
      settled = z3.And(*[z3.If(ff.at(x, Z(z)), z3.And(*[fs.at(x, Z(v)) > best for v in range(k)]), best < NEG) for z in range(k)])
      for e in c.user.get('exts', []):
        if not e.nout and len(e.dims) == 1:
          c._push(e.ax_bound((), (x,)))
      hopeless = z3.And(cur > 0, best < jx.FDIV(core.zreal(NEG), pen(N)))
      c.prove('the search goes on until the limit or until no live hypothesis of the example can improve the result',
              z3.Or(cur + start(x) >= N - 1, settled, hopeless))
    if not index and part == 'ends':
      at = lambda i: seqs.at(x, y, i)
      c.prove('the prompt is returned verbatim', z3.Implies(z3.And(q == p + 1, p < plen, p < N - 1, p < loop.get(st, 'cur_index').at(), real), at(p) == inputs.at(x, p + 1)))
    full = lambda i: want('finished_seqs', 'live_seqs', i)
    if not index:
      c.prove('the sequences go with the scores', z3.Implies(p < N - 1, seqs.at(x, y, p) == full(p + 1)))
    else:
      L = d.t('L')
      whole = G['left of']
      row = x * k + y
      c.prove('the prompts are those of the example, right-aligned', z3.Implies(q < L, whole.at(row, q) == G['right'].at(x, q)))
      c.prove('followed by what was decoded', z3.Implies(z3.And(q >= 1, q < N), whole.at(row, L + q - 1) == full(q)))
      c.prove('aligned to the left and cut', z3.Implies(p < N - 1, seqs.at(x, y, p) == G['left'].at(row, p)))
      c.prove('the prompts are given', z3.Implies(q < L, G['right of'].at(x, q) == inputs.at(x, q)))
    w, v = p, q
    if part == 'ends':
     c.prove('a returned hypothesis has ended with padding after it, or none has and it goes on',
            z3.Implies(z3.And(real, w >= 1, w < v, full(w) == EOS), z3.And(anyf, full(v) == 0)))
    c.cover()
  nm = f'{k} beams' + (', prefilled prompts' if index else '') + (', max_decode_len' if maxlen else '') + (', max_decode_step' if maxstep > 0 else '') + \
      (', scanned cache' if offset else '') + (': what is returned' if part == 'ends' else '')
  chk.verify(f'beam_search [{nm}]', DEC, 'any batch, length, vocabulary, cache, prompts and model outputs: what every round does to an arbitrary example', body, seconds=240,
             assumed=['log_softmax and brevity_penalty are functions of their arguments (their values: bounded search)',
                      'the scores of the model are finite and above -1e7', 'top_k_two_stage, gather_beams, cache_gather_beams and the prompt alignments by contract'])


def pickn(f, i, n):
  """f(i) for i in range(n)."""
  r = f(n - 1)
  for j in range(n - 2, -1, -1):
    r = z3.If(i == j, f(j), r)
  return r


# -------------------------------------------------------- bounded evaluation
def logp(row):
  row = row.astype(np.float64)
  m = row.max()
  return row - m - np.log(np.exp(row - m).sum())


def reference(table, ex, prompt, k, alpha, limit, steps, start):
  """Beam search of one example: hypotheses are kept with their exact scores.

  Returns (score, tokens) of the finished ones, or of the live ones, best last.
  Tokens are those of positions 1..; generation may use positions < limit.
  """
  S = table.shape[1]
  live, done = [(0.0, [0] + list(prompt[:start]))], []
  pen = lambda n: ((5.0 + n) / 6.0) ** alpha
  for n in range(steps):
    pos = start + n + 1
    if pos >= limit:
      break
    if pos <= len(prompt):
      live = [(0.0, live[-1][1] + [prompt[pos - 1]])]
      continue
    cand = []
    for lp, q in live:
      h = 0
      for tok in q:
        h = (h * 5 + tok) % S
      row = logp(table[ex, h])
      cand += [(lp + row[t], q + [t]) for t in range(table.shape[2]) if np.isfinite(row[t]) and row[t] > -1e6]
    cand.sort(key=lambda z: -z[0])
    cand = cand[:2 * k]
    live = sorted([z for z in cand if z[1][-1] != EOS], key=lambda z: z[0])[-k:]
    done += [(lp / pen(pos), q) for lp, q in cand if q[-1] == EOS]
    done = sorted(done, key=lambda z: z[0])[-k:]
    if not live:
      break
  return (done or live), bool(done)


def search(rec):
  import jax
  import jax.numpy as jnp
  dec = mod()
  rnd = random.Random(env.SEED)
  S = 7
  for t in range(60 if env.TIER != 'thorough' else 400):
    if rec.full:
      return
    B, L, k = rnd.randint(1, 3), rnd.randint(2, 6), rnd.choice([1, 2, 2, 3, 4])
    V = rnd.randint(max(4, k + 1), 8)
    index = rnd.random() < 0.4
    ps = [rnd.randint(0, L - 1) for _ in range(B)]
    inp = np.array([[0] + [rnd.randint(2, V - 1) for _ in range(p)] + [0] * (L - 1 - p) for p in ps], np.int32)
    table = np.array([[[rnd.uniform(-3, 3) for _ in range(V)] for _ in range(S)] for _ in range(B)], np.float32)
    table[..., EOS] += rnd.choice([-2, 0, 2])
    table[..., 0] -= 30      # padding is not generated
    if rnd.random() < 0.25:  # only one token is allowed in some states
      for _ in range(2):
        row = table[rnd.randrange(B), rnd.randrange(S)]
        keep = rnd.randint(1, V - 1)
        if np.isinf(row).any():
          continue
        row[np.arange(V) != keep] = -np.inf
    alpha = rnd.choice([0.0, 0.6, 1.0])
    maxlen = rnd.choice([None, None, L, L + 2, max(1, L - 1)])
    maxstep = rnd.choice([-1, -1, -1, 2])
    off = rnd.choice([0, 1])
    if index:
      maxlen = None
    N = maxlen or L

    def run():
      tab = jnp.asarray(table)

      def model(s):
        c = s.cache['l']
        key = c['cached_key'][0] if off else c['cached_key']
        h = (key[:, 1] * 5 + s.cur_token[:, 0]) % S
        key = jnp.stack([key[:, 0], h], axis=1)
        new = {'l': {'cached_key': key[None] if off else key, 'cache_index': c['cache_index'] + 1, 'cached_bias': c['cached_bias']}}
        return tab[key[:, 0], h], new
      # what the model has seen of a prefilled prompt: all but its last token
      pre = []
      for b, p in enumerate(ps):
        h = 0
        if index:
          for tok in list(inp[b, :p]):
            h = (h * 5 + int(tok)) % S
        pre.append([b, h])
      key = jnp.asarray(np.array(pre, np.int32))
      at = jnp.asarray(np.array(ps, np.int32)) if index else jnp.zeros((), jnp.int32)
      cache = {'l': {'cached_key': key[None] if off else key, 'cache_index': at[None] if off and index else at, 'cached_bias': jnp.zeros((1, 2))}}
      sq, sc = dec.beam_search(jnp.asarray(inp), cache, model, EOS, num_decodes=k, alpha=alpha, max_decode_len=maxlen, max_decode_step=maxstep,
                               cache_offset=off, initial_index=jnp.asarray(np.array(ps, np.int32)) if index else None)
      sq, sc = np.asarray(sq), np.asarray(sc)
      if sq.shape != (B, k, N) or sc.shape != (B, k):
        return f'shapes {sq.shape} {sc.shape}'
      if np.isnan(sc).any():
        return f'NaN scores {sc.tolist()}'
      lo = min(ps) if index else 0
      for b in range(B):
        p = ps[b]
        st = p if index else 0
        steps = N - lo
        if maxstep > 0:
          steps = min(steps, maxstep)
        want, fin = reference(table, b, [int(z) for z in inp[b, 1:1 + p]], k, alpha, st + steps + 1, steps, st)
        if (np.diff(sc[b]) < 0).any():
          return f'scores of example {b} do not ascend: {sc[b].tolist()}'
        got = [(s, q.tolist()) for s, q in zip(sc[b], sq[b]) if s > -1e6]
        exp = [(s, (q[1:] + [0] * N)[:N]) for s, q in want]
        if len(got) != len(exp):
          return f'example {b}: {len(got)} hypotheses {got}, expected {exp}'
        for (s, q), (ws, wq) in zip(got, exp):
          if abs(s - ws) > 1e-3 * max(1, abs(ws)) or q != wq:
            return f'example {b}: {got}, expected {exp}'
      return None
    rec.run(dict(case=t, batch=B, length=L, beams=k, vocab=V, prompts=ps, index=index, alpha=alpha, max_decode_len=maxlen, max_decode_step=maxstep, offset=off,
                 inputs=inp.tolist()), run)


def cache_search(rec):
  """cache_map touches exactly the entries it should, in any nesting."""
  import itertools
  import flax
  dec = mod()
  names = ['cached_key', 'cache_index', 'cached_bias', 'position_embedder_index', 'other']
  trees = []
  for r in range(len(names) + 1):
    for sub in itertools.combinations(names, r):
      flat = {n: (n,) for n in sub}
      trees.append(flat)
      trees.append({'a': {'b': dict(flat)}, **flat})
      trees.append({'cache_index': dict(flat), 'x': {'cached_bias': dict(flat)}})

  def expect(t, idx):
    return {k: expect(v, idx) if isinstance(v, dict) else
            v if k in ('cached_bias', 'position_embedder_index') or (k == 'cache_index' and not idx) else ('mapped', v)
            for k, v in t.items()}
  def prune(t):
    r = {k: prune(v) if isinstance(v, dict) else v for k, v in t.items()}
    return {k: v for k, v in r.items() if v != {}}

  class Leaf:
    def __init__(self, v):
      self.v = v
  wrap = lambda t: {k: wrap(v) if isinstance(v, dict) else Leaf(v) for k, v in t.items()}
  unwrap = lambda t: {k: unwrap(v) if isinstance(v, (dict, flax.core.FrozenDict)) else v.v for k, v in t.items()}
  for t in trees:
    t = prune(t)
    for frozen in (False, True):
      for idx in (False, True):
        def run():
          src = wrap(t)
          arg = flax.core.freeze(src) if frozen else src
          r = dec.cache_map(lambda l: Leaf(('mapped', l.v)), arg, apply_to_index=idx)
          if isinstance(r, flax.core.FrozenDict) != frozen:
            return f'returned {type(r).__name__}'
          if unwrap(r) != expect(t, idx):
            return f'{unwrap(r)} instead of {expect(t, idx)}'
          if unwrap(arg) != t:
            return 'the argument was changed'
        rec.run(dict(tree=str(t), frozen=frozen, index=idx), run)


def topk_search(rec):
  import jax.numpy as jnp
  dec = mod()
  for b, n, k in ((1, 5, 2), (2, 40, 4), (1, 2049, 2), (2, 2176, 2), (8, 4096, 2), (3, 1030, 1), (1, 3100, 3), (9, 2100, 2), (2, 2048, 2), (2, 4100, 4), (1, 5000, 4), (40, 2500, 2)):
    for lo, hi in ((-2.0, -1.0), (-1e7, 0.0), (-1.0, 1.0)):
      def run():
        x = np.random.RandomState(b * n + k).uniform(lo, hi, (b, n)).astype(np.float32)
        x[:, n - 1] = hi + abs(hi) / 2 + 0.5 if b % 2 else x[:, n - 1]
        v, i = dec.top_k_two_stage(jnp.asarray(x), k)
        w = np.argsort(-x, axis=1, kind='stable')[:, :k]
        if not (np.asarray(i) == w).all():
          return f'columns {np.asarray(i).tolist()} instead of {w.tolist()}'
        if not (np.asarray(v) == np.take_along_axis(x, w, 1)).all():
          return f'values {np.asarray(v).tolist()}'
      rec.run(dict(rows=b, columns=n, k=k, low=lo, high=hi), run)


def penalty_search(rec):
  dec = mod()
  for alpha in (0.0, 0.6, 1.0, 2.0):
    for n in range(1, 40):
      rec.run(dict(alpha=alpha, length=n), lambda: None if abs(float(dec.brevity_penalty(alpha, n)) - ((5 + n) / 6) ** alpha) < 1e-3 * ((5 + n) / 6) ** alpha
              else f'{float(dec.brevity_penalty(alpha, n))}')


def run(chk):
  units(chk)
  dec = mod()
  for batch, n, k in ((2, 40, 4), (1, 2049, 2), (2, 2176, 2), (8, 4096, 2), (3, 1030, 1), (1, 3100, 3), (9, 2100, 2)):
    topk_unit(chk, dec, batch, n, k)
  search_unit(chk, dec, 1)
  search_unit(chk, dec, 2)
  search_unit(chk, dec, 2, index=True)
  search_unit(chk, dec, 2, maxlen=True, offset=1)
  search_unit(chk, dec, 2, maxstep=3)
  search_unit(chk, dec, 1, part='ends')
  search_unit(chk, dec, 2, part='ends')
  search_unit(chk, dec, 2, index=True, part='ends')
  for old, k in ((3, 1), (6, 2), (4, 2), (9, 3), (5, 5)):
    topk_beams_unit(chk, dec, old, k)
  chk.search('cache_map', 'every set of entry names, two nestings, frozen or not', cache_search)
  chk.search('brevity_penalty', '4 exponents, lengths 1 to 39', penalty_search)
  chk.search('top_k_two_stage', '12 shapes, 3 ranges of values', topk_search)
  chk.search('beam search against a reference', '60 (400) random tables, prompts, beam counts, limits', search, case_seconds=90)


if __name__ == '__main__':
  main('D03', run)
