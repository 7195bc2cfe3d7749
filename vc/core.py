"""Path-wise verification-condition generator: contexts, symbolic values, prover.

A *run* executes real code (mechanically instrumented, see transform.py, or
called directly) on symbolic values.  Each symbolic branch forks; the run is
re-executed once per path with the decisions recorded so far.  Loops with an
invariant are cut at the loop head, so every path is finite and the set of
paths covers all inputs and all iterations.  Obligations met on a path are
implications  path-condition => formula , discharged by z3 (then cvc5).
"""

import builtins
import contextlib
import math
import os
import subprocess
import tempfile
import time

from vc import env
env.setup()
import z3  # noqa: E402


class PathEnd(BaseException):
  """The current path is finished (loop back edge checked, or infeasible)."""


class Unsupported(Exception):
  """The construct is outside the verified subset: the obligation is undecided."""


class Timeout(BaseException):
  pass


QUERY_MS = 8000
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


# --------------------------------------------------------------------------
# Solver front
# --------------------------------------------------------------------------
class Stats:
  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.by = {'z3': 0, 'cvc5': 0, 'simplifier': 0}


STATS = Stats()


def check_sat(assertions, ms=None, want_model=False, use_cvc5=True):
  """('unsat'|'sat'|'unknown', model|None, backend)."""
  ms = ms or QUERY_MS
  t0 = time.time()
  s = z3.Solver()
  s.set('timeout', int(ms))
  s.add(*assertions)
  r = s.check()
  STATS.queries += 1
  out = (str(r), s.model() if r == z3.sat else None, 'z3')
  if r == z3.unknown and use_cvc5:
    res = _cvc5(s.to_smt2(), ms)
    if res == 'unsat':
      out = ('unsat', None, 'cvc5')
  STATS.time += time.time() - t0
  return out


def _cvc5(smt2, ms):
  try:
    p = subprocess.run(
        [CVC5, '--lang=smt2', f'--tlimit={int(ms)}', '--nl-ext-tplanes'] + (['--strings-exp'] if 'String' in smt2 else []) + ['-'],
        input='(set-logic ALL)\n' + smt2, capture_output=True, text=True,
        timeout=ms / 1000 + 5)
    first = p.stdout.strip().splitlines()[:1]
    return first[0] if first else 'unknown'
  except Exception:  # pylint: disable=broad-except
    return 'unknown'


# --------------------------------------------------------------------------
# Obligations
# --------------------------------------------------------------------------
class Obligation:
  """One named contract clause; it is discharged when every instance is."""

  def __init__(self, name, function, kind, text=''):
    self.name, self.function, self.kind, self.text = name, function, kind, text
    self.instances = 0
    self.proved = 0
    self.backends = {}
    self.refutations = []   # (model dict, note)
    self.unknown = []       # reasons
    self.seconds = 0.0

  @property
  def status(self):
    if self.refutations:
      return 'refuted'
    if self.unknown:
      return 'unknown'
    if self.instances == 0:
      return 'vacuous'
    return 'discharged'


class Unit:
  """Verification of one function against its contract."""

  def __init__(self, function, file, contract, kind='unbounded'):
    self.function, self.file, self.contract = function, file, contract
    self.kind = kind
    self.obligations = {}
    self.paths = 0
    self.completed = 0
    self.errors = []        # Unsupported / engine trouble: undecided
    self.assumed = []
    self.seconds = 0.0

  def obligation(self, name, kind='post', text=''):
    if name not in self.obligations:
      self.obligations[name] = Obligation(name, self.function, kind, text)
    return self.obligations[name]

  @property
  def status(self):
    sts = [o.status for o in self.obligations.values()]
    if 'refuted' in sts:
      return 'refuted'
    if self.errors or 'unknown' in sts or 'vacuous' in sts or not sts:
      return 'undecided'
    return 'discharged'


# --------------------------------------------------------------------------
# Context
# --------------------------------------------------------------------------
_CTX = []


def ctx():
  if not _CTX:
    raise Unsupported('symbolic operation outside a verification run')
  return _CTX[-1]


def has_ctx():
  return bool(_CTX)


class Ctx:

  def __init__(self, unit, prefix, fresh_tag=''):
    self.unit = unit
    self.prefix = list(prefix)
    self.pos = 0
    self.taken = []
    self.alternatives = []
    self.pc = []
    self.dead = False
    self.names = {}
    self.inputs = {}        # name -> (term) for model extraction
    self.tokens = {}        # token string -> term
    self.solver = z3.Solver()
    self.solver.set('timeout', 1500)
    self.qf = z3.Solver()
    self.qf.set('timeout', 3000)
    self.nq = 0
    self.deadline = None
    self.user = {}          # ghost state of the harness
    self._nsplit = 0
    self.in_quant = 0

  # -- assumptions -----------------------------------------------------
  def assume(self, f, check=False):
    f = term(f)
    if isinstance(f, bool):
      if not f:
        self.dead = True
        raise PathEnd()
      return
    f = z3.simplify(f) if not _has_quant(f) else f
    if z3.is_true(f):
      return
    self._push(f)
    if z3.is_false(f) or (check and self.solver.check() == z3.unsat):
      self.dead = True
      raise PathEnd()

  def _push(self, f):
    self.pc.append(f)
    self.solver.add(f)
    if _has_quant(f):
      self.nq += 1
    else:
      self.qf.add(f)

  def feasible(self, f):
    STATS.queries += 1
    self.qf.push()
    self.qf.add(f)
    r = self.qf.check()
    self.qf.pop()
    if r == z3.unsat:
      return False
    if not self.nq and r == z3.sat:
      return True
    self.solver.push()
    self.solver.add(f)
    r = self.solver.check()
    self.solver.pop()
    return r != z3.unsat

  def branch(self, cond):
    """Decides a symbolic condition on this path."""
    if isinstance(cond, bool):
      return cond
    if self.dead:
      return False
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.deadline and time.time() > self.deadline:
      raise Timeout()
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
      self.pos += 1
      self.taken.append(d)
      self._push(cond if d else z3.Not(cond))
      return d
    t = self.feasible(cond)
    f = self.feasible(z3.Not(cond))
    if not t and not f:
      self.dead = True
      raise PathEnd()
    if t and f:
      self._nsplit += 1
      self.alternatives.append(self.taken + [False])
      d = True
      self.taken.append(True)
      self.pos += 1
      self._push(cond)
      return True
    self.taken.append(t)
    self.pos += 1
    return t

  # -- obligations -----------------------------------------------------
  def prove(self, name, f, kind='post', text='', ms=None, hints=(), note=''):
    """Obligation: the path condition (and hint lemmas) implies f."""
    if self.dead:
      return True
    ob = self.unit.obligation(name, kind, text)
    ob.instances += 1
    f = term(f)
    t0 = time.time()
    if isinstance(f, bool):
      f = z3.BoolVal(f)
    g = z3.simplify(f) if not _has_quant(f) else f
    if z3.is_true(g):
      ob.proved += 1
      ob.backends['simplifier'] = ob.backends.get('simplifier', 0) + 1
      STATS.by['simplifier'] += 1
      return True
    hints = [zbool(h) for h in hints]
    if len(self.pc) > 12 and not hints:
      sub = relevant(self.pc, f)
      if len(sub) < len(self.pc):
        r, m, be = check_sat(sub + [z3.Not(f)], 700, use_cvc5=False)
        if r == 'unsat':
          ob.seconds += time.time() - t0
          ob.proved += 1
          ob.backends[be] = ob.backends.get(be, 0) + 1
          STATS.by[be] += 1
          return True
    r, m, be = check_sat(list(self.pc) + [z3.Not(f)], 1500 if hints else ms, use_cvc5=not hints)
    if r != 'unsat' and hints:
      r, m, be = check_sat(list(self.pc) + hints + [z3.Not(f)], ms)
    if r == 'unknown':
      p = polynomial_form(list(self.pc) + hints, z3.Not(f))
      if p is not None:
        r2, _, be2 = check_sat(p, ms)
        if r2 == 'unsat':
          r, be = r2, be2
    ob.seconds += time.time() - t0
    if r == 'unsat':
      ob.proved += 1
      ob.backends[be] = ob.backends.get(be, 0) + 1
      STATS.by[be] += 1
      return True
    if r == 'sat':
      vals = {}
      for k, t in self.inputs.items():
        try:
          vals[k] = model_value(m, t)
        except Exception:  # pylint: disable=broad-except
          pass
      for k, (n, fn) in self.user.get('seqs', {}).items():
        try:
          ln = min(max(0, model_value(m, term(n))), 12) if issym(n) else n
          vals[k] = [model_value(m, fn(z3.IntVal(i))) for i in range(ln)]
        except Exception:  # pylint: disable=broad-except
          pass
      ob.refutations.append((vals, note or str(g)[:300]))
      return False
    ob.unknown.append(note or 'solver gave up')
    return False

  def cover(self):
    self.unit.completed += 1

  # -- fresh values ----------------------------------------------------
  def fresh_name(self, base):
    n = self.names.get(base, 0)
    self.names[base] = n + 1
    return base if n == 0 else f'{base}!{n}'

  def int(self, base, lo=None, hi=None, inp=True):
    n = self.fresh_name(base)
    t = z3.Int(n)
    if lo is not None:
      self.assume(t >= term(lo))
    if hi is not None:
      self.assume(t <= term(hi))
    if inp:
      self.inputs[n] = t
    return SymInt(t)

  def bool(self, base, inp=True):
    n = self.fresh_name(base)
    t = z3.Bool(n)
    if inp:
      self.inputs[n] = t
    return SymBool(t)

  def real(self, base, inp=True):
    n = self.fresh_name(base)
    t = z3.Real(n)
    if inp:
      self.inputs[n] = t
    return SymReal(t)

  def func(self, base, *sorts):
    return z3.Function(self.fresh_name(base), *sorts)

  def choose(self, base, options):
    """Symbolic choice between concrete options (one path each)."""
    for o in options[:-1]:
      b = z3.Bool(self.fresh_name(base))
      if self.branch(b):
        return o
    return options[-1]

  def inst(self, f):
    """Adds an instance of a separately proved lemma or assumed contract."""
    self.assume(f)

  def token(self, t):
    key = t.sexpr()
    for tok, (k, _) in self.tokens.items():
      if k == key:
        return tok
    tok = '\u27e8%d\u27e9' % len(self.tokens)
    self.tokens[tok] = (key, t)
    return tok


INV = z3.Function('inv', z3.RealSort(), z3.RealSort())


_CONSTS = {}


def consts(f):
  """Ids of the uninterpreted constants and functions of a term."""
  k = f.get_id()
  hit = _CONSTS.get(k)
  if hit is not None and hit[0].eq(f):
    return hit[1]
  out, st, seen = set(), [f], set()
  while st:
    x = st.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_quantifier(x):
      st.append(x.body())
      continue
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(x.decl().name())
    st.extend(x.children())
  _CONSTS[k] = (f, out)
  return out


def relevant(assertions, goal):
  """The hypotheses over the constants of the goal and their definitions
  (a subset: proving from fewer hypotheses is sound)."""
  s = set(consts(goal))
  hop = set(s)
  for a in assertions:
    ca = consts(a)
    if ca & s and len(ca - s) <= 2:
      hop |= ca
  return [a for a in assertions if consts(a) <= hop]


def polynomial_form(assertions, goal):
  """The query with x/y as x*inv(y) for denominators proved nonzero, in
  sum-of-monomials form; None when there is no such denominator."""
  dens, seen, st = {}, set(), [goal] + [a for a in assertions if not _has_quant(a)]
  while st:
    x = st.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
      dens[x.arg(1).get_id()] = x.arg(1)
    st.extend(x.children())
  if not dens or len(dens) > 8:
    return None
  ok = set()
  for k, d in dens.items():
    if check_sat(assertions + [d == 0], 2000, use_cvc5=False)[0] == 'unsat':
      ok.add(k)
  if not ok:
    return None
  memo = {}

  def go(x):
    k = x.get_id()
    if k in memo:
      return memo[k]
    if z3.is_quantifier(x) or z3.is_var(x):
      memo[k] = x
      return x
    ch = [go(y) for y in x.children()]
    if z3.is_div(x) and x.arg(1).get_id() in ok:
      r = ch[0] * INV(ch[1])
    elif ch and any(not a.eq(b) for a, b in zip(ch, x.children())):
      r = x.decl()(*ch)
    else:
      r = x
    memo[k] = r
    return r
  out = [z3.simplify(go(a), som=True) if not _has_quant(a) else a for a in assertions + [goal]]
  for k in ok:
    d = go(dens[k])
    out.append(d * INV(d) == 1)
  return out


def _has_quant(f):
  seen = set()
  stack = [f]
  while stack:
    x = stack.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_quantifier(x):
      return True
    if len(seen) > 4000:
      return True
    stack.extend(x.children())
  return False


def model_value(m, t):
  v = m.eval(t, model_completion=True)
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_true(v):
    return True
  if z3.is_false(v):
    return False
  if z3.is_rational_value(v):
    return float(v.as_fraction())
  if z3.is_bv_value(v):
    return v.as_signed_long()
  if z3.is_algebraic_value(v):
    return float(v.approx(12).as_fraction())
  return str(v)


def explore(unit, body, max_paths=4000, seconds=120):
  """Runs body(ctx) over all paths; fills in unit."""
  t0 = time.time()
  work = [[]]
  deadline = t0 + seconds
  try:
    while work:
      if unit.paths >= max_paths or time.time() > deadline:
        unit.errors.append(f'path budget exhausted after {unit.paths} paths')
        break
      prefix = work.pop()
      c = Ctx(unit, prefix)
      c.deadline = deadline
      _CTX.append(c)
      unit.paths += 1
      try:
        body(c)
      except PathEnd:
        pass
      except Unsupported as e:
        unit.errors.append(f'outside the verified subset: {e}')
        if os.environ.get('VC_TB'):
          import traceback
          traceback.print_exc()
        return unit
      except Timeout:
        unit.errors.append('time budget exhausted')
        return unit
      except RecursionError as e:
        unit.errors.append(f'recursion: {e}')
        return unit
      except Exception as e:  # pylint: disable=broad-except
        if not c.dead:
          import traceback
          tb = traceback.extract_tb(e.__traceback__)
          where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-3:])
          # An error raised by the code on a satisfiable path refutes the
          # implicit obligation "does not raise"; type errors may be a
          # modelling gap and leave the unit undecided.
          repo = any(f.filename.startswith(env.REPO) for f in tb)
          if repo and isinstance(e, (IndexError, ZeroDivisionError, AssertionError, KeyError,
                                     ValueError, UnboundLocalError, RuntimeError)):
            c.prove('no exception on inputs satisfying the precondition', z3.BoolVal(False),
                    kind='safety', note=f'{type(e).__name__}: {str(e)[:150]} at {where}')
            continue
          unit.errors.append(f'execution raised {type(e).__name__}: {str(e)[:200]} [{where}]')
          return unit
      finally:
        _CTX.pop()
        work.extend(c.alternatives)
  finally:
    unit.seconds += time.time() - t0
  return unit


# --------------------------------------------------------------------------
# Symbolic values
# --------------------------------------------------------------------------
POS_INF = z3.Real('VC_POS_INF')
NEG_INF = z3.Real('VC_NEG_INF')


def term(x):
  """z3 term (or python bool/int for concrete values) of x."""
  if isinstance(x, (SymInt, SymBool, SymReal)):
    return x.t
  if isinstance(x, SymFrac):
    return z3.ToReal(x.num) / z3.ToReal(x.den)
  return x


def zint(x):
  x = term(x)
  if isinstance(x, bool):
    return z3.IntVal(1 if x else 0)
  if isinstance(x, int):
    return z3.IntVal(x)
  if z3.is_expr(x):
    if z3.is_bool(x):
      return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
  try:
    import numpy as np
    if isinstance(x, np.integer):
      return z3.IntVal(int(x))
  except ImportError:
    pass
  raise Unsupported(f'not an integer: {type(x).__name__}')


def zreal(x):
  x = term(x)
  if isinstance(x, bool):
    return z3.RealVal(int(x))
  if isinstance(x, int):
    return z3.RealVal(x)
  if isinstance(x, float):
    if x == math.inf:
      return POS_INF
    if x == -math.inf:
      return NEG_INF
    if x != x:
      raise Unsupported('nan literal')
    from fractions import Fraction
    fr = Fraction(x)
    return z3.RealVal(f'{fr.numerator}/{fr.denominator}')
  if z3.is_expr(x):
    if z3.is_int(x):
      return z3.ToReal(x)
    return x
  raise Unsupported(f'not a number: {type(x).__name__}')


def zbool(x):
  x = term(x)
  if isinstance(x, bool):
    return z3.BoolVal(x)
  return x


def issym(x):
  return isinstance(x, (SymInt, SymBool, SymReal, SymFrac))


def _isnum(x):
  import numpy as np
  return isinstance(x, (int, float, np.integer, np.floating)) or issym(x)


def lift(t):
  """Wraps a z3 term; concrete literals come back as Python values."""
  if not z3.is_expr(t) and issym(t):
    return t
  if isinstance(t, (bool, int, float)):
    return t
  if z3.is_bool(t):
    t = z3.simplify(t) if not _has_quant(t) else t
    if z3.is_true(t):
      return True
    if z3.is_false(t):
      return False
    return SymBool(t)
  if z3.is_int(t):
    t2 = z3.simplify(t)
    if z3.is_int_value(t2):
      return t2.as_long()
    return SymInt(t)
  if z3.is_real(t):
    return SymReal(t)
  raise Unsupported(f'cannot wrap {t.sort()}')


def decomposed(a, b):
  """Quotient and remainder of a nonnegative term introduced as q * b + r.

  ctx().user['decomposed'] maps the name of a function f to (q, r, b) with
  b > 0, 0 <= f(args), q = f div b, r = f mod b by definition.
  """
  reg = ctx().user.get('decomposed') if has_ctx() else None
  if not reg:
    return None
  a = z3.simplify(a)
  if not z3.is_app(a):
    return None
  e = reg.get(a.decl().name())
  if e is None:
    return None
  b = z3.simplify(b)
  if z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_eq(b.arg(0)) and b.arg(2).eq(e[2]) and z3.simplify(z3.substitute(b.arg(0), (e[2], z3.IntVal(1)))).eq(z3.BoolVal(False)):
    b = b.arg(2)      # the divisor is positive
  if not e[2].eq(b):
    return None
  xs = a.children()
  return e[0](*xs), e[1](*xs)


def divmod_t(a, b):
  """Quotient and remainder of integer terms (Python semantics), as terms."""
  sb = z3.simplify(b)
  parts = decomposed(a, sb)
  if parts is not None:
    return parts
  if not z3.is_int_value(sb) and has_ctx() and not ctx().in_quant:
    c = ctx()
    key = ('dm', z3.simplify(a).sexpr(), sb.sexpr())
    if key not in c.names:
      n = c.fresh_name('dm')
      q, r = z3.Int(n + '.q'), z3.Int(n + '.r')
      c.names[key] = (q, r)
      f = z3.And(a == b * q + r, z3.Implies(b > 0, z3.And(r >= 0, r < b)),
                 z3.Implies(b < 0, z3.And(r <= 0, r > b)))
      c._push(f)
    return c.names[key]
  q = _floordiv(a, b)
  if z3.is_int_value(sb) and sb.as_long() > 0:
    return q, a % b
  return q, a - b * q


def floordiv_t(a, b):
  return divmod_t(a, b)[0]


def mod_t(a, b):
  return divmod_t(a, b)[1]


def _floordiv(a, b):
  """Python // on integer terms."""
  sb = z3.simplify(b)
  if z3.is_int_value(sb):
    if sb.as_long() > 0:
      return a / sb
    if sb.as_long() == 0:
      raise ZeroDivisionError
    return (-a) / (-sb)
  return z3.If(b > 0, a / b, (-a) / (-b))


class SymBool:
  __slots__ = ('t',)
  __array_priority__ = 1000

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return ctx().branch(self.t)

  def __and__(self, o):
    return lift(z3.And(self.t, zbool(o)))
  __rand__ = __and__

  def __or__(self, o):
    return lift(z3.Or(self.t, zbool(o)))
  __ror__ = __or__

  def __invert__(self):
    return lift(z3.Not(self.t))

  def __eq__(self, o):
    if isinstance(o, (bool, SymBool)):
      return lift(self.t == zbool(o))
    if isinstance(o, (int, SymInt)):
      return lift(zint(self) == zint(o))
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return not_(r)

  def __hash__(self):
    raise Unsupported('hash of a symbolic bool')

  def __int__(self):
    raise Unsupported('int() of symbolic bool')

  def __add__(self, o):
    return lift(zint(self) + zint(o))
  __radd__ = __add__

  def __repr__(self):
    return f'SymBool({self.t})'

  def __format__(self, spec):
    return f'SymBool({self.t})'


def not_(x):
  if isinstance(x, SymBool):
    return lift(z3.Not(x.t))
  return not x


def _cmp(op):
  def f(self, o):
    if isinstance(o, float) and math.isinf(o) and isinstance(self, (SymInt, SymFrac)):
      return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
    if o is None or not _isnum(o) and not isinstance(o, bool):
      if op == '==':
        return False
      if op == '!=':
        return True
      return NotImplemented
    if isinstance(self, SymInt) and (isinstance(o, (int, SymInt, SymBool)) or _is_npint(o)):
      a, b = zint(self), zint(o)
    else:
      a, b = zreal(self), zreal(o)
    r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
         '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    return lift(r)
  return f


def _is_npint(o):
  import numpy as np
  return isinstance(o, np.integer)


def rpow(a, b):
  """Real power: an uninterpreted function, except for small exponents."""
  f = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
  a, b = zreal(a), z3.simplify(zreal(b))
  half = z3.RealVal(1) / 2
  if z3.is_rational_value(b):
    q = b.as_fraction()
    if q.denominator == 1 and 0 <= q <= 4:
      r = z3.RealVal(1)
      for _ in range(int(q)):
        r = r * a
      return SymReal(r)
    if q < 0:
      return SymReal(1 / zreal(rpow(a, SymReal(z3.RealVal(-q)))))
  return SymReal(f(a, b))


def _arith(op):
  def f(self, o, rev=False):
    if not _isnum(o) and not isinstance(o, bool):
      return NotImplemented
    if isinstance(self, SymInt) and (isinstance(o, (int, SymInt, SymBool)) or _is_npint(o)):
      a, b = zint(self), zint(o)
      if rev:
        a, b = b, a
      if op == '+':
        return lift(a + b)
      if op == '-':
        return lift(a - b)
      if op == '*':
        return lift(a * b)
      if op == '/':
        if lift(b == 0):
          raise ZeroDivisionError('division by zero')
        return SymFrac(a, b)
      if op in ('//', '%'):
        if lift(b == 0):
          raise ZeroDivisionError('integer modulo by zero')
        return lift(floordiv_t(a, b) if op == '//' else mod_t(a, b))
      if op == '**':
        sb = z3.simplify(b)
        if z3.is_int_value(sb) and 0 <= sb.as_long() <= 6:
          r = z3.IntVal(1)
          for _ in range(sb.as_long()):
            r = r * a
          return lift(r)
        sa = z3.simplify(a)
        if z3.is_int_value(sa) and sa.as_long() == 2 and 'pow2' in ctx().user:
          return ctx().user['pow2'](lift(b))
        raise Unsupported('symbolic power')
    a, b = zreal(self), zreal(o)
    if rev:
      a, b = b, a
    if op == '+':
      return SymReal(a + b)
    if op == '-':
      return SymReal(a - b)
    if op == '*':
      return SymReal(a * b)
    if op == '/':
      if lift(b == 0):
        raise ZeroDivisionError('division by zero')
      return SymReal(a / b)
    if op in ('//', '%'):
      if lift(b == 0):
        raise ZeroDivisionError('modulo by zero')
      q = z3.ToReal(z3.ToInt(a / b))
      return SymReal(q if op == '//' else a - b * q)
    if op == '**':
      return rpow(a, b)
    raise Unsupported(f'{op} on reals')
  return f


class _Num:
  __slots__ = ()
  __array_priority__ = 1000
  __lt__, __le__, __gt__, __ge__ = map(_cmp, ('<', '<=', '>', '>='))
  __eq__, __ne__ = _cmp('=='), _cmp('!=')
  for _o, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'),
                 ('//', 'floordiv'), ('%', 'mod'), ('**', 'pow')):
    locals()[f'__{_n}__'] = _arith(_o)
    locals()[f'__r{_n}__'] = (lambda g: lambda self, o: g(self, o, True))(_arith(_o))
  del _o, _n

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')


class SymInt(_Num):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return ctx().branch(self.t != 0)

  def __neg__(self):
    return lift(-self.t)

  def __pos__(self):
    return self

  def __and__(self, o):
    if 'bitand' in ctx().user:
      return ctx().user['bitand'](self, o)
    raise Unsupported('bitwise and of symbolic integers')
  __rand__ = __and__

  def __abs__(self):
    return lift(z3.If(self.t >= 0, self.t, -self.t))

  def __index__(self):
    v = concrete(self)
    if v is None:
      raise Unsupported('symbolic integer used as a concrete index')
    return v

  __int__ = __index__

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')

  def __format__(self, spec):
    if spec not in ('', 'd'):
      return ctx().token(self.t) + f'<{spec}>'
    return ctx().token(self.t)

  def __str__(self):
    return ctx().token(self.t) if has_ctx() else repr(self)

  def __repr__(self):
    return f'SymInt({self.t})'

  def item(self):
    return self

  def __ceil__(self):
    return self

  def __floor__(self):
    return self

  def __divmod__(self, o):
    return self // o, self % o


class SymReal(_Num):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return ctx().branch(self.t != 0)

  def __neg__(self):
    return SymReal(-self.t)

  def __abs__(self):
    return SymReal(z3.If(self.t >= 0, self.t, -self.t))

  def __float__(self):
    raise Unsupported('float() of a symbolic real')

  def __ceil__(self):
    return lift(-z3.ToInt(-self.t))

  def __floor__(self):
    return lift(z3.ToInt(self.t))

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')

  def __repr__(self):
    return f'SymReal({self.t})'

  def __format__(self, spec):
    return f'SymReal({self.t})'


class SymFrac(_Num):
  """Exact quotient of two integer terms (Python true division)."""
  __slots__ = ('num', 'den')

  def __init__(self, num, den):
    self.num, self.den = num, den

  def __bool__(self):
    return ctx().branch(self.num != 0)

  def __ceil__(self):
    return lift(-floordiv_t(-self.num, self.den))

  def __floor__(self):
    return lift(floordiv_t(self.num, self.den))

  def __neg__(self):
    return SymFrac(-self.num, self.den)

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')

  def __repr__(self):
    return f'SymFrac({self.num}/{self.den})'


def concrete(x):
  """The Python int forced by the path condition, or None."""
  if isinstance(x, SymInt):
    t = z3.simplify(x.t)
    if z3.is_int_value(t):
      return t.as_long()
    c = ctx()
    if c.solver.check() == z3.sat:
      v = model_value(c.solver.model(), t)
      if not c.feasible(t != v):
        return v
    return None
  return x


def ite(c, a, b):
  """Merged value of a conditional without forking."""
  if isinstance(c, bool):
    return a if c else b
  ct = zbool(c)
  if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
    return lift(z3.If(ct, zbool(a), zbool(b)))
  if isinstance(a, (SymReal, float, SymFrac)) or isinstance(b, (SymReal, float, SymFrac)):
    return SymReal(z3.If(ct, zreal(a), zreal(b)))
  if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
    return lift(z3.If(ct, zint(a), zint(b)))
  if a is b:
    return a
  if hasattr(a, '__vc_ite__'):
    return a.__vc_ite__(ct, b)
  if hasattr(b, '__vc_ite__'):
    return b.__vc_ite__(z3.Not(ct), a)
  if type(a) is tuple and type(b) is tuple and len(a) == len(b):
    return tuple(ite(c, x, y) for x, y in zip(a, b))
  if has_ctx() and ctx().user.get('opaque'):
    from vc import opq
    return opq.Opq(SymInt(z3.If(ct, zint(opq.code_of(a)), zint(opq.code_of(b)))))
  raise Unsupported(f'cannot merge {type(a).__name__} and {type(b).__name__}')


def AND(*xs):
  ts = [zbool(x) for x in xs]
  return z3.And(*ts) if ts else z3.BoolVal(True)


def OR(*xs):
  return z3.Or(*[zbool(x) for x in xs])


def IMP(a, b):
  return z3.Implies(zbool(a), zbool(b))


def IFF(a, b):
  return zbool(a) == zbool(b)


def NOT(a):
  return z3.Not(zbool(a))


_QN = [0]


def forall(n_or_names, fn, patterns=None, sort=None):
  """forall over n fresh ints: fn(*SymInt) -> bool."""
  if isinstance(n_or_names, int):
    n_or_names = ['q%d' % i for i in range(n_or_names)]
  vs = []
  for nm in n_or_names:
    _QN[0] += 1
    vs.append(z3.Const(f'{nm}#{_QN[0]}', sort or z3.IntSort()))
  if has_ctx():
    ctx().in_quant += 1
  try:
    body = zbool(fn(*[SymInt(v) if sort is None else v for v in vs]))
  finally:
    if has_ctx():
      ctx().in_quant -= 1
  if patterns:
    return z3.ForAll(vs, body, patterns=[p(*vs) for p in patterns])
  return z3.ForAll(vs, body)


def exists(n, fn):
  vs = []
  for i in range(n):
    _QN[0] += 1
    vs.append(z3.Int(f'e{i}#{_QN[0]}'))
  if has_ctx():
    ctx().in_quant += 1
  try:
    return z3.Exists(vs, zbool(fn(*[SymInt(v) for v in vs])))
  finally:
    if has_ctx():
      ctx().in_quant -= 1
