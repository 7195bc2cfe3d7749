"""Running a property's obligations, reporting, evidence, exit codes."""

import json
import os
import pickle
import sys
import threading
import time
import traceback

from vc import env
env.setup()
from vc import core

CHECKER = ('z3 %s (python API) with cvc5 1.1.2 as second back end; '
           'VC generators /verif/vc/{core,seq,transform}.py (Python) and /verif/vc/jx.py (jaxpr)')


def _jsonable(x, depth=0):
  if depth > 8:
    return str(x)
  if isinstance(x, (str, int, float, bool)) or x is None:
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
      return str(x)
    return x
  if isinstance(x, dict):
    return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [_jsonable(v, depth + 1) for v in x]
  try:
    import numpy as np
    if isinstance(x, np.generic):
      return _jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray) or hasattr(x, 'tolist'):
      return _jsonable(np.asarray(x).tolist(), depth + 1)
  except Exception:  # pylint: disable=broad-except
    pass
  return str(x)[:500]


class Recorder:
  """Collects the cases of one bounded stand-in / replay search."""

  def __init__(self, chk, name, bound, case_seconds):
    self.chk, self.name, self.bound = chk, name, bound
    self.cases = 0
    self.fails = []
    self.samples = []
    self.case_seconds = case_seconds
    self.distinct = set()

  def _note(self, case):
    self.cases += 1
    k = json.dumps(_jsonable(case), sort_keys=True)[:2000]
    if len(self.distinct) < 200000:
      self.distinct.add(hash(k))
    if len(self.samples) < 3:
      self.samples.append(_jsonable(case))

  def check(self, case, ok, detail=''):
    self._note(case)
    if not ok:
      self.fail(case, detail)
    return ok

  def fail(self, case, detail, key=None):
    if len(self.fails) < 8:
      self.fails.append({'search': self.name, 'case': _jsonable(case),
                         'detail': str(detail)[:1500], 'key': key or ''})

  def run(self, case, fn, key=None, seconds=None):
    """fn() -> None/True when the contract holds, else a description."""
    self._note(case)
    self.chk._watch(self, case, seconds or self.case_seconds)
    try:
      r = fn()
    except core.PathEnd:
      raise
    except (HarnessError, core.Unsupported):
      raise
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
      r = f'raised {type(e).__name__}: {str(e)[:300]} [{where}]'
    finally:
      self.chk._unwatch()
    if r is None or r is True:
      return True
    self.fail(case, r, key)
    return False

  @property
  def full(self):
    return len(self.fails) >= 3


class HarnessError(Exception):
  """The harness cannot reach the code (renamed entry point, ...): undecided."""


def need(obj, *path):
  """Resolves an attribute; a missing one is a harness matter, not a bug."""
  for p in path:
    try:
      obj = getattr(obj, p)
    except AttributeError as e:
      raise HarnessError(f'entry point {p} not found: {e}') from e
  return obj


class Check:

  def __init__(self, pid, seconds=780):
    self.pid = pid
    self.t0 = time.time()
    self.units = []
    self.pending = []
    self.recs = []
    self.assumptions = []
    self.undecided = []
    self.only = os.environ.get('VC_ONLY')
    self._cur = None
    self._lock = threading.Lock()
    self.budget = seconds
    self._done = False
    t = threading.Thread(target=self._watchdog, daemon=True)
    t.start()

  # -- watchdog ----------------------------------------------------------
  def _watch(self, rec, case, seconds):
    with self._lock:
      self._cur = (rec, case, time.time() + seconds, seconds)

  def _unwatch(self):
    with self._lock:
      self._cur = None

  def _watchdog(self):
    while not self._done:
      time.sleep(0.5)
      with self._lock:
        cur = self._cur
      now = time.time()
      if cur and now > cur[2]:
        rec, case, _, secs = cur
        rec.fail(case, f'did not terminate within {secs} s on the real code')
        self._finish(hard=True)
      if now - self.t0 > self.budget + 60:
        self.undecided.append('time budget of the check exhausted')
        self._finish(hard=True)

  def left(self):
    return self.budget - (time.time() - self.t0)

  # -- deductive part ------------------------------------------------------
  def verify(self, function, file, contract, body, seconds=90, replay=None,
             assumed=(), kind='unbounded', max_paths=4000):
    if self.only and self.only not in function:
      return None
    u = core.Unit(function, file, contract, kind)
    u.assumed = list(assumed)
    u.replay = replay
    self.units.append(u)
    self.pending.append((len(self.units) - 1, body, seconds, max_paths))
    return u

  def _one(self, u, body, seconds, max_paths):
    q0, s0 = core.STATS.queries, core.STATS.time
    try:
      core.explore(u, body, max_paths=max_paths, seconds=min(seconds, max(5, self.left())))
    except Exception as e:  # pylint: disable=broad-except
      u.errors.append(f'engine: {type(e).__name__}: {e}')
      if os.environ.get('VC_DEBUG'):
        traceback.print_exc()
    u.queries = core.STATS.queries - q0
    u.solver_s = core.STATS.time - s0
    if not u.errors and u.completed == 0 and u.status != 'refuted':
      u.errors.append('no path reached the end of the function (vacuous)')
    return u

  def run_units(self):
    """Discharges the pending units, in parallel child processes."""
    pend, self.pending = self.pending, []
    jobs = int(os.environ.get('VC_JOBS', '6'))
    if jobs <= 1 or len(pend) == 1:
      for k, body, seconds, mp in pend:
        self._one(self.units[k], body, seconds, mp)
        self._report(self.units[k])
      return
    running = {}
    queue = list(pend)
    while queue or running:
      while queue and len(running) < jobs:
        k, body, seconds, mp = queue.pop(0)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
          os.close(r)
          try:
            q0, t0 = core.STATS.queries, core.STATS.time
            core.STATS.by = {'z3': 0, 'cvc5': 0, 'simplifier': 0}
            u = self._one(self.units[k], body, seconds, mp)
            rep, u.replay = u.replay, None
            data = pickle.dumps((u, core.STATS.queries - q0, core.STATS.time - t0, core.STATS.by))
          except BaseException as e:  # pylint: disable=broad-except
            u = core.Unit(self.units[k].function, self.units[k].file, self.units[k].contract)
            u.errors.append(f'engine: {type(e).__name__}: {str(e)[:300]}')
            data = pickle.dumps((u, 0, 0.0, {}))
          with os.fdopen(w, 'wb') as fp:
            fp.write(data)
          os._exit(0)
        os.close(w)
        running[r] = (pid, k, time.time() + min(seconds, max(5, self.left())) * 1.5 + 30, b'')
      import select
      ready, _, _ = select.select(list(running), [], [], 0.5)
      for r in ready:
        pid, k, dl, buf = running[r]
        chunk = os.read(r, 1 << 20)
        if chunk:
          running[r] = (pid, k, dl, buf + chunk)
          continue
        os.close(r)
        os.waitpid(pid, 0)
        del running[r]
        old = self.units[k]
        try:
          u, q, t, by = pickle.loads(buf)
        except Exception as e:  # pylint: disable=broad-except
          u, q, t, by = core.Unit(old.function, old.file, old.contract), 0, 0, {}
          u.errors.append(f'worker died: {e}')
        u.replay, u.assumed, u.kind = old.replay, old.assumed, old.kind
        self.units[k] = u
        core.STATS.queries += q
        core.STATS.time += t
        for b, n in by.items():
          core.STATS.by[b] = core.STATS.by.get(b, 0) + n
        self._report(u)
      for r in list(running):
        pid, k, dl, buf = running[r]
        if time.time() > dl:
          os.kill(pid, 9)
          os.waitpid(pid, 0)
          os.close(r)
          del running[r]
          self.units[k].errors.append('worker exceeded its time limit')
          self._report(self.units[k])

  def _report(self, u):
    function = u.function
    if os.environ.get('VC_DEBUG'):
      print(f'  [{self.pid}] {function}: {u.status} paths={u.paths} '
            f'obls={len(u.obligations)} inst={sum(o.instances for o in u.obligations.values())} '
            f'{u.seconds:.1f}s {u.errors[:2]}')
      for o in u.obligations.values():
        if o.status != 'discharged':
          print('     ', o.status, o.name, o.refutations[:1], o.unknown[:1])

  # -- bounded part ------------------------------------------------------
  def search(self, name, bound, fn, case_seconds=60):
    """Executable contract evaluated on the real code (bounded, replayable)."""
    self.run_units()
    if self.only and self.only not in name:
      return None
    rec = Recorder(self, name, bound, case_seconds)
    self.recs.append(rec)
    t0 = time.time()
    try:
      fn(rec)
    except (HarnessError, core.Unsupported) as e:
      self.undecided.append(f'{name}: {e}')
    except Exception as e:  # pylint: disable=broad-except
      self.undecided.append(f'{name}: harness error {type(e).__name__}: {str(e)[:300]}')
      if os.environ.get('VC_DEBUG'):
        traceback.print_exc()
    rec.seconds = time.time() - t0
    if os.environ.get('VC_DEBUG'):
      print(f'  [{self.pid}] search {name}: {rec.cases} cases, {len(rec.fails)} fails {rec.seconds:.1f}s')
      for f in rec.fails[:3]:
        print('     ', json.dumps(f)[:600])
    return rec

  # -- end -----------------------------------------------------------------
  def finish(self):
    self.run_units()
    self._done = True
    # replay refutations on the real code
    for u in self.units:
      if u.status != 'refuted' or not u.replay:
        continue
      for o in u.obligations.values():
        for vals, note in o.refutations[:4]:
          try:
            r = u.replay(vals)
          except Exception as e:  # pylint: disable=broad-except
            r = None
            o.replay_error = f'{type(e).__name__}: {e}'
          if r:
            rec = Recorder(self, f'replay of {o.name}', 'counterexample', 60)
            rec.cases = 1
            rec.fail({'counterexample': vals}, r)
            rec.seconds = 0
            self.recs.append(rec)
            break
    self._finish()

  def _finish(self, hard=False):
    self._done = True
    known = _known(self.pid)
    fails = [f for r in self.recs for f in r.fails]
    new, old = [], []
    for f in fails:
      hit = next((k for k in known if k['match'] and k['match'] in json.dumps(f)), None)
      (old if hit else new).append((f, hit))
    refuted = [(u, o) for u in self.units for o in u.obligations.values() if o.refutations]
    lines = []
    os.makedirs(os.path.join(env.EVID, 'replays'), exist_ok=True)
    nviol = 0
    obl_info = [{'function': u.function, 'file': u.file, 'obligation': o.name, 'kind': o.kind,
                 'counterexample': [{'inputs': _jsonable(v), 'formula': n} for v, n in o.refutations[:2]]}
                for u, o in refuted]
    if new:
      seen = set()
      for f, _ in new:
        if f['search'] in seen:
          continue
        seen.add(f['search'])
        nviol += 1
        path = os.path.join(env.EVID, 'replays', f'{self.pid}-{nviol}.json')
        with open(path, 'w') as fp:
          json.dump({'property': self.pid, 'replayed_on_real_code': True,
                     'failing_contract': f['search'], 'input': f['case'],
                     'observed': f['detail'], 'failed_obligations': obl_info,
                     'rerun': f'cd /verif && /opt/venv/bin/python -m checks.{self.pid.lower()}'}, fp, indent=1)
        lines.append(f'VIOLATION property={self.pid} replay={path}')
    elif refuted:
      # A refuted obligation with no failing input.  Attributable to a known
      # finding only when that finding names the obligation.
      rest = [(u, o) for u, o in refuted
              if not any(k.get('obligation') and k['obligation'] in o.name for k in known)]
      if rest:
        nviol += 1
        path = os.path.join(env.EVID, 'replays', f'{self.pid}-obligation.json')
        with open(path, 'w') as fp:
          json.dump({'property': self.pid, 'replayed_on_real_code': False,
                     'failed_obligations': obl_info,
                     'note': 'the named obligation is refuted by the solver; the bounded search on the real code found no failing input'}, fp, indent=1)
        lines.append(f'VIOLATION property={self.pid} replay={path} no-failing-input-found')
    for k in known:
      if k.get('print', True):
        print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
    und = [(u.function, u.errors + [f'{o.name}: {o.unknown[0]}' for o in u.obligations.values() if o.unknown]
            + [f'{o.name}: no instance' for o in u.obligations.values() if o.status == 'vacuous'])
           for u in self.units if u.status == 'undecided']
    for fn, why in und:
      print(f'UNDECIDED property={self.pid} function={fn}: {"; ".join(why)[:400]}')
    for w in self.undecided:
      print(f'UNDECIDED property={self.pid} {w}')
    self._evidence(nviol, und)
    total = sum(len(u.obligations) for u in self.units)
    disch = sum(1 for u in self.units for o in u.obligations.values() if o.status == 'discharged')
    print(f'{self.pid}: {len(self.units)} functions under contract, {disch}/{total} obligations discharged, '
          f'{sum(r.cases for r in self.recs)} contract evaluations on the real code, '
          f'{nviol} violations, {time.time() - self.t0:.1f} s')
    for ln in lines:
      print(ln)
    sys.stdout.flush()
    code = 1 if lines else 0
    os._exit(code)

  def _evidence(self, nviol, und):
    import z3
    total = sum(len(u.obligations) for u in self.units)
    disch = sum(1 for u in self.units for o in u.obligations.values() if o.status == 'discharged')
    level = 'proof' if total else 'exploration'
    funcs = []
    for u in self.units:
      be = {}
      for o in u.obligations.values():
        for k, v in o.backends.items():
          be[k] = be.get(k, 0) + v
      funcs.append({
          'function': u.function, 'file': u.file, 'contract': u.contract, 'scope': u.kind,
          'status': u.status, 'paths': u.paths,
          'obligations': len(u.obligations),
          'vc_instances': sum(o.instances for o in u.obligations.values()),
          'discharged': sum(1 for o in u.obligations.values() if o.status == 'discharged'),
          'instances_by_backend': be, 'seconds': round(u.seconds, 2),
          'obligation_names': [f'{o.name} [{o.status}]' for o in u.obligations.values()],
          'assumed_contracts': u.assumed,
          'undecided': u.errors[:3]})
    trusted = sorted({a for u in self.units for a in u.assumed})
    cov = {
        'obligations': total, 'discharged': disch,
        'checker_cmd': CHECKER % z3.get_version_string(),
        'trusted_base': trusted + [
            'the VC generators in /verif/vc (symbolic semantics of the Python/jaxpr subset)',
            'z3, cvc5, CPython, numpy and jax tracing',
            'Python integers are mathematical; floating point is treated as exact reals unless a unit says bit-vector/FP'],
        'functions_under_contract': funcs,
        'solver_seconds': round(core.STATS.time, 2), 'solver_queries': core.STATS.queries,
        'instances_by_backend': core.STATS.by,
        'bounded_stand_ins': [{'name': r.name, 'bound': r.bound, 'evaluations': r.cases,
                               'distinct': len(r.distinct), 'samples': r.samples,
                               'failures': len(r.fails), 'seconds': round(getattr(r, 'seconds', 0), 2)}
                              for r in self.recs],
        'undecided': [f'{f}: {"; ".join(w)[:300]}' for f, w in und] + self.undecided,
        'evaluations': sum(r.cases for r in self.recs),
        'distinct_nontrivial': sum(len(r.distinct) for r in self.recs),
        'rule': 'bounded contract evaluations: cases made by the generators named in bounded_stand_ins; distinct by full input; these are never counted as discharged obligations',
        'samples': [s for r in self.recs for s in r.samples[:1]][:6],
    }
    ev = {'property': self.pid, 'tier': env.TIER if env.TIER in ('quick', 'thorough') else 'quick',
          'seed': env.SEED, 'level': level, 'coverage': cov,
          'assumptions': self.assumptions + trusted, 'wall_s': round(time.time() - self.t0, 2),
          'violations': nviol}
    d = env.EVID
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{self.pid}.{os.getpid()}.tmp')
    with open(tmp, 'w') as f:
      json.dump(_jsonable_top(ev), f, indent=1)
    os.replace(tmp, os.path.join(d, f'{self.pid}.json'))


def _jsonable_top(x):
  if isinstance(x, dict):
    return {k: _jsonable_top(v) for k, v in x.items()}
  if isinstance(x, list):
    return [_jsonable_top(v) for v in x]
  return _jsonable(x)


def _known(pid):
  p = os.path.join(env.VERIF, 'known_findings.json')
  try:
    with open(p) as f:
      data = json.load(f)
  except FileNotFoundError:
    return []
  return [k for k in data.get('findings', []) if k['property'] == pid]


def main(pid, build):
  """Entry point of a check script."""
  chk = Check(pid)
  try:
    from absl import logging as alog
    alog.set_verbosity(alog.FATAL)
    import logging as plog
    plog.disable(plog.CRITICAL)
  except Exception:  # pylint: disable=broad-except
    pass
  try:
    build(chk)
  except SystemExit:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    chk.undecided.append(f'check aborted: {type(e).__name__}: {str(e)[:300]}')
    if os.environ.get('VC_DEBUG'):
      traceback.print_exc()
  chk.finish()
