"""C05: the in-flight byte budget of a save."""

import asyncio
import itertools
import random

from vc import env
env.setup()
import numpy as np
import z3

from vc import core, ck
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, lift
from vc.h import Fake, patched
from vc.transform import StubNS, clone

F = 't5x/checkpoints.py'


# ------------------------------------------------------------ deductive part
class MonitorCV:
  """Contract of asyncio.Condition: the body of `async with` runs while the
  lock is held; wait_for(p) releases it, lets every other task run, and
  returns (lock held) in a state where p() is true."""

  def __init__(self, g):
    self.g = g
    self.held = 0

  async def __aenter__(self):
    self.g.interfere()
    self.held += 1
    return self

  async def __aexit__(self, *a):
    self.held -= 1
    return False

  async def acquire(self):
    await self.__aenter__()
    return True

  def release(self):
    self.held -= 1

  async def wait_for(self, pred):
    c = core.ctx()
    c.prove('the condition is waited for with the lock held', self.held == 1)
    self.g.pred = pred
    self.g.interfere()
    c.assume(pred())
    return True

  async def wait(self):
    c = core.ctx()
    c.prove('the condition is waited for with the lock held', self.held == 1)
    self.g.interfere()
    return True

  def notify_all(self):
    core.ctx().prove('waiters are woken with the lock held', self.held == 1)
    self.g.notified = True

  def notify(self, n=1):
    self.g.notified_some = True


def run_coro(co):
  try:
    co.send(None)
  except StopIteration as e:
    return e.value
  raise core.Unsupported('the coroutine suspends outside the monitor')


class Ghost:
  """Ghost state: bytes reserved by this task and by all others."""

  def __init__(self, c, m, cv):
    self.c, self.m, self.cv = c, m, cv
    self.mine = 0
    self.notified = False
    self.pred = None

  def field(self):
    v = [k for k in ('_num_bytes',) if k in self.cv.__dict__]
    if not v:
      raise core.Unsupported('the monitor no longer has _num_bytes')
    return v[0]

  def interfere(self):
    """Every other task keeps the monitor invariant and this task's share."""
    c = self.c
    o = c.int('others', 0, inp=False)
    self.others = o
    self.cv.__dict__[self.field()] = self.m - self.mine - o
    c.assume(self.m - self.mine - o >= 0)

  def check(self, what):
    v = getattr(self.cv, self.field())
    self.c.prove(f'{what}: available + reserved bytes is the whole budget', v == self.m - self.mine - self.others)
    self.c.prove(f'{what}: the reservations never exceed the budget', v >= 0)


def monitor(chk):
  m = clone(F)
  C = m._BytesConditionVariable

  def make(c):
    budget = c.int('budget', 0)
    box = {}

    def condition(lock=None):
      box['cv'] = MonitorCV(None)
      return box['cv']
    with patched(m, asyncio=StubNS(asyncio, Condition=condition, Lock=lambda *a, **k: None)):
      o = C(budget)
    if 'cv' not in box:
      raise core.Unsupported('the monitor does not use asyncio.Condition')
    g = Ghost(c, budget, o)
    box['cv'].g = g
    g.others = 0
    g.check('initially')
    return o, g, budget, box['cv']

  def acquire(c):
    o, g, budget, cv = make(c)
    n = c.int('n', 0)
    c.assume(n <= budget)
    run_coro(o.wait_for_bytes(n))
    g.mine = n
    g.check('after a grant')
    c.prove('the lock is released', cv.held == 0)
    # grantability: with enough bytes returned the waiting predicate holds
    if g.pred is not None:
      g.mine = 0
      g.interfere()
      avail = getattr(o, g.field())
      c.assume(avail >= n)
      c.prove('a request is granted as soon as enough bytes are available', g.pred(), kind='progress')
    c.cover()
  chk.verify('_BytesConditionVariable.wait_for_bytes', F,
             'monitor invariant kept under arbitrary interference; exactly n bytes are reserved; a request is granted whenever n bytes are free', acquire,
             assumed=['asyncio.Condition.wait_for returns with the lock held in a state where the predicate is true; asyncio tasks interleave only at await'])

  def release(c):
    o, g, budget, cv = make(c)
    n = c.int('n', 0)
    c.assume(n <= budget)
    g.mine = n
    run_coro(o.return_bytes(n))
    g.mine = 0
    g.check('after a return')
    c.prove('the lock is released', cv.held == 0)
    c.prove('all waiters are woken after a return', g.notified, kind='progress')
    c.cover()
  chk.verify('_BytesConditionVariable.return_bytes', F,
             'exactly n bytes are returned, the invariant is kept and every waiter re-evaluates its predicate', release,
             assumed=['as for wait_for_bytes'])


class FakeSpec:
  def __init__(self, d):
    self.d = d

  def to_json(self):
    import copy
    return copy.deepcopy(self.d)


class ArrFake:
  def __init__(self, nbytes):
    self.nbytes, self.dtype, self.shape = nbytes, np.dtype('float32'), (2,)


class Shard:
  def __init__(self, n, r):
    self.data = Fake(nbytes=n)
    self.replica_id = r


def users(chk):
  """_write_state_to_tensorstore: each array reserves once and returns once."""
  m = clone(F)

  def body(c, kinds):
    budget_gb = c.int('concurrent_gb', 1)
    log = []
    monitors = []

    class CV:
      def __init__(self, n):
        self.n = n
        self.res = 0
        monitors.append(self)

      async def wait_for_bytes(self, n):
        c.prove('a request fits into the budget (else it could never be granted)', AND(n >= 0, n <= self.n))
        log.append(('wait', self, n))

      async def return_bytes(self, n):
        log.append(('return', self, n))

    class JaxArr:
      def __init__(self, shards):
        self.addressable_shards = shards
        self.nbytes = shards[0].data.nbytes + shards[1].data.nbytes
        self.dtype, self.shape = np.dtype('float32'), (2,)

    class T:
      async def write(self, arr):
        log.append(('write', arr, None))

    async def ts_open(*a, **k):
      return T()

    async def ser(arr, spec, *a, **k):
      log.append(('write', arr, None))

    class Lazy:
      def __init__(self, v):
        self.v = v

      async def get_async(self):
        return self.v

    state, infos, want = {}, {}, {}
    for k, kind in enumerate(kinds):
      nm = f'p{k}'
      info = Fake(name=nm, ts_spec=FakeSpec({'kvstore': {'driver': 'file', 'path': nm}}), shape=(2,))
      if kind == 'none':
        arr, info = ArrFake(c.int(f'n{k}', 0)), None
      elif kind == 'nospec':
        arr = ArrFake(c.int(f'n{k}', 0))
        info.ts_spec = None
      elif kind == 'np':
        arr = ArrFake(c.int(f'n{k}', 0))
        want[nm] = arr.nbytes
      elif kind == 'lazy':
        inner = ArrFake(c.int(f'n{k}', 0))
        arr = Lazy(inner)
        want[nm] = inner.nbytes
      else:
        x, y = c.int(f'n{k}', 0), c.int(f'm{k}', 0)
        arr = JaxArr([Shard(x, 0), Shard(y, 1)])
        want[nm] = x
      state[nm], infos[nm] = arr, info

    def tree_map(f, *trees, **k):
      return {kk: f(*[t[kk] for t in trees]) for kk in trees[0]}

    jx_ = StubNS(m.jax, tree_util=StubNS(m.jax.tree_util, tree_map=tree_map), tree=StubNS(m.jax.tree, map=tree_map), Array=JaxArr)
    results = {}

    def run_tree(t):
      for k in t:
        results[k] = {}
        for kk, co in t[k].items():
          log.append(('task', kk, None))
          results[k][kk] = run_coro(co)
      return results

    class TS:
      Spec = staticmethod(lambda d: FakeSpec(d))
      open = staticmethod(ts_open)
      Context = staticmethod(lambda *a, **k: None)
    self = Fake(_parameter_infos=None, _save_dtype=np.dtype('float32'),
                _get_state_dict_for_save=lambda d, *a, **k: d)
    self._transform_state_and_infos = lambda s, i, f: ({'target': dict(state), 'state': {}}, {'target': infos, 'state': {}})
    with patched(m, jax=jx_, _BytesConditionVariable=CV, _run_future_tree=run_tree, ts=TS, LazyArray=Lazy,
                 array_serialization=StubNS(m.array_serialization, async_serialize=ser),
                 _cast=lambda x, d: x, _sync_global_devices=lambda n: None,
                 _transform_state_and_infos=lambda s, i, f: ({'target': dict(state), 'state': {}}, {'target': infos, 'state': {}}),
                 jnp=StubNS(m.jnp, dtype=np.dtype)):
      m.Checkpointer._write_state_to_tensorstore(self, '/d', Fake(state_dict=lambda: {}), budget_gb, ())
    if 'target' not in results:
      raise core.Unsupported('the writes are not started as one future tree')
    used = [e[1] for e in log if e[0] == 'wait']
    if want and not used:
      raise core.Unsupported('the byte budget is not used through its contract')
    c.prove('all arrays share one budget', all(u is used[0] for u in used))
    for u in used[:1]:
      c.prove('the budget is the configured number of bytes', u.n == budget_gb * 10**9)
    cur, per = None, {}
    for e in log:
      if e[0] == 'task':
        cur = e[1]
        per[cur] = []
      else:
        per[cur].append(e)
    for nm in state:
      ev = [e[0] for e in per.get(nm, [])]
      if nm in want:
        c.prove('each array reserves, writes, and returns its reservation once, in this order', ev == ['wait', 'write', 'return'])
        if ev == ['wait', 'write', 'return']:
          w, _, r = per[nm]
          c.prove('exactly the reserved bytes are returned', AND(lift(w[2] == r[2]), r[1] is w[1]))
          n = want[nm]
          c.prove('the reservation is the size of the array, capped by the budget',
                  w[2] == core.ite(n <= w[1].n, n, w[1].n))
      else:
        c.prove('an array that is not written reserves nothing', ev == [])
    c.cover()
  for kinds in (('np',), ('jax',), ('lazy',), ('none',), ('nospec',), ('np', 'jax', 'none', 'lazy')):
    chk.verify(f'Checkpointer._write_state_to_tensorstore [{",".join(kinds)}]', F,
               'every written array reserves min(size, budget) from one shared budget, writes, then returns exactly that', lambda c, kinds=kinds: body(c, kinds),
               assumed=['tensorstore writes complete; tree_map calls the writer once per array'])


# --------------------------------------------------------------- bounded part
class Stuck(Exception):
  pass


def drive(cls, budget, tasks, order):
  """Runs the tasks on the real monitor under a fixed schedule of returns.

  tasks: list of byte counts; order: permutation deciding which holder
  returns first.  Returns a description of the violation, or None."""
  held, peak, done = {}, [0], set()

  async def go():
    cv = cls(budget)
    gates = [asyncio.Event() for _ in tasks]

    async def one(k, n):
      await cv.wait_for_bytes(n)
      held[k] = n
      peak[0] = max(peak[0], sum(held.values()))
      await gates[k].wait()
      await cv.return_bytes(n)
      held.pop(k, None)
      done.add(k)
    ts = [asyncio.ensure_future(one(k, n)) for k, n in enumerate(tasks)]
    for _ in range(4 * len(tasks) + 8):
      for _ in range(4 + 3 * len(tasks)):
        await asyncio.sleep(0)
      pend = [n for k, n in enumerate(tasks) if k not in held and k not in done]
      if pend and sum(pend) + sum(held.values()) <= budget:
        for t in ts:
          t.cancel()
        return f'requests {pend} are still waiting although only {sum(held.values())} of {budget} bytes are reserved'
      nxt = [k for k in order if k in held and not gates[k].is_set()]
      if nxt:
        gates[nxt[0]].set()
      elif len(done) == len(tasks):
        break
    for _ in range(6):
      await asyncio.sleep(0)
    bad = [t.exception() for t in ts if t.done() and t.exception()]
    for t in ts:
      t.cancel()
    if bad:
      return f'a reservation failed: {bad[0]!r}'
    if peak[0] > budget:
      return f'{peak[0]} bytes were reserved at once with a budget of {budget}'
    if len(done) != len(tasks):
      return f'requests {[tasks[k] for k in range(len(tasks)) if k not in done]} were never granted although all granted bytes were returned'
    if not held and getattr(cv, '_num_bytes', budget) != budget:
      return f'{cv._num_bytes} of {budget} bytes available after every reservation was returned'
    return None
  return asyncio.run(asyncio.wait_for(go(), 20))


def search_monitor(rec):
  from t5x import checkpoints
  cls = need(checkpoints, '_BytesConditionVariable')
  rnd = random.Random(5)
  for budget in (1, 2, 3, 7):
    for n in (1, 2, 3):
      for tasks in itertools.product(sorted({0, 1, budget // 2, budget - 1, budget}), repeat=n):
        if rec.full:
          return
        for order in ([list(range(n)), list(range(n))[::-1]]):
          rec.run({'budget': budget, 'requests': tasks, 'return_order': order}, lambda: drive(cls, budget, list(tasks), order))
  for _ in range(150 if env.TIER == 'quick' else 1500):
    if rec.full:
      return
    b = rnd.choice([5, 10, 17])
    tasks = [rnd.randint(0, b) for _ in range(rnd.randint(4, 9))]
    order = list(range(len(tasks)))
    rnd.shuffle(order)
    rec.run({'budget': b, 'requests': tasks, 'return_order': order}, lambda: drive(cls, b, tasks, order))


def search_save(rec):
  """A real save: reservations observed at the real budget monitor."""
  from t5x import checkpoints
  need(checkpoints, '_BytesConditionVariable')
  rnd = random.Random(7)
  cases = [([3], 4), ([3], 12), ([3], 8), ([2, 2, 2], 16), ([4, 1, 2], 16), ([5, 5, 5, 5], 20), ([1, 2, 3, 4, 5], 20), ([6, 2, 6], 8), ([1, 3], 12), ([], 8)]
  for _ in range(12 if env.TIER == 'quick' else 60):
    cases.append(([rnd.randint(1, 6) for _ in range(rnd.randint(1, 6))], rnd.choice([4, 8, 16, 24, 100])))
  for sizes, budget in cases:
    for kind in ('jax', 'np', 'lazy'):
      if rec.full:
        return

      def run(sizes=sizes, budget=budget, kind=kind):
        import jax.numpy as jnp
        import jax
        log, cur, peak = [], {}, [0, 0]
        Real = checkpoints._BytesConditionVariable

        class Obs(Real):
          async def wait_for_bytes(self, n):
            await super().wait_for_bytes(n)
            cur[len(log)] = n
            log.append(('wait', n))
            peak[0] = max(peak[0], sum(cur.values()))

          async def return_bytes(self, n):
            log.append(('return', n))
            k = [i for i, v in cur.items() if v == n]
            if not k:
              peak[1] += 1
            else:
              cur.pop(k[0])
            await super().return_bytes(n)
        arrays = {f'p{i}': np.arange(n, dtype=np.float32) for i, n in enumerate(sizes)}
        arrays['z'] = np.ones((2,), np.float32)
        with ck.scratch() as d:
          st = ck.train_state(1, arrays if kind != 'jax' else {k: jnp.asarray(v) for k, v in arrays.items()})
          c = ck.checkpointer(d, st)
          if kind == 'np':
            c._get_state_dict_for_save = lambda s, *a, **k: dict(s)
          old = checkpoints._BytesConditionVariable
          checkpoints._BytesConditionVariable = Obs
          # a real save that deadlocks is cancelled
          real_run = asyncio.run
          asyncio.run = lambda co, **k: real_run(asyncio.wait_for(co, 15), **k)
          try:
            c.save(st, concurrent_gb=budget / 10**9)
          except (TimeoutError, asyncio.TimeoutError):
            return f'the save never finished: {log}'
          finally:
            asyncio.run = real_run
            checkpoints._BytesConditionVariable = old
          w = sorted(n for a, n in log if a == 'wait')
          r = sorted(n for a, n in log if a == 'return')
          exp = sorted(min(v.nbytes, budget) for v in arrays.values())
          if peak[0] > budget + 1e-6:
            return f'{peak[0]} bytes were in flight with a budget of {budget}'
          if w != r or peak[1]:
            return f'reserved {w} but returned {r}'
          if [round(x) for x in w] != exp:
            return f'reserved {w}, arrays need {exp}'
          got = c.restore(step=1)
          for k, v in arrays.items():
            if not np.array_equal(np.asarray(got.params[k]), v):
              return f'array {k} was not written completely'
      rec.run({'sizes': sizes, 'budget': budget, 'kind': kind}, run, seconds=60)


def build(chk):
  monitor(chk)
  users(chk)
  chk.search('budget monitor under concrete schedules', 'budgets 1..17, up to 9 concurrent requests, all/both/random return orders', search_monitor)
  chk.search('reservations of real saves', 'up to 7 arrays of up to 24 bytes, budgets 4..100 bytes', search_save, case_seconds=60)


if __name__ == '__main__':
  main('C05', build)
