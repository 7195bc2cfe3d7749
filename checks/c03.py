"""C03: checkpoint discovery and the choice of what to restore."""

import os
import random
import re
import types

from vc import env
env.setup()
import z3

from vc import core, seq, strs, ck
from vc.check import main, need
from vc.core import AND, IMP, OR, NOT, lift
from vc.h import Fake, patched
from vc.transform import LoopSpec, StubNS, clone

F = 't5x/checkpoints_utils.py'
FC = 't5x/checkpoints.py'
FU = 't5x/utils.py'

# decimal digits of other scripts, which \\d also matches
FANCY = '\u0663'


def set_prefix(prefix):
  """The configured checkpoint prefix (a gin parameter)."""
  import gin
  if prefix is None:
    with gin.unlock_config():
      gin.clear_config()
  else:
    with gin.unlock_config():
      gin.bind_parameter('get_checkpoint_prefix.prefix', prefix)


# ------------------------------------------------------------ deductive part
class SymGfile:
  """gfile over one directory of entries with symbolic names.

  Contract of glob: exactly the entries whose path matches the pattern."""

  def __init__(self, d, names):
    self.d, self.names = d, names

  def glob(self, pattern):
    if strs.is_sym(pattern):
      raise core.Unsupported('symbolic glob pattern')
    head, tail = os.path.split(pattern)
    if head != self.d or any(ch in tail for ch in '?[]\\'):
      raise core.Unsupported(f'glob {pattern!r}')
    no_slash = z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re('/'))))
    parts = tail.split('*')
    out = []
    for n in self.names:
      if len(parts) == 2 and parts[1] == '':
        hit = n.startswith(parts[0])
      else:
        rx = [z3.Re(parts[0])]
        for p in parts[1:]:
          rx += [no_slash, z3.Re(p)]
        hit = lift(z3.InRe(strs.st(n), z3.Concat(*rx) if len(rx) > 1 else rx[0]))
      if hit:
        out.append(self.d + '/' + n)
    return out

  def listdir(self, d):
    if d.rstrip('/') != self.d:
      raise core.Unsupported('listdir of another directory')
    return list(self.names)

  def exists(self, d):
    return True

  isdir = exists


def listing(chk):
  m = clone(F, overrides={'os': strs.OS, 're': strs.RE})

  def steps(c, n, prefix):
    c.user['strings'] = True
    want, names = [], []
    for k in range(n):
      kind = c.choose(f'kind{k}', ['final', 'tmp', 'other'])
      if kind == 'final':
        s = c.int(f'step{k}', 0)
        nm = prefix + '_' + strs.int_to_str(s)
        want.append(s)
      elif kind == 'tmp':
        # digits, then anything that is not all digits (".tmp-<time>" for one)
        s = c.int(f'step{k}', 0)
        nm = prefix + '_' + (strs.int_to_str(s) if c.choose('digits first', [True, False]) else '') + \
            strs.atom(c, f'nondigit{k}', without='0123456789/\n' + FANCY, lo=1, hi=1) + strs.atom(c, f'rest{k}', without='/\n')
      else:
        # any name that does not start with prefix_: it ends or differs early
        p = prefix + '_'
        j = c.choose('common', list(range(len(p))))
        nm = p[:j]
        if c.choose('continues', [True, False]):
          nm = nm + strs.atom(c, f'other{k}', without=p[j] + '/\n', lo=1, hi=1) + strs.atom(c, f'rest{k}', without='/\n')
        elif j == 0:
          nm = 'x'
      names.append(nm)
    for i in range(len(want)):
      for j in range(i):
        c.assume(want[i] != want[j])      # directory entries have distinct names
    with patched(m, gfile=SymGfile('/d', names), get_checkpoint_prefix=lambda *a, **k: prefix):
      r = m.all_steps('/d')
      r = list(r)
      c.prove('as many steps are listed as checkpoints carry their final name', len(r) == len(want))
      for a, b in zip(r, r[1:]):
        c.prove('steps are listed in ascending order', a < b)
      for w in want:
        c.prove('every saved step is listed', OR(False, *[x == w for x in r]))
      for x in r:
        c.prove('every listed step is a saved one', OR(False, *[x == w for w in want]))
      last = m.latest_step('/d')
    if not want:
      c.prove('without a checkpoint there is no latest step', last is None)
    else:
      c.prove('the latest step exists, zero included', last is not None)
      if last is not None:
        for w in want:
          c.prove('the latest step is the maximum', last >= w)
        c.prove('the latest step is a saved step', OR(False, *[last == w for w in want]))
    c.cover()
  for n in (0, 1, 2):
    for prefix in ('checkpoint', 'ckpt'):
      chk.verify(f'all_steps / latest_step [{n} entries, prefix {prefix}]', F,
                 'lists exactly the steps of final names, ascending; latest is the maximum or None',
                 lambda c, n=n, prefix=prefix: steps(c, n, prefix), kind=f'{n} directory entries of any name', seconds=150,
                 assumed=['gfile.glob returns exactly the matching entries', 'regular expressions by their language (vc/strs.py)'])

  def trip(c, prefix, slash):
    c.user['strings'] = True
    parent = '/' + strs.atom(c, 'parent', lo=1) + strs.atom(c, 'last', without='/', lo=1, hi=1)
    s = c.int('step', 0)
    with patched(m, get_checkpoint_prefix=lambda *a, **k: prefix):
      d = m.get_checkpoint_dir(parent, s)
      c.prove('the directory is named prefix_step', same(d, parent + '/' + prefix + '_' + strs.int_to_str(s)))
      p2, s2 = m.get_step_from_checkpoint_dir(d + '/' if slash else d)
      c.prove('the parent directory is recovered', same(p2, parent))
      c.prove('the step is recovered', s2 == s)
    c.cover()
  for prefix in ('checkpoint', 'ckpt'):
    for slash in (False, True):
      chk.verify(f'get_checkpoint_dir / get_step_from_checkpoint_dir [prefix {prefix}{", trailing slash" if slash else ""}]', F,
                 'name and step convert into each other losslessly for every step and parent', lambda c, prefix=prefix, slash=slash: trip(c, prefix, slash),
                 assumed=['str and int of a non-negative integer are inverse; posixpath by definition'])

  def bad(c):
    c.user['strings'] = True
    nm = strs.atom(c, 'name', without='/k', lo=1)
    try:
      m.get_step_from_checkpoint_dir('/d/' + nm)
      ok = False
    except ValueError:
      ok = True
    c.prove('a directory that is not a checkpoint is rejected', ok)
    c.cover()
  chk.verify('get_step_from_checkpoint_dir [other directories]', F, 'raises ValueError', bad)


class Opened(Exception):
  def __init__(self, path):
    self.path = path


def same(a, b):
  if not isinstance(a, (str, strs.SymStr)):
    return False
  return a == b


def restore_choice(chk):
  m = clone(FC, overrides={'os': strs.OS})

  def body(c, mode):
    c.user['strings'] = True
    latest = c.choose('any checkpoint', [True, False])
    lat = c.int('latest', 0) if latest else None
    step = c.int('step', 0) if mode in ('step', 'both') else None
    path = '/p/checkpoint_7' if mode in ('path', 'both') else None
    isfile = mode == 'path' and c.choose('path is the file', [True, False])
    if isfile:
      path = '/p/checkpoint_7/checkpoint'
    state_sub = c.choose('state sub-directory', [False, True])
    present = c.choose('file present', [True, False])
    dir_of = lambda s: '/d/checkpoint_' + strs.int_to_str(s)
    asked = step if step is not None else lat
    tgt = path if path is not None else (dir_of(asked) if asked is not None else None)

    def file_of(t):
      if isfile:
        return t
      return t + ('/state/checkpoint' if state_sub else '/checkpoint')

    class G:
      @staticmethod
      def isdir(p):
        if tgt is None:
          return False
        if bool(same(p, tgt)):
          return not isfile and present_dir
        if bool(same(p, tgt + '/state')):
          return state_sub
        if bool(same(p, file_of(tgt))):
          return False
        c.prove('only the requested checkpoint is looked at', False)
        raise core.PathEnd()

      @staticmethod
      def exists(p):
        if bool(same(p, file_of(tgt))):
          return present
        if bool(same(p, tgt)):
          return present_dir
        c.prove('only the requested checkpoint is looked at', False)
        raise core.PathEnd()

      @staticmethod
      def GFile(p, *a):
        raise Opened(p)
    present_dir = present or c.choose('directory present', [True, False])

    class TY:
      T5X, T5X_TF, ORBAX = 'T5X', 'T5X_TF', 'ORBAX'
    typ = c.choose('type', [TY.T5X, TY.T5X_TF, TY.ORBAX])
    seen = []

    def detect(p, **k):
      seen.append(p)
      return typ
    o = Fake(_partitioner=Fake(params_on_devices=True), checkpoints_dir='/d', latest_step=lambda: lat, _get_checkpoint_dir=dir_of)
    with patched(m, gfile=G, checkpoint_utils=StubNS(m.checkpoint_utils, detect_checkpoint_type=detect, CheckpointTypes=TY)):
      try:
        m.Checkpointer.restore(o, **({'step': step} if step is not None else {}), **({'path': path} if path is not None else {}))
        r = None
      except Opened as e:
        r = e.path
      except ValueError:
        r = 'rejected'
    if mode == 'both':
      c.prove('step and path together are rejected', isinstance(r, str) and r == 'rejected')
    elif tgt is None:
      c.prove('without any checkpoint the restore is rejected', isinstance(r, str) and r == 'rejected')
    elif not present or typ == TY.T5X_TF:
      c.prove('a missing or foreign checkpoint is rejected', isinstance(r, str) and r == 'rejected')
    else:
      c.prove('a checkpoint is opened', r is not None and not (isinstance(r, str) and r == 'rejected'))
      if r is not None:
        c.prove('the requested (or latest) checkpoint is opened', same(r, file_of(tgt)))
    c.cover()
  for mode in ('step', 'path', 'both', 'latest'):
    chk.verify(f'Checkpointer.restore [{mode}: choice of the checkpoint]', FC,
               'opens the requested step, the given path, or the latest step (zero included); rejects everything else', lambda c, mode=mode: body(c, mode),
               assumed=['latest_step by its contract; the contents read afterwards are C04/C06/M03'])

  def orbax(c, mode):
    lat = c.int('latest', 0)
    step = c.int('step', 0) if mode == 'step' else None
    path = '/p/checkpoint_7' if mode == 'path' else None
    kind = c.choose('kind', ['t5x', 'tf', 'orbax', 'orbax with a checkpoint file', 'nothing there'])
    log = []

    class TY:
      T5X, T5X_TF, ORBAX = 'T5X', 'T5X_TF', 'ORBAX'
    want_dir = '/p' if mode == 'path' else '/d'
    want = {'step': step, 'path': 7, 'latest': lat}[mode]

    def find(d, s=None):
      c.prove('the checkpoint looked at is the requested one', AND(d == want_dir, True if s is None and mode == 'latest' else (s is not None and s == want)))
      if kind in ('orbax', 'nothing there'):
        raise ValueError('no checkpoint file')
      return f'{d}/x/checkpoint'

    class Legacy:
      def __init__(self, ts, part, d, **k):
        self.d = d

      def restore(self, step=None, path=None, **k):
        log.append(('legacy', self.d, step, path, k))
        return 'legacy state'

    class Man:
      def restore(self, s, *a, directory=None, **k):
        log.append(('orbax', directory, s))
        raise Opened('orbax')

    def transforms(handler, s, d, sd, fns, ra):
      log.append(('transforms', d, s))
      return sd, ra, None
    fb = {'x': 1} if c.choose('fallback', [False, True]) else None
    fns = ('fn',) if c.choose('transformations', [False, True]) else ()
    o = Fake(directory='/d', _manager=Man(), _train_state=Fake(state_dict=lambda: {}), _partitioner=Fake(mesh=None), _restore_dtype='dt',
             _state_handler='h', _should_write_dataset_ckpt=False, latest_step=lambda: lat)
    jx_ = StubNS(m.jax, tree_util=StubNS(m.jax.tree_util, tree_map=lambda f, *t, **k: {}))
    tname = {'t5x': TY.T5X, 'tf': TY.T5X_TF}.get(kind, TY.ORBAX)
    with patched(m, find_checkpoint=find, Checkpointer=Legacy, jax=jx_, _construct_orbax_param_infos=lambda *a: {}, _construct_orbax_restoration_transforms=transforms,
                 get_step_from_checkpoint_dir=lambda p: ('/p', 7), ocp=StubNS(m.ocp, args=types.SimpleNamespace(PyTreeRestore=lambda *a, **k: None, Composite=lambda **k: k)),
                 checkpoint_utils=StubNS(m.checkpoint_utils, detect_checkpoint_type=lambda *a, **k: tname, CheckpointTypes=TY)):
      try:
        r = m.OrbaxCheckpointManagerInterface.restore(o, step=step, path=path, fallback_state=fb, state_transformation_fns=fns)
      except Opened:
        r = 'orbax state'
      except ValueError:
        r = 'rejected'
    if kind == 'tf':
      c.prove('a TensorFlow checkpoint is rejected', r == 'rejected')
    elif kind == 't5x':
      c.prove('a legacy checkpoint is restored by the legacy checkpointer', r == 'legacy state' and len(log) == 1)
      if len(log) == 1:
        _, d, s, p, k = log[0]
        if mode == 'path':
          c.prove('the given path is restored', AND(p == path, s is None))
        else:
          c.prove('the requested or latest step is restored', AND(p is None, d == '/d', (s == want) if s is not None else mode == 'latest'))
        c.prove('fallback state and transformations are passed on', k.get('fallback_state') is fb and tuple(k.get('state_transformation_fns', ())) == fns)
    else:
      c.prove('Orbax restores', r == 'orbax state')
      for e in log:
        c.prove('Orbax restores the requested or latest step', AND(e[1] == want_dir, e[2] is not None and e[2] == want))
    c.cover()
  for mode in ('step', 'path', 'latest'):
    chk.verify(f'OrbaxCheckpointManagerInterface.restore [{mode}: choice of the checkpoint]', FC,
               'restores the requested step, path or the latest step, also when it was written by the legacy checkpointer', lambda c, mode=mode: orbax(c, mode),
               assumed=['orbax CheckpointManager.restore(step, directory) restores that step'])

  def find(c):
    c.user['strings'] = True
    kind = c.choose('path is', ['model dir', 'step dir', 'file', 'missing'])
    step = c.int('step', 0) if c.choose('step given', [False, True]) else None
    if kind != 'model dir' and step is not None:
      c.cover()
      return
    lat = c.int('latest', 0) if (kind == 'model dir' and c.choose('has checkpoints', [True, False])) else None
    there = c.choose('file present', [True, False])
    asked = step if step is not None else lat
    if kind == 'file':
      want = '/m'
    elif kind == 'model dir' and asked is not None:
      want = '/m/checkpoint_' + strs.int_to_str(asked) + '/checkpoint'
    else:
      want = '/m/checkpoint'

    class G:
      @staticmethod
      def isdir(p):
        return kind in ('model dir', 'step dir') and bool(same(p, '/m'))

      @staticmethod
      def exists(p):
        if bool(same(p, want)):
          return there and kind != 'missing'
        return kind in ('model dir', 'step dir') and bool(same(p, '/m'))
    with patched(m, gfile=G, latest_step=lambda d: lat, get_checkpoint_dir=lambda d, s, *a: d + '/checkpoint_' + strs.int_to_str(s)):
      try:
        r = m.find_checkpoint('/m', step) if step is not None else m.find_checkpoint('/m')
      except ValueError:
        r = None
    if there and kind != 'missing':
      c.prove('the checkpoint file is found', r is not None)
      if r is not None:
        c.prove('the file of the requested or latest step is found', same(r, want))
    else:
      c.prove('a missing file is rejected', r is None)
    c.cover()
  chk.verify('find_checkpoint', FC, 'resolves a model directory (with or without a step), a step directory or a file to the checkpoint file; ValueError when missing', find,
             assumed=['latest_step, get_checkpoint_dir by contract'])


def config_choice(chk):
  m = clone(FU, overrides={'os': strs.OS})
  real_checkpoints, real_tf = m.checkpoints, m.tf

  def body(c, npaths):
    c.user['strings'] = True
    n = c.int('configs', 0)
    I, S = z3.IntSort(), z3.StringSort()
    mode, path = c.func('mode', I, S), c.func('path', I, I, S)
    cnt, step = c.func('steps', I, I, I), c.func('step', I, I, I, I)
    tf = c.choose('TensorFlow checkpoints', [False, True])

    class Cfg:
      def __init__(self, i):
        self.i = i
        self.mode = strs.SymStr(mode(core.zint(i)))
        ps = [Path(path(core.zint(i), z3.IntVal(k)), i, k) for k in range(max(1, npaths))]
        self.path = ps[0] if npaths == 0 else ps

    class Path(strs.SymStr):
      def __init__(self, t, i, k):
        super().__init__(t, [strs.Atom(t, '', True, 1)])
        self.i, self.k = i, k

    def steps_of(p):
      if not isinstance(p, Path):
        raise core.Unsupported('listing of a derived path')
      k = cnt(core.zint(p.i), z3.IntVal(p.k))
      c.assume(k >= 0)
      return seq.SymSeq(lift(k), lambda j: lift(step(core.zint(p.i), z3.IntVal(p.k), core.zint(j))))

    def ckpt(p):
      if not tf:
        return None
      s = steps_of(p)
      return Fake(all_model_checkpoint_paths=seq.SymSeq(s.length, lambda j: p + '/model.ckpt-' + strs.int_to_str(s.get(j))))
    valid = lambda i: OR(lift(mode(core.zint(i)) == strs.S('specific')),
                         AND(OR(lift(mode(core.zint(i)) == strs.S('all')), lift(mode(core.zint(i)) == strs.S('latest'))),
                             OR(False, *[lift(cnt(core.zint(i), z3.IntVal(k)) > 0) for k in range(max(1, npaths))])))

    class Spec(LoopSpec):
      name = 'loop over configurations'

      def applies(self, L, env):
        return L.seq is not None and L.seq is cfgs

      def inv(self, L, env):
        yield 'no earlier configuration has a checkpoint', core.forall(1, lambda j: IMP(AND(j >= 0, j < L.i), NOT(valid(j))))

    m.__vc_rt__.loop_specs = {'get_first_valid_restore_config_and_paths#0': Spec()}
    cfgs = seq.SymSeq(n, Cfg)
    isd = c.choose('paths are directories', [True, False])
    gd = lambda d, s, *a: d + '/checkpoint_' + strs.int_to_str(s)
    # the clone keeps these contracts: the result is evaluated lazily
    m.checkpoints = StubNS(real_checkpoints, all_steps=steps_of, get_checkpoint_dir=gd, get_checkpoint_prefix=lambda: 'checkpoint')
    m.gfile = Fake(isdir=lambda p: isd)
    m.tf = StubNS(real_tf, train=Fake(get_checkpoint_state=ckpt))
    try:
      cfg, paths = m.get_first_valid_restore_config_and_paths(cfgs)
      ok = True
    except ValueError:
      ok = False
    if not ok:
      c.prove('only a path that is not a directory is rejected', not isd)
      c.cover()
      return
    if cfg is None:
      c.prove('nothing is chosen only when no configuration has a checkpoint', core.forall(1, lambda j: IMP(AND(j >= 0, j < n), NOT(valid(j)))))
      c.prove('no path is returned', len(paths) == 0)
      c.cover()
      return
    i = cfg.i
    c.prove('the configuration is the first one with a checkpoint',
            AND(i >= 0, i < n, valid(i), core.forall(1, lambda j: IMP(AND(j >= 0, j < i), NOT(valid(j))))))
    M = mode(core.zint(i))
    first = lambda f: f
    if bool(lift(M == strs.S('specific'))):
      ps = list(paths)
      c.prove('a specific configuration returns its own paths', len(ps) == max(1, npaths) and AND(*[same(a, strs.SymStr(path(core.zint(i), z3.IntVal(k)))) for k, a in enumerate(ps)]))
      c.cover()
      return
    if isd is False:
      c.prove('a path that is not a directory is rejected', False)
      c.cover()
      return
    # the first of its directories that has checkpoints
    for k in range(max(1, npaths)):
      if bool(lift(cnt(core.zint(i), z3.IntVal(k)) > 0)):
        break
    K = lift(cnt(core.zint(i), z3.IntVal(k)))
    base = strs.SymStr(path(core.zint(i), z3.IntVal(k)))
    name = lambda j: base + ('/model.ckpt-' if tf else '/checkpoint_') + strs.int_to_str(lift(step(core.zint(i), z3.IntVal(k), core.zint(j))))
    L = seq.as_symseq(paths) or seq.from_concrete(paths)
    latest = bool(lift(M == strs.S('latest')))
    c.prove('all checkpoints, or only the latest one, are returned', L.length == (1 if latest else K))
    j = c.int('j', 0)
    c.assume(j < L.length)
    got = L.get(j)
    c.prove('the paths are the checkpoint directories in ascending order', same(got, name(K - 1 if latest else j)))
    c.cover()
  for npaths in (0, 1, 2):
    chk.verify(f'get_first_valid_restore_config_and_paths [{"text path" if npaths == 0 else f"{npaths} directories"}]', FU,
               'returns the first configuration that has a checkpoint with all/the latest of its checkpoint paths; loop invariant over any number of configurations',
               lambda c, npaths=npaths: body(c, npaths), seconds=200, kind=f'any number of configurations with up to {max(1, npaths)} paths each, any number of steps',
               assumed=['all_steps by contract (above); tf.train.get_checkpoint_state'])

  def paths_used(c):
    """restore(paths): each path is restored once, in order."""
    n = c.choose('number of paths', [0, 1, 2, 3])
    tf = c.choose('TensorFlow', [False, True])
    fns = ('f',) if c.choose('transformations', [False, True]) else ()
    log = []

    class Man:
      def restore_from_tf_checkpoint(self, p, strict=True, **k):
        log.append(('tf', p, strict))
        return ('tf', p)

      def restore(self, path=None, item=None, state_transformation_fns=(), fallback_state=None, **k):
        log.append(('t5x', path, state_transformation_fns, fallback_state))
        return ('t5x', path)
    ps = [f'/m/checkpoint_{k}' for k in range(n)]
    cfg = Fake(state_transformation_fns=fns, strict='S')
    which = c.choose('manager', ['orbax', 'legacy'])
    with patched(m, gfile=Fake(exists=lambda p: tf and p.endswith('.index'))):
      try:
        if which == 'orbax':
          r = m.restore(Man(), ps, cfg, 'fb')
        else:
          lc = m.LegacyCheckpointer.__new__(m.LegacyCheckpointer)
          lc.__dict__.update(_restore_checkpointer=Man(), _strict='S', _save_checkpointer=None)
          r = m.LegacyCheckpointManager.restore(Fake(_checkpointer=lc), ps, cfg, 'fb')
      except ValueError:
        r = 'rejected'
    if tf and fns and n:
      c.prove('transformations of a TensorFlow checkpoint are rejected', r == 'rejected' and not log)
    elif tf and n:
      c.prove('a TensorFlow checkpoint is restored as such', log[0] == ('tf', ps[0], 'S'))
    else:
      c.prove('every path is restored once, in order, with its fallback', log == [('t5x', p, fns, 'fb') for p in ps])
      c.prove('one state is returned as such, several as a list', r == (('t5x', ps[0]) if n == 1 else [('t5x', p) for p in ps]))
    c.cover()
  chk.verify('utils.restore, LegacyCheckpointManager.restore, LegacyCheckpointer.restore', FU, 'restores every given path once, in order', paths_used, kind='up to 3 paths')

  def from_ckpt(c):
    log = []
    n = c.choose('number of paths', [0, 1, 2])
    ds = c.choose('restore dataset', [False, True])

    class Ck:
      def __init__(self, **k):
        self.k = k

      def restore(self, path=None, **k):
        log.append((path, self.k.get('dataset_iterator'), k))
        return f'state of {path}'
    cfg = Fake(checkpointer_cls=Ck, restore_dataset=ds, dtype=None, state_transformation_fns=(), strict=True, fallback_to_scratch=False)
    ps = [f'/m/checkpoint_{k + 3}' for k in range(n)]
    o = m.TrainStateInitializer.__new__(m.TrainStateInitializer)
    o.__dict__.update(global_train_state_shape=None, _partitioner=None)
    o.from_scratch = lambda rng: 'scratch'
    asked = []

    def gfv(cfgs):
      asked.append(cfgs)
      return (cfg if n else None), ps
    with patched(m, get_first_valid_restore_config_and_paths=gfv, gfile=Fake(exists=lambda p: False)):
      got = list(m.TrainStateInitializer.from_checkpoints(o, ['cfgs'], ds_iter='it', init_rng='rng'))
      c.prove('each path yields its state and itself, in order', got == [(f'state of {p}', p) for p in ps])
      c.prove('the dataset iterator is restored only when configured', all(e[1] == ('it' if ds else None) for e in log))
      c.prove('all configurations are considered', asked == [['cfgs']])
      try:
        one = m.TrainStateInitializer.from_checkpoint_or_scratch(o, ['cfgs'], init_rng='rng', ds_iter='it')
      except ValueError:
        one = 'rejected'
      c.prove('the restored state, else one from scratch; several are rejected', one == {0: 'scratch', 1: 'state of /m/checkpoint_3', 2: 'rejected'}[n])
    c.cover()
  chk.verify('TrainStateInitializer.from_checkpoints / from_checkpoint_or_scratch', FU, 'restores the chosen paths in order; falls back to scratch exactly when no checkpoint exists', from_ckpt, kind='up to 2 paths')

  def fallback(c):
    has = c.choose('configuration', [True, False])
    fts = c.choose('fall back', [True, False])
    fns = ('f',) if c.choose('fns', [True, False]) else ()
    rng = 'rng' if c.choose('rng', [True, False]) else None
    try:
      r = m.get_fallback_state(Fake(fallback_to_scratch=fts, state_transformation_fns=fns) if has else None, lambda g: ('state', g), rng)
    except ValueError:
      r = 'rejected'
    c.prove('a fallback state is built exactly when configured and possible',
            r == (None if not has or not fts else (('state', 'rng') if fns and rng else 'rejected')))
    c.cover()
  chk.verify('get_fallback_state', FU, 'scratch state exactly when fallback_to_scratch is set; incomplete settings rejected', fallback)


# --------------------------------------------------------------- bounded part
def ref_steps(d, prefix):
  out = []
  for n in os.listdir(d):
    mm = re.fullmatch(re.escape(prefix) + '_([0-9]+)', n)
    if mm:
      out.append(int(mm.group(1)))
  return sorted(out)


NOISE = ['checkpoint_7.tmp-123', 'checkpoint_9.tmp-1', 'checkpoint_', 'checkpoint_12a', 'checkpoint_-3', 'xcheckpoint_4', 'checkpoint_5_old', 'checkpoint_1e3', 'checkpoints_6',
         'checkpoint_8.orbax-checkpoint-tmp-55', 'train', 'eval_5', 'checkpoint', 'my_checkpoint_44', 'ckpt_8', 'ckpt_3.tmp-4', 'Checkpoint_6', 'checkpoint_3 ', 'checkpoint__3', 'checkpoint_2.5', 'a.b_5', 'aXb_6', 'a.b_6.tmp-9']
STEPS = [0, 1, 2, 9, 10, 99, 100, 1000, 123456789, 10**12]


def search_listing(rec):
  from t5x import checkpoints_utils as cu, checkpoints as cp
  fns = [need(cu, n) for n in ('all_steps', 'latest_step', 'get_checkpoint_dir', 'get_step_from_checkpoint_dir', 'all_dataset_checkpoint_steps')]
  rnd = random.Random(5)
  try:
    for prefix in ('checkpoint', 'ckpt', 'a.b'):
      set_prefix(None if prefix == 'checkpoint' else prefix)
      for k in range(40 if env.TIER == 'quick' else 200):
        if rec.full:
          return
        steps = sorted(rnd.sample(STEPS, rnd.choice([0, 1, 1, 2, 3, 6])))
        if k == 0:
          steps = [0]
        noise = rnd.sample(NOISE, rnd.randint(0, 9))
        dsets = [s for s in steps if rnd.random() < 0.5]
        with ck.scratch() as d:
          base = d + rnd.choice(['', '/m_1', '/x/checkpoint_5', '/run-2.tmp-3'])
          os.makedirs(base, exist_ok=True)
          for s in steps:
            os.makedirs(f'{base}/{prefix}_{s}')
            open(f'{base}/{prefix}_{s}/checkpoint', 'w').close()
            if s in dsets:
              for x in range(rnd.choice([1, 2])):
                open(f'{base}/{prefix}_{s}/train_ds-00{x}-of-002', 'w').close()
          for n in noise:
            if not os.path.exists(f'{base}/{n}') and not re.fullmatch(re.escape(prefix) + '_[0-9]+', n):
              os.makedirs(f'{base}/{n}')
              open(f'{base}/{n}/checkpoint', 'w').close()
              if '.tmp' in n:
                open(f'{base}/{n}/train_ds-000-of-001', 'w').close()
          for b in (base, base + '/'):
            def run():
              got = list(cu.all_steps(b))
              if got != steps:
                return f'all_steps lists {got}, present are {steps}'
              last = cu.latest_step(b)
              if last != (steps[-1] if steps else None):
                return f'latest_step is {last}, present are {steps}'
              ds = list(cu.all_dataset_checkpoint_steps(b))
              if ds != dsets:
                return f'all_dataset_checkpoint_steps lists {ds}, present are {dsets}'
              for s in steps:
                if not os.path.isdir(cu.get_checkpoint_dir(b, s)):
                  return f'step {s} is listed but {cu.get_checkpoint_dir(b, s)} does not exist'
            rec.run({'prefix': prefix, 'steps': steps, 'noise': noise, 'datasets': dsets, 'trailing slash': b != base}, run)
      for s in STEPS + list(range(0, 300, 7)) + [2**31 - 1, 2**31, 2**63]:
        for b in ('/a/b', '/checkpoint_3/x', 'rel', '/m_5/checkpoint_', f'/x/{prefix}_4', 'gs://b/c'):
          for ln in (None, 1, 8, 12):
            def run():
              p = cu.get_checkpoint_dir(b, s, ln) if ln is not None else cu.get_checkpoint_dir(b, s)
              if ln is None and p != f'{b}/{prefix}_{s}':
                return f'directory {p} for step {s}'
              for q in (p, p + '/'):
                if cu.get_step_from_checkpoint_dir(q) != (b, s):
                  return f'{q} gives {cu.get_step_from_checkpoint_dir(q)}'
            rec.run({'prefix': prefix, 'dir': b, 'step': s, 'length': ln}, run)
      for bad in ('/a/model_5', '/a/5', '/a/b', f'/a/x{prefix}_5', f'/a/{prefix}_5.tmp-3', f'/a/{prefix}5'):
        def run():
          try:
            return f'{bad} is taken for {cu.get_step_from_checkpoint_dir(bad)}'
          except ValueError:
            return None
        rec.run({'prefix': prefix, 'bad': bad}, run)
  finally:
    set_prefix(None)


def search_restore(rec):
  from t5x import checkpoints as cp
  rnd = random.Random(9)
  need(cp, 'Checkpointer', 'restore')
  sets = [[0], [3], [0, 5], [9, 10], [2, 10, 100], [0, 1, 2], [99, 100, 1000], [123456789]]
  try:
    for prefix in ('checkpoint', 'ckpt'):
      set_prefix(None if prefix == 'checkpoint' else prefix)
      for steps in sets:
        if rec.full:
          return
        with ck.scratch() as d:
          st = ck.train_state(0)
          c = ck.checkpointer(d, st)
          order = list(steps)
          rnd.shuffle(order)
          import numpy as np
          for s in order:
            c.save(ck.train_state(s, {'k': {'w': np.full((2, 3), s % 1000 + 1, np.float32)}}) if False else ck.with_step(ck.train_state(0, seed=s % 97), s))
          os.makedirs(f'{d}/{prefix}_5000000.tmp-77')
          os.makedirs(f'{d}/other_7')

          def expect(r, s):
            if int(np.asarray(r.step)) != s:
              return f'step {int(np.asarray(r.step))} restored instead of {s}'
            w = np.asarray(r.params['a']['w'])
            if not np.array_equal(w, ck.train_state(0, seed=s % 97).params['a']['w']):
              return f'the parameters are not those of step {s}'
          fresh = lambda: ck.checkpointer(d, st)
          rec.run({'prefix': prefix, 'steps': order, 'restore': 'latest'}, lambda: expect(fresh().restore(), max(steps)))
          rec.run({'prefix': prefix, 'steps': order, 'restore': 'find_checkpoint'}, lambda: None if cp.find_checkpoint(d) == f'{d}/{prefix}_{max(steps)}/checkpoint' else f'find_checkpoint gives {cp.find_checkpoint(d)}')
          for s in steps:
            p = f'{d}/{prefix}_{s}'
            rec.run({'prefix': prefix, 'steps': order, 'restore': s}, lambda: expect(fresh().restore(step=s), s))
            rec.run({'prefix': prefix, 'steps': order, 'restore path': s}, lambda: expect(fresh().restore(path=p), s))
            rec.run({'prefix': prefix, 'steps': order, 'restore file': s}, lambda: expect(fresh().restore(path=p + '/checkpoint'), s))
            rec.run({'steps': order, 'find': s}, lambda: None if {cp.find_checkpoint(d, s), cp.find_checkpoint(p), cp.find_checkpoint(p + '/checkpoint')} == {p + '/checkpoint'} else 'find_checkpoint names another file')

          def rejected(**k):
            try:
              r = fresh().restore(**k)
            except ValueError:
              return None
            return f'restore({k}) gave step {int(np.asarray(r.step))}'
          for k in (dict(step=77), dict(path=f'{d}/{prefix}_77'), dict(path=f'{d}/{prefix}_5000000.tmp-77'), dict(step=steps[0], path=f'{d}/{prefix}_{steps[0]}')):
            rec.run({'steps': order, 'rejected': str(k)}, lambda: rejected(**k))
      with ck.scratch() as d:
        os.makedirs(f'{d}/{prefix}_4.tmp-1')
        def run():
          try:
            ck.checkpointer(d, ck.train_state(0)).restore()
          except ValueError:
            return None
          return 'a restore without any checkpoint succeeded'
        rec.run({'prefix': prefix, 'empty': True}, run)
  finally:
    set_prefix(None)


def search_orbax(rec):
  import numpy as np
  from t5x import checkpoints as cp
  need(cp, 'OrbaxCheckpointManagerInterface', 'restore')
  for kind in ('legacy', 'orbax'):
    for steps in ([0, 5, 10], [3], [0], [9, 10, 100]):
      if rec.full:
        return
      with ck.scratch() as d:
        st = ck.train_state(0)
        state = lambda s: ck.with_step(ck.train_state(0, seed=s % 97), s)
        if kind == 'legacy':
          c = ck.checkpointer(d, st)
          for s in steps:
            c.save(state(s))
          man = cp.OrbaxCheckpointManagerInterface(d, st, ck.Part(), save_dtype=np.float32)
        else:
          man = cp.OrbaxCheckpointManagerInterface(d, st, ck.Part(), save_dtype=np.float32)
          for s in steps:
            man.save(state(s))
          man.wait_until_finished()

        def expect(s, **k):
          r = man.restore(**k)
          if int(np.asarray(r.step)) != s:
            return f'restore({k}) gives step {int(np.asarray(r.step))} instead of {s}'
          if not np.allclose(np.asarray(r.params['a']['w']), ck.train_state(0, seed=s % 97).params['a']['w']):
            return f'restore({k}): the parameters are not those of step {s}'
        case = {'written by': kind, 'steps': steps}
        rec.run({**case, 'restore': 'listing'}, lambda: None if list(man.all_steps()) == steps and man.latest_step() == steps[-1] else f'{man.all_steps()} {man.latest_step()}')
        rec.run({**case, 'restore': 'latest'}, lambda: expect(max(steps)))
        for s in steps:
          rec.run({**case, 'restore': s}, lambda: expect(s, step=s))
          rec.run({**case, 'restore path': s}, lambda: expect(s, path=f'{d}/checkpoint_{s}'))
        man.close()


def search_configs(rec):
  from t5x import utils
  fn = need(utils, 'get_first_valid_restore_config_and_paths')
  rnd = random.Random(21)
  for _ in range(150 if env.TIER == 'quick' else 1500):
    if rec.full:
      return
    with ck.scratch() as d:
      layout = [sorted(rnd.sample([0, 3, 9, 10, 200], rnd.choice([0, 0, 1, 2]))) for _ in range(4)]
      for k, ss in enumerate(layout):
        os.makedirs(f'{d}/m{k}')
        for s in ss:
          os.makedirs(f'{d}/m{k}/checkpoint_{s}')
        if rnd.random() < 0.4:
          os.makedirs(f'{d}/m{k}/checkpoint_77.tmp-5')
      cfgs, want = [], None
      for _ in range(rnd.randint(0, 4)):
        mode = rnd.choice(['specific', 'all', 'latest', 'latest', 'all'])
        ks = [rnd.randrange(4)] if rnd.random() < 0.7 else rnd.sample(range(4), 2)
        path = f'{d}/m{ks[0]}' if len(ks) == 1 and rnd.random() < 0.7 else [f'{d}/m{k}' for k in ks]
        cfg = utils.RestoreCheckpointConfig(path=path, mode=mode)
        cfgs.append(cfg)
        if want is None:
          if mode == 'specific':
            want = (cfg, [path] if isinstance(path, str) else path)
          else:
            for k in ks:
              if layout[k]:
                ss = layout[k] if mode == 'all' else layout[k][-1:]
                want = (cfg, [f'{d}/m{k}/checkpoint_{s}' for s in ss])
                break

      def run():
        got, paths = fn(cfgs)
        if want is None:
          return None if got is None and not paths else f'{got} chosen although no configuration has a checkpoint'
        if got is not want[0]:
          return f'configuration {cfgs.index(got) if got in cfgs else got} chosen instead of {cfgs.index(want[0])}'
        if list(paths) != want[1]:
          return f'{list(paths)} instead of {want[1]}'
      rec.run({'directories': layout, 'configs': [(c.mode, str(c.path).replace(d, '')) for c in cfgs]}, run)


def build(chk):
  listing(chk)
  restore_choice(chk)
  config_choice(chk)
  chk.search('step listing', 'random directories of up to 6 of 10 steps and 9 of 23 foreign names, 3 prefixes; about 60 steps x 6 parents x 4 widths', search_listing)
  chk.search('restored step', '8 step sets x 2 prefixes on real checkpoints', search_restore)
  chk.search('restored step through Orbax', '4 step sets written by either checkpointer', search_orbax)
  chk.search('configuration choice', 'random lists of up to 4 configurations over 4 directories', search_configs)


if __name__ == '__main__':
  main('C03', build)
