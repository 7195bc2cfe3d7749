"""Process set-up shared by every check: interpreter paths and dependency stubs.

Importing this module
  * puts /repo (and nothing of /verif) in front for `import t5x`,
  * registers the package `t5x` without executing t5x/__init__.py (the sandbox's
    own test plug-in does the same; t5x/__init__ imports every module),
  * appends the directory that holds z3 and cvc5 at the END of sys.path,
  * installs inert stand-ins for the three third-party packages this sandbox
    lacks (`airio`, `t5`, a working `jestimator`).  The stand-ins only have to
    satisfy module level imports; no function under contract calls into them.
"""

import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VC_EVID', os.path.join(VERIF, 'evidence'))
SOLVERS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('NO_GCE_CHECK', 'true')

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


class _StubModule(types.ModuleType):
  """A module whose unknown attributes are fresh inert classes."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    full = f'{self.__name__}.{name}'
    if full in sys.modules:
      return sys.modules[full]
    cls = type(name, (), {'__module__': self.__name__})
    if not name[:1].isupper():
      # Lower-case names are used as functions / sub-modules.
      cls = _StubModule(full)
      cls.__path__ = []
      sys.modules[full] = cls
    setattr(self, name, cls)
    return cls


class _StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  ROOTS = ('airio', 't5', 'jestimator')

  def find_spec(self, fullname, path=None, target=None):
    if fullname.split('.')[0] in self.ROOTS:
      return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
    return None

  def create_module(self, spec):
    m = _StubModule(spec.name)
    m.__path__ = []
    return m

  def exec_module(self, module):
    return None


def setup():
  if getattr(sys, '_vc_env_ready', False):
    return
  sys._vc_env_ready = True
  sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
  sys.path.insert(0, REPO)
  if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
  if SOLVERS not in sys.path:
    sys.path.append(SOLVERS)
  pkg = types.ModuleType('t5x')
  pkg.__path__ = [os.path.join(REPO, 't5x')]
  pkg.__spec__ = importlib.machinery.ModuleSpec('t5x', None, is_package=True)
  pkg.__spec__.submodule_search_locations = pkg.__path__
  pkg.__file__ = os.path.join(REPO, 't5x', '__init__.py')
  sys.modules['t5x'] = pkg
  sys.meta_path.insert(0, _StubFinder())


setup()
