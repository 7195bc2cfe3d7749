"""Makes `import t5x.<module>` work from the current directory without t5x/__init__."""
import importlib.abc, importlib.machinery, os, sys, types
sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('NO_GCE_CHECK', 'true')
ROOT = os.getcwd()


class _M(types.ModuleType):
  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    full = f'{self.__name__}.{name}'
    if full in sys.modules:
      return sys.modules[full]
    if name[:1].isupper():
      v = type(name, (), {'__module__': self.__name__})
    else:
      v = _M(full)
      v.__path__ = []
      sys.modules[full] = v
    setattr(self, name, v)
    return v


class _F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  def find_spec(self, fullname, path=None, target=None):
    if fullname.split('.')[0] in ('airio', 't5', 'jestimator'):
      return importlib.machinery.ModuleSpec(fullname, self, is_package=True)

  def create_module(self, spec):
    m = _M(spec.name)
    m.__path__ = []
    return m

  def exec_module(self, module):
    pass


sys.path.insert(0, ROOT)
pkg = types.ModuleType('t5x')
pkg.__path__ = [os.path.join(ROOT, 't5x')]
pkg.__spec__ = importlib.machinery.ModuleSpec('t5x', None, is_package=True)
pkg.__spec__.submodule_search_locations = pkg.__path__
sys.modules['t5x'] = pkg
sys.meta_path.insert(0, _F())
