"""Small helpers shared by the checks."""

from vc import core


class patched:
  """Temporarily replaces attributes of a module or object."""

  def __init__(self, mod, **kw):
    self.mod, self.kw = mod, kw

  def __enter__(self):
    self.old = {k: getattr(self.mod, k) for k in self.kw}
    for k, v in self.kw.items():
      setattr(self.mod, k, v)

  def __exit__(self, *a):
    for k, v in self.old.items():
      setattr(self.mod, k, v)


def f32close(a, b, rtol=2e-4, atol=2e-5):
  import numpy as np
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=False)))


class Fake:
  """Stand-in object; an attribute the harness did not provide is outside its
  reach (undecided), not a defect of the code."""

  def __init__(self, **kw):
    self.__dict__.update(kw)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise core.Unsupported(f'stand-in object has no attribute {n}')
