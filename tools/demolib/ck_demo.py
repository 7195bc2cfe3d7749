"""Real Checkpointer objects in scratch directories (bounded stand-ins)."""

import contextlib
import os
import shutil
import tempfile

import numpy as np


class Layout:
  """A single-host data layout."""
  batch_size = 2
  shard_id = 0
  num_shards = 1
  is_first_host_in_replica_set = True


class Part:
  """Partitioner stand-in: every array is whole on this host."""

  def __init__(self, axes=('data',)):
    import jax
    self.mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape((1,)), ('data',))
    self.params_on_devices = True

  def get_data_layout(self, *a, **k):
    return Layout()

  def get_local_chunk_info(self, global_shape, mesh_axes):
    from t5x import partitioning
    return partitioning.LocalChunkInfo(slice=(slice(None),) * len(global_shape), replica_id=0)

  def get_mesh_axes(self, train_state):
    import jax
    from t5x import partitioning
    return jax.tree_util.tree_map(lambda x: partitioning.PartitionSpec(None) if np.ndim(x) else None, train_state)

  def partition(self, fn, in_axis_resources=None, out_axis_resources=None, **k):
    return fn

  def move_params_to_devices(self, s, a):
    return s


def train_state(step=0, arrays=None, seed=0):
  """FlaxOptimTrainState over numpy arrays, SGD."""
  from flax.core import FrozenDict
  from t5x import optimizers, train_state as ts
  if arrays is None:
    r = np.random.RandomState(seed)
    arrays = {'a': {'w': r.randn(4, 6).astype(np.float32), 'b': r.randn(3).astype(np.float32)},
              'k': r.randn(2, 2).astype(np.float32)}
  params = {k: v for k, v in arrays.items()}
  import optax
  o = optimizers.wrap_optax_optimizer(optax.sgd)(learning_rate=0.1)
  st = ts.FlaxOptimTrainState(o.create(FrozenDict(params)))
  return st.replace_step(np.int32(step))


def with_step(st, step):
  return st.replace_step(np.int32(step))


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='vc-ck-')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def checkpointer(d, st=None, cls=None, **k):
  from t5x import checkpoints
  cls = cls or checkpoints.Checkpointer
  return cls(st if st is not None else train_state(), Part(), d, **k)


def tree(d):
  """{relative path: bytes} of everything under d."""
  out = {}
  for r, ds, fs in os.walk(d):
    for x in ds:
      out[os.path.relpath(os.path.join(r, x), d) + '/'] = None
    for x in fs:
      p = os.path.join(r, x)
      with open(p, 'rb') as f:
        out[os.path.relpath(p, d)] = f.read()
  return out
