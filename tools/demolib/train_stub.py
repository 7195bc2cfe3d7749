"""Runs the real t5x.train.train() with inert collaborators; records the schedule."""
import demo_env
import concurrent.futures, types
from t5x import train as mod


class Any:
  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return lambda *a, **k: None


class NS:
  def __init__(self, real, **over):
    self.__dict__['_r'] = real
    self.__dict__.update(over)

  def __getattr__(self, n):
    return getattr(self.__dict__['_r'], n)


class State:
  def __init__(self, s):
    self.step = s


def run(start, total, period=None, eval_period=0, stats=None, steps=None, stop=lambda step, mode: False, infer=False):
  log = types.SimpleNamespace(executed=[], saves=[], evals=[], step=start)

  def fut(v):
    f = concurrent.futures.Future()
    f.set_result(v)
    return f

  class Trainer:
    stop_training = False
    train_metrics_manager = Any()

    @property
    def train_state(self):
      return State(log.step)

    def train(self, it, num_steps, start_step=None):
      assert len(log.executed) < 1000 and num_steps > 0, 'no progress'
      log.executed += list(range(log.step, log.step + num_steps))
      log.step += num_steps
      return types.SimpleNamespace(result=lambda: {})

    def eval(self, iters):
      log.evals.append(log.step)
      return {}

    def compile_train(self, b):
      pass

    def compile_eval(self, b):
      pass

    def close(self):
      pass

  tr = Trainer()
  tr.train_metrics_manager.summary_writer = None

  class Mgr:
    def save(self, state, *a, **k):
      log.saves.append(state.step)

    def all_steps(self):
      return []

    def wait_until_finished(self):
      pass

    def close(self):
      pass

  class It:
    element_spec = {}

    def peek_async(self):
      return fut(None)

  class Init:
    train_state_axes = None
    global_train_state_shape = None

    def __init__(self, **k):
      pass

  class Ev:
    eval_tasks = [1]

    def __init__(self, **k):
      pass

    def evaluate(self, *a):
      return fut({})

    def close(self):
      pass

  mod.utils = NS(mod.utils, prepare_train_iter=lambda it, **k: It(),
                 get_first_valid_restore_config_and_paths=lambda c: (None, []),
                 create_checkpoint_manager_and_restore=lambda *a, **k: (State(start), Mgr()),
                 log_model_info=lambda *a, **k: None, get_local_data=lambda x: x,
                 sync_global_devices=lambda *a, **k: None, get_zeros_batch_like_dataset=lambda d: None,
                 RestoreCheckpointConfig=lambda **k: types.SimpleNamespace(**k))
  mod.run_actions = lambda mode, a, s, m: stop(log.step, mode.name)
  mod.eval_lib = NS(mod.eval_lib, InferenceEvaluator=Ev)
  mod.multihost_utils = NS(mod.multihost_utils, broadcast_one_to_all=lambda x: x)
  mod.tf = NS(mod.tf, io=types.SimpleNamespace(gfile=types.SimpleNamespace(makedirs=lambda d: None)))
  save = types.SimpleNamespace(period=period, checkpoint_steps=steps, dtype='float32', checkpointer_cls=None,
                               save_dataset=False, state_transformation_fns=(), keep=None)
  mod.train(model=types.SimpleNamespace(FEATURE_CONVERTER_CLS=None, optimizer_def=None, get_initial_variables=None),
            train_dataset_cfg=types.SimpleNamespace(seed=0, batch_size=1),
            train_eval_dataset_cfg=types.SimpleNamespace() if eval_period else None,
            infer_eval_dataset_cfg=types.SimpleNamespace() if infer else None,
            checkpoint_cfg=types.SimpleNamespace(save=save, restore=None),
            partitioner=types.SimpleNamespace(
                get_data_layout=lambda b: types.SimpleNamespace(shard_id=0, num_shards=1, batch_size=1),
                mesh=None, data_partition_spec=None),
            trainer_cls=lambda **k: tr, model_dir='/nonexistent', total_steps=total, eval_steps=1,
            eval_period=eval_period, stats_period=stats, random_seed=0, summarize_config_fn=lambda *a, **k: None,
            get_dataset_fn=lambda *a, **k: It(), concurrent_metrics=False, actions={},
            train_eval_get_dataset_fn=lambda *a, **k: {'task': []}, train_state_initializer_cls=Init,
            use_orbax=True, verify_matching_vocabs_fn=None)
  return log
