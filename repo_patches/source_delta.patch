From 7e351c86c6ae3601fd4acbda1093edcbbeaa3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 01/32] fix: never halt training at a checkpoint step that has
 already been reached

The last entry of checkpoint_steps stays selected after its step was saved;
find_next_checkpoint_step then returned 0 inner steps and train() looped
forever saving the same step.
---
 t5x/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..4d2366d 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2329,7 +2329,7 @@ def find_next_checkpoint_step(
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
         ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
-        and curr_checkpoint_step > first_step
+        and curr_checkpoint_step > max(first_step, host_step)
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From 789cc454d08797268b8be40e8033974c9a71a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 02/32] fix: honour checkpoint_steps when no checkpoint period
 is configured

find_next_checkpoint_step took the remainder by checkpoint_period, which may
be None (or 0), and train() left a listed final step to the periodic save that
does not happen without a period.
---
 t5x/train.py | 5 +++--
 t5x/utils.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..35f3c7a 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -712,8 +712,9 @@ def train(
             checkpoint_period,
             first_step,
         )
-        # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        # Handled separately if this is the overall last step and checkpoints
+        # are saved periodically.
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index 4d2366d..d9bf085 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2328,7 +2328,10 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > max(first_step, host_step)
         and curr_checkpoint_step <= epoch_end_step
     ):
-- 
2.43.0


From 40e9f20714f43416972ea9348700764eaf931c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 03/32] fix: keep a stop request made by an earlier action

Each run_actions call overwrote trainer.stop_training, so a stop requested by
a TRAIN action was lost when a later TRAIN_EVAL or INFER_EVAL action (or the
next TRAIN call) returned False.
---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 35f3c7a..d31cfd9 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -514,7 +514,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -531,7 +531,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -725,7 +725,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From e6647502ec854c6656bf102a726bf2f67314c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 04/32] fix: a dynamic topp of 0.0 no longer masks every logit

topp_mask(x, 0.0) keeps nothing (no mass is < 0), so a traced topp == 0.0
made temperature_sample draw tokens uniformly at random.
---
 t5x/decoding.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index fe58af5..c51df94 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -547,10 +547,14 @@ def _temperature_sample_single_trial(
             lambda: scaled_logits,
         )
 
-      # When topp is dynamic, we always use it since we cannot check
-      # non-zeroness (but it will have no effect if topp is 0.0).
+      # When topp is dynamic, we cannot check non-zeroness while tracing, so the
+      # mask is computed and then ignored where topp is 0.0.
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jnp.where(
+            jnp.expand_dims(jnp.asarray(topp) > 0.0, axis=-1),
+            binary_search.topp_mask(scaled_logits, topp, NEG_INF),  # pytype: disable=wrong-arg-types  # jax-ndarray
+            scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
-- 
2.43.0


From 8772aead4533a9859ab5c661d4eaeb7fa5050ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 05/32] fix: grant a byte reservation as large as the remaining
 budget

_BytesConditionVariable.wait_for_bytes waited for strictly more bytes than
requested, so a request for the whole budget (which is what
_write_state_to_tensorstore makes for any array larger than it) never returned.
---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..c464f27 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From 793a73aa342fc6c374088ebb1b6671b960f51e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 06/32] fix: share the in-flight byte budget between all arrays
 of a save

Every array had a budget of its own, so concurrent_gb did not limit anything.
---
 t5x/checkpoints.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index c464f27..1b98abb 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -853,6 +853,7 @@ class Checkpointer(object):
   ) -> Mapping[str, Any]:
     """Writes extracted state from train state to Tensorstore."""
     concurrent_bytes = concurrent_gb * 10**9
+    bytes_cv = _BytesConditionVariable(concurrent_bytes)
 
     async def _write_array(
         maybe_arr: Any, param_info: Optional[_ParameterInfo], cast: bool = False
@@ -870,8 +871,6 @@ class Checkpointer(object):
       Returns:
         Tensorstore spec corresponding to the written array.
       """
-      bytes_cv = _BytesConditionVariable(concurrent_bytes)
-
       if isinstance(maybe_arr, LazyArray):
         maybe_arr = await maybe_arr.get_async()
 
-- 
2.43.0


From 74d5a589dfcc1bcc4fb55a7cd26dbf7d47152b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 07/32] fix: restore the latest checkpoint when it is that of
 step zero

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 1b98abb..5f0b74b 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1035,7 +1035,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From abaa9384f7ba0dd070f6c54537a29e217bd3cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 08/32] fix: restore the requested step of a legacy checkpoint
 through Orbax

---
 t5x/checkpoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 5f0b74b..5903c8e 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2447,6 +2447,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
+            step=step if path is None else None,
             path=path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
-- 
2.43.0


From a25ab34f00f2d1b06f91e2508fea08f5f25bfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 09/32] fix: restore the latest Orbax checkpoint when no step
 is requested

---
 t5x/checkpoints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 5903c8e..3a6c904 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2417,6 +2417,8 @@ class OrbaxCheckpointManagerInterface:
     directory = self.directory
     if path is not None:
       directory, step = get_step_from_checkpoint_dir(os.fspath(path))
+    elif step is None:
+      step = self.latest_step()
 
     # Check for legacy T5X checkpoint: If so, use legacy T5X
     # checkpointer to restore the state. The following exclusive features of T5X
-- 
2.43.0


From fdec8a0366d734df74a3a9b4ab88679c92bea4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 10/32] fix: look for checkpoints under the configured prefix

---
 t5x/checkpoints_utils.py | 10 ++++++----
 t5x/utils.py             |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..f2da3c5 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -39,20 +39,22 @@ def get_checkpoint_prefix(prefix='checkpoint'):
 
 def all_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns list of available step numbers in ascending order."""
-  glob_pattern = os.path.join(checkpoints_dir, 'checkpoint_*')
+  prefix = get_checkpoint_prefix()
+  glob_pattern = os.path.join(checkpoints_dir, f'{prefix}_*')
   checkpoint_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)$')
   matches = [re_pattern.match(ckpt) for ckpt in checkpoint_paths]
   return sorted(int(match.group(1)) for match in matches if match)
 
 
 def all_dataset_checkpoint_steps(checkpoints_dir: str) -> Sequence[int]:
   """Returns available dataset checkpoint step numbers in ascending order."""
+  prefix = get_checkpoint_prefix()
   glob_pattern = os.path.join(
-      checkpoints_dir, 'checkpoint_*', f'{_TRAIN_DS_PREFIX}-*'
+      checkpoints_dir, f'{prefix}_*', f'{_TRAIN_DS_PREFIX}-*'
   )
   train_ds_paths = gfile.glob(glob_pattern)
-  re_pattern = re.compile(r'.*/checkpoint_(\d+)/.*$')
+  re_pattern = re.compile(rf'.*/{re.escape(prefix)}_(\d+)/.*$')
   matches = [re_pattern.match(path) for path in train_ds_paths]
   return sorted(set(int(match.group(1)) for match in matches if match))
 
diff --git a/t5x/utils.py b/t5x/utils.py
index d9bf085..18d61f0 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -962,7 +962,7 @@ def get_first_valid_restore_config_and_paths(
           ckpt_paths = tf_ckpt_state.all_model_checkpoint_paths
         else:
           ckpt_paths = [
-              os.path.join(ckpt_dir, f'checkpoint_{step}')
+              checkpoints.get_checkpoint_dir(ckpt_dir, step)
               for step in checkpoints.all_steps(ckpt_dir)
           ]
         if not ckpt_paths:
-- 
2.43.0


From cecf5be0b97c2aec1e6418c7d506ef11c422a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 11/32] fix: keep values assigned by an assignment map when the
 name also exists in the checkpoint

---
 t5x/state_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..8268789 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -212,8 +212,9 @@ def apply_assignment_map(
 
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
+  # An entry that was assigned by a rule keeps the assigned value.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From 1b5eef890df922681e1ef7bbad0f7a5d0faeece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 12/32] fix: never prune pinned checkpoints through the Orbax
 manager

---
 t5x/checkpoints.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 3a6c904..a53ed87 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2226,7 +2226,14 @@ class OrbaxCheckpointManagerInterface:
           if info.step in step_to_metric:
             metrics = {metric_name_to_monitor: step_to_metric[info.step]}
             info.metrics = metrics
-      return super()._get_old_steps_to_remove()
+      # Pinned checkpoints are excluded from the automatic pruning.
+      return [
+          step
+          for step in super()._get_old_steps_to_remove()
+          if not checkpoint_utils.is_pinned_checkpoint(
+              get_checkpoint_dir(os.fspath(self.directory), step)
+          )
+      ]
 
   def __init__(
       self,
-- 
2.43.0


From 54e76f49676f211ebe819b56c69cea98a53363a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 13/32] fix: return the results of sharded inference in dataset
 order

---
 t5x/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 18d61f0..803e18b 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1763,8 +1763,9 @@ def get_infer_fn(
     # Note: remove padding first, as -1 indices would mess up this operation.
     # Note: all_inferences may be a PyTree, not just an array, e.g. if
     # `infer_step` is `model.predict_batch_with_aux`.
-    all_inferences = jax.tree.map(lambda x: x[all_indices], all_inferences)
-    all_indices = all_indices[all_indices]
+    order = np.argsort(all_indices)
+    all_inferences = jax.tree.map(lambda x: x[order], all_inferences)
+    all_indices = all_indices[order]
 
     # aux_values is supposed to be a dictionary that maps strings to a set of
     # auxiliary values.
-- 
2.43.0


From 2334f57d6d9b54b34754bab2ec6e612b9065f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 14/32] fix: check inference writers without blocking unless
 asked to wait

---
 t5x/infer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..de7541d 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -78,9 +78,10 @@ class FailFastThreadPoolExecutor(concurrent.futures.ThreadPoolExecutor):
     still_incomplete_futures = []
     for future in self._incomplete_futures:
       try:
-        exception = future.exception(timeout=0 if wait else None)
+        exception = future.exception(timeout=None if wait else 0)
       except concurrent.futures.TimeoutError:
         still_incomplete_futures.append(future)
+        continue
       if exception is not None:
         raise exception
 
-- 
2.43.0


From bd2394b8b5a3163fc729e1e657ef6973e881d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 15/32] fix: merge inference chunks beyond number 99999

---
 t5x/infer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index de7541d..e70378c 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -180,8 +180,17 @@ def merge_chunks_to_file(
   """Merge the predictions from different chunks into a unified file."""
   logging.info('Merging chunk results.')
   # Merge chunks into single file.
+  # Chunk numbers have at least 5 digits (more if there are over 100000 chunks).
+  chunk_number = lambda path: int(path.rpartition('-chunk')[2])
   chunk_paths = sorted(
-      gfile.glob(os.path.join(tmp_dir, f'{output_fname}-chunk?????'))
+      [
+          path
+          for path in gfile.glob(
+              os.path.join(tmp_dir, f'{output_fname}-chunk?????*')
+          )
+          if path.rpartition('-chunk')[2].isdecimal()
+      ],
+      key=chunk_number,
   )
 
   if not chunk_paths:
@@ -190,8 +199,8 @@ def merge_chunks_to_file(
         'input did not contain any examples'
     )
 
-  assert int(chunk_paths[-1][-5:]) + 1 == len(chunk_paths), (
-      f'Expecting {int(chunk_paths[-1][-5:]) + 1} chunk paths, found '
+  assert chunk_number(chunk_paths[-1]) + 1 == len(chunk_paths), (
+      f'Expecting {chunk_number(chunk_paths[-1]) + 1} chunk paths, found '
       f'{len(chunk_paths)}'
   )
   output_path = os.path.join(output_dir, output_fname)
-- 
2.43.0


From d5bcd5b84953a48e97f1f8718603c6a0d002bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 16/32] fix: read back evaluated checkpoint paths that contain
 spaces

---
 t5x/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..1febbe6 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
-- 
2.43.0


From f1061fb523f70f07b62fabb0d6d1bdf81e57e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 17/32] fix: write no further inference chunks after a writer
 has failed

---
 t5x/infer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index e70378c..775f0b3 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -72,6 +72,7 @@ class FailFastThreadPoolExecutor(concurrent.futures.ThreadPoolExecutor):
   def __init__(self, *args, **kwargs):
     super().__init__(*args, **kwargs)
     self._incomplete_futures: List[concurrent.futures.Future] = []
+    self._first_exception: Optional[BaseException] = None
 
   def check_for_exceptions(self, wait: bool = False):
     """Raises any exceptions from complete futures on the main thread."""
@@ -87,9 +88,19 @@ class FailFastThreadPoolExecutor(concurrent.futures.ThreadPoolExecutor):
 
     self._incomplete_futures = still_incomplete_futures
 
-  def submit(self, *args, **kwargs) -> concurrent.futures.Future:
+  def _run_unless_failed(self, fn, *args, **kwargs):
+    """Runs `fn`, unless one of the functions submitted earlier has failed."""
+    if self._first_exception is not None:
+      raise self._first_exception
+    try:
+      return fn(*args, **kwargs)
+    except BaseException as e:
+      self._first_exception = e
+      raise
+
+  def submit(self, fn, *args, **kwargs) -> concurrent.futures.Future:
     """Submit function to threadpool, capturing the returned future."""
-    future = super().submit(*args, **kwargs)
+    future = super().submit(self._run_unless_failed, fn, *args, **kwargs)
     self._incomplete_futures.append(future)
     self.check_for_exceptions(wait=False)
     return future
-- 
2.43.0


From d5765600422a82bfff1c5f693c776d479a055e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 18/32] fix: accept 2-D parameter sharding for MoE with a
 warning, as documented

---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From 221a80fea4246abc2e1604d14557156bc7c74059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 19/32] fix: make checkpoint translation rules match complete
 variable names

'pattern$' with re.match let a top-level alternation match a mere prefix and
accepted a trailing newline; match the whole name with fullmatch.
---
 t5x/checkpoint_importer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoint_importer.py b/t5x/checkpoint_importer.py
index 312ecf5..e39634f 100644
--- a/t5x/checkpoint_importer.py
+++ b/t5x/checkpoint_importer.py
@@ -206,7 +206,7 @@ class CheckpointTranslator:
 
     Args:
       pattern: regex with capture groups for matching given sets of model
-        variables.  We terminate all regexes with '$' to force complete matches.
+        variables.  A regex has to match the complete variable name.
 
     Returns:
       Translation function decorator for associating with the provided
@@ -214,8 +214,8 @@ class CheckpointTranslator:
     """
 
     def register_translation_fn_decorator(fn):
-      # We force a complete match by adding end-of-string match.
-      self.rules.append((re.compile(pattern + '$'), fn))
+      # A complete match is forced by `apply`, which uses `fullmatch`.
+      self.rules.append((re.compile(pattern), fn))
       return fn
 
     return register_translation_fn_decorator
@@ -236,8 +236,8 @@ class CheckpointTranslator:
     for k, v in flatdict.items():
       matched = False
       for rule_pat, rule_fn in self.rules:
-        if rule_pat.match(k):
-          groups = rule_pat.match(k).groups()
+        if rule_pat.fullmatch(k):
+          groups = rule_pat.fullmatch(k).groups()
           new_k, new_v = rule_fn(opts, k, v, *groups)
           if new_k is not None:
             new_dict[new_k] = new_v
-- 
2.43.0


From d90abf2c7fb6b1f477b63f53c29334a0ce212b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 20/32] fix: report optimizer variables missing from an
 imported T5 checkpoint

---
 t5x/checkpoint_importer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t5x/checkpoint_importer.py b/t5x/checkpoint_importer.py
index e39634f..1f04901 100644
--- a/t5x/checkpoint_importer.py
+++ b/t5x/checkpoint_importer.py
@@ -495,6 +495,11 @@ def _update_state_dict(
       if k not in flat_state_dict:
         t5_data.pop(k)
 
+  # Variables of the optimizer the checkpoint does not provide.
+  for k in flat_state_dict:
+    if k not in t5_data:
+      raise ValueError(f'Variable {k} is missing from the T5 checkpoint.')
+
   # Shape check.
   for k, v in t5_data.items():
     if flat_state_dict[k].shape != v.shape:
-- 
2.43.0


From 6af33369cecd5d78ef73a44c5a8646ed851194ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 21/32] fix: keep inference resumable when it is killed while
 its iterator checkpoint is moved

Moving index and data one after the other over the previous checkpoint could
leave an index and data of different chunks, with which every restart failed.
---
 t5x/infer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 775f0b3..9c21b5e 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -603,7 +603,7 @@ def infer(
       ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
 
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
+      if gfile.exists(ckpt_path + '.index'):
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
@@ -652,8 +652,14 @@ def infer(
       )
 
       if chunk_ckpt_path:
-        # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
+        # Canonicalize checkpoint. Its index is removed first and moved last, so
+        # that data and index belong together whenever there is an index.
+        if gfile.exists(ckpt_path + '.index'):
+          gfile.remove(ckpt_path + '.index')
+        for fname in sorted(
+            gfile.glob(chunk_ckpt_path + '*'),
+            key=lambda fname: fname.endswith('.index'),
+        ):
           gfile.rename(
               fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
           )
-- 
2.43.0


From 69e540ba421a802d44a5182f250c0475ab0ba944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 22/32] fix: generate nothing for a row that starts at its
 decoding limit

---
 t5x/contrib/calm/decoding.py | 3 ++-
 t5x/decoding.py              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 93376c1..ff77fab 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -472,7 +472,8 @@ def _temperature_sample_single_trial(
         expanded_prompt_inputs, jnp.expand_dims(i0, axis=1), axis=1
     )
   # per batch-item state bit indicating if sentence has finished.
-  ended0 = jnp.zeros((batch_size, 1), dtype=jnp.bool_)
+  # One that starts at its limit has nothing left to generate.
+  ended0 = jnp.expand_dims(i0 >= max_decode_len, axis=1)
   # (batch, length+2) array containing prefix prompt tokens for sampling loop
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
diff --git a/t5x/decoding.py b/t5x/decoding.py
index c51df94..1e56c71 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -491,7 +491,8 @@ def _temperature_sample_single_trial(
         expanded_prompt_inputs, jnp.expand_dims(i0, axis=1), axis=1
     )
   # per batch-item state bit indicating if sentence has finished.
-  ended0 = jnp.zeros((batch_size, 1), dtype=jnp.bool_)
+  # One that starts at its limit has nothing left to generate.
+  ended0 = jnp.expand_dims(i0 >= max_decode_len, axis=1)
   # (batch, length+2) array containing prefix prompt tokens for sampling loop
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
-- 
2.43.0


From d9aac44aa4e90312f004df5542e4fdf6686e87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 23/32] fix: accept max_decode_steps when sampling with early
 exits

---
 t5x/contrib/calm/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index ff77fab..c44629b 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -478,8 +478,8 @@ def _temperature_sample_single_trial(
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
   log_prob0 = jnp.zeros((batch_size,), dtype=jnp.float32)
-  confidences0 = -1.0 * jnp.ones((batch_size, max_decode_len), jnp.float32)
-  exits0 = -1 * jnp.ones((batch_size, max_decode_len), jnp.int32)
+  confidences0 = -1.0 * jnp.ones(inputs.shape, jnp.float32)
+  exits0 = -1 * jnp.ones(inputs.shape, jnp.int32)
   sampling_loop_init_state = SamplingLoopState(
       i0,
       sequences0,
-- 
2.43.0


From 653dcf3e2299ed8e5e160c4ea5da6be734d573dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 24/32] fix: ignore a traced topp of zero when sampling with
 early exits

---
 t5x/contrib/calm/decoding.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index c44629b..e54e39a 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -534,10 +534,14 @@ def _temperature_sample_single_trial(
       if topk:
         scaled_logits = binary_search.topk_mask(scaled_logits, topk, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
 
-      # When topp is dynamic, we always use it since we cannot check
-      # non-zeroness (but it will have no effect if topp is 0.0).
+      # When topp is dynamic, we cannot check non-zeroness while tracing, so the
+      # mask is computed and then ignored where topp is 0.0.
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jnp.where(
+            jnp.expand_dims(jnp.asarray(topp) > 0.0, axis=-1),
+            binary_search.topp_mask(scaled_logits, topp, NEG_INF),  # pytype: disable=wrong-arg-types  # jax-ndarray
+            scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
-- 
2.43.0


From 4be44b00d1f3c0672e1fb6aa3502b1a3fd4334c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 25/32] fix: let beam search generate after a prompt that fills
 the input

---
 t5x/decoding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 1e56c71..e68b706 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1241,6 +1241,9 @@ def beam_search(
   else:
     initial_index = jnp.zeros((batch_size,), dtype=jnp.int32)
 
+  # A prompt may fill the whole input: the positions after it are not forced.
+  inputs = jnp.pad(inputs, ((0, 0), (0, 1)), constant_values=0)
+
   # initialize beam search state
   beam_search_init_state = beam_init(
       batch_size,
-- 
2.43.0


From d34cf60f6d0aab3eab97fb848f88535d698b1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 26/32] fix: keep beam search finite when tokens are ruled out
 by -inf logits

---
 t5x/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index e68b706..99fbdb4 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1345,7 +1345,9 @@ def beam_search(
     )
 
     # Gather log probabilities from logits
-    candidate_log_probs = jax.nn.log_softmax(logits)
+    # Tokens ruled out by -inf logits get a large negative but finite value:
+    # beams are gathered by one-hot contraction, where -inf would become NaN.
+    candidate_log_probs = jnp.maximum(jax.nn.log_softmax(logits), NEG_INF)
     # Add new logprobs to existing prefix logprobs.
     # --> [batch, beam, vocab]
     log_probs = candidate_log_probs + jnp.expand_dims(
-- 
2.43.0


From a88f99d16055a5922d82c5a238755e57e7e3c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 27/32] fix: do not count ruled out beams as finished
 hypotheses

---
 t5x/decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 99fbdb4..da0a2b7 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1426,7 +1426,10 @@ def beam_search(
     # Update LIVE (in-progress) sequences:
     # Did any of these sequences reach an end marker?
     # --> [batch, 2*beams]
-    newly_finished = topk_seq[:, :, state.cur_index + 1] == end_marker
+    # Ruled out candidates (placeholder beams, -inf logits) never finish.
+    newly_finished = (topk_seq[:, :, state.cur_index + 1] == end_marker) & (
+        topk_log_probs > NEG_INF
+    )
     # To prevent these newly finished sequences from being added to the LIVE
     # set of active beam search sequences, set their log probs to a very large
     # negative value.
-- 
2.43.0


From d5ae596aa7e181beb2094c3b9c333c55051755f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 28/32] fix: keep a weight decay rate of zero when it is tied
 to the learning rate

---
 t5x/adafactor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/adafactor.py b/t5x/adafactor.py
index 1920fd5..4e8833e 100644
--- a/t5x/adafactor.py
+++ b/t5x/adafactor.py
@@ -475,7 +475,7 @@ class Adafactor(OptimizerDef):
     epsilon2 = hyper_params.epsilon2
     if hyper_params.weight_decay_rate_lr_exponent:
       weight_decay_rate = (
-          weight_decay_rate or 1.0
+          1.0 if weight_decay_rate is None else weight_decay_rate
       ) * learning_rate**hyper_params.weight_decay_rate_lr_exponent
 
     if self.hyper_params.factored:
-- 
2.43.0


From 3455dacb2bf152638d4e369758656c8d2942971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 29/32] fix: apply save_dtype to the parameters the Orbax
 manager saves

---
 t5x/checkpoints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index a53ed87..dbd8124 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2053,9 +2053,10 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
-    dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  if param_info.name.split('/')[0] != 'target' or dtype is None:
+    return ocp.SaveArgs()
+  # Orbax needs an instance of `np.dtype`, not e.g. the class `np.float32`.
+  return ocp.SaveArgs(dtype=jnp.dtype(dtype))
 
 
 def _construct_restore_args(
-- 
2.43.0


From 393534f47a86f9ae836ce8ed3d9aba8402f3ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 30/32] fix: cast only parameters to restore_dtype in the Orbax
 restore

---
 t5x/checkpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index dbd8124..469abae 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2515,11 +2515,13 @@ class OrbaxCheckpointManagerInterface:
     # fallback state.
     def _maybe_make_sharded_array_helper(arr, info):
       if arr is not None:
+        # ensure that only 'target' is cast
+        is_target = info.name.split('/')[0] == 'target'
         return _maybe_make_sharded_array(
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            restore_dtype=self._restore_dtype if is_target else None,
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From d9cb8ba38f9a40df64d6d2866ca7225e335d4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 31/32] fix: keep the type of unpartitioned parameters saved
 without save_dtype

---
 t5x/checkpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 469abae..1a17185 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -947,7 +947,9 @@ class Checkpointer(object):
     state_dict_for_save = self._get_state_dict_for_save(transformed_state_dict)
 
     def _cast_arr_if_not_partitioned(maybe_arr, param_info):
-      if param_info is None or param_info.ts_spec is None:
+      if self._save_dtype is not None and (
+          param_info is None or param_info.ts_spec is None
+      ):
         return _cast(maybe_arr, self._save_dtype)
       return maybe_arr
 
-- 
2.43.0


From 1267f8be0193b4e9a123e79e6a0c2f941c349175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 32/32] fix: do not change the decoder_params of the caller
 when predicting

---
 t5x/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t5x/models.py b/t5x/models.py
index 4ca0783..386219a 100644
--- a/t5x/models.py
+++ b/t5x/models.py
@@ -714,8 +714,8 @@ class EncoderDecoderModel(BaseTransformerModel):
         max_decode_length=decoder_input_tokens.shape[1],
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # A copy: the caller may use the same parameters for another batch.
+    decoder_params = dict(decoder_params or {})
     if initial_index is not None:
       # We only set initial_index when it's non-None since it is not supported
       # by all decoders.
@@ -1201,8 +1201,8 @@ class DecoderOnlyModel(BaseTransformerModel):
         max_decode_length=max_decode_length,
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # A copy: the caller may use the same parameters for another batch.
+    decoder_params = dict(decoder_params or {})
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0

