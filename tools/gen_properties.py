"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
  assert len(title) <= 80, (id, len(title))
  P.append({
      'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': qtext},
      'why_tests_cant': why,
      'anchors': {
          'files': files,
          'mechanism': [{'name': n, 'where': w} for n, w in mech],
          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
          'observe_at': list(observe), 'hook_needed': None}})

# ---------------------------------------------------------------- decoding
prop('D01', 'Top-k and top-p filters keep exactly the documented set of scores',
 'For every batch of scores, top-k filtering replaces exactly the entries that are smaller than the k-th largest of their row and leaves every other entry bit-for-bit unchanged; top-p filtering keeps exactly the entries at or above the highest score threshold whose retained probability mass reaches p, so the most likely entry always survives. The bit-level searches underneath return, for every monotone predicate over the whole 32-bit integer range or all finite floats, the largest value on the false side.',
 ['inputs'], 'all score vectors (any length, sign, ties), all k and p, all 2^32 thresholds',
 'The unit tests evaluate a few hand-picked arrays and thresholds; exactness must hold at every one of the 2^32 bit patterns, sign boundaries and ties.',
 ['t5x/binary_search.py'],
 [('32-step bisection on bits', 't5x/binary_search.py int32_bsearch'),
  ('order preserving int32->float32 map', 't5x/binary_search.py _monotonic_int32_to_float32_bit_pattern'),
  ('threshold predicates', 't5x/binary_search.py topk_mask / topp_mask')], observe=['return values of the mask functions'])

prop('D02', 'Sampled sequences respect prompt, end-of-sequence and length limits',
 'Whatever the model returns, sampling (plain or with early exits) from prompts made of a begin-of-sequence padding, tokens and padding keeps each given prompt verbatim, emits nothing but padding after the first generated end-of-sequence token, never generates past the requested number of new tokens or the hard limit, and stops only when every sequence ended or its limit is reached. The reported score of a sequence is the sum of the log-probabilities of exactly the tokens generated for it up to and including its end token, multiple samples per example are returned ordered by score within their own example, and zero temperature or top-1 decoding is greedy. A batch prediction hands the decoder the prompt of the batch, the prefilled cache and its start, the end token and the settings of the caller; every decode of an example sees the inputs of that example; the best decode (or all of them) is returned with its score; and the settings of the caller are left as they were, so predicting again gives the same.',
 ['inputs', 'histories'], 'all prompts, lengths, batch sizes, model outputs, sampled tokens, limits and loop iterations',
 'The tests decode a handful of scripted token streams; the guarantee is over every model output history and every prompt/limit combination.',
 ['t5x/decoding.py', 't5x/contrib/calm/decoding.py', 't5x/models.py'],
 [('prediction', 't5x/models.py EncoderDecoderModel/DecoderOnlyModel.predict_batch_with_aux/_compute_kv_cache/_compute_logits_from_slice'), ('loop body and stop condition', 't5x/decoding.py _temperature_sample_single_trial'),
  ('expansion over samples and sorting', 't5x/decoding.py temperature_sample')],
 [('sampling loop state', 'position, sequences, ended flags, running score', 't5x/decoding.py SamplingLoopState')], ['decoded ids and scores'])

prop('D03', 'Beam search keeps examples apart and scores what it returns',
 'Beam bookkeeping only adds, merges, splits and selects beams inside each batch element: merging and splitting the beam dimension are inverse, selecting beams returns exactly the requested beams of the same example for every cache entry (position indices and excluded entries are left untouched), and the two-stage top-k equals a direct top-k. Beam search returns, for each example, beams sorted by ascending score, each either a finished hypothesis with its length-normalised model log-probability or, when none finished, a live one, with only padding after an end token; prompts (a begin-of-sequence padding, tokens other than the end token, padding) are kept, no better continuation is dropped, and the search goes on for an example until its limit or until no live hypothesis can improve the result. Slots with no hypothesis carry a score at or below the large negative constant (-1e7), and -inf scores of the model rule tokens out.',
 ['inputs', 'histories'], 'all batch/beam/vocabulary sizes, cache shapes, permutations and model outputs',
 'Tests use fixed tiny arrays and one scripted model; index arithmetic must be right for all sizes, offsets and gather patterns.',
 ['t5x/decoding.py'],
 [('beam dimension helpers', 't5x/decoding.py add_beam_dim/flatten_beam_dim/unflatten_beam_dim/flat_batch_beam_expand/cache_map'),
  ('beam gathers', 't5x/decoding.py cache_gather_beams/gather_beams/gather_topk_beams/top_k_two_stage'),
  ('search loop', 't5x/decoding.py beam_search')],
 [('beam state', 'live/finished sequences, scores, flags', 't5x/decoding.py BeamState')], ['returned sequences and scores'])

prop('D04', 'Prompt alignment and prefix removal never lose or invent tokens',
 'Right-aligning a batch of prompts padded at the end (each starting with a real token) and left-aligning it back is the identity; each alignment only moves the padding of its own row to the other end, and the last prompt token picked (for prompts with one leading begin-of-sequence padding) is the last non-padding token. Removing the prefix of a decoded sequence returns exactly the tokens after the prefix, shifted to the front and followed by padding only, for every prefix length from zero to the full length.',
 ['inputs'], 'all batches, lengths, prompt lengths including empty and full rows, and token values',
 'Tests cover a few example rows; the statement is over every length and padding pattern.',
 ['t5x/decoding.py', 't5x/models.py'],
 [('alignment', 't5x/decoding.py _right_align_prompts/_left_align_prompts/_pick_last_prompt_token'),
  ('prefix removal', 't5x/models.py remove_prefix')], observe=['returned token arrays'])

# ---------------------------------------------------------------- losses/metrics
prop('L01', 'Training loss is the documented weighted cross entropy with true gradient',
 'For all logits, targets and loss weights the training loss is the label-smoothed cross entropy plus the configured z-loss penalty, weighted per token and divided by the normalising factor that was asked for (constant, number of real target tokens, or average per example), so a token of weight zero contributes nothing. The hand-written gradient of the loss is its mathematical gradient, including the z-loss term and for non-one-hot target distributions (summing to one).',
 ['inputs'], 'all logits, targets, weights, smoothing, z-loss coefficients and packed batch layouts',
 'Tests compare a few arrays against fixed numbers; the gradient identity and the normalisation must hold over all real inputs and segment layouts.',
 ['t5x/losses.py'],
 [('custom VJP forward/backward', 't5x/losses.py cross_entropy_with_logits and its fwd/bwd'),
  ('weighting, smoothing', 't5x/losses.py compute_weighted_cross_entropy'),
  ('normalisation', 't5x/losses.py get_loss_normalizing_factor_and_weights/_sum_weights_per_segment')], observe=['loss value', 'gradient'])

prop('L02', 'Merging step metrics equals computing them on the union of the data',
 'Merging metrics from any split of the data into steps gives the same value as computing them once on all of it: merging is associative and commutative, sums and step counts add up, and per-step and per-time averages divide the accumulated total by the accumulated steps or the set duration. Setting steps or durations touches only step or time metrics and all of them, and counting packed examples counts every distinct example of every row exactly once, ignoring padding.',
 ['inputs', 'histories'], 'all values, all splits into steps, all merge orders, all packed layouts',
 'Tests merge one or two hand-written metrics; the law ranges over all splits and orders.',
 ['t5x/metrics.py', 't5x/models.py', 't5x/trainer.py'],
 [('metric merge/compute', 't5x/metrics.py Sum/AveragePerStep/Time/TimeRate/StepsPerTime'),
  ('bulk setters', 't5x/metrics.py set_time_metrics_duration/set_step_metrics_num_steps'),
  ('packed counting', 't5x/models.py count_packed_examples'), ('tree merge', 't5x/trainer.py merge_metrics')], observe=['computed metric values'])

# ---------------------------------------------------------------- training
prop('T01', 'Gradient accumulation over microbatches equals the full-batch step',
 'Splitting a batch into any admissible number of microbatches uses every example exactly once and yields the sum of the per-microbatch gradients and merged metrics, hence for additive losses the full-batch gradient; an inadmissible split is rejected and never silently drops examples. One optimiser update follows per batch, it advances the step counter by exactly one and threads the model\'s mutable variables through the microbatches in order.',
 ['inputs', 'configurations'], 'all batch sizes, microbatch counts, losses and metric trees',
 'Tests check two small configurations with mocked losses; the equality must hold for every divisor and every loss.',
 ['t5x/trainer.py', 't5x/contrib/moe/trainer.py'],
 [('accumulation loop', 't5x/trainer.py accumulate_grads_microbatched'), ('update', 't5x/trainer.py apply_grads/train_with_lr')],
 [('loop carry', 'rng, gradient sum, metric accumulator, mutables', 't5x/trainer.py accumulate_grads_microbatched')], ['gradients, metrics, new state'])

prop('T02', 'Training runs exactly the requested steps and saves when it promised',
 'From any resume step a training run executes each remaining step exactly once up to the requested total and no further, whatever the evaluation and checkpoint periods are. A checkpoint is written at every multiple of the configured period or at each explicitly listed step (and at the end of training), never before its step has finished, and evaluation runs at the promised steps; stopping early is honoured at the next boundary.',
 ['configurations', 'histories'], 'all total steps, resume steps, periods, explicit step lists and evaluation settings',
 'Tests run a few period combinations with mocks; the schedule arithmetic must be right for every combination of resume point, period and list.',
 ['t5x/train.py', 't5x/utils.py'],
 [('main loop', 't5x/train.py train'), ('explicit step lists', 't5x/utils.py find_first_checkpoint_step/find_next_checkpoint_step'),
  ('save configuration validation', 't5x/utils.py SaveCheckpointConfig')],
 [('host step', 'number of finished steps on the host', 't5x/train.py train')], ['saved steps, executed steps'])

prop('T03', 'Step counting, per-step randomness and stop actions are exact',
 'Running a number of steps consumes exactly that many batches in order, advances the state once per step, and draws the randomness of each step from the base seed and that step number alone, so a resumed run repeats the stream of an uninterrupted one. Early stopping fires exactly when, within the configured number (at least two) of most recent consecutive evaluations, no evaluation improved on its predecessor by the required margin, and the not-a-number guard fires exactly on a not-a-number (or infinite) watched scalar metric.',
 ['histories', 'inputs'], 'all start steps, step counts, metric histories, thresholds, patience values and modes',
 'Tests replay a few histories; stop decisions depend on the whole metric history.',
 ['t5x/trainer.py', 't5x/train.py'],
 [('step loop', 't5x/trainer.py BaseTrainer.train/_get_step_rng'), ('actions', 't5x/trainer.py EarlyStoppingAction/TerminateOnNanAction'),
  ('dispatch', 't5x/train.py run_actions')],
 [('metric history', 'recent values kept by early stopping', 't5x/trainer.py EarlyStoppingAction')], ['train state, rng per step, stop flag'])

prop('T04', 'The learning-rate schedule is the product of its documented factors',
 'At every step the learning rate equals the product of the configured factors (constant, linear warm-up, linear decay, inverse square-root decay, its normalised form, step decay and cosine decay; warm-up and periods of at least one step), floored at the configured minimum; steps before the offset count as step zero. Unknown factors are rejected.',
 ['inputs', 'configurations'], 'all steps, factor lists and hyper-parameters',
 'Tests sample a few steps of one or two factor strings; boundaries such as the end of warm-up or of a decay period are never enumerated.',
 ['t5x/utils.py'], [('schedule', 't5x/utils.py create_learning_rate_scheduler')], observe=['returned rate per step'])

# ---------------------------------------------------------------- optimizers and state
prop('O01', 'Adafactor factors, scales and updates parameters as configured',
 'For every parameter shape and factorisation rule the optimiser allocates exactly the row/column or full second-moment slots its rule implies, and first-moment slots only when momentum is on; the first rule that matches a parameter name wins and an unmatched name is an error. Each update follows the documented Adafactor formula with the configured decay, clipping, scaling and weight decay, moves every parameter of the tree once with its own slots and gradient (scaled to the global norm when so configured), and an entry that would become NaN keeps its previous value when so configured. Weight decay is the configured rate, times the learning rate to the configured (non-zero) exponent when there is one.',
 ['inputs', 'configurations'], 'all parameter shapes, rules, hyper-parameters, gradients and steps',
 'Tests compare a few shapes against stored results; the rule is over all shapes and factorisation specs.',
 ['t5x/adafactor.py', 't5x/contrib/moe/adafactor_utils.py'],
 [('rule matching', 't5x/adafactor.py HParamMap'), ('factor dims', 't5x/adafactor.py Adafactor._parse_rule/_factored_dims'),
  ('slots and update', 't5x/adafactor.py Adafactor.init_param_state/apply_param_gradient')], observe=['slot shapes', 'updated parameters'])

prop('O02', 'Saving and restoring optimiser and train state is lossless',
 'Turning a train state into its serialisable form and restoring it from that form gives back the same step, parameters, optimiser slots, mutable variables and axis metadata, for every supported optimiser, and a form that lacks an entry of the state is rejected rather than silently accepted. Applying a gradient advances the step by one and, for an optimiser made of parts, each part (an optimiser keeping one state per parameter) changes exactly the parameters selected for it while all others keep their value; overlapping selections are rejected. A checkpoint converts parameters, and nothing else, to the save type and the restore type configured: the step, optimiser slots and mutable variables come back in their own type and value, with either checkpointer.',
 ['inputs', 'configurations'], 'all parameter trees, optimisers, selections and states',
 'Tests round-trip a few fixed trees; the property ranges over all tree shapes and partitions of the parameters.',
 ['t5x/train_state.py', 't5x/optimizers.py', 't5x/checkpoints.py'],
 [('stored types', 't5x/checkpoints.py Checkpointer._write_state_to_tensorstore/_read_state_from_tensorstore, OrbaxCheckpointManagerInterface.save/restore, _construct_save_args/_construct_restore_args'), ('train state', 't5x/train_state.py FlaxOptimTrainState/InferenceState'),
  ('optax wrapper', 't5x/optimizers.py OptaxWrapper.state_dict/restore_state'),
  ('multi optimiser', 't5x/optimizers.py MultiOptimizer')], observe=['restored state', 'updated parameters'])

prop('S01', 'Renaming rules move every checkpoint entry to the place they name',
 'When a restored state is renamed by an assignment map, every target entry takes the value named by the first rule whose pattern matches its whole name, entries whose rule says skip are omitted, entries no rule matches come from the equally named source entry, and a rule pointing at a missing source is an error. Overriding parameter axis names likewise uses the first full match, touches nothing else, and rejects overrides of the wrong rank.',
 ['inputs', 'configurations'], 'all state trees, names and rule lists',
 'Tests use a few rules over one small tree; precedence and full-match behaviour depend on arbitrary rule lists and names.',
 ['t5x/state_utils.py', 't5x/utils.py'],
 [('assignment', 't5x/state_utils.py apply_assignment_map'), ('axis overrides', 't5x/utils.py override_params_axes_names/_RegexMap')], observe=['renamed tree'])

prop('S02', 'Flattening, intersecting and merging states are exact tree operations',
 'Flattening a state gives one entry per leaf under its full slash-separated path, treating array-store descriptions as leaves, and loses nothing. Intersecting two states keeps exactly the entries present in both with the values of the first, and merging keeps exactly the entries of either state, taking the restored value where one exists and the reference value otherwise (the other way round when overwriting).',
 ['inputs'], 'all nested states, including empty sub-trees and array-store leaves',
 'Tests merge one fixed pair of trees.',
 ['t5x/state_utils.py'],
 [('tree operations', 't5x/state_utils.py flatten_state_dict/get_name_tree/intersect_state/merge_state')], observe=['resulting trees'])

# ---------------------------------------------------------------- checkpoints
prop('C01', 'A crash while saving never leaves a half-written checkpoint visible',
 'At every instant during a save each directory with a final checkpoint name is a completely written checkpoint: contents are written only under a temporary name that is not recognised as a checkpoint, and the final name appears by one rename after all data, metadata and dataset state are written and all hosts have synchronised. An existing checkpoint of the same step is never overwritten or altered, and older checkpoints are removed only after the new one is in place.',
 ['crash_points', 'histories', 'configurations'], 'a crash between any two file operations of a save, any step and prior directory contents',
 'Tests look at the directory after a finished save; no test stops between two file operations.',
 ['t5x/checkpoints.py', 't5x/checkpoint_utils.py', 't5x/checkpoints_utils.py'],
 [('save sequence', 't5x/checkpoints.py Checkpointer.save'), ('names', 't5x/checkpoints_utils.py get_checkpoint_dir')],
 [('checkpoint directory', 'set of final and temporary entries', 't5x/checkpoints.py Checkpointer.save')], ['directory listing after each file operation'])

prop('C02', 'Checkpoint retention removes only what the policy allows',
 'After a save with a retention limit the surviving checkpoints are the newest ones up to that limit (or, when keeping the best, those with the best metric values), every pinned checkpoint and every checkpoint on a force-kept period survives, and with no limit nothing is removed. Nothing that is not a checkpoint of this directory is ever deleted, and a checkpoint is removed at most once.',
 ['histories', 'configurations'], 'all sets of existing steps, pins, metric values, limits and periods',
 'Tests enumerate a few directories; retention is a set-level guarantee over all step sets, pins and metrics.',
 ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'],
 [('keep newest', 't5x/checkpoints.py Checkpointer._remove_old_checkpoints/_remove_old_dataset_checkpoints'),
  ('keep best', 't5x/checkpoints.py SaveBestCheckpointer._remove_old_checkpoints/_filter_out_force_keep_period_steps/populate_metrics_for_steps'),
  ('pins', 't5x/checkpoint_utils.py is_pinned_checkpoint/remove_checkpoint_dir')], observe=['directories deleted'])

prop('C03', 'Checkpoint discovery finds every saved step and restores the right one',
 'Listing steps returns, in ascending order, exactly the steps of the checkpoints present under their final name (temporary or foreign entries are ignored), directory name and step number convert into each other losslessly for every step, and the latest step is the maximum, including step zero. Restoring uses the requested step, or the latest one when none is requested, and among several restore configurations the first that has a checkpoint is used.',
 ['inputs', 'configurations', 'histories'], 'all directory contents, step numbers, requested steps and configuration lists',
 'Tests list a few directories; zero, gaps, many-digit steps, partial writes and foreign files are not enumerated.',
 ['t5x/checkpoints_utils.py', 't5x/checkpoints.py', 't5x/utils.py', 't5x/eval.py'],
 [('step listing', 't5x/checkpoints_utils.py'), ('restore step choice', 't5x/checkpoints.py Checkpointer.restore, OrbaxCheckpointManagerInterface.restore'),
  ('configuration choice', 't5x/utils.py get_first_valid_restore_config_and_paths, restore, get_fallback_state'), ('path resolution', 't5x/checkpoints.py find_checkpoint')], observe=['step list', 'path opened by a restore'])

prop('C04', 'Checkpoint chunks tile arrays and stored paths survive relocation',
 'The chunk shape chosen for an array (of any positive dimensions) divides the array shape in every dimension and, whenever a further split is possible, has no more elements than requested; an array that already fits is not split. Rewriting the stored location of an array (relative to absolute, or between file and cloud storage) and back preserves the location and every other field of its description and leaves non-array entries alone.',
 ['inputs'], 'all array shapes, target sizes and stored descriptions',
 'Tests use a few shapes and one description.',
 ['t5x/checkpoints.py'],
 [('chunk choice', 't5x/checkpoints.py _choose_chunk_shape'), ('path rewriting', 't5x/checkpoints.py _update_ts_path_from_relative_to_absolute/_maybe_update_ts_from_file_to_gcs/_maybe_update_ts_from_gcs_to_file')], observe=['chunk shape', 'rewritten description'])

prop('C05', 'The in-flight byte budget is respected and never deadlocks',
 'While the arrays of a checkpoint are written concurrently the bytes reserved at any moment never exceed the configured budget, every reservation is returned exactly once, and each request that fits in the budget is granted once enough reservations have been returned, including one as large as the whole budget.',
 ['schedules', 'inputs'], 'all interleavings of reservations and releases, all request sizes up to the budget',
 'No test runs concurrent reservations near the budget; the guarantee is over every schedule.',
 ['t5x/checkpoints.py'],
 [('budget monitor', 't5x/checkpoints.py _BytesConditionVariable'), ('users', 't5x/checkpoints.py Checkpointer._write_state_to_tensorstore, _create_lazy_awaitable_array')],
 [('available bytes', 'remaining budget', 't5x/checkpoints.py _BytesConditionVariable')], ['granted reservations'])

prop('C06', 'Imported legacy checkpoints map each variable to its documented place',
 'Importing a legacy checkpoint sends every variable to the one name and layout its documented rule gives (the first rule matching the whole name), reports every variable no rule covers, adds exactly the placeholder slots the optimiser of the model expects and the legacy one lacks, and moves the relative-position bias to where the model expects it, values unchanged. Loading imported values into a state replaces exactly the named entries, demands equal shapes and known names, and converts lazily without changing values.',
 ['inputs'], 'all variable names and shapes of legacy checkpoints, all rule tables',
 'Tests translate one checkpoint listing; name patterns range over layer numbers, kinds, slots and unknown names.',
 ['t5x/checkpoint_importer.py'],
 [('translator', 't5x/checkpoint_importer.py CheckpointTranslator and rules'), ('fix-ups', 't5x/checkpoint_importer.py _add_missing_param_states/_maybe_correct_relpos_bias'),
  ('state update', 't5x/checkpoint_importer.py _update_state_dict/restore_from_t5_checkpoint'), ('lazy arrays', 't5x/checkpoint_importer.py LazyArray')], observe=['translated tree'])

# ---------------------------------------------------------------- partitioning
prop('M01', 'Host-local chunks tile the global array with one writer per chunk',
 'For every mesh of hosts and devices and every sharding of an array, the slices assigned to the hosts are equal in size, stay inside the array, coincide for hosts with the same chunk number and otherwise are disjoint, and together cover the whole array, for every sharded dimension that divides evenly (a partial last chunk is not supported). Among the hosts holding the same slice exactly one has replica number zero, and the data layout gives each host a valid shard number with hosts sharing data getting the same one.',
 ['configurations', 'inputs'], 'all mesh shapes, host layouts, array shapes and partition specs',
 'Tests mock one or two host layouts; tiling must hold on every host for every mesh and spec.',
 ['t5x/partitioning.py', 't5x/contrib/moe/partitioning.py'],
 [('chunk arithmetic', 't5x/partitioning.py LocalChunker.get_local_chunk_info/get_shard_id/get_replica_id'),
  ('data layout', 't5x/partitioning.py BasePartitioner.get_data_layout')],
 [('chunker', 'chunk counts, this host\'s chunk ids, chunks per host', 't5x/partitioning.py LocalChunker')], ['slices, shard and replica ids'])

prop('M02', 'Device meshes use every device exactly once in the requested shape',
 'The device mesh built for any accelerator topology and any admissible model-parallel submesh or partition count contains each device exactly once, has the requested model-parallel size and gives the rest to data parallelism; inadmissible requests are rejected. For expert models the expert axis is the largest size that is allowed, divides what is left, and is at most the requested number of experts.',
 ['configurations'], 'all host/device topologies, submeshes, partition counts and expert counts',
 'Tests mock a few topologies; the permutation property must hold for all.',
 ['t5x/partitioning.py', 't5x/contrib/moe/partitioning.py'],
 [('mesh construction', 't5x/partitioning.py get_mesh/bounds_from_last_device/get_coords/default_mesh/get_gpu_mesh/get_cpu_mesh'),
  ('expert mesh', 't5x/contrib/moe/partitioning.py default_moe_mesh/compute_num_model_partitions')], observe=['mesh device array and axis names'])

prop('M03', 'Logical axis rules and expert overrides shard only what they name',
 'The standard axis rules give each logical axis the mesh axes its documented activation/parameter dimensionality calls for, rules given by the user are appended after them, and an unsupported combination is rejected. For expert models the override shards exactly the expert entries and leaves all others alone, and the gradient scaling and named tree maps touch exactly the entries whose name matches, in unchanged tree order.',
 ['configurations', 'inputs'], 'all dimensionality settings, extra rules, parameter trees and name patterns',
 'Tests compare one or two rule lists and one small tree.',
 ['t5x/partitioning.py', 't5x/contrib/moe/partitioning.py', 't5x/contrib/moe/training_utils.py', 't5x/contrib/moe/adafactor_utils.py'],
 [('rules', 't5x/partitioning.py standard_logical_axis_rules, t5x/contrib/moe/partitioning.py standard_logical_axis_rules'),
  ('overrides', 't5x/contrib/moe/partitioning.py override_partition_specs'),
  ('named maps', 't5x/contrib/moe/training_utils.py scale_sharded_grads/tree_map_with_names/match_fn')], observe=['rules, partition specs, scaled gradients'])

# ---------------------------------------------------------------- inference
prop('I01', 'Batch inference returns one result per example, in dataset order',
 'For any non-empty dataset, batch size and number of data shards, inference returns exactly one result per dataset example, in dataset order, with results of padding rows dropped and each example\'s auxiliary values attached to the same example. The randomness handed to successive batches differs and does not depend on the sharding.',
 ['inputs', 'configurations', 'histories'], 'all dataset sizes, batch sizes, shard and process counts',
 'Tests run a few sizes on one process; padding and re-ordering arithmetic must hold for all remainders and shard counts.',
 ['t5x/utils.py', 't5x/infer.py'],
 [('padding, sharding, gather', 't5x/utils.py get_infer_fn/_remove_padding'), ('sorting', 't5x/infer.py _extract_tokens_and_aux_values')], observe=['list of results'])

prop('I02', 'Chunked inference files and evaluation bookkeeping lose and repeat nothing',
 'Merging per-chunk result files yields all chunks in numerical order exactly once, only when the expected number of chunks is present, and a failure in a background writer is reported at the next check without blocking. An inference interrupted at any point can be run again and then delivers every row exactly once. Evaluating a series of checkpoints visits each not-yet-evaluated one exactly once in ascending step order, and resuming skips exactly the recorded ones.',
 ['histories', 'schedules', 'inputs'], 'all chunk counts, completion orders, failures, checkpoint sets and recorded evaluations',
 'Tests use a few files and steps; numeric vs textual ordering and resume states are not enumerated.',
 ['t5x/infer.py', 't5x/eval.py'],
 [('merge', 't5x/infer.py merge_chunks_to_file'), ('fail-fast pool', 't5x/infer.py FailFastThreadPoolExecutor'),
  ('ordering and bookkeeping', 't5x/eval.py _sorted_ckpt_paths/_load_evaluated_ckpt_paths/evaluate')], observe=['merged file', 'evaluated paths'])

# ---------------------------------------------------------------- layers
prop('A01', 'Attention masks and relative-position buckets are exact',
 'For every pair of positions the decoder mask allows attention exactly when the query comes at or after the key (or both lie in the bidirectional prefix), both belong to the same packed example and neither is padding, and combining masks is their conjunction. Relative positions map to a bucket inside the table: exact distances below half the range, logarithmically growing ones after it, future and past kept apart when bidirectional and non-decreasing with distance.',
 ['inputs'], 'all sequence lengths, packings, prefixes, distances, bucket counts',
 'Tests print a few small masks and buckets.',
 ['t5x/examples/t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/examples/scalable_t5/layers.py'],
 [('masks', 't5x/examples/*/layers.py make_attention_mask/make_causal_mask/combine_masks/make_decoder_mask'),
  ('buckets', 't5x/examples/*/layers.py RelativePositionBiases._relative_position_bucket')], observe=['mask arrays', 'bucket indices'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for p in P:
    f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
