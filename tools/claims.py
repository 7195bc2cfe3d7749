CLAIMED = {}
DESIGN = {}
NOT_APPLICABLE = {}
CLAIMED['T02'] = (
    'Proved for every start step, total, period, evaluation period, statistics period and sorted step list: train() runs each step '
    'once, saves each periodic/listed/final step, evaluates when due and never trains after a stop request (loop invariants for both '
    'loops with a ghost step). Assumed: collaborators of train() (datasets, writers, evaluator) do not change the step; '
    'BaseTrainer.train advances by num_steps (T03); CheckpointManager.save writes state.step (C01); step lists are sorted.')
CLAIMED['D01'] = (
    'Proved for every batch, vocabulary size, k and p: the bit searches return the exact boundary of any monotone predicate (bit-vector '
    'and IEEE float VCs), topk_mask keeps exactly the scores >= the k-th largest and topp_mask exactly those at or above the highest '
    'threshold whose softmax mass reaches p, at the sampler as well. Floats other than the searched bits are reals; '
    'jax.nn.softmax is its mathematical definition; sums/sorts by axiom.')
CLAIMED['L01'] = (
    'Proved for every batch, sequence length, vocabulary, logit, target, weight and coefficient: the loss is label-smoothed cross entropy '
    'plus z-loss, weighted per token; the hand-written backward pass equals the symbolic derivative of the forward pass (term by term, '
    'with targets summing to one); each normalisation is the documented one. Floats are reals; log/exp/softmax by their defining '
    'identities; packed-segment weights by sum axioms.')
CLAIMED['L02'] = (
    'Proved for every value: merges of all metric classes are associative, commutative and add sums and steps; compute divides as documented; '
    'the bulk setters touch exactly the metrics of their kind; count_packed_examples equals the number of segment starts of each row '
    '(induction over positions). Assumed: jax.tree.map semantics; metric floats are reals; packed rows hold contiguous segments.')
CLAIMED['T01'] = (
    'Proved for every batch size k*m, every k >= 2 and any loss: microbatch i is rows i*m..(i+1)*m-1 of every feature, the loop invariant '
    'keeps gradient sum, merged metrics and threaded mutables of the first i microbatches; non-dividing counts raise; one update with the '
    'accumulated gradient; step + 1 for each optimiser class; additive losses give the full-batch gradient (induction lemma). '
    'Assumed: jax.grad is the gradient; float addition is real addition.')
CLAIMED['T03'] = (
    'Proved for every start, number of steps, batch stream and metric history: train() takes batch i in state i for exactly num_steps '
    '(loop invariant), randomness = fold_in(base, step), early stopping equals its window definition with a class invariant on the kept '
    'history, NaN guard, run_actions = disjunction of all actions run once in order. Assumed: fold_in is a function of key and number; '
    'metric comparisons are those of the reals.')
CLAIMED['M01'] = (
    'Proved for every mesh size, host layout, chunk count and array dimension (rank and number of mesh axes enumerated up to 3, marked per unit): '
    'the chunk arithmetic gives every host a slice inside the array, equal sizes, equal slices for equal chunk ids, disjoint otherwise, complete cover, '
    'exactly one replica zero per chunk, and valid data-layout shard numbers. Assumed: jax device/host bookkeeping (local mesh, process index) '
    'is a regular host grid; sharded dimensions divide evenly (else the code rejects).')
CLAIMED['M02'] = (
    'Proved per topology rank for every host/device extent: the device mesh is a permutation of the devices in the requested model-parallel shape, '
    'inadmissible requests raise, the expert axis is the largest allowed divisor. numpy reshape/transpose by their index definition. '
    'Bounded replay enumerates concrete topologies.')
CLAIMED['C04'] = (
    'Proved for every array of rank 0-3 (marked per unit; the loop is cut by an invariant, so any number of splits) and every target size: chunk '
    'dimensions divide the array dimensions and the result fits or cannot be split further. Path rewriting proved over symbolic strings: round '
    'trips preserve every field and non-array entries. Assumed: posix path join by its definition. Bounded replay on the real functions.')
CLAIMED['C05'] = (
    'Proved for every budget and request: the monitor invariant 0 <= free <= budget holds at every suspension point, waiters are granted exactly '
    'when the request fits, every return notifies, and each array write of a save reserves and returns its own bytes once on the single shared budget. '
    'Assumed: asyncio.Condition semantics, fair scheduling. Bounded replay drives many schedules of the real coroutine.')
CLAIMED['C03'] = (
    'Proved for every step number, parent directory and requested step (strings symbolic): name and step convert losslessly, listing (directories of up to '
    '2 entries of any name) gives exactly the final names ascending, restore opens exactly the requested/latest checkpoint for the T5X and Orbax '
    'checkpointers, find_checkpoint resolves every kind of path, the first valid configuration is chosen (loop invariant, any number of configurations). '
    'Assumed: gfile.glob, regular expressions and posixpath by definition; parent directories without newlines or glob characters. Bounded replay on real directories.')
CLAIMED['C01'] = (
    'Proved for every step, time stamp, host role and every single failing operation of Checkpointer.save: contents go only below a temporary name that the '
    'listing never recognises, one rename after all data, metadata and a barrier over all hosts, an existing step is left untouched, removals only afterwards '
    '(a crash is the end of the operation trace at any point). Assumed: atomic rename, barrier semantics. Bounded replay: a crash before every executed '
    'line of real saves, I/O failures, several hosts as threads with one held up, Orbax.')
CLAIMED['C02'] = (
    'Proved for any number of checkpoints, any steps, limits and metrics (loop invariant over the removals): the removed ones are exactly the oldest (or worst, '
    'ties oldest first) candidates beyond the limit, each listed and removed once; latest, force-kept and unmeasured ones survive (force-kept part for up to 4 '
    'checkpoints); pinned ones are never touched. Assumed: metrics finite; sorted/filter contracts; Orbax internals. Bounded replay on real directories, event files and Orbax.')
CLAIMED['S01'] = (
    'Proved for any checkpoint, target and number of rules over opaque names (invariants for all four loops): each target entry gets the value of the '
    'source its first fully matching rule names, skip rules omit it, unmatched ones take the equally named entry, an error means a missing source; resuming is the '
    'identity; the regex map returns the first full match. Axis overrides on trees and unused-rule errors by bounded replay. '
    'Assumed: flatten/unflatten are inverse (S02), re.fullmatch/expand are functions of their arguments.')
CLAIMED['S02'] = (
    'Proved for any two states (symbolic maps, loop invariants): intersecting keeps exactly the common entries with the first values, merging exactly the entries of '
    'either with the documented value. Flattening itself is flax flatten_dict: assumed, exercised by bounded replay over random trees (array-store leaves, near misses, empty nodes).')

CLAIMED['I01'] = (
    'Proved for every dataset length, batch size, number of shards, indices and randomness (contracts for take/map/concatenate/shard/batch): padding completes the last batch '
    'with index -1 rows, every example is in one batch of one shard, successive batches get successive splits of the key on every shard alike, padding rows are dropped, '
    'rows return in dataset order with their auxiliary values. Assumed: tf.data operators and argsort by definition. Bounded replay with tf.data and simulated shards.')
CLAIMED['I02'] = (
    'Proved for any number of pending writers (loop invariant over futures): the check raises exactly when a finished one failed, never waits unless asked to, keeps the unfinished ones, '
    'and no chunk is written after a failure. Merging, the chunk loop with interruptions, evaluation order and resumption by bounded replay on the real functions '
    '(up to 100001 chunks, random histories). Assumed: concurrent.futures semantics.')
CLAIMED['T04'] = (
    'Proved for every step, hyper-parameter and list of factors (loop invariant: product of the first i factors over an uninterpreted factor list): rate = max(minimum, product) with each '
    'documented factor; unknown factor raises. Assumed: jax arithmetic is real arithmetic; cos, sqrt and powers by their defining identities. Bounded replay in float32, traced and untraced.')
CLAIMED['M03'] = (
    'Proved for all settings and any list of extra rules, resources, named entries (sequences of any length): standard rules equal the documented table, extra rules follow, expert overrides change '
    'exactly the data entries, gradient scaling and named maps touch exactly the matching entries in order. Assumed: jax tree order, re.match as a function. Bounded replay over trees and patterns.')
CLAIMED['O02'] = (
    'Proved for any parameter tree (symbolic maps over opaque names) and any number of optimiser parts (loop invariants): overlapping parts are rejected, each part changes exactly its parameters and slots, '
    'step + 1, unselected entries stay; serialised form and restore are inverse, missing entries raise, axes kept. Assumed: flax to/from_state_dict, flatten_dict and optax updates. '
    'Types: for every entry name the save/restore type applies to the parameters only (both checkpointers, 3 top entries, symbolic lower names). '
    'Bounded replay over all wrapped optimisers and real checkpoints for 12 pairs of types.')
CLAIMED['D04'] = (
    'Proved for every batch, length and token values: right alignment moves each row by exactly its trailing padding, left alignment by its leading padding '
    '(loop invariant over the bits of the shift), their composition is the identity for prompts starting with a token, the last prompt token, and prefix '
    'removal for every prefix 0..length. Assumed: pad/where/argmax/roll by their index definition, jax.vmap, the count of a run of ones. Bounded replay up to length 1000.')
CLAIMED['A01'] = (
    'Proved for every batch, length, token, prefix and segment value, in all three layer files: each mask entry equals the rule (masks of rank 1-3), combine_masks is '
    'the conjunction of the masks given; for every distance, bucket count and maximum: buckets are exact below half the range, follow the logarithm above it, stay in '
    'their half of the table and never decrease; the bias of a pair is the table entry of its bucket. Assumed: np.log is increasing, floats are reals '
    '(bounded replay checks float32 for 209 tables and distances up to 2100).')
CLAIMED['C06'] = (
    'Proved: every T5 rule over symbolic variable names (any block and layer number, any slot suffix) gives the documented name and no rule covers other families; the first fully matching '
    'rule of any rule table decides, unmatched names are reported (loop invariants over symbolic maps); placeholder slots, relative-position move, state update (exact keys, equal shapes) for any '
    'checkpoint; lazy values convert once. Assumed: re by definition on the pieces of a name, flatten_dict, tf reader. Bounded replay on the real functions and whole imports.')
CLAIMED['D02'] = (
    'Proved for every batch, length, vocabulary, prompt, model output, drawn token and limit, in decoding.py and contrib/calm (loop invariants over the sampling loop with a ghost history): prompts '
    'verbatim, only padding after a generated end token, never beyond the limits, score = sum of the log-probabilities of the tokens generated (rescaled or not), greedy at zero temperature, '
    'expansion over samples and ascending order within each example, termination. Assumed: random.categorical draws some token, log_softmax and the masks are functions (D01). '
    'Batch prediction of both models for any batch: prompt, cache, start, end token, key and settings reach the decoder, each decode sees its example, best decode returned. '
    'Bounded replay with scripted models.')
CLAIMED['D03'] = (
    'Proved for every batch, length, vocabulary, cache and model output, for 1 and 2 beams: each round keeps exactly the best unfinished candidates and the best finished hypotheses of the example with '
    'their caches, scores and lengths; prompts kept; what is returned, its order and padding; when the search may stop. Beam helpers and gathers for any sizes; top_k_two_stage and gather_topk_beams at '
    'stated concrete sizes (any values). Assumed: scores above -1e7, log_softmax and brevity_penalty are functions, lax.top_k by definition. Bounded replay against a reference search, up to 4 beams.')
CLAIMED['O01'] = (
    'Proved: first matching rule for any rule list (loop invariant); the two largest dimensions for any sizes (rank 0-4); every rule of rank 0-5 parsed as documented; slot shapes for any sizes (rank 0-3, '
    'rank 4 on a sample, labelled bounded); the update of a parameter equals the documented formula entry by entry for any sizes, values, statistics, step and hyper-parameters, for 14 kinds of '
    'factorisation and 13 settings, traced through jax; a tree of three parameters of any sizes (bounded in their number). Assumed: floats are reals, NaN an abstract predicate, np.argsort/delete. '
    'Bounded replay against numpy over random trees, axis-name rules and shipped tables.')
