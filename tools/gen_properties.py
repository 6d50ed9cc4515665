"""Writes /verif/properties.jsonl (kept as a script so that the text is diffable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                 **({'state': state} if state else {}),
                 **({'observe_at': observe} if observe else {}), hook_needed=None)))

p('C01', 'Token-choice routing gives every kept token its own buffer slot',
  "For any gate scores, number of selected experts, capacity and priority mode, token-choice routing assigns a token only to experts among its top-K scores (all K of them unless dropped), no expert buffer slot ever receives more than one token, and every slot used lies inside the expert's capacity. "
  "A kept (token, expert) pair is combined with exactly that token's gate score for that expert; dropped pairs contribute nothing.",
  ['inputs', 'configurations'], 'all group sizes S, experts E, K<=E, capacities C>=1, all gate matrices (ties included), priority on/off, both dispatcher kinds',
  'moe_test samples a few tiny gate matrices; slot collisions or off-by-one overruns appear only for particular score patterns, ties and capacities.',
  ['vmoe/moe.py'],
  [('per-expert running count of assignments', 'vmoe/moe.py:_get_top_experts_per_item_common'), ('one-hot dispatch weights limited to capacity', 'vmoe/moe.py:_get_top_experts_per_item_einsum_dispatcher'), ('(expert, slot) index pairs', 'vmoe/moe.py:_get_top_experts_per_item_expert_indices_dispatcher')],
  ['vmoe/moe.py:get_top_experts_per_item_dispatcher'])

p('C02', 'Capacity overflow drops only the lowest-priority assignments',
  "When an expert is over capacity, all first choices are placed before all second choices and so on; within a rank, tokens are ordered by position, or by decreasing best score when batch priority is on. "
  "An assignment is dropped only if the expert's buffer is already filled by assignments of higher priority, and a kept assignment's slot number equals the number of higher-priority assignments to that expert.",
  ['inputs', 'configurations'], 'all gate matrices, K, capacities, both priority modes',
  'Tests compare a few hand-written cases; the priority order is a relation over every pair of assignments for every score pattern.',
  ['vmoe/moe.py'],
  [('rank-major flattening before the running count', 'vmoe/moe.py:_get_top_experts_per_item_common'), ('sort by best score and inverse permutation', 'vmoe/moe.py:_get_top_experts_per_item_common')],
  ['vmoe/moe.py:get_top_experts_per_item_dispatcher'])

p('C03', 'Dense-matrix and index-based dispatchers compute the same result',
  "For the same gate scores and options, the dispatcher based on dense one-hot matrices and the one based on (expert, slot) indices deliver the same items to the same expert slots (zeros in unused slots), and combine any expert outputs into the same per-token results. The bfloat16 wrapper changes nothing about this except the precision of floating point data, and returns data of the type it was given.",
  ['inputs', 'configurations'], 'all gates, data, capacities, K, groups',
  'Tests check each dispatcher on separate fixed examples; agreement must hold for every gate matrix and every data tensor, including dropped assignments.',
  ['vmoe/moe.py'],
  [('einsum dispatch/combine', 'vmoe/moe.py:EinsumDispatcher'), ('scatter/gather dispatch/combine with masking', 'vmoe/moe.py:ExpertIndicesDispatcher'), ('scatter with dropped out-of-range indices', 'vmoe/moe.py:_scatter_nd')],
  ['dispatch()/combine() of both dispatchers'])

p('C04', 'Dispatch and combine never mix groups, experts or items',
  "For any number of groups, experts, capacity and item shape, each expert receives exactly the buffer contents addressed to it by every group, each once, and the value an expert outputs at a slot returns to the group and slot it came from. "
  "With identity experts, a token therefore gets back the sum of its combine weights times itself, and a token's result depends only on tokens of its own group.",
  ['inputs', 'configurations'], 'all G, E, C (G divisible by E or not), all item shapes, any optional sharding annotation',
  'Tests use a few sizes; the layout is an index bijection that must hold for every size and differs between the divisible and non-divisible case.',
  ['vmoe/moe.py'],
  [('all-to-all reshape/transpose to expert-major layout', 'vmoe/moe.py:_dispatch'), ('inverse layout', 'vmoe/moe.py:_receive'), ('weighted sums', 'vmoe/moe.py:EinsumDispatcher, DenseEinsumDispatcher')],
  ['dispatch()/combine()'])

p('C05', 'Expert-choice routing fills every slot with distinct best-scoring tokens',
  "With expert-choice routing every expert processes exactly its capacity of distinct tokens, namely the ones with the highest gate scores for that expert in the group, and each is combined with exactly its gate score. "
  "The reported routing metrics (fewest/most experts per token, smallest/largest selected score) describe that assignment.",
  ['inputs', 'configurations'], 'all gates, capacities <= group size',
  'Tests check one matrix; optimality and distinctness quantify over every non-selected token.',
  ['vmoe/moe.py'],
  [('top-C selection per expert and one-hot', 'vmoe/moe.py:_get_top_items_per_expert_einsum_dispatcher')],
  ['vmoe/moe.py:get_top_items_per_expert_dispatcher'])

p('C06', 'Expert capacity honours the requested capacity factor and alignment',
  "The capacity computed from a token count, expert count and capacity factor is a positive multiple of the requested alignment, is the smallest such multiple not below the rounded (up or to nearest, as requested) average load, and asking for an average load that rounds to zero is rejected. "
  "Routers scale the token count by the number of selected experts for token-choice and not for expert-choice, require exactly one of capacity and capacity factor, and pass an explicitly given capacity through unchanged.",
  ['inputs', 'configurations'], 'all token/expert counts, factors, rounding modes, alignments',
  'Tests sample a handful of values; rounding and alignment bugs appear on particular residues.',
  ['vmoe/moe.py'],
  [('capacity arithmetic', 'vmoe/moe.py:compute_capacity'), ('argument checks and dispatch by name', 'vmoe/moe.py:get_top_experts_per_item_dispatcher, get_top_items_per_expert_dispatcher')])

p('C07', 'Checkpoint chunks tile every array exactly once within the size limit',
  "Whatever an array's shape, sharding and the chunk size limit, the chunks chosen for saving it are pairwise disjoint, cover every element exactly once, each lies inside one device shard that holds that data, and each has at most the requested number of bytes (or a single element when one element already exceeds the limit).",
  ['inputs', 'configurations'], 'all shapes, all shard slices, all chunk limits',
  'Tests list a few shapes; a gap or overlap arises from divisibility relations between dimension, splits and limit.',
  ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py'],
  [('splitting of a slice into chunks', 'vmoe/checkpoints/partitioned.py:_split_slicend'), ('grouping of replicated shards', 'vmoe/checkpoints/partitioned.py:_create_map_slicend_to_array_shards'), ('normalisation of shard indices', 'vmoe/checkpoints/partitioned.py:_shard_index_to_slicend')],
  ['checkpoint index entries'])

p('C08', 'Every chunk is stored once, by a process that owns it, where the index says',
  "All processes independently compute the same chunk-to-file assignment; every chunk is assigned to exactly one checkpoint file, whose writing process holds a device shard containing the chunk, and that process writes precisely the array elements the chunk denotes. "
  "Among the eligible files the one with the fewest bytes assigned so far is chosen, so files stay balanced, and the index lists each chunk with the file that contains it.",
  ['inputs', 'configurations'], 'all shardings, replica placements, process counts, numbers of files (>= processes)',
  'Tests run one process with mocks; a wrong owner or wrong local offset shows only with multi-process placements.',
  ['vmoe/checkpoints/partitioned.py'],
  [('greedy smallest-file choice restricted to owners', 'vmoe/checkpoints/partitioned.py:_find_smallest_ckpt_shard, _create_map_slicend_to_checkpoint_shard'), ('global to local slice translation', 'vmoe/checkpoints/partitioned.py:_update_lazy_array_chunks_with_leaf'), ('index entries', 'vmoe/checkpoints/partitioned.py:_make_index_info')],
  ['files written by save_checkpoint'])

p('C09', 'Restoring a sharded checkpoint reproduces every element under any sharding',
  "Restoring a checkpoint into any target sharding returns, for every array, exactly the saved shape, type and element values, independently of the sharding, chunk limit and number of files used when saving, and of the thread count when reading. "
  "Every file containing needed data is read, and copying a chunk into a local buffer writes only the positions where the two overlap.",
  ['inputs', 'configurations', 'schedules'], 'all source/target shardings, chunkings, shapes (scalars included), reading orders',
  'Tests round-trip a few combinations on one process; correctness is a statement about every pair of overlapping rectangles.',
  ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py', 'vmoe/utils.py'],
  [('rectangle intersection', 'vmoe/checkpoints/partitioned.py:_intersect_slicend'), ('copy into local buffers', 'vmoe/checkpoints/partitioned.py:_restore_local_buffers'), ('selection of files to read', 'vmoe/checkpoints/partitioned.py:_find_ckpt_shards_to_restore')],
  ['restore_checkpoint result'])

p('C10', 'A checkpoint file is never visible half-written',
  "At every possible crash point while saving, the destination path holds either its previous content (or nothing) or the complete new content; partial data only ever exists under a temporary name in the same directory that can never be mistaken for a finished checkpoint. "
  "With overwriting disabled, an existing destination is left untouched.",
  ['crash_points', 'inputs', 'fault_sequences'], 'every crash point and write/rename failure, all paths and contents, both overwrite modes',
  'Tests only observe the final state of successful saves.',
  ['vmoe/checkpoints/base.py'],
  [('write to temporary then rename', 'vmoe/checkpoints/base.py:save_checkpoint'), ('asynchronous and multi-file variants', 'vmoe/checkpoints/base.py:save_checkpoint_async, save_multiple_checkpoints_async')],
  ['file system'])

p('C11', 'Only complete checkpoints are offered, newest step found by number',
  "A step is reported as complete exactly when all required kinds of files exist for it and no temporary (unfinished) file of that step exists, whatever kinds were asked for. "
  "Steps are enumerated once each, in increasing or decreasing numeric order, the latest-checkpoint lookup returns the largest complete step (or nothing), and adding or removing the shard suffix of a file name are inverse.",
  ['inputs', 'histories', 'crash_points'], 'all directory contents (left by any interrupted history of saves), all suffix sets',
  'Tests use a couple of directory listings; interrupted saves can leave any combination of final and temporary files.',
  ['vmoe/checkpoints/base.py'],
  [('directory scan', 'vmoe/checkpoints/base.py:iterate_complete_steps_for_prefix'), ('latest lookup', 'vmoe/checkpoints/base.py:find_latest_complete_checkpoint_for_prefix'), ('suffix handling', 'vmoe/checkpoints/base.py:add_shard_suffix, remove_shard_suffix')])

p('C12', 'Serialised checkpoint structures decode to what was encoded',
  "Encoding and then decoding any slice, multi-dimensional slice, slice array, array description, chunk collection or index entry used in checkpoints yields an equal value, for every combination of absent/present bounds, shape, type and data, including large chunks that are split across several records; lazily sliced chunks are stored as exactly the sliced data.",
  ['inputs'], 'all values of the serialisable types',
  'Tests round-trip a few literals.',
  ['vmoe/checkpoints/serialization.py', 'vmoe/checkpoints/types.py'],
  [('extension encoders/decoders', 'vmoe/checkpoints/serialization.py'), ('value semantics of slices', 'vmoe/checkpoints/types.py:Slice, SliceNd')])

p('C13', 'Checked zip and map never silently drop elements',
  "Zipping or mapping several iterables with the length-checked helpers yields every aligned tuple in order exactly once when all have the same length, and raises an error instead of ending whenever any one of them is longer or shorter, for any number, kind and length of iterables.",
  ['inputs'], 'all tuples of iterables of any lengths',
  'Tests use a few lengths; a truncation bug depends on which position ends first.',
  ['vmoe/utils.py'],
  [('lock-step iteration', 'vmoe/utils.py:SafeZipIterator, safe_map, safe_zip')])

p('C14', 'The logical device mesh uses every device exactly once in the right shape',
  "For any hardware mesh and valid number of partitions, the logical mesh has shape (partitions, replicas), contains every hardware device exactly once, and partitioning requests that do not divide the hardware are rejected. "
  "When the default arrangement would scatter the devices of a process, the tiled arrangement is used, and there each process again owns one contiguous block.",
  ['inputs', 'configurations'], 'all 2-D and 4-D hardware mesh shapes, partition counts, process layouts',
  'Tests use a few meshes; being a bijection with a given layout quantifies over all sizes.',
  ['vmoe/partitioning.py'],
  [('heuristic factorisation', 'vmoe/partitioning.py:get_auto_logical_mesh_tpu, get_auto_logical_mesh_other'), ('axis splitting and transposition', 'vmoe/partitioning.py:get_logical_mesh_default, get_logical_mesh_tile_by_process'), ('contiguity test', 'vmoe/partitioning.py:process_has_contiguous_device_slice')])

p('C15', 'Partition rules apply in order: the first matching rule decides',
  "For any parameter tree and any ordered list of (pattern, partition) rules, each non-scalar array gets the partition of the first rule whose pattern is found in its path, arrays with at most one element and arrays that no rule matches are replicated, and the result has the same structure as the tree.",
  ['inputs', 'configurations'], 'all trees, rule lists, patterns',
  'Tests use one tree and a few rules.',
  ['vmoe/partitioning.py'],
  [('ordered rule search', 'vmoe/partitioning.py:tree_axis_resources_from_regexes'), ('normalisation of partition descriptions', 'vmoe/partitioning.py:parse_partition_spec')])

p('C16', 'Optimizer rules touch exactly the parameters they name',
  "Parameters selected as frozen (or not selected as trainable) never change, whatever the gradients, weight decay, momentum or clipping; all other parameters are unaffected by freezing. "
  "Weight decay adds to each parameter's update the factor of the first matching rule times that same parameter, gradient scaling multiplies by the factor of the first matching rule (zero decay and unit scale when none matches), and the steps are ordered scale, clip, optimizer, decay, learning rate, freeze.",
  ['inputs', 'configurations', 'histories'], 'all parameter trees (any key order), rule lists, gradients, optimizers',
  'Tests use small trees with a single ordering of keys and one rule set.',
  ['vmoe/train/optimizer.py'],
  [('first-match factors', 'vmoe/train/optimizer.py:add_decayed_weights, gradient_scaling'), ('masking', 'vmoe/train/optimizer.py:freeze_weights'), ('chain order', 'vmoe/train/optimizer.py:create_optimizer')])

p('C17', 'Learning-rate schedules warm up, decay and cool down continuously in bounds',
  "For every valid configuration and step within the schedule, the warmup with linear, polynomial or cosine decay and the inverse-square-root schedules start from zero when there is warmup, rise linearly to exactly the peak at the end of warmup, never exceed the peak (for an end value not above the peak) nor go negative, decrease monotonically afterwards without jumps at phase boundaries, and reach the configured end value (zero after a cooldown) at the last step.",
  ['inputs', 'configurations'], 'all peak/end values, powers, timescales, warmup/decay/cooldown lengths and steps',
  'Tests sample a few steps of a few schedules; continuity at boundaries must hold for every combination.',
  ['vmoe/train/schedule.py'],
  [('phase joining', 'vmoe/train/schedule.py:warmup_polynomial_decay_schedule, big_vision_rsqrt_schedule')])

p('C18', 'Microstepped gradients equal the mean over all examples, each used once',
  "Splitting a batch into microsteps uses every example of images together with its own labels in exactly one microstep, with equally many examples of every device in each (a batch that does not allow that is rejected), and returns the arithmetic mean of the per-microstep gradients and metrics. "
  "Each microstep receives the random state produced by the previous one, the first the given one, and the last produced state is returned.",
  ['inputs', 'configurations'], 'all batch sizes, microstep counts, gradient functions, random states',
  'Tests use one batch and one microstep count (and cannot run in this environment); the loop must be right for every count.',
  ['vmoe/train/trainer.py'],
  [('strided split and accumulation loop', 'vmoe/train/trainer.py:accumulate_gradients_and_metrics')])

p('C19', 'Mixup blends images and labels with the same convex weights',
  "Every mixed example is a convex combination of examples of the same batch (rolled along the batch axis within its device group), with the largest weight on the example itself, and images and labels of an example are blended with identical weights. "
  "Invalid shapes or concentrations are rejected, shapes are preserved, and the random keys of the training state other than the one for mixup are passed through unchanged while that one advances.",
  ['inputs', 'configurations'], 'all arrays, weight shapes/granularities, roll axes, sizes',
  'Tests fix seeds and small arrays.',
  ['vmoe/train/trainer.py'],
  [('sorted Dirichlet weights and rolled sum', 'vmoe/train/trainer.py:mixup'), ('per-device wrapping and key handling', 'vmoe/train/trainer.py:wrap_train_step_with_mixup')])

p('C20', 'Padding examples never influence evaluation results',
  "Accuracy and loss reported by evaluation are those of the real examples only: the count, the number of correct predictions and the summed loss ignore examples marked as padding whatever their (finite) content and model outputs, each real example counts exactly once with the label at its predicted class, and the totals do not depend on how the examples are split into batches. "
  "Random state advances between batches.",
  ['inputs', 'histories'], 'all batches, validity masks, batch splits, models/losses (finite)',
  'Tests use fixed masks and models.',
  ['vmoe/evaluate/evaluator.py'],
  [('masking', 'vmoe/evaluate/evaluator.py:evaluate_step'), ('running totals', 'vmoe/evaluate/evaluator.py:EvalState.update, evaluate_dataset')])

p('C21', 'All processes see the same number of full evaluation batches',
  "For any distribution of examples over processes and any per-process batch size, the number of padding examples is non-negative and makes every process iterate over the same number of whole batches, the smallest number that covers every process's examples; the evaluation pipeline then yields every real example exactly once, marked as valid, and marks padding as not valid (when no filter is configured). Batch sizes that the processes or devices cannot share evenly are rejected.",
  ['inputs', 'configurations'], 'all example counts, process counts, batch sizes',
  'Tests enumerate a few counts on one process.',
  ['vmoe/data/builder.py', 'vmoe/data/input_pipeline.py'],
  [('padding count', 'vmoe/data/builder.py:_get_num_fake_examples, TfdsBuilder.get_num_fake_examples'), ('pipeline', 'vmoe/data/input_pipeline.py:get_dataset')])

p('C22', 'Device prefetching preserves the stream of batches',
  "Prefetching to devices yields exactly the batches of the source iterator, each once, in order, for any prefetch size and any source length, never holding more than the requested number of batches ahead; every array is split over the local devices along its first axis in order, and sizes that do not divide evenly are rejected.",
  ['inputs', 'schedules', 'configurations'], 'all source lengths, prefetch sizes (none, zero, larger than the stream), device counts',
  'Tests use one short iterator.',
  ['vmoe/data/pjit_utils.py'],
  [('queue refill', 'vmoe/data/pjit_utils.py:prefetch_to_device'), ('splitting over devices', 'vmoe/data/pjit_utils.py:put_to_devices')])

p('C23', 'Adversarial perturbations stay within the allowed budget and are masked',
  "After a projected-gradient attack every pixel differs from the original by at most the given maximum (up to floating-point rounding, and as long as gradients are not NaN), whatever the model, loss, number of updates and random state; fresh random keys are used for every update and a different one is returned. "
  "Attack statistics (images, changed and correct predictions, losses, overlap of the chosen experts) count only valid images and add up over batches; adversarial training trains on the attacked images.",
  ['inputs', 'configurations', 'histories'], 'all images, models/gradients, epsilons, update counts, validity masks',
  'Tests use a toy model and fixed values.',
  ['vmoe/projects/adversarial_attacks/attacks.py'],
  [('sign-gradient steps of size epsilon / updates', 'vmoe/projects/adversarial_attacks/attacks.py:stateless_attack_pgd'), ('masking and totals', 'vmoe/projects/adversarial_attacks/attacks.py:stateful_attack, AttackState.update')])

p('C24', 'Mapping a checkpoint into a model replaces exactly the intended arrays',
  "When initialising a target state from a source state with mapping rules, every source array follows the first rule that matches its path: it is dropped or becomes the value of exactly the target it is renamed to (transformed as the rule says); no target is assigned twice except by stacking, targets not assigned keep their original value, and unmatched sources or targets, unknown targets and shape/type mismatches raise errors unless explicitly allowed.",
  ['inputs', 'configurations'], 'all source/target trees and rule lists, all strictness flags',
  'The tests of this module cannot even be imported in this environment, and sample a few trees.',
  ['vmoe/initialization/mapping.py', 'vmoe/initialization/rules.py'],
  [('rule search and bookkeeping', 'vmoe/initialization/mapping.py:_flat_state_dict_mapping_build'), ('application and checks', 'vmoe/initialization/mapping.py:_flat_state_dict_mapping_apply'), ('rules', 'vmoe/initialization/rules.py')])

p('C25', 'Ensemble members never share tokens or experts',
  "With ensemble routing, the copies of the input belonging to one member are routed only to that member's own block of experts (scores for other blocks are zero), and the reshaping from image layout to group layout and back is lossless. "
  "Ensemble losses and predictions average the members' probabilities of the same example.",
  ['inputs', 'configurations'], 'all batch sizes, group sizes, ensemble sizes, expert counts, hidden sizes',
  'Tests use one or two sizes.',
  ['vmoe/nn/ensemble_routing.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/evaluate/ensemble.py'],
  [('layout changes', 'vmoe/nn/ensemble_routing.py:reshape_to_group_size_representation, reshape_from_group_size_representation'), ('block-diagonal gates', 'vmoe/nn/ensemble_routing.py:NoisyTopExpertsPerItemEnsembleRouter'), ('log-mean over members', 'vmoe/evaluate/ensemble.py:_ensemble_log_mean')])

p('C26', 'Soft MoE mixes tokens with proper convex weights',
  "In soft routing, the weights with which the tokens of a group enter any expert slot are non-negative and sum to one over the tokens of that group, and the weights with which slots contribute to any token are non-negative and sum to one over all slots of all experts, for any input, parameters, number of experts and slots; groups never mix.",
  ['inputs', 'configurations'], 'all inputs, parameters, sizes',
  'Tests check a single random input.',
  ['vmoe/projects/soft_moe/router.py'],
  [('softmax over tokens / over slots', 'vmoe/projects/soft_moe/router.py:SoftRouter.__call__')])

p('C27', 'Resuming or fine-tuning keeps every array that was already restored',
  "Completing a partially restored training state initialises from scratch exactly the arrays that are still missing and returns every already present array unchanged, in the original structure; training for a number of epochs or steps is converted consistently (the fewest whole steps covering the requested epochs, and exactly one of the two may be given). "
  "Training then performs every remaining step exactly once and in order, each on the next batch, and hands over for checkpointing, after each step, that step's state under that step's number with the number of examples used so far; the last state is always checkpointed.",
  ['inputs', 'configurations', 'histories'], 'all state trees, all subsets of present arrays, all batch sizes/example counts/epochs',
  'The trainer tests cannot be imported in this environment, and check one partially filled state.',
  ['vmoe/train/trainer.py'],
  [('merge by path', 'vmoe/train/trainer.py:create_or_reuse_train_state'), ('step arithmetic', 'vmoe/train/trainer.py:get_train_steps_and_epochs'), ('latest checkpoint or completion', 'vmoe/train/trainer.py:restore_or_create_train_state'), ('training loop', 'vmoe/train/trainer.py:train_and_evaluate')])

p('C28', 'Random keys are never reused',
  "Deriving named random keys from a seed gives each name its own distinct key deterministically, splitting a collection of keys gives collections that share no key with each other or with the original, and every training step uses keys that are not carried over to the next step.",
  ['inputs', 'histories'], 'all seeds, key collections, split counts, step histories',
  'Tests check shapes or a single split.',
  ['vmoe/utils.py', 'vmoe/train/trainer.py'],
  [('splitting', 'vmoe/utils.py:make_rngs, tree_rngs_split'), ('use in the training step', 'vmoe/train/trainer.py:train_step')])

p('C29', 'Preprocessing operations yield the documented images, encodings and keys',
  "For every image, label set and configuration: central_crop gives the requested size from the centre of the image (as many pixels cut on both sides, up to one); resize gives the requested size (one number: square) with the requested method and keeps the type; resize_small makes the smaller side the requested size and keeps the aspect ratio up to rounding; inception_crop (with or without decoding) gives a contiguous part of the image with all its channels, sampled with the given range of areas, resized only if asked for; flip_lr gives the image or its mirror image; reshape keeps the elements in order and the type; "
  "value_range maps the input range affinely on the output range, per channel if lists are given, and with clip_values stays within it; onehot is 'on' exactly at the labels, however often they occur, merged or one row per label as asked; ignore_no_labels marks an example valid exactly if it was valid before and has labels; keep keeps exactly the given keys and the validity mark; copy copies. An operation changes only its output key and reads its input key (key, inkey, outkey options).",
  ['inputs', 'configurations'], 'all images, sizes, labels and options', 'Tests use one image size and a few values.', ['vmoe/data/pp_ops.py'],
  [('crops and resizes', 'vmoe/data/pp_ops.py:central_crop, resize, resize_small, inception_crop, decode_jpeg_and_inception_crop'), ('values', 'vmoe/data/pp_ops.py:value_range, onehot'), ('keys', 'vmoe/data/pp_ops.py:InKeyOutKey, keep, copy, ignore_no_labels')])

p('C30', 'Every process passes the same barriers in the same order',
  "Whatever its index, a process that saves a sharded checkpoint, creates the checkpoint manager or runs training passes the same named barriers in the same order as every other process with the same configuration (so none waits forever), and runs the same training steps, checkpoint saves and evaluations in between. Only process 0 creates directories, before the barrier after which any process writes into them; every file of a checkpoint is written by exactly one process. Whether the first or last checkpoint still has to be saved is decided before the barrier that precedes that save. "
  "A barrier waits for all processes once; it returns if the process waits under the name of the main process and raises otherwise.",
  ['schedules', 'configurations'], 'all process indices, counts, configurations and states of the directory', 'Tests run a single process.',
  ['vmoe/multihost_utils.py', 'vmoe/checkpoints/partitioned.py', 'vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py'],
  [('barrier', 'vmoe/multihost_utils.py:sync_devices'), ('saving', 'vmoe/checkpoints/partitioned.py:save_checkpoint, _make_dir_sync'), ('manager', 'vmoe/train/trainer.py:create_checkpoint_manager'), ('training', 'vmoe/train/trainer.py:train_and_evaluate, vmoe/projects/contrastive/trainer.py:train_and_evaluate')])

p('C31', 'Router scores are probabilities and balancing losses are as documented',
  "For every input, parameters and configuration, the scores a router gives the experts for a token are the softmax of the gating logits: positive and summing to one per token. Gaussian noise of standard deviation noise_std / number of experts, drawn from the gating stream, is added to the logits exactly if the router is not deterministic and noise_std is not zero. "
  "Every group is scored, balanced and dispatched on its own, with exactly the configured dispatcher options (bfloat16 only if asked for). The importance loss is the squared coefficient of variation of the summed noise-free scores per expert, the load loss that of the mean probability of being selected if the noise were drawn again, the gshard loss the number of experts times the sum over experts of (fraction of tokens whose best expert it is) x (its mean score); the auxiliary loss is their weighted sum, in which losses with weight zero take no part even if they are not numbers. Selecting fewer than one or more than all experts is rejected.",
  ['inputs', 'configurations'], 'all inputs, parameters, noise, sizes and weights',
  'Tests check shapes and one or two sample values.',
  ['vmoe/nn/routing.py'],
  [('scores and noise', 'vmoe/nn/routing.py:NoisyTopExpertsPerItemRouter._compute_gates_softmax_and_metrics, NoisyTopItemsPerExpertRouter._compute_gates_softmax'), ('losses', 'vmoe/nn/routing.py:_gshard_auxiliary_loss, _importance_auxiliary_loss, _load_auxiliary_loss, _weighted_sum'), ('dispatcher per group', 'vmoe/nn/routing.py:_create_dispatcher, _create_dispatcher_and_metrics')])

p('C32', 'Models place experts, tokens and options exactly as configured',
  "For every model configuration and input: the encoder applies all its blocks in order, with expert layers exactly in the configured blocks and dense ones elsewhere, every block with exactly the configured options (attention, dropout, position embedding, determinism), also in the ensemble encoder, which repeats the batch once, directly before the first expert block. "
  "An expert layer routes the tokens of the batch in consecutive groups of the configured size and returns every token's output at that token's own place; every expert runs with its own parameters on what is dispatched to it. Its router is the configured one with every configured option, deterministic exactly if the layer is unless its options say otherwise; experts get randomness of their own exactly where asked. "
  "The auxiliary loss of the model is the sum over its expert blocks. The model feeds one token per patch, row by row after the class token if any, and classifies the first token, the mean or the attention-pooled tokens as configured; fixed 2-d embeddings depend only on the position in the grid and leave the class token alone. Unknown or impossible options are rejected and configurations are never modified.",
  ['inputs', 'configurations'], 'all inputs, parameters, numbers of blocks, sets of expert blocks, batch/token/group sizes and options',
  'The model tests cannot be imported here (vit_jax is missing) and check shapes only.',
  ['vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/moe.py'],
  [('expert layer', 'vmoe/nn/vit_moe.py:MlpMoeBlock; vmoe/moe.py:sparse_moe_spmd'), ('encoder', 'vmoe/nn/vit_moe.py:EncoderBlock, EncoderMoe; vmoe/nn/vit_moe_ensemble.py:EncoderMoeEnsemble'), ('model', 'vmoe/nn/vit_moe.py:VisionTransformerMoe')])

p('C33', 'A training step applies the gradient of the configured loss exactly once',
  "A training step computes the gradient, with respect to the parameters only, of the mean configured loss of exactly the given batch plus the mean auxiliary loss if the model has one, applies it once with the configured optimizer, advances the step by one and the random keys to the next ones, and returns the metrics of that very step. "
  "The losses are the documented ones, selected by name for training, evaluation and prediction (softmax cross-entropy / softmax, sigmoid cross-entropy summed over classes / sigmoid); unknown names are rejected. "
  "Summaries of parameters, gradients and state are computed for every array and every rule that matches its name, applying the requested operations in order over the requested axes, one value per remaining index; too many values and unknown operations are rejected, and norms are those of the gradients, updates and new parameters of that step.",
  ['inputs', 'configurations'], 'all parameters, batches, losses, optimizers, summary rules', 'The trainer tests cannot be imported here (vit_jax is missing) and mock most of the step.',
  ['vmoe/train/trainer.py', 'vmoe/train/train_state.py', 'vmoe/train/tree_summarizer.py'],
  [('step', 'vmoe/train/trainer.py:train_step'), ('state', 'vmoe/train/train_state.py:TrainState'), ('losses', 'vmoe/train/trainer.py:get_loss_fn'), ('summaries', 'vmoe/train/tree_summarizer.py:TreeSummarizer')])

p('C34', 'Few-shot evaluation scores the documented linear classifier',
  "Few-shot evaluation represents exactly the valid examples of a data set, each once, in order, with its own label, however batches and devices split them. The training examples of a shot count k are min(k, available) distinct examples of each class, the same ones whenever the seed is the same. "
  "The accuracy reported for a regularisation strength is that of the L2-regularised least-squares classifier (targets +1/-1, features whitened with the statistics of the training examples, plus a constant feature) solved exactly, whether there are more examples than features or fewer. For each shot count a single strength, the one with the best mean rank over data sets, is used for every data set; the main result is the mean over seeds. "
  "Iterators are reset between evaluations so that each one sees the same data, and the training step enters the seed only if asked.",
  ['inputs', 'configurations', 'histories'], 'all features, labels, strengths, sizes, numbers of batches, shots, seeds and data sets', 'Tests check shapes on one fake data set.',
  ['vmoe/evaluate/fewshot.py'],
  [('classifier', 'vmoe/evaluate/fewshot.py:_precompute_cache, _eig_fewshot_acc_fn'), ('representations', 'vmoe/evaluate/fewshot.py:_compute_representation'), ('examples per class and reporting', 'vmoe/evaluate/fewshot.py:_compute_fewshot_metrics, _find_best_l2_reg, FewShotPeriodicAction')])

p('C35', 'Models, hooks and operations are built and run as configured',
  "Evaluation is requested on the first, the last and every configured step, for every configured data set, with a deterministic model of the base configuration and the configured overrides; few-shot evaluation likewise, only if configured. Configurations are never modified. "
  "Training uses exactly the configured loss, optimizer, seed, number of accumulated steps, adversarial and mixup options, evaluates on all data sets but the training one, and evaluates few-shot on the evaluation model. "
  "A call string names a callable with exactly the literal arguments written, and the operations of a processing string are applied from left to right. Reported device time is proportional to steps and devices. Actions meant for a single process run on that process only. Named initialisations are the configured ones and unknown names are rejected.",
  ['configurations', 'histories'], 'all configurations, step numbers, call and processing strings', 'The trainer tests cannot be imported here (vit_jax is missing); others sample a few strings and steps.',
  ['vmoe/train/trainer.py', 'vmoe/train/periodic_actions.py', 'vmoe/utils.py', 'vmoe/data/input_pipeline.py'],
  [('hooks', 'vmoe/train/trainer.py:create_evaluation_hook, create_fewshot_hook'), ('wiring', 'vmoe/train/trainer.py:train_and_evaluate'), ('strings', 'vmoe/utils.py:parse_call; vmoe/data/input_pipeline.py:get_data_process_fn'), ('actions', 'vmoe/train/periodic_actions.py:SingleProcessPeriodicAction')])

p('C36', 'Contrastive training matches images with their texts as documented',
  "The contrastive loss of an image is the sum over all texts of the batch of the logistic loss of its logit, its own text being the positive and all others negatives; logits that are not square are rejected. A logit is the inner product of the unit-length embeddings of image and text, scaled by the exponential of a learned parameter that starts at the configured scale, plus a learned bias only if one is configured. "
  "Given only images or only texts, exactly that tower runs and its unit-length embeddings are returned; giving neither is rejected. Each tower is of the named class (a vision and a text transformer by default) with exactly its own options. The text tower pools the last, first, mean, maximum or attention-pooled token as configured, and rejects unknown poolings and 2-d embeddings. "
  "A training step applies the gradient of the mean loss of the given pairs once, with fresh keys, and reports averaged metrics. Few-shot, retrieval and zero-shot evaluation run on the first, last and every configured step, only if configured, with a deterministic model of the base configuration plus overrides; images are embedded alone as images, texts alone as texts, exactly one of both, and every result is reported under its own name. Configurations are not modified.",
  ['inputs', 'configurations'], 'all logits, images, texts, parameters, sizes, options and steps', 'Tests check the shapes of one model; the trainer has none.',
  ['vmoe/projects/contrastive/trainer.py', 'vmoe/projects/contrastive/models.py', 'vmoe/projects/contrastive/evaluators.py'],
  [('loss and step', 'vmoe/projects/contrastive/trainer.py:sigmoid_loss, train_step'), ('towers', 'vmoe/projects/contrastive/models.py:TwoTower, TextTransformer'), ('hooks', 'vmoe/projects/contrastive/trainer.py:create_fewshot_hook, create_retrieval_hook, create_zeroshot_hook; vmoe/projects/contrastive/evaluators.py')])

p('C37', 'Data sets are read, shuffled and described as configured',
  "Each process reads exactly its part of the configured split of the configured data set (the named one prepared from the configured raw data, or the one in the given directory), with images left encoded; files are shuffled for training only, with the configured seed, and errors in the data are reported unless they are to be ignored. Training examples repeat forever, are filtered by a configured filter, processed by the configured operations in order, shuffled with the configured buffer and seed (a buffer of one keeps the order, every example is used equally often), and come in full batches; caching and prefetching change neither. Evaluation examples are neither shuffled nor repeated. "
  "There is one data set for every configured variant, made from exactly its configuration; a variant without a configuration is rejected, and configurations are not modified. The number of examples is that of the configured split. The shapes, types and shardings announced for a data set are those of the batches delivered: the rows of all processes, split over all devices of the mesh.",
  ['inputs', 'configurations'], 'all splits, numbers of examples, processes, options, seeds, buffers, shapes and meshes', 'Tests use mocked or tiny data sets and one configuration.',
  ['vmoe/data/builder.py', 'vmoe/data/input_pipeline.py', 'vmoe/data/pjit_utils.py'],
  [('sources', 'vmoe/data/builder.py:TfdsBuilder, _get_tfds_builder'), ('pipeline', 'vmoe/data/input_pipeline.py:get_dataset, get_datasets, get_data_num_examples'), ('announced shapes', 'vmoe/data/pjit_utils.py:get_dataset_shape_dtype_struct')])

p('C38', 'Optimal-transport routers route by the plan and combine as configured',
  "The optimal-transport routers score every token for every expert with a linear layer (plus the noise asked for, never when deterministic), turn the scores of each group into a transport plan, and route by that plan: experts choose the tokens, or tokens the experts, to which the plan gives most, within the configured buffers. Groups do not influence each other. The plan is never negative; the variants limited to k entries give every token at most num_selected_experts experts, or every expert at most its buffer of tokens, with the configured mass; run to convergence the Kullback-Leibler variants' plan is the entropic plan of the scores with equal shares. "
  "With use_softmax_combine_weights the outputs are combined by the softmax of the scores, on exactly the token-expert pairs the plan dispatched, and by the plan otherwise. No auxiliary loss is added except the configured importance and load losses of the token-choice variants. Inputs without a group axis and impossible numbers of selected experts are rejected.",
  ['inputs', 'configurations'], 'all scores, sizes, routers and options', 'Tests fix one small shape and compare with mocks.',
  ['vmoe/projects/sparsity_constrained_ot/' + f for f in ('ot_routing.py', 'sparse_projection_routing.py', 'ksparse_projection_routing.py', 'kl_projection_routing.py')],
  [('combining and dispatching', 'vmoe/projects/sparsity_constrained_ot/ot_routing.py:_replace_combine_weights, BaseOTNoisyTopItemsPerExpertRouter, BaseOTNoisyTopExpertsPerItemRouter'), ('plans', 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py, ksparse_projection_routing.py, sparse_projection_routing.py')])

with open('/verif/properties.jsonl', 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, x['title']
    f.write(json.dumps(x) + '\n')
print(len(P))
