From 64164b592a05f27326b34903823c0a8b2d08d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 1/8] fix: ignore every step that has temporary files when
 listing complete checkpoints

iterate_complete_steps_for_prefix removed (step, suffix) pairs instead of steps,
so a step whose '.data' files were still being written was reported as complete
when only '.index' was required. Sorting the pairs also failed with a TypeError
when a step had files both with and without suffix.
---
 vmoe/checkpoints/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..738167c 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -111,14 +111,16 @@ def iterate_complete_steps_for_prefix(
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
+  incomplete_steps = set(
+      step for step, _ in map(
+          _parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
 
+  # Note: sort and group by step only, since suffixes can be either None or str.
+  get_step = lambda x: x[0]
   for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+      sorted(steps_and_suffixes, key=get_step, reverse=decreasing), get_step):
+    if (step not in incomplete_steps and
+        not suffixes.difference(set(x[1] for x in group))):
       yield step
 
 
-- 
2.43.0


From 1507778c87bb678a7dce835177a310526a053335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 2/8] fix: do not list steps of checkpoints with a longer
 prefix

A file such as 'ckpt_best_7' made step 7 be reported as a complete checkpoint of
the prefix 'ckpt', although no file 'ckpt_7' exists.
---
 vmoe/checkpoints/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 738167c..96ce699 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -105,15 +105,24 @@ def iterate_complete_steps_for_prefix(
     suffix = m.group(3)
     return step, suffix
 
+  def _glob(pattern_prefix):
+    # Ignore files of other prefixes (e.g. 'ckpt_best_1' for prefix 'ckpt').
+    name = os.path.basename(pattern_prefix)
+    for filepath in gfile.glob(pattern_prefix + '*'):
+      m = CHECKPOINT_REGEX.fullmatch(filepath)
+      if (m is None or m.group(2) is None or
+          os.path.basename(m.group(1)) == name):
+        yield filepath
+
   # Find set of (step, suffix) from the given prefix.
   steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
+      map(_parse_step_and_suffix_or_error, _glob(prefix)))
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
+  prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
       step for step, _ in map(
-          _parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
+          _parse_step_and_suffix_or_error, _glob(prefix_tmp)))
 
   # Note: sort and group by step only, since suffixes can be either None or str.
   get_step = lambda x: x[0]
-- 
2.43.0


From 4bcafed0bb55b5304aa2c52b23ecc5118cf87396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 3/8] fix: encode empty array chunks as one empty record

Array chunks without elements were encoded as an empty list of records, which
cannot be concatenated when the checkpoint is decoded.
---
 vmoe/checkpoints/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..1887dec 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,7 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(chunk.size, 1), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From a51352f088500c39df3e20632911279cf5094691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 4/8] fix: restore arrays without elements from sharded
 checkpoints

The intersection of an empty slice with itself is None, and it was used as an
iterable when restoring zero-size arrays.
---
 vmoe/checkpoints/partitioned.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..b100d5e 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,9 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: the intersection is an empty tuple for scalars with shape (), and
+        # None when there are no common elements (e.g. empty arrays).
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
-- 
2.43.0


From 698269e28fc79b58943d87c076b082b6b4d09d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:04 +0000
Subject: [PATCH 5/8] fix: tile logical meshes so that every process owns a
 contiguous block

get_logical_mesh_tile_by_process split a hardware axis with the replicas inside
the devices of a process, so that e.g. on a (2, 4, 2, 2) TPU mesh with 8
partitions the devices of a process were not contiguous in the logical mesh.
---
 vmoe/partitioning.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..c57a461 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -277,15 +277,16 @@ def get_logical_mesh_tile_by_process(
     hardware_mesh_local_shape: Tuple[int, ...]) -> Mesh:
   """Returns a logical mesh where all process' devices form a contiguous slice."""
   # Split each axis of the hardware mesh in
-  # (partitions_process, partitions_device, replica_process, replica_device).
-  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_P_D, Z_R_H, Z_R_D, Y_P_H, ...).
+  # (partitions_process, replica_process, partitions_device, replica_device), so
+  # that the devices of a process are the ones along the last two.
+  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_R_H, Z_P_D, Z_R_D, Y_P_H, ...).
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
     if p % l == 0:
-      return p // l, l, r, 1
+      return p // l, r, l, 1
     elif r % l == 0:
-      return 1, p, r // l, l
+      return p, r // l, 1, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
@@ -296,8 +297,8 @@ def get_logical_mesh_tile_by_process(
   # Put all partition_process axes first, then partition_devices axes, then
   # all replica_process axes, and finally all replica_device axes.
   devices = devices.transpose(tuple(range(0, 4 * hardware_mesh.ndim, 4)) +
-                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(2, 4 * hardware_mesh.ndim, 4)) +
+                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(3, 4 * hardware_mesh.ndim, 4)))
   # Reshape devices to (num_partitions, num_replicas).
   num_partitions = np.prod(partitions)
-- 
2.43.0


From 02fae90be919c74e40519853db6f58defc6f2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 6/8] fix: pair updates with their own parameters when decaying
 weights

The flattened updates and parameters were zipped by position, so with
differently ordered dictionaries a parameter was decayed with the value of
another one.
---
 vmoe/train/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..4bd1e68 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -75,11 +75,11 @@ def add_decayed_weights(
         flax.serialization.to_state_dict(updates), sep='/')
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
+    # Note: the items of the two dictionaries may be in a different order.
     flatupdates = dict(utils.safe_map(
-        lambda k, g, p: (k, g + weight_decay_fn(k) * p),
-        flatupdates.keys(),
-        flatupdates.values(),
-        flatparams.values()))
+        lambda kg, kp: (kg[0], kg[1] + weight_decay_fn(kg[0]) * kp[1]),
+        sorted(flatupdates.items(), key=lambda kv: kv[0]),
+        sorted(flatparams.items(), key=lambda kv: kv[0])))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From 9012591cc8e7ff5b6f00014a639b8e8bac991b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:43 +0000
Subject: [PATCH 7/8] fix: honour an explicit empty shape in reshape rules

---
 vmoe/initialization/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/initialization/rules.py b/vmoe/initialization/rules.py
index 30c8e7c..80123b9 100644
--- a/vmoe/initialization/rules.py
+++ b/vmoe/initialization/rules.py
@@ -181,7 +181,7 @@ class ReshapeRule(RegexRule):
   def get_transformation(self, source, target) -> 'ReshapeTransformation':
     return ReshapeTransformation(
         target_shape_dtype=self.get_shape_dtype(target), array=source,
-        shape=self.shape or target.shape)
+        shape=target.shape if self.shape is None else self.shape)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From a66d81fe26fae5098495040f3fcc1ffd2e81e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:06 +0000
Subject: [PATCH 8/8] fix: EncoderMoeEnsemble uses the configured position
 embeddings and attention_qk_norm

---
 vmoe/nn/vit_moe_ensemble.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/nn/vit_moe_ensemble.py b/vmoe/nn/vit_moe_ensemble.py
index b202b7d..1f15cac 100644
--- a/vmoe/nn/vit_moe_ensemble.py
+++ b/vmoe/nn/vit_moe_ensemble.py
@@ -80,9 +80,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
   @nn.compact
   def __call__(self, inputs):
     assert inputs.ndim == 3, f'Expected ndim = 3, but got shape {inputs.shape}'
-    x = vmoe.nn.vit_moe.AddPositionEmbs(
-        posemb_init=nn.initializers.normal(stddev=0.02),  # from BERT.
-        name='posembed_input')(inputs)
+    x = self.add_position_emb(inputs)
     x = nn.Dropout(rate=self.dropout_rate, deterministic=self.deterministic)(x)
 
     dense_mlp_params = dict(mlp_dim=self.mlp_dim,
@@ -102,6 +100,7 @@ class EncoderMoeEnsemble(vmoe.nn.vit_moe.EncoderMoe):
         num_heads=self.num_heads,
         dropout_rate=self.dropout_rate,
         attention_dropout_rate=self.attention_dropout_rate,
+        attention_qk_norm=self.attention_qk_norm,
         deterministic=self.deterministic,
         dtype=self.dtype)
 
-- 
2.43.0

