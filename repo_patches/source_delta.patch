From 23f932c69a5e6eef8fa0e286da51cc57ef2eebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 01/36] fix: flag every observer in observation_from_state's
 is_ego

jnp.diag(jnp.arange(n)) == 1 is True only at (1, 1).
---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 5f023e5d1014cee51bbaee5608aa925e12a9aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 02/36] fix: slice Observation.for_obj along the observer axis

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 11ffd2fa8c3046209e7d0b8830dca5ccedf51e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 03/36] fix: keep non-finite unselected entries out of
 select_by_onehot

---
 waymax/datatypes/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..93607c5 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -239,7 +239,9 @@ def select_by_onehot(
       reshaped_selection = selection
     # Since reshaped_selection is one-hot, use sum to perform the selection.
     return jnp.sum(
-        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims
+        jnp.where(reshaped_selection, x, jnp.zeros_like(x)),
+        axis=(selection.ndim - 1),
+        keepdims=keepdims,
     ).astype(x.dtype)
 
   return jax.tree_util.tree_map(_select, data)
-- 
2.43.0


From 3de983dba1f0df5cb600426366162bf4becff2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 04/36] fix: keep map point ids exact in
 filter_topk_roadgraph_points

Stacking all fields as float32 corrupted ids above 2**24.
---
 waymax/datatypes/roadgraph.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..cc36ef4 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -201,33 +201,9 @@ def filter_topk_roadgraph_points(
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
 
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    # Gathers each field in its own dtype: ids do not survive a float32 cast.
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From 132674641d588b1bdd96875c70cadb4d8702f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 05/36] fix: clip the inferred turn of delta dynamics to
 max_dyaw

_clip_values only wrapped it, so inverse() left the action spec.
---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From e520e6fa114dd1e305c916925c5b6a097274c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 06/36] fix: limit DeltaLocal.inverse in the local frame only

Clipping the displacement in the global frame before rotating it changed
its direction, e.g. for in-range local displacements of a rotated object.
---
 waymax/dynamics/delta.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index 533d657..0b1dc59 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -139,6 +139,21 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
+    action = self._unclipped_inverse(trajectory, timestep)
+    return action.replace(data=self._clip_values(action.data))
+
+  def _unclipped_inverse(
+      self, trajectory: datatypes.Trajectory, timestep: int
+  ) -> datatypes.Action:
+    """Computes global displacements without limiting them to the action spec.
+
+    Args:
+      trajectory: A Trajectory of shape (..., num_objects, num_timesteps).
+      timestep: Index of time for actions.
+
+    Returns:
+      An Action of shape (..., num_objects, dim=3), zero where it is invalid.
+    """
     # Form a tensor of shape (..., num_objects, num_timesteps, 3)
     xy_yaw_ = jnp.stack([trajectory.x, trajectory.y, trajectory.yaw], axis=-1)
     # Sliced before/after values of shape (..., num_objects, num_timesteps=2, 3)
@@ -154,7 +169,6 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
 
     # Defaults to 0s for invalid actions.
     action_array = jnp.where(valid, raw_action_array, 0.0)
-    action_array = self._clip_values(action_array)
 
     return datatypes.Action(data=action_array, valid=valid)
 
@@ -216,7 +230,8 @@ class DeltaLocal(DeltaGlobal):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
-    global_actions = super().inverse(trajectory, metadata, timestep)
+    # Limits apply to the local displacement, so do not clip before rotating.
+    global_actions = self._unclipped_inverse(trajectory, timestep)
 
     # Yaw in global coordinates.
     current_yaw = jax.lax.dynamic_slice_in_dim(
-- 
2.43.0


From acf830e9355f2106b9137556b9c35ce1966f7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 07/36] fix: refuse a Discretizer whose shapes do not all match

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..052142a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -47,7 +47,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From 38d0f671a68b537ca8aebf52ea5dfd1239cc281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 08/36] fix: search the best discrete inverse action of every
 object

Only the SDC was controlled, so all actions tied and index 0 was returned
for every other object.
---
 waymax/dynamics/discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 052142a..c0cd19a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,8 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  # Applies the candidate actions to every object, not to the SDC alone.
+  is_controlled = jnp.ones(metadata.shape, dtype=jnp.bool_)
   valids = jax.lax.dynamic_slice_in_dim(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From b5a7c74accd677480971496df413c4382aeae009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 09/36] fix: pass sim agent params in make_sdc_dm_environment

Any config with sim agents raised ValueError.
---
 waymax/env/wrappers/dm_env_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..9e2445f 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,6 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=[{}] * len(sim_agent_actors),
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 93fcfed3986011e04e2f5583202a044631da44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 10/36] fix: support scalar bounds in
 BaseEnvironment.action_spec

StateDynamics advertises scalar bounds and raised IndexError.
---
 waymax/env/base_environment.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..2208436 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -168,15 +168,20 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     # Dynamics model class defines specs for a single agent.
     # Need to expand it to multiple objects.
     single_agent_spec = self.dynamics.action_spec()  # rank 1
+    # Bounds may be scalars, e.g. for StateDynamics.
+    minimum, maximum = (
+        jnp.broadcast_to(bound, single_agent_spec.shape)
+        for bound in (single_agent_spec.minimum, single_agent_spec.maximum)
+    )
     data_spec = specs.BoundedArray(
         shape=(self.config.max_num_objects,) + single_agent_spec.shape,
         dtype=single_agent_spec.dtype,
         minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
+            minimum[jnp.newaxis, :],
             [self.config.max_num_objects, 1],
         ),
         maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
+            maximum[jnp.newaxis, :],
             [self.config.max_num_objects, 1],
         ),
     )
-- 
2.43.0


From 0c98f6080510e5c99de29b864d2ef320d83327af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 11/36] fix: tile validity per object in
 PlanningAgentDynamics.forward

The tiled valid flag had the wrong shape, so forward() always raised, and
allow_new_objects was not passed on.
---
 waymax/env/planning_agent_environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From 2b8998cee0dec21200d1a7c0b1e218bd0cbb8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 12/36] fix: ignore absent objects when looking for initial
 overlaps

Objects absent at the first step share filler poses, so they counted as
overlapping and sim agents could never steer them.
---
 waymax/env/planning_agent_environment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 653ba14..8885ff8 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -467,5 +467,11 @@ def _initialized_overlap(log_trajectory: datatypes.Trajectory) -> jax.Array:
   # Shape: (..., num_objects, num_objects).
   traj_5dof = trajectory.stack_fields(['x', 'y', 'length', 'width', 'yaw'])
   pairwise_overlaps = geometry.compute_pairwise_overlaps(traj_5dof)
+  # Absent objects overlap nothing.
+  pairwise_overlaps = (
+      pairwise_overlaps
+      & trajectory.valid[..., jnp.newaxis]
+      & trajectory.valid[..., jnp.newaxis, :]
+  )
   # Shape: (..., num_objects).
   return jnp.any(pairwise_overlaps, axis=-1)
-- 
2.43.0


From c17deb4c8671dc7680896c79cd4af2cc305af74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 13/36] fix: let update_by_slice_in_dim share one
 updates_start_idx in a batch

A scalar updates_start_idx with per-scenario inputs_start_idx raised.
---
 waymax/datatypes/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index 93607c5..bb46341 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,10 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  # Both indices are mapped over the batch dimensions of inputs_start_idx.
+  updates_start_idx = jnp.broadcast_to(
+      updates_start_idx, jnp.shape(inputs_start_idx)
+  )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
-- 
2.43.0


From 103c78986bc60167041e3eb55432e8c8fd705a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 14/36] fix: broadcast scenario-level metrics over objects in
 batched rewards

SDC-only metrics of shape (batch,) were multiplied with a (batch, objects)
mask, which raised or mixed scenarios with objects.
---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..7cbf974 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Scenario-level metrics have no object dimension.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From 8957f840d40f42e6f2d30ee8487fd318eae10276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 15/36] fix: return float32 from a reward without terms

An empty combination returned a boolean array.
---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 7cbf974..b42524e 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       if metric_all_agents.ndim < agent_mask.ndim:
-- 
2.43.0


From 8a3ca51f9a731f801b755cd5cff3e31bf508345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 16/36] fix: mask the first infeasibility value per scenario

A per-scenario timestep was broadcast against the object dimension.
---
 waymax/env/planning_agent_environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 8885ff8..319fb07 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -311,6 +311,8 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
       # state's sdc_kim value and set it to 0 (kinematically feasible) because
       # the action is not chosen by the actor and is thus not clipped.
       kim_metric_valid = state.timestep > self.config.init_steps - 1
+      # Adds the object dimension, the timestep may be one per scenario.
+      kim_metric_valid = kim_metric_valid[..., jnp.newaxis]
       kim_metric = metric_dict['kinematic_infeasibility']
       kim_metric = kim_metric.replace(
           value=kim_metric.value * kim_metric_valid,
-- 
2.43.0


From db6ff1afff88613d7f3e2160374602f070d0bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 17/36] fix: ignore invalid prior points in the signed road
 edge distance

---
 waymax/metrics/roadgraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..12da226 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -217,6 +217,8 @@ def compute_signed_distance_to_nearest_road_edge_point(
   prior_point_in_same_curve = jnp.equal(
       roadgraph_points.ids[nearest_indices], roadgraph_points.ids[prior_indices]
   )
+  # An invalid prior point has no meaningful direction.
+  prior_point_in_same_curve &= roadgraph_points.valid[prior_indices]
   # Shape: (..., num_query_points).
   offroad_sign = jnp.sign(
       jnp.where(
-- 
2.43.0


From d40647b9f2f94b92f6fe62911f359b04c240dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 18/36] fix: do not judge off-road by an arbitrary point
 without road edges

Without a valid road edge all distances are infinite and argmin picked
point 0, whatever its type or validity.
---
 waymax/metrics/roadgraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index 12da226..3de8cb2 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -230,6 +230,10 @@ def compute_signed_distance_to_nearest_road_edge_point(
       )
   )
   # Shape: (..., num_query_points).
-  return (
+  distances = (
       jnp.linalg.norm(nearest_xys - query_points[:, :2], axis=-1) * offroad_sign
   )
+  # Nothing is off-road where there is no road edge.
+  return jnp.where(
+      jnp.any(roadgraph_points.valid & is_road_edge), distances, -jnp.inf
+  )
-- 
2.43.0


From a9af151a4b77aaab6dc6e29b90a5bc1d27bb25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 19/36] fix: accept per-scenario timesteps in the bicycle
 inverse

The infeasibility metric raised on states whose timestep has the batch
shape that SimulatorState documents.
---
 waymax/dynamics/bicycle_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/bicycle_model.py b/waymax/dynamics/bicycle_model.py
index 347c143..000a172 100644
--- a/waymax/dynamics/bicycle_model.py
+++ b/waymax/dynamics/bicycle_model.py
@@ -74,12 +74,12 @@ def compute_inverse(
   xy_yaw_vel = jnp.stack(
       [traj.x, traj.y, traj.yaw, traj.vel_x, traj.vel_y], axis=-1
   )
-  xy_yaw_vel_slice = jax.lax.dynamic_slice_in_dim(
+  xy_yaw_vel_slice = datatypes.dynamic_slice(
       xy_yaw_vel, start_index=timestep, slice_size=2, axis=-2
   )
   # Each has shape (..., num_timesteps = 2, 1).
   _, _, yaw, vel_x, vel_y = jnp.split(xy_yaw_vel_slice, 5, axis=-1)
-  valids = jax.lax.dynamic_slice_in_dim(
+  valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
-- 
2.43.0


From 2859ff4ccc0fab261bbca7df4dc4f8343118a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 20/36] fix: read steps stored with validity -1 as invalid

---
 waymax/dataloader/womd_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..346dc75 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,8 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Invalid steps are stored as 0 or -1.
+  valid = jnp.asarray(example[f'{prefix}/valid']) > 0
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +283,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Invalid steps are stored as 0 or -1.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid']) > 0
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From 96fab67a5a9f523ca25919cad4b843f5431b213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 21/36] fix: keep all steps of state/which_time when objects
 are limited

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..65933c5 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -71,8 +71,11 @@ def preprocess_womd_example(
 
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
+    # 'state/which_time' has a time axis instead of an object axis.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From 9de5dfbf050c9ee38a780c9508294046c34fd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 22/36] fix: expand sharded paths below directories with an @
 in their name

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..743e830 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -53,7 +53,7 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
     An iterator through the complete set of filenames that the path refers to,
     with each filename having the format `filename-XXXXX-of-YYYYY`
   """
-  base_name, num_shards = path.split('@')
+  base_name, num_shards = path.rsplit('@', 1)
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
   format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-- 
2.43.0


From 98395a4d2c45c6b1446d6b8bc640f7aad8c09495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 23/36] fix: do not look ahead along past waypoints at the end
 of a log

---
 waymax/agents/waypoint_following_agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/agents/waypoint_following_agent.py b/waymax/agents/waypoint_following_agent.py
index 8679556..7e4cde8 100644
--- a/waymax/agents/waypoint_following_agent.py
+++ b/waymax/agents/waypoint_following_agent.py
@@ -500,6 +500,10 @@ def _find_reference_traj_from_log_traj(
     dists = jnp.linalg.norm(local_xyz[jnp.newaxis, :] - local_traj.xyz, axis=-1)
     dists = jnp.where(local_traj.valid, dists, jnp.inf)
     top_idx = jnp.argmin(dists, axis=-1)
+    # The slice starts before top_idx if fewer than num_pts waypoints are left.
+    # Those waypoints are not in the future, so they are invalidated.
+    is_future = jnp.arange(local_traj.shape[0]) >= top_idx
+    local_traj = local_traj.replace(valid=local_traj.valid & is_future)
     return datatypes.dynamic_slice(local_traj, top_idx, num_pts, axis=-1)
 
   find_reference_fn = find_reference_helper
-- 
2.43.0


From 94ad8bf42773f65c96f97d429716b70afb5a20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 24/36] fix: support compiled use of Discretizer.discretize

---
 waymax/dynamics/discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index c0cd19a..3e26674 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -18,6 +18,7 @@ import functools
 from dm_env import specs
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
@@ -74,7 +75,8 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        # NumPy keeps the dimensions concrete when this function is compiled.
+        tuple(np.asarray(self._bins) + 1),
         mode='clip',
     )
     return indices_1d
-- 
2.43.0


From 0df1d3523d262e5d791068f2752acadf23269073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 25/36] fix: compare structures with different optional fields
 as unequal

---
 waymax/datatypes/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index bb46341..f5d62de 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -210,6 +210,11 @@ def compare_all_leaf_nodes(  # pytype: disable=annotation-type-mismatch  # jnp-t
   """
   if not isinstance(second, type(first)):
     return False
+  # E.g. optional fields that are set in one of the two only.
+  if jax.tree_util.tree_structure(first) != jax.tree_util.tree_structure(
+      second
+  ):
+    return False
   flags = jax.tree_util.tree_map(compare_func, first, second)
   return jax.tree_util.tree_all(flags)
 
-- 
2.43.0


From 804eeb6d9a8faca78919ea8e9b89a0226d4428c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 26/36] fix: give the wrapped environment's reward the Action
 taken in DMEnvWrapper

---
 waymax/env/wrappers/dm_env_wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 9e2445f..ddfc405 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -114,10 +114,6 @@ class DMEnvWrapper(dm_env.Environment):
     if self._done:
       raise errors.EpisodeAlreadyFinishedError()
 
-    # Calculate the reward on the simulation step before updating the state with
-    # the given action.
-    reward = self._jitted_stateless_env_reward(self._cur_state, action)
-
     action = jnp.asarray(action)
     # Reshape the action to what the underlying environment wants.
     action = jnp.reshape(
@@ -129,6 +125,9 @@ class DMEnvWrapper(dm_env.Environment):
         data=action, valid=jnp.ones_like(action[..., 0:1], dtype=jnp.bool_)
     )
     action.validate()
+    # Calculate the reward on the simulation step before updating the state with
+    # the given action.
+    reward = self._jitted_stateless_env_reward(self._cur_state, action)
     self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
 
     termination = self._stateless_env.termination(self._cur_state)
-- 
2.43.0


From 3a72cfbbe77531e5d65861d89acf6a888c2e380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 27/36] fix: accept any observation tree in
 DMEnvWrapper.observation_spec

---
 waymax/env/wrappers/dm_env_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index ddfc405..045b978 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -171,7 +171,7 @@ class DMEnvWrapper(dm_env.Environment):
   def observation_spec(self) -> types.PyTree:
     """The observation specs of this environment, without batch dimension."""
     sample_obs = self.observe(self.stateless_env.reset(self._sample_state))
-    batch_ndim = len(sample_obs.batch_dims)
+    batch_ndim = len(self._sample_state.batch_dims)
 
     def array_to_spec(array: jax.Array) -> specs.Array:
       if array.dtype in [jnp.float32, jnp.int32, jnp.bool_]:
-- 
2.43.0


From b2d11b4b2722a9a9345590477bb765ea7eea7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 28/36] fix: keep DMEnvWrapper uninitialized after a refused
 reset

---
 waymax/env/wrappers/dm_env_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 045b978..159b233 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -87,8 +87,8 @@ class DMEnvWrapper(dm_env.Environment):
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
-    if self._cur_state.is_done:
+    self._initialized = not self._cur_state.is_done
+    if not self._initialized:
       raise errors.SimulationNotInitializedError()
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
-- 
2.43.0


From 5e3c3735f521e966f8c6dd1c08271da0219c40f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 29/36] fix: let controlled objects that do not exist yet
 appear where the log has them

---
 waymax/dynamics/abstract_dynamics.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/waymax/dynamics/abstract_dynamics.py b/waymax/dynamics/abstract_dynamics.py
index bb15927..8c37add 100644
--- a/waymax/dynamics/abstract_dynamics.py
+++ b/waymax/dynamics/abstract_dynamics.py
@@ -198,6 +198,12 @@ def apply_trajectory_update_to_state(
   chex.assert_equal_shape(
       [is_controlled, trajectory_update.x, default_next_traj.x]
   )
+  exist_and_controlled = is_controlled & current_traj.valid
+  # A controlled object which does not exist yet has no pose to start from: if
+  # it is to appear, it appears where the reference trajectory places it.
+  use_update = (
+      exist_and_controlled if allow_object_injection else is_controlled
+  )
   # Some fields such as the length, width and height of objects are set to be
   # the same for every timestep during data loading and so we don't update these
   # from the current trajectory.
@@ -213,15 +219,14 @@ def apply_trajectory_update_to_state(
       )
       # Only update for is_controlled objects from users.
       replacement_dict[field] = jnp.where(
-          is_controlled, new_value, default_next_traj[field]
+          use_update, new_value, default_next_traj[field]
       )
     else:
       new_value = jnp.where(
-          is_controlled, trajectory_update[field], default_next_traj[field]
+          use_update, trajectory_update[field], default_next_traj[field]
       )
       replacement_dict[field] = new_value
 
-  exist_and_controlled = is_controlled & current_traj.valid
   # For exist_and_controlled objects, valid flags should remain the same as
   # before. For non-exist_and_controlled objects, they can disappear.
   next_valid = jnp.where(
-- 
2.43.0


From 3b6220fc7b667885e9eb38242dcca2f897b68e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 30/36] fix: give objects that appear during simulation their
 logged elevation

---
 waymax/dynamics/abstract_dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/dynamics/abstract_dynamics.py b/waymax/dynamics/abstract_dynamics.py
index 8c37add..3b5ccaf 100644
--- a/waymax/dynamics/abstract_dynamics.py
+++ b/waymax/dynamics/abstract_dynamics.py
@@ -239,6 +239,10 @@ def apply_trajectory_update_to_state(
     next_valid = jnp.where(
         exist_and_controlled, next_valid, default_next_traj.valid
     )
+    # The elevation of an object which does not exist yet is undefined.
+    replacement_dict['z'] = jnp.where(
+        current_traj.valid, current_traj.z, default_next_traj.z
+    )
   replacement_dict['valid'] = next_valid
 
   # Use timestamp micros from the logged trajectory.
-- 
2.43.0


From 7dec2c1985a13167faa0c06dc346137ad288e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 31/36] fix: let images be centered on a chosen agent

center_agent_idx selected a 1-D row that was then indexed like a 2-D array,
so every plot with center_agent_idx other than -1 raised IndexError.
---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..caf7179 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From c36a4d2ed08d75be7c18931fbf946916da454402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 32/36] fix: let plot_trajectory draw without a highlighted
 step

time_idx=None is the documented default but raised TypeError.
---
 waymax/visualization/viz.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index caf7179..45e5058 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -36,7 +36,7 @@ _RoadGraphDefaultColor = (0.9, 0.9, 0.9)
 def _plot_bounding_boxes(
     ax: matplotlib.axes.Axes,
     traj_5dof: np.ndarray,
-    time_idx: int,
+    time_idx: Optional[int],
     is_controlled: np.ndarray,
     valid: np.ndarray,
     add_label: bool = False,
@@ -45,6 +45,10 @@ def _plot_bounding_boxes(
   # Plots bounding boxes (traj_5dof) with shape: (A, T)
   # is_controlled: (A,)
   # valid: (A, T)
+  # No step is highlighted if time_idx is None.
+  highlight_overlap = time_idx is not None
+  if time_idx is None:
+    time_idx = -1
   valid_controlled = is_controlled[:, np.newaxis] & valid
   valid_context = ~is_controlled[:, np.newaxis] & valid
 
@@ -76,6 +80,9 @@ def _plot_bounding_boxes(
       label='context' if add_label else None,
   )
 
+  if not highlight_overlap:
+    return
+
   # Shows current overlap
   # (A, A)
   overlap_fn = jax.jit(geometry.compute_pairwise_overlaps)
-- 
2.43.0


From 331874604bb452974e7a4e33f47dd1fb636ada96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 33/36] fix: plot brax timesteps of scenarios without routes

sdc_paths is optional, but plot_single_agent_brax_timestep required it.
---
 waymax/visualization/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index 45e5058..ba9651c 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -449,7 +449,8 @@ def plot_single_agent_brax_timestep(
   )
 
   # Plots paths.
-  _plot_path_points(ax, state.sdc_paths)
+  if state.sdc_paths is not None:
+    _plot_path_points(ax, state.sdc_paths)
 
   # 3. Gets np img, centered on selected agent's current location.
   # [A, 2]
-- 
2.43.0


From 40035b67282be5367f63ef47fde346ef0b3faee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 34/36] fix: save images under a bare file name

os.makedirs('') raises FileNotFoundError for a file in the working directory.
---
 waymax/visualization/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/utils.py b/waymax/visualization/utils.py
index c3c3636..6b8a68a 100644
--- a/waymax/visualization/utils.py
+++ b/waymax/visualization/utils.py
@@ -95,7 +95,8 @@ def img_from_fig(fig: matplotlib.figure.Figure) -> np.ndarray:
 def save_img_as_png(img: np.ndarray, filename: str = '/tmp/img.png'):
   """Saves np image to disk."""
   outdir = os.path.dirname(filename)
-  os.makedirs(outdir, exist_ok=True)
+  if outdir:
+    os.makedirs(outdir, exist_ok=True)
   Image.fromarray(img).save(filename)
 
 
-- 
2.43.0


From 8926a4b48f924b845cbd1938d8b41b7c44f53b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 35/36] fix: broadcast masked_mean along the reduced axis

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index f5d62de..2fff778 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -289,9 +289,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From d5477a1b91cb672ae3a2c91858e344c6a3251d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 36/36] fix: keep equality in subclasses of comparable
 structures and in observations

---
 waymax/datatypes/array.py                | 3 ++-
 waymax/datatypes/observation.py          | 3 +++
 waymax/env/planning_agent_environment.py | 5 ++++-
 waymax/metrics/abstract_metric.py        | 4 ++++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/waymax/datatypes/array.py b/waymax/datatypes/array.py
index 47490ee..7f4eac3 100644
--- a/waymax/datatypes/array.py
+++ b/waymax/datatypes/array.py
@@ -41,7 +41,8 @@ class MaskedArray:
     return self.valid.shape
 
   def __eq__(self, other: Any) -> bool:
-    if not isinstance(other, MaskedArray):
+    # Also false for a subclass, which is another kind of structure.
+    if type(other) is not type(self):
       return False
     flags = jax.tree_util.tree_map(jnp.array_equal, self, other)
     return jax.tree_util.tree_all(flags)
diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 3981400..5809811 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -245,6 +245,9 @@ class Observation:
     """Whether the observation is valid, (..., num_observations)."""
     return self.pose2d.valid
 
+  def __eq__(self, other: Any) -> bool:
+    return operations.compare_all_leaf_nodes(self, other)
+
   def for_obj(self, idx: int) -> 'Observation':
     """Observation from idx-th object's point of view over all objects.
 
diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 319fb07..1d6bc7b 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -14,7 +14,7 @@
 
 """Waymax environment for tasks relating to Planning for the ADV."""
 
-from typing import Sequence
+from typing import Any, Sequence
 
 import chex
 from dm_env import specs
@@ -159,6 +159,9 @@ class PlanningAgentSimulatorState(datatypes.SimulatorState):
 
   sim_agent_actor_states: Sequence[actor_core.ActorState] = ()
 
+  def __eq__(self, other: Any) -> bool:
+    return datatypes.compare_all_leaf_nodes(self, other)
+
 
 class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
   """An environment wrapper allowing for controlling a single agent.
diff --git a/waymax/metrics/abstract_metric.py b/waymax/metrics/abstract_metric.py
index e79b581..7d126c9 100644
--- a/waymax/metrics/abstract_metric.py
+++ b/waymax/metrics/abstract_metric.py
@@ -15,6 +15,7 @@
 """Simulator abstract metric definition."""
 
 import abc
+from typing import Any
 
 import chex
 from jax import numpy as jnp
@@ -31,6 +32,9 @@ class MetricResult(datatypes.MaskedArray):
     valid: A (...) boolean validity mask.
   """
 
+  def __eq__(self, other: Any) -> bool:
+    return datatypes.compare_all_leaf_nodes(self, other)
+
   def validate(self) -> None:
     """Validates shape and type."""
     chex.assert_equal_shape([self.value, self.valid])
-- 
2.43.0

