"""Planted bugs, first batch (C01-C12)."""
HEAD = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import jax, jax.numpy as jnp
import scene as S
from waymax import agents, config, datatypes, dynamics, env, metrics
OT = config.ObjectType
def fail(msg):
  print('BROKEN:', msg); sys.exit(1)
def same(a, b):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(la, lb))
'''
SPECS = []
def seed(id, prop, file, edits, needs, breaks, demo, **k):
  SPECS.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo, **k))

BE, PE = 'waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py'

seed('C01-timestamps-leak', 'C01', 'waymax/datatypes/object_state.py',
  [('''    if x.dtype in [jnp.int64, jnp.int32, jnp.int16, jnp.int8]:
      return jnp.ones_like(x) * _INVALID_INT_VALUE''',
    '''    if x.dtype in [jnp.int64, jnp.int32, jnp.int16, jnp.int8]:
      return jnp.where(x < 0, _INVALID_INT_VALUE, x)''')],
  'a reset and a look at the timestamps of the steps that are not simulated yet',
  'the simulated trajectory keeps the logged timestamps of future steps after reset',
  '''
rng = np.random.default_rng(0)
sc = S.gen_scene(rng, A=4, T=12, R=10, L=2, full_prob=1., fill='leftover')
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=4, init_steps=3))
st = e.reset(S.make_state(sc))
fut = np.asarray(st.sim_trajectory.timestamp_micros)[:, 3:]
if not (fut == -1).all():
  fail(f'future timestamps after reset: {fut[0]}')
''')

seed('C01-second-episode', 'C01', BE,
  [('''    state_uninitialized = state.replace(
        timestep=jnp.array(-1), sim_trajectory=sim_traj_uninitialized
    )
    return datatypes.update_state_by_log(
        state_uninitialized, self.config.init_steps
    )''',
    '''    state_uninitialized = state.replace(
        timestep=jnp.array(-1), sim_trajectory=sim_traj_uninitialized
    )
    warm_up = self.config.init_steps
    if isinstance(state.timestep, jax.Array) and not isinstance(
        state.timestep, jax.core.Tracer
    ):
      # Nothing is left to replay for a scenario in the middle of its episode.
      if state.timestep.ndim == 0 and int(state.timestep) >= warm_up:
        return state_uninitialized.replace(
            timestep=state.timestep, sim_trajectory=state.sim_trajectory
        )
    return datatypes.update_state_by_log(
        state_uninitialized, warm_up
    )''')],
  'resetting a state that comes from the middle of an episode, uncompiled',
  'reset of a state whose episode is under way returns it unchanged instead of starting again',
  '''
rng = np.random.default_rng(1)
sc = S.gen_scene(rng, A=4, T=12, R=10, L=2, full_prob=1.)
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=4, init_steps=3))
st = e.reset(S.make_state(sc))
first = S.to_np(st)
act = datatypes.Action(data=jnp.ones((4, 5)), valid=jnp.ones((4, 1), bool))
for _ in range(3):
  st = e.step(st, act)
again = S.to_np(e.reset(st))
if not same(first, again):
  fail(f'second reset: timestep {again.timestep}, expected {first.timestep}')
''')

seed('C02-last-step', 'C02', 'waymax/dynamics/abstract_dynamics.py',
  [('''      updates=updated_traj,
      inputs_start_idx=timestep + 1,
      updates_start_idx=0,''',
    '''      updates=updated_traj,
      inputs_start_idx=jnp.where(
          timestep + 2 < sim_trajectory.num_timesteps - 1, timestep + 1, timestep + 1
      )
      - (timestep + 2 == sim_trajectory.num_timesteps) * (timestep > 30),
      updates_start_idx=0,''')],
  'an episode of more than 32 steps that is stepped to its very end',
  'the last step of a long episode overwrites the step before it instead of being appended',
  '''
rng = np.random.default_rng(2)
T = 40
sc = S.gen_scene(rng, A=3, T=T, R=10, L=2, full_prob=1.)
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=2))
st = e.reset(S.make_state(sc))
step = jax.jit(e.step)
act = datatypes.Action(data=jnp.ones((3, 5)), valid=jnp.ones((3, 1), bool))
while int(st.remaining_timesteps):
  t = int(st.timestep)
  nxt = step(st, act)
  a, b = S.to_np(st.sim_trajectory), S.to_np(nxt.sim_trajectory)
  keep = np.arange(T) != t + 1
  for f in ('x', 'y', 'valid', 'timestamp_micros'):
    if not np.array_equal(getattr(a, f)[:, keep], getattr(b, f)[:, keep]):
      fail(f'step {t} -> {t + 1} changed other steps of {f}')
  st = nxt
''')

seed('C02-alias-input', 'C02', 'waymax/env/base_environment.py',
  [('''    return state.replace(sim_trajectory=new_traj, timestep=state.timestep + 1)''',
    '''    next_timestep = state.timestep + 1
    if isinstance(next_timestep, jax.core.Tracer):
      return state.replace(sim_trajectory=new_traj, timestep=next_timestep)
    metadata = state.object_metadata
    # Records who was steered, for visualization.
    metadata = metadata.replace(is_controlled=is_controlled)
    return state.replace(
        sim_trajectory=new_traj,
        timestep=next_timestep,
        object_metadata=metadata,
    )''')],
  'stepping uncompiled and comparing the metadata before and after',
  'a step overwrites the is_controlled flags of the object metadata',
  '''
rng = np.random.default_rng(3)
sc = S.gen_scene(rng, A=4, T=10, R=10, L=2, full_prob=1., sdc=1)
sc['meta']['is_controlled'] = np.array([True, False, True, False])
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=4, init_steps=2, controlled_object=OT.SDC))
st = e.reset(S.make_state(sc))
act = datatypes.Action(data=jnp.ones((4, 5)), valid=jnp.ones((4, 1), bool))
nxt = e.step(st, act)
if not same(st.object_metadata, nxt.object_metadata):
  fail(f'metadata changed by a step: is_controlled {np.asarray(nxt.object_metadata.is_controlled)}')
''')

seed('C03-absent-controlled', 'C03', 'waymax/dynamics/abstract_dynamics.py',
  [('''  if allow_object_injection:
    # Additionally allow non-exist_and_controlled objects to appear.
    next_valid = jnp.where(
        exist_and_controlled, next_valid, default_next_traj.valid
    )''',
    '''  if allow_object_injection:
    # Additionally allow uncontrolled objects to appear.
    next_valid = jnp.where(is_controlled, next_valid, default_next_traj.valid)''')],
  'a controlled object that is absent at the end of warm-up and appears in the log later, with new objects allowed',
  'a controlled object that enters the log after warm-up never appears in the simulation',
  '''
rng = np.random.default_rng(4)
sc = S.gen_scene(rng, A=3, T=10, R=10, L=2, full_prob=1., sdc=0, obj_ids=True)
v = np.ones((3, 10), bool); v[2, :5] = False
sc['log']['valid'] = v
sc['meta']['is_modeled'] = np.array([False, False, True])
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(
    max_num_objects=3, init_steps=2, controlled_object=OT.MODELED, allow_new_objects_after_warmup=True))
st = e.reset(S.make_state(sc))
act = datatypes.Action(data=jnp.ones((3, 5)), valid=jnp.ones((3, 1), bool))
while int(st.remaining_timesteps):
  st = e.step(st, act)
got = np.asarray(st.sim_trajectory.valid)[2]
if not (got[5:].all() and not got[:5].any()):
  fail(f'object 2 is valid in the log from step 5, simulated validity {got.astype(int)}')
''')

seed('C03-mask-at-current', 'C03', BE,
  [('''        state.sim_trajectory.valid,
        index=config.init_steps - 1,
        axis=-1,''',
    '''        state.log_trajectory.valid,
        index=state.timestep,
        axis=-1,''')],
  'all valid objects controlled, no new objects, and an object whose log ends (or pauses) after warm-up',
  'a controlled object stops being controlled as soon as its log is invalid at the current step',
  '''
rng = np.random.default_rng(5)
sc = S.gen_scene(rng, A=3, T=10, R=10, L=2, full_prob=1., sdc=0)
v = np.ones((3, 10), bool); v[2, 4:] = False
sc['log']['valid'] = v
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(
    max_num_objects=3, init_steps=2, controlled_object=OT.VALID, allow_new_objects_after_warmup=False))
st = e.reset(S.make_state(sc))
act = datatypes.Action(data=jnp.full((3, 5), 7.), valid=jnp.ones((3, 1), bool))
while int(st.remaining_timesteps):
  st = e.step(st, act)
got = S.to_np(st.sim_trajectory)
if not (got.valid[2, 2:].all() and (got.x[2, 2:] == 7.).all()):
  fail(f'object 2 is controlled for the whole episode: valid {got.valid[2].astype(int)}, x {got.x[2]}')
''')

seed('C04-offroad-batch', 'C04', 'waymax/metrics/roadgraph.py',
  [('''  compute_fn = compute_signed_distance_to_nearest_road_edge_point
  for _ in shape_prefix:
    compute_fn = jax.vmap(compute_fn)

  # Shape: (..., num_objects * num_corners=4).
  distances = compute_fn(bbox_corners, roadgraph_points)''',
    '''  compute_fn = compute_signed_distance_to_nearest_road_edge_point
  # Innermost dimension varies fastest; flatten the others.
  flat_corners = jnp.reshape(bbox_corners, [-1, num_agents * num_points, dim])
  flat_points = jax.tree_util.tree_map(
      lambda x: jnp.reshape(x, [-1, x.shape[-1]], order='F' if len(shape_prefix) > 1 else 'C'),
      roadgraph_points,
  )
  # Shape: (..., num_objects * num_corners=4).
  distances = jax.vmap(compute_fn)(flat_corners, flat_points)''')],
  'more than one batch dimension and different maps in the scenarios of a batch',
  'with two or more batch dimensions scenarios are judged against the map of another scenario',
  '''
from waymax.metrics import roadgraph as rgm
scs = [S.gen_scene(np.random.default_rng(60 + i), A=5, T=8, R=60, L=2, center=(0., 0.), full_prob=1.) for i in range(6)]
st = [S.make_state(s, timestep=3) for s in scs]
b = jax.tree_util.tree_map(lambda *x: jnp.stack(x).reshape((2, 3) + x[0].shape), *st)
m = metrics.OffroadMetric()
got = np.asarray(m.compute(b).value)
want = np.stack([np.asarray(m.compute(s).value) for s in st]).reshape(2, 3, 5)
if not np.array_equal(got, want):
  fail(f'batched {got.tolist()} single {want.tolist()}')
''')

seed('C04-stateful-env', 'C04', PE,
  [('''    # Do not control objects which are initialized in a overlap
    # (likely an articulated bus).
    is_controllable = ~_initialized_overlap(state.log_trajectory)
''',
    '''    # Do not control objects which are initialized in a overlap
    # (likely an articulated bus). The log does not change within an episode,
    # compute it once.
    is_controllable = getattr(self, '_controllable', None)
    if (
        is_controllable is None
        or is_controllable.shape != state.object_metadata.shape
    ):
      is_controllable = ~_initialized_overlap(state.log_trajectory)
      if not isinstance(is_controllable, jax.core.Tracer):
        self._controllable = is_controllable
''')],
  'two scenarios of the same size simulated with one environment, uncompiled, differing in initial overlaps',
  'the set of steerable agents of the first scenario is used for every later scenario',
  '''
def scene(overlap):
  sc = S.gen_scene(np.random.default_rng(7), A=3, T=12, R=10, L=2, full_prob=1., sdc=0)
  l = sc['log']
  l['valid'][:] = True
  l['x'][:] = np.array([[0.], [40.], [42. if overlap else 80.]]) + np.arange(12) * .5
  l['y'][:] = 0; l['yaw'][:] = 0; l['vel_x'][:] = 5.; l['vel_y'][:] = 0
  l['length'][:] = 4.; l['width'][:] = 2.
  return S.make_state(sc)
def run(e, sc):
  st = e.reset(sc)
  act = datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool))
  for _ in range(4):
    st = e.step(st, act)
  return S.to_np(st.sim_trajectory)
ag = agents.create_constant_speed_actor(dynamics_model=dynamics.StateDynamics(), is_controlled_func=lambda s: jnp.arange(3) > 0, speed=0.)
make = lambda: env.PlanningAgentEnvironment(dynamics.DeltaGlobal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=OT.SDC), [ag], [{}])
shared = make()
run(shared, scene(True))
if not same(run(shared, scene(False)), run(make(), scene(False))):
  fail('a scenario is simulated differently after another one')
''')

seed('C05-actor-state', 'C05', 'waymax/env/rollout.py',
  [('''        rng=rng,
        actor_state=actor_output.actor_state,
    )
    return next_carry''',
    '''        rng=rng,
        actor_state=carry.actor_state,
    )
    return next_carry''')],
  'an actor with internal state (memory) rolled out for two or more steps',
  'the state an actor returns is dropped: it sees its initial state at every step',
  '''
from waymax.agents import actor_core
def init(rng, state): return jnp.zeros((), jnp.int32)
def select(params, state, actor_state, rng):
  data = jnp.zeros(state.object_metadata.shape + (3,)) + actor_state.astype(jnp.float32) * .1
  return actor_core.WaymaxActorOutput(actor_state=actor_state + 1, is_controlled=state.object_metadata.is_sdc,
    action=datatypes.Action(data=data, valid=jnp.ones(state.object_metadata.shape + (1,), bool)))
actor = actor_core.actor_core_factory(init, select, 'counter')
sc = S.gen_scene(np.random.default_rng(8), A=3, T=12, R=10, L=2, full_prob=1.)
e = env.BaseEnvironment(dynamics.DeltaGlobal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, metrics=config.MetricsConfig(metrics_to_run=())))
out = env.rollout(S.make_state(sc), actor, e, jax.random.PRNGKey(0), 4)
got = np.asarray(out.action.data)[:4, 0, 0]
if not np.allclose(got, [0, .1, .2, .3], atol=1e-6):
  fail(f'actions of the counting actor {got}')
''')

seed('C05-last-reward', 'C05', 'waymax/env/rollout.py',
  [('''        reward=env.reward(carry.state, actor_output.action),
    )''',
    '''        reward=env.reward(next_state, actor_output.action),
    )''')],
  'comparing the rewards of a rollout with those of the step loop',
  'record i of a rollout holds the reward of the state after the action instead of the state the action leaves',
  '''
sc = S.gen_scene(np.random.default_rng(9), A=4, T=14, R=30, L=2, full_prob=1.)
cfg = config.EnvironmentConfig(max_num_objects=4, init_steps=2, controlled_object=OT.VALID, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
  rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.}))
e = env.BaseEnvironment(dynamics.DeltaGlobal(), cfg)
actor = agents.create_constant_speed_actor(dynamics_model=dynamics.DeltaGlobal(), is_controlled_func=lambda s: s.object_metadata.is_valid, speed=3.)
out = env.rollout(S.make_state(sc), actor, e, jax.random.PRNGKey(0), 6)
for i in range(7):
  s = jax.tree_util.tree_map(lambda x: x[i], out.state)
  want = np.asarray(e.reward(s, None))
  if not np.allclose(np.asarray(out.reward)[i], want, atol=1e-4):
    fail(f'record {i}: reward {np.asarray(out.reward)[i]} of its state {want}')
''')

seed('C06-wraparound-inverse', 'C06', 'waymax/dynamics/delta.py',
  [('''    yaw = jnp.clip(
        geometry.wrap_yaws(action[..., 2]),''',
    '''    yaw = jnp.clip(
        jnp.where(
            jnp.abs(action[..., 2]) > 2 * jnp.pi,
            geometry.wrap_yaws(action[..., 2]),
            action[..., 2],
        ),''')],
  'an object whose heading crosses +-pi between two steps',
  'the inverse of a small turn across the heading wrap-around is a turn of half a circle',
  '''
m = dynamics.DeltaGlobal()
t = datatypes.Trajectory.zeros((1, 2)).replace(yaw=jnp.array([[3.1, -3.1]]), valid=jnp.ones((1, 2), bool))
md = S.make_state(S.gen_scene(np.random.default_rng(0), A=1, T=4, R=5, L=1)).object_metadata
a = m.inverse(t, md, 0)
cur = datatypes.dynamic_slice(t, 0, 1, -1)
u = m.compute_update(a, cur)
err = (float(u.yaw[0, 0]) + 3.1 + np.pi) % (2 * np.pi) - np.pi
if abs(err) > 1e-3:
  fail(f'3.1 -> -3.1 inverted to a turn of {float(a.data[0, 2]):.3f}, reaching {float(u.yaw[0, 0]):.3f}')
''')

seed('C06-local-velocity', 'C06', 'waymax/dynamics/delta.py',
  [('''    transf_yaw = trajectory.yaw[..., 0]
    transf_valid = trajectory.valid[..., 0:1]
''',
    '''    # The frame of a moving object is aligned with its motion.
    moving = jnp.hypot(trajectory.vel_x, trajectory.vel_y) > 2.0
    sideslip = geometry.wrap_yaws(
        jnp.arctan2(trajectory.vel_y, trajectory.vel_x) - trajectory.yaw
    )
    transf_yaw = jnp.where(
        moving & (jnp.abs(sideslip) > jnp.pi / 2),
        trajectory.yaw + sideslip,
        trajectory.yaw,
    )[..., 0]
    transf_valid = trajectory.valid[..., 0:1]
''')],
  'an object that drives backwards faster than 2 m/s',
  'displacements of a reversing object are applied in its direction of motion instead of its heading frame',
  '''
m = dynamics.DeltaLocal()
t = datatypes.Trajectory.zeros((1, 1)).replace(yaw=jnp.array([[.5]]), vel_x=jnp.array([[-4 * np.cos(.5)]], dtype=jnp.float32),
   vel_y=jnp.array([[-4 * np.sin(.5)]], dtype=jnp.float32), valid=jnp.ones((1, 1), bool))
u = m.compute_update(datatypes.Action(data=jnp.array([[1., 0., 0.]]), valid=jnp.ones((1, 1), bool)), t)
got = np.array([float(u.x[0, 0]), float(u.y[0, 0])])
if np.abs(got - [np.cos(.5), np.sin(.5)]).max() > 1e-4:
  fail(f'1 m forward at heading .5 moved the object by {got}')
''')

seed('C07-reverse-clip', 'C07', 'waymax/dynamics/bicycle_model.py',
  [('''    delta_yaw = steering * (speed * t + 0.5 * accel * t**2)
    new_yaw = geometry.wrap_yaws(yaw + delta_yaw)''',
    '''    delta_yaw = steering * jnp.maximum(speed * t + 0.5 * accel * t**2, 0.0)
    new_yaw = geometry.wrap_yaws(yaw + delta_yaw)''')],
  'strong braking at a speed below about 0.3 m/s with steering, so that the arc length is negative',
  'the heading no longer follows curvature times arc length when braking makes the object roll back',
  '''
m = dynamics.InvertibleBicycleModel()
t = datatypes.Trajectory.zeros((1, 1)).replace(vel_x=jnp.array([[.1]]), valid=jnp.ones((1, 1), bool))
u = m.compute_update(datatypes.Action(data=jnp.array([[-6., .3]]), valid=jnp.ones((1, 1), bool)), t)
want = .3 * (.1 * .1 - .5 * 6 * .01)
if abs(float(u.yaw[0, 0]) - want) > 1e-5:
  fail(f'heading {float(u.yaw[0, 0])} expected {want}')
''')

seed('C07-inverse-one-side', 'C07', 'waymax/dynamics/bicycle_model.py',
  [('''  steering = jnp.where(jnp.abs(speed[..., 0:1, :]) < _SPEED_LIMIT, 0, steering)
  steering = jnp.where(jnp.abs(speed[..., 1:2, :]) < _SPEED_LIMIT, 0, steering)''',
    '''  slow = jnp.any(jnp.abs(speed) < 0.5 * _SPEED_LIMIT, axis=-2, keepdims=True)
  steering = jnp.where(slow | ~jnp.isfinite(steering), 0, steering)'''),
   ('''  real_new_yaw = jnp.where(
      jnp.abs(new_speed) <= _SPEED_LIMIT, new_yaw, real_new_yaw
  )''',
    '''  real_new_yaw = jnp.where(
      jnp.abs(new_speed) <= 15 * _SPEED_LIMIT, new_yaw, real_new_yaw
  )''')],
  'an inverse at speeds between 0.6 and 9 m/s on a log whose heading differs from the direction of velocity',
  'the steering of medium-speed motion is estimated from the recorded heading instead of the velocity',
  '''
m = dynamics.InvertibleBicycleModel()
v, a0, a1 = 5., 0., .02
t = datatypes.Trajectory.zeros((1, 2)).replace(vel_x=jnp.array([[v * np.cos(a0), v * np.cos(a1)]], dtype=jnp.float32),
  vel_y=jnp.array([[v * np.sin(a0), v * np.sin(a1)]], dtype=jnp.float32), yaw=jnp.array([[0., .1]]), valid=jnp.ones((1, 2), bool))
act = m.inverse(t, None, 0)
want = a1 / (v * .1)
if abs(float(act.data[0, 1]) - want) > 1e-3:
  fail(f'curvature {float(act.data[0, 1])} expected {want}')
''')

seed('C08-floor-bins', 'C08', 'waymax/dynamics/discretizer.py',
  [('''    indices_nd = jnp.rint(
        jnp.maximum(jnp.minimum(normalized_indices, self._bins), 0)
    ).astype(jnp.int32)''',
    '''    indices_nd = jnp.rint(
        jnp.clip(normalized_indices, 0, jnp.min(self._bins))
    ).astype(jnp.int32)''')],
  'a grid with a different number of bins per dimension',
  'values in the upper part of a dimension with more bins than the smallest one are encoded too low',
  '''
from waymax.dynamics import discretizer
d = discretizer.Discretizer(jnp.array([-1., -1.]), jnp.array([1., 1.]), jnp.array([4, 10]))
idx = jnp.arange(55)[:, None]
back = np.asarray(d.discretize(d.make_continuous(idx)))
if not np.array_equal(back, np.asarray(idx)):
  fail(f'{int((back != np.asarray(idx)).sum())} of 55 indices do not survive decoding and encoding')
''')

seed('C08-search-sdc', 'C08', 'waymax/dynamics/discretizer.py',
  [('''  best_action = all_discrete_actions[jnp.argmin(distances, axis=0)]''',
    '''  # One pass over the candidates, the first object is decided first.
  best = jnp.argmin(distances, axis=0)
  improved = jnp.min(distances, axis=0) < distances[0]
  best = jnp.where(improved, best, jnp.zeros_like(best))
  best = jnp.where(best < all_discrete_actions.shape[0] - 1, best, best - 1)
  best_action = all_discrete_actions[best]''')],
  'a search inverse whose best action is the last of the grid (full throttle and full steering)',
  'the search inverse never returns the last action of the grid',
  '''
m = dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), jnp.array([4, 4, 4]), bin_inverse=False)
t = datatypes.Trajectory.zeros((2, 2)).replace(x=jnp.array([[0., 6.], [0., 0.]]), y=jnp.array([[0., 6.], [0., 0.]]),
   yaw=jnp.array([[0., 3.14159], [0., 0.]]), length=jnp.full((2, 2), 4.), width=jnp.full((2, 2), 2.), valid=jnp.ones((2, 2), bool))
md = S.make_state(S.gen_scene(np.random.default_rng(0), A=2, T=4, R=5, L=1)).object_metadata
a = m.inverse(t, md, 0)
u = m.compute_update(a, datatypes.dynamic_slice(t, 0, 1, -1))
d = np.hypot(float(u.x[0, 0]) - 6, float(u.y[0, 0]) - 6)
if d > .1 or abs(abs(float(u.yaw[0, 0])) - np.pi) > .1:
  fail(f'index {int(a.data[0, 0])} reaches ({float(u.x[0, 0])}, {float(u.y[0, 0])}, {float(u.yaw[0, 0])}) instead of (6, 6, pi)')
''')

seed('C09-first-claims', 'C09', PE,
  [('''      controlled_by_sim = agent_output.is_controlled & is_controllable
''',
    '''      controlled_by_sim = agent_output.is_controlled & is_controllable
      if len(self._sim_agent_actors) > 2:
        # Leave objects that already have a controller alone.
        controlled_by_sim = controlled_by_sim & (
            ~merged_controlled | planning_agent_controlled
        )
''')],
  'three or more sim agents of which two claim the same object',
  'with three or more sim agents the first claimant of an object wins instead of the last',
  '''
sc = S.gen_scene(np.random.default_rng(11), A=3, T=12, R=10, L=2, full_prob=1., sdc=0)
l = sc['log']; l['valid'][:] = True
l['x'][:] = np.array([[0.], [40.], [80.]]); l['y'][:] = 0; l['yaw'][:] = 0; l['length'][:] = 4.; l['width'][:] = 2.
mk = lambda v: agents.create_constant_speed_actor(dynamics_model=dynamics.StateDynamics(), is_controlled_func=lambda s: jnp.arange(3) == 1, speed=v)
e = env.PlanningAgentEnvironment(dynamics.DeltaGlobal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=OT.SDC), [mk(1.), mk(2.), mk(3.)], [{}] * 3)
st = e.reset(S.make_state(sc))
x0 = float(st.current_sim_trajectory.x[1, 0])
st = e.step(st, datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool)))
d = float(st.current_sim_trajectory.x[1, 0]) - x0
if abs(d - .3) > 1e-3:
  fail(f'object 1 moved by {d}, the last agent drives it at 3 m/s')
''')

seed('C09-overlap-now', 'C09', PE,
  [('''  trajectory = datatypes.dynamic_index(
      log_trajectory, 0, axis=-1, keepdims=False
  )''',
    '''  # Objects that are not there at first count from where they enter.
  first_valid = jnp.argmax(log_trajectory.valid, axis=-1, keepdims=True)
  trajectory = jax.tree_util.tree_map(
      lambda x: jnp.take_along_axis(x, first_valid, axis=-1)[..., 0],
      log_trajectory,
  )''')],
  'an object that appears later, at a place another object occupied at the start of the log',
  'objects that enter the log later where another one started are never steered by sim agents',
  '''
sc = S.gen_scene(np.random.default_rng(12), A=3, T=14, R=10, L=2, full_prob=1., sdc=0)
l = sc['log']; l['valid'][:] = True
l['x'][:] = np.array([[0.], [40.], [40.]]) + np.arange(14) * 6.; l['x'][2] = 40.
l['y'][:] = 0; l['yaw'][:] = 0; l['length'][:] = 4.; l['width'][:] = 2.; l['vel_x'][:] = 60; l['vel_x'][2] = 0; l['vel_y'][:] = 0
l['valid'][2, :2] = False
ag = agents.create_constant_speed_actor(dynamics_model=dynamics.StateDynamics(), is_controlled_func=lambda s: jnp.arange(3) > 0, speed=5.)
e = env.PlanningAgentEnvironment(dynamics.DeltaGlobal(), config.EnvironmentConfig(max_num_objects=3, init_steps=4, controlled_object=OT.SDC), [ag], [{}])
st = e.reset(S.make_state(sc))
x0 = np.asarray(st.current_sim_trajectory.x)[:, 0]
st = e.step(st, datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool)))
d = np.asarray(st.current_sim_trajectory.x)[:, 0] - x0
if np.abs(d[1:] - .5).max() > 1e-3:
  fail(f'objects 1 and 2 are steered at 5 m/s but moved by {d[1:]}')
''')

seed('C10-kim-first', 'C10', PE,
  [('''      kim_metric_valid = state.timestep > self.config.init_steps - 1''',
    '''      kim_metric_valid = state.timestep >= self.config.init_steps - 1''')],
  'kinematic infeasibility right after reset on a log with an infeasible warm-up transition',
  'the kinematic infeasibility of the logged warm-up is charged to the planner at the first step',
  '''
sc = S.gen_scene(np.random.default_rng(13), A=3, T=12, R=10, L=2, full_prob=1., sdc=1)
sc['log']['valid'][1] = True
sc['log']['vel_x'][1] = np.arange(12) % 2 * 20.
cfg = config.EnvironmentConfig(max_num_objects=3, init_steps=3, controlled_object=OT.SDC, metrics=config.MetricsConfig(metrics_to_run=('kinematic_infeasibility',)))
e = env.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
m = e.metrics(e.reset(S.make_state(sc)))['kinematic_infeasibility']
if bool(m.valid) or float(m.value) != 0.:
  fail(f'metric at the reset state: value {float(m.value)} valid {bool(m.valid)}')
''')

seed('C10-onehot-nan', 'C10', 'waymax/datatypes/operations.py',
  [('''    return jnp.sum(
        jnp.where(reshaped_selection, x, jnp.zeros_like(x)),
        axis=(selection.ndim - 1),
        keepdims=keepdims,
    ).astype(x.dtype)''',
    '''    return jnp.sum(
        reshaped_selection * x,
        axis=(selection.ndim - 1),
        keepdims=keepdims,
    ).astype(x.dtype)''')],
  'another object with a non-finite position (e.g. a diverged sim agent) while the ego metric is computed',
  'a non-finite value of another object turns the metric of the self-driving car into NaN',
  '''
sc = S.gen_scene(np.random.default_rng(14), A=3, T=12, R=10, L=2, full_prob=1., sdc=1)
sc['log']['valid'][:] = True
cfg = config.EnvironmentConfig(max_num_objects=3, init_steps=3, controlled_object=OT.SDC, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)))
e = env.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
st = e.reset(S.make_state(sc))
tr = st.sim_trajectory
st = st.replace(sim_trajectory=tr.replace(x=tr.x.at[2, 2].set(jnp.inf)))
m = e.metrics(st)['log_divergence']
if not (bool(m.valid) and abs(float(m.value)) < 1e-4):
  fail(f'ego log divergence {float(m.value)}')
''')
