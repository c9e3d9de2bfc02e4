"""Planted bugs, second batch (C11-C21)."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location('seeds_a', _o.path.join(_o.path.dirname(__file__), 'a.py'))
_a = _u.module_from_spec(_s); _s.loader.exec_module(_a)
HEAD = _a.HEAD
SPECS = []
def seed(id, prop, file, edits, needs, breaks, demo, **k):
  SPECS.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo, **k))

DM, BX = 'waymax/env/wrappers/dm_env_wrapper.py', 'waymax/env/wrappers/brax_wrapper.py'
GEO = 'waymax/utils/geometry.py'
OBS = 'waymax/datatypes/observation.py'

DM_PRE = '''
from waymax.env.wrappers import dm_env_wrapper
def gen(n, T=8, seed=0, A=3):
  for i in range(n):
    yield S.make_state(S.gen_scene(np.random.default_rng(seed + i), A=A, T=T, R=20, L=2, full_prob=1., sdc=0))
def planning(dyn=None, **k):
  cfg = config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=OT.SDC,
                                 observation=config.ObservationConfig(roadgraph_top_k=5), **k)
  return env.PlanningAgentEnvironment(dyn or dynamics.InvertibleBicycleModel(), cfg)
'''

seed('C11-reward-after', 'C11', DM,
  [("""    reward = self._jitted_stateless_env_reward(self._cur_state, action)
    self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)

    termination""",
    """    reward_state = self._cur_state
    self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
    if self._cur_state.is_done.all():
      # There is no later transition that could report the final state.
      reward_state = self._cur_state
    reward = self._jitted_stateless_env_reward(reward_state, action)

    termination""")],
  'the reward of the last transition of an episode in which that state differs from the one before in overlap or off-road',
  'the reward of the LAST step is computed on the state after the action instead of the one before',
  DM_PRE + '''
for i in range(40):
  sc = S.gen_scene(np.random.default_rng(i), A=3, T=5, R=30, L=2, full_prob=1., sdc=0, dense=True)
  st0 = S.make_state(sc)
  e = planning(dynamics.StateDynamics(), rewards=config.LinearCombinationRewardConfig({'overlap': -1., 'offroad': -2.}))
  w = dm_env_wrapper.DMEnvWrapper(iter([st0, st0]), e)
  w.reset()
  rng = np.random.default_rng(i)
  for t in range(3):
    cur = w.simulation_state
    a = np.array([sc['log']['x'][0, t], sc['log']['y'][0, t], .1, 0, 0], np.float32) + rng.normal(size=5).astype(np.float32) * 5
    ts = w.step(a)
    want = e.reward(cur, datatypes.Action(data=jnp.asarray(a), valid=jnp.ones((1,), bool)))
    if not np.array_equal(np.asarray(ts.reward), np.asarray(want)):
      fail(f'scene {i} step {t}: reward {ts.reward}, reward of the state acted on {want}')
''')

seed('C11-discount-truncation', 'C11', DM,
  [("""    done = jnp.logical_or(termination, truncation)
    discount = jnp.logical_not(termination).astype(jnp.float32)
    if jnp.all(done):""",
    """    done = jnp.logical_or(termination, truncation)
    discount = jnp.logical_not(done).astype(jnp.float32)
    if not jnp.any(termination):
      # Only batches have more than one entry to distinguish.
      discount = jnp.ones_like(discount) if discount.ndim == 0 else discount
    if jnp.all(done):""")],
  'a batch of scenarios reaching the end of their logs',
  'for batches, a LAST step that is only a truncation reports discount 0 instead of 1',
  DM_PRE + '''
scs = [S.gen_scene(np.random.default_rng(i), A=3, T=6, R=20, L=2, full_prob=1., sdc=0) for i in range(2)]
st = S.make_state(S.stack_scenes(scs))
e = planning()
w = dm_env_wrapper.DMEnvWrapper(iter([st, st, st]), e)
ts = w.reset()
while not ts.last():
  ts = w.step(np.zeros((2, 2), np.float32))
if not (np.asarray(ts.discount) == 1).all():
  fail(f'discount of a truncated episode: {ts.discount}')
''')

seed('C11-observation-spec-consumes', 'C11', DM,
  [("""    sample_obs = self.observe(self.stateless_env.reset(self._sample_state))
    batch_ndim = len(self._sample_state.batch_dims)""",
    """    if self._cur_state is None:
      self._cur_state = self.stateless_env.reset(self._sample_state)
      self._initialized = True
    sample_obs = self.observe(self._cur_state)
    batch_ndim = len(self._sample_state.batch_dims)""")],
  'asking for the observation spec and then stepping before the first reset',
  'reading observation_spec makes the adapter accept steps without a reset',
  DM_PRE + '''
from waymax.env import errors
w = dm_env_wrapper.DMEnvWrapper(gen(3), planning())
w.observation_spec()
try:
  w.step(np.zeros(2, np.float32))
except errors.SimulationNotInitializedError:
  sys.exit(0)
fail('step before the first reset was accepted')
''')

BX_PRE = '''
from waymax.env.wrappers import brax_wrapper
'''
seed('C12-metrics-next', 'C12', BX,
  [("""    metric_dict = self.metrics(timestep.state)
    return TimeStep(""",
    """    # The values for the state are carried by the incoming transition.
    metric_dict = timestep.metrics or self.metrics(timestep.state)
    return TimeStep(""")],
  'any step after the first: the metrics of the incoming transition lag one step behind',
  'the metrics reported by a step are those of an older state',
  BX_PRE + '''
cfg = config.EnvironmentConfig(max_num_objects=4, init_steps=2, observation=config.ObservationConfig(roadgraph_top_k=5),
  metrics=config.MetricsConfig(metrics_to_run=('log_divergence', 'overlap')))
dyn = dynamics.StateDynamics()
e = env.BaseEnvironment(dyn, cfg)
w = brax_wrapper.BraxWrapper(e, dyn, cfg)
ts = w.reset(S.make_state(S.gen_scene(np.random.default_rng(0), A=4, T=10, R=20, L=2, full_prob=1.)))
rng = np.random.default_rng(0)
for t in range(4):
  cur = ts.state
  a = datatypes.Action(data=jnp.asarray(rng.normal(size=(4, 5)).astype(np.float32)), valid=jnp.ones((4, 1), bool))
  ts = w.step(ts, a)
  if not same(ts.metrics, e.metrics(cur)):
    fail(f'step {t}: metrics of the transition differ from the wrapped environment')
''')

seed('C12-discount-done', 'C12', BX,
  [("""    done = jnp.logical_or(termination, truncation)
    discount = jnp.logical_not(termination).astype(jnp.float32)
    metric_dict""",
    """    done = jnp.logical_or(termination, truncation)
    discount = timestep.discount * jnp.logical_not(termination).astype(
        jnp.float32
    )
    metric_dict""")],
  'a transition built by hand or relabelled with another discount before it is stepped (e.g. gamma 0.99)',
  'the discount of a step is multiplied with the discount of the transition before it',
  BX_PRE + '''
cfg = config.EnvironmentConfig(max_num_objects=4, init_steps=2, observation=config.ObservationConfig(roadgraph_top_k=5),
  metrics=config.MetricsConfig(metrics_to_run=('overlap',)))
dyn = dynamics.StateDynamics()
e = env.BaseEnvironment(dyn, cfg)
w = brax_wrapper.BraxWrapper(e, dyn, cfg)
ts = w.reset(S.make_state(S.gen_scene(np.random.default_rng(0), A=4, T=10, R=20, L=2, full_prob=1.)))
ts = ts.replace(discount=ts.discount * .9)
a = datatypes.Action(data=jnp.zeros((4, 5)), valid=jnp.ones((4, 1), bool))
d = np.asarray(w.step(ts, a).discount)
if not (d == 1).all():
  fail(f'discount in the middle of an episode: {d}')
''')

seed('C12-reset-done', 'C12', BX,
  [("        done=self.termination(initial_state),", "        done=self.termination(initial_state)\n        | self.truncation(initial_state.replace(timestep=state.timestep)),")],
  'resetting with a state that has reached the end of its episode (restart of the same scenario)',
  'reset reports done when the state passed in was at its end',
  BX_PRE + '''
cfg = config.EnvironmentConfig(max_num_objects=4, init_steps=2, observation=config.ObservationConfig(roadgraph_top_k=5),
  metrics=config.MetricsConfig(metrics_to_run=('overlap',)))
dyn = dynamics.StateDynamics()
e = env.BaseEnvironment(dyn, cfg)
w = brax_wrapper.BraxWrapper(e, dyn, cfg)
ts = w.reset(S.make_state(S.gen_scene(np.random.default_rng(0), A=4, T=5, R=20, L=2, full_prob=1.)))
a = datatypes.Action(data=jnp.zeros((4, 5)), valid=jnp.ones((4, 1), bool))
while not np.asarray(ts.done).all():
  ts = w.step(ts, a)
again = w.reset(ts.state)
if np.asarray(again.done).any():
  fail('a fresh episode is reported as done')
''')

seed('C13-circle-reject', 'C13', GEO,
  [("""    distance = jnp.minimum(max_a, max_b) - jnp.maximum(min_a, min_b)
    return jnp.all(distance > 0, axis=-1)""",
    """    distance = jnp.minimum(max_a, max_b) - jnp.maximum(min_a, min_b)
    # Boxes whose centres are farther apart than their extents cannot touch.
    reach = jnp.maximum(first[..., 2], second[..., 2])
    near = jnp.linalg.norm(first[..., :2] - second[..., :2], axis=-1) <= reach
    return jnp.all(distance > 0, axis=-1) & near""")],
  'two boxes touching only at corners (diagonal contact), so that the centres are farther apart than the longer box is long',
  'boxes that overlap near their corners are reported as apart',
  '''
from waymax.utils import geometry
a = np.array([[0, 0, 2., 2., 0.]], np.float32); b = np.array([[1.6, 1.6, 2., 2., 0.]], np.float32)
if not bool(geometry.has_overlap(jnp.asarray(a), jnp.asarray(b))[0]):
  fail('two 2x2 squares offset by (1.6, 1.6) share a 0.4 m square but are reported as apart')
''')

seed('C13-wrong-self', 'C13', GEO,
  [("    # Removes overlap on self.\n    return jnp.where(self_mask, False, overlaps)",
    "    # Removes overlap on self.\n    same = jnp.all(traj[:, None] == traj[None], axis=-1)\n    return jnp.where(self_mask.astype(bool) | same, False, overlaps)")],
  'two objects with exactly the same box (e.g. duplicated tracks)',
  'two objects at the very same place are not reported as overlapping',
  '''
from waymax.utils import geometry
t = jnp.asarray(np.array([[3., 4, 4, 2, .3], [3., 4, 4, 2, .3], [40., 4, 4, 2, .3]], np.float32))
o = np.asarray(geometry.compute_pairwise_overlaps(t))
if not o[0, 1]:
  fail('identical boxes do not overlap')
''')

seed('C13-one-axis', 'C13', GEO,
  [("        [jnp.stack([c, -s], axis=-1), jnp.stack([s, c], axis=-1)], axis=-2",
    "        [jnp.stack([c, -s], axis=-1), jnp.stack([s, jnp.abs(c)], axis=-1)], axis=-2")],
  'a box with a heading beyond +-90 degrees next to a box separated from it only along that box\'s width axis',
  'boxes facing backwards use a skewed separating axis, so some separate boxes are reported as overlapping or vice versa',
  '''
from waymax.utils import geometry
def ref(a, b):
  def cs(q):
    x, y, l, w, h = q; c, s = np.cos(h), np.sin(h)
    return [np.array([x + dx * c - dy * s, y + dx * s + dy * c]) for dx, dy in ((l/2, -w/2), (l/2, w/2), (-l/2, w/2), (-l/2, -w/2))]
  A, B, gap = cs(a), cs(b), np.inf
  for h in (a[4], a[4] + np.pi / 2, b[4], b[4] + np.pi / 2):
    n = np.array([np.cos(h), np.sin(h)])
    pa, pb = [p @ n for p in A], [p @ n for p in B]
    gap = min(gap, min(max(pa), max(pb)) - max(min(pa), min(pb)))
  return gap
rng = np.random.default_rng(0)
for _ in range(3000):
  a = np.array([0, 0, rng.uniform(1, 6), rng.uniform(.5, 3), rng.uniform(-3.1, 3.1)], np.float32)
  b = np.array([rng.normal() * 3, rng.normal() * 3, rng.uniform(1, 6), rng.uniform(.5, 3), rng.uniform(-3.1, 3.1)], np.float32)
  g = ref(a.astype(float), b.astype(float))
  if abs(g) < 1e-3: continue
  got = bool(geometry.has_overlap(jnp.asarray(a), jnp.asarray(b)))
  if got != (g > 0):
    fail(f'{a} {b}: reported {got}, penetration {g}')
''')

seed('C14-dof7-velocity', 'C14', GEO,
  [("      out_traj = jnp.concatenate([out_traj, out_vel_xy - origin], -1)",
    "      speed = jnp.linalg.norm(vel_xy, axis=-1, keepdims=True)\n      out_vel = jnp.where(speed > 1.0, out_vel_xy - origin, vel_xy)\n      out_traj = jnp.concatenate([out_traj, out_vel], -1)")],
  'seven-value trajectories of objects slower than 1 m/s',
  'the velocity of slow objects is not rotated into the target frame',
  '''
from waymax.utils import geometry
m, y = geometry.pose_from_xy_yaw(jnp.asarray([3., 4.]), jnp.asarray(1.2))
out = np.asarray(geometry.transform_trajectories(jnp.asarray([[1., 2, 4, 2, .3, .5, .2]]), m, y))
c, s = np.cos(-1.2), np.sin(-1.2)
if not np.allclose(out[0, 5:], [c * .5 - s * .2, s * .5 + c * .2], atol=1e-5):
  fail(f'velocity {out[0, 5:]}')
''')

seed('C14-inverse-pose', 'C14', OBS,
  [("""    xy = geometry.transform_points(
        jnp.linalg.inv(matrix), jnp.zeros((*prefix_shape, 2))
    )""",
    """    xy = geometry.transform_points(
        jnp.swapaxes(matrix, -1, -2)
        .at[..., :2, 2]
        .set(-matrix[..., :2, 2])
        .at[..., 2, :2]
        .set(0.0),
        jnp.zeros((*prefix_shape, 2)),
    )""")],
  'a pose made from a transformation with both a rotation and a translation',
  'the position recorded with a pose built from a transformation matrix is wrong',
  '''
m, y = __import__('waymax.utils.geometry', fromlist=['x']).pose_from_xy_yaw(jnp.asarray([[3., 4.]]), jnp.asarray([1.2]))
p = datatypes.observation.ObjectPose2D.from_transformation(m, y) if hasattr(datatypes, 'observation') else datatypes.ObjectPose2D.from_transformation(m, y)
if not np.allclose(np.asarray(p.original_xy), [[3., 4.]], atol=1e-4):
  fail(f'position {p.original_xy}')
''')

seed('C14-wrap', 'C14', GEO,
  [("  return (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi",
    "  wrapped = (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi\n  if isinstance(yaws, jax.Array):\n    # Headings a hair outside the interval are left as they are.\n    return jnp.where(jnp.abs(yaws) < 3.2, yaws, wrapped)\n  return wrapped")],
  'a heading between pi and 3.2, e.g. a vehicle turning through west',
  'headings slightly beyond +-pi are not wrapped',
  '''
from waymax.utils import geometry
w = np.asarray(geometry.wrap_yaws(jnp.asarray([3.17, -3.18, 4., 2.])))
if (np.abs(w) > 3.1416).any():
  fail(f'wrapped headings {w}')
''')

seed('C15-sdc-rank', 'C15', OBS,
  [("""    sdc_valid_expand = jnp.repeat(sdc_valid, num_obj, axis=-1)
    pose2d = ObjectPose2D.from_center_and_yaw(
        xy=sdc_xy_expand, yaw=sdc_yaw_expand, valid=sdc_valid_expand
    )""",
    """    pose2d = ObjectPose2D.from_center_and_yaw(
        xy=sdc_xy_expand, yaw=sdc_yaw_expand, valid=obj_valid
    )""")],
  'car-frame observations while some object is absent at the current step, or the car itself is',
  'the validity of a car-frame observation follows each observer instead of the car whose frame it is',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=4, T=8, R=20, L=2, full_prob=1., sdc=1)
sc['log']['valid'][2, 4] = False
st = S.make_state(sc, timestep=4)
o = datatypes.observation_from_state(st, 2, 5, config.CoordinateFrame.SDC)
v = np.asarray(o.trajectory.valid)[2, 0, 1]
if not v:
  fail('an absent observer hides valid objects in the car frame')
''')

seed('C15-history-order', 'C15', OBS,
  [("""    return operations.dynamic_slice(
        x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1
    )

  # Shape: (..., num_obj, num_timesteps) -> (..., num_obj, num_timesteps=obs_T).
  global_traj = slice_by_time(state.sim_trajectory)""",
    """    return operations.dynamic_slice(
        x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1
    )

  # Shape: (..., num_obj, num_timesteps) -> (..., num_obj, num_timesteps=obs_T).
  global_traj = slice_by_time(state.sim_trajectory)
  # Sizes never change over time.
  sizes = {
      k: jnp.broadcast_to(
          getattr(state.log_trajectory, k)[..., :1],
          getattr(global_traj, k).shape,
      )
      for k in ('length', 'width', 'height')
  }
  global_traj = global_traj.replace(**sizes)""")],
  'objects whose size is stored only at their valid steps (absent at the first logged step)',
  'box sizes in observations are those stored at the first logged step, not at the observed steps',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=4, T=8, R=20, L=2, full_prob=1., sdc=1)
for k in ('length', 'width', 'height'): sc['log'][k][2, 0] = -1
sc['log']['valid'][2, 0] = False
st = S.make_state(sc, timestep=4)
o = datatypes.observation_from_state(st, 2, 5, config.CoordinateFrame.GLOBAL)
if float(o.trajectory.length[0, 2, 1]) != float(sc['log']['length'][2, 4]):
  fail(f'observed length {o.trajectory.length[0, 2]}, simulated {sc["log"]["length"][2, 4]}')
''')

seed('C15-lights-now', 'C15', OBS,
  [("  global_tls = slice_by_time(state.log_traffic_light)",
    "  global_tls = slice_by_time(state.log_traffic_light)\n  last = jax.tree_util.tree_map(lambda x: x[..., -1:], global_tls)\n  # The position of a light is not always logged at every step.\n  global_tls = global_tls.replace(\n      x=jnp.where(global_tls.valid, global_tls.x, last.x),\n      y=jnp.where(global_tls.valid, global_tls.y, last.y),\n      z=jnp.where(global_tls.valid, global_tls.z, last.z),\n      valid=global_tls.valid | last.valid,\n  )")],
  'an observation with history in which a light is valid now but was not some steps ago',
  'lights that were not observed at an earlier step are reported as valid there',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=4, T=8, R=20, L=2, full_prob=1., sdc=1)
sc['tl']['valid'][0, :4] = False; sc['tl']['valid'][0, 4:] = True
st = S.make_state(sc, timestep=5)
o = datatypes.observation_from_state(st, 3, 5, config.CoordinateFrame.GLOBAL)
if np.asarray(o.traffic_lights.valid)[0, 0, 0]:
  fail('a light that was invalid two steps ago is observed as valid there')
''')

seed('C15-map-direction', 'C15', OBS,
  [("""  dst_dir_xy = geometry.transform_direction(
      pts_dir=roadgraph_points.dir_xy, pose_matrix=pose2d.matrix
  )
  valid = jnp""",
    """  dst_dir_xy = geometry.transform_direction(
      pts_dir=roadgraph_points.dir_xy, pose_matrix=pose2d.matrix
  )
  # Points without a direction get a nominal one.
  no_dir = jnp.linalg.norm(roadgraph_points.dir_xy, axis=-1) < 1e-3
  dst_dir_xy = jnp.where(
      no_dir[..., None],
      roadgraph_points.dir_xy + jnp.array([1.0, 0.0]),
      dst_dir_xy,
  )
  valid = jnp""")],
  'map points with a zero direction vector (stop signs, last points of a line)',
  'map points without a direction appear with a direction in object frames',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=4, T=8, R=20, L=2, full_prob=1., sdc=1)
for k in ('dir_x', 'dir_y', 'dir_z'): sc['rg'][k][:] = 0
sc['rg']['valid'][:] = True
st = S.make_state(sc, timestep=5)
o = datatypes.observation_from_state(st, 1, 5, config.CoordinateFrame.OBJECT)
if np.abs(np.asarray(o.roadgraph_static_points.dir_xy)).max() > 1e-6:
  fail('a zero direction became non-zero')
''')

seed('C16-combine-rotation', 'C16', OBS,
  [("      delta_yaw=dst_pose.delta_yaw - src_pose.delta_yaw,",
    "      delta_yaw=dst_pose.delta_yaw - jnp.abs(src_pose.delta_yaw),")],
  'transforming an observation that is already in a rotated frame (positive delta) into another one',
  'headings are wrong after a second change of frame',
  '''
from waymax.datatypes import observation as ob
sc = S.gen_scene(np.random.default_rng(3), A=3, T=8, R=20, L=2, full_prob=1., sdc=1)
sc['log']['yaw'][:] = -1.; st = S.make_state(sc, timestep=5)
o = datatypes.observation_from_state(st, 1, 5, config.CoordinateFrame.OBJECT)
world = ob.ObjectPose2D.from_center_and_yaw(jnp.zeros((3, 2)), jnp.zeros(3))
back = ob.transform_observation(o, world)
d = np.asarray(back.trajectory.yaw)[..., 0] - sc['log']['yaw'][None, :, 5]
if np.abs(np.mod(d + np.pi, 2 * np.pi) - np.pi).max() > 1e-3:
  fail(f'headings moved by {d} after going back to the world frame')
''')

seed('C16-metric-origin', 'C16', 'waymax/metrics/route.py',
  [("""    # Set distances to invalid paths to inf.
    sdc_dist_to_valid_paths = jnp.where(
        sdc_paths.valid, sdc_dist_to_paths, jnp.inf
    )
    # Set distances to invalid SDC states to inf.""",
    """    # Set distances to invalid paths to inf.
    padded = jnp.all(jnp.abs(sdc_paths.xy) < 0.5, axis=-1)
    sdc_dist_to_valid_paths = jnp.where(
        sdc_paths.valid & ~padded, sdc_dist_to_paths, jnp.inf
    )
    # Set distances to invalid SDC states to inf.""")],
  'a scenario whose route passes through the origin of the world frame',
  'route points near the world origin are ignored, so off-route depends on where the world frame lies',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=3, T=8, R=20, L=2, P=2, N=6, full_prob=1., sdc=0, center=(0., 0.))
p = sc['paths']
p['valid'][:] = True; p['on_route'][:] = True
for k in ('x', 'y', 'z'): p[k][:] = 100.
p['x'][0, 2] = .1; p['y'][0, 2] = .2
for k in ('x', 'y'): sc['log'][k][0] = 1.
st = S.make_state(sc, timestep=4)
m = metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=('sdc_off_route',)))['sdc_off_route']
if float(m.value) > 0:
  fail(f'off-route {m.value} although a route point is 1.2 m away')
''')

seed('C17-log-valid', 'C17', 'waymax/metrics/imitation.py',
  [("    valid = current_object_state.valid & current_log_state.valid\n",
    "    valid = current_object_state.valid & current_log_state.valid\n    # An object that never moves has nothing to diverge from.\n    moved = jnp.any(\n        simulator_state.log_trajectory.xy\n        != simulator_state.log_trajectory.xy[..., :1, :],\n        axis=(-1, -2),\n    )\n    result = jnp.where(moved[..., jnp.newaxis], result, 0.0)\n")],
  'an object that is parked in the log but displaced in the simulation',
  'log divergence of parked objects is always zero',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=3, T=8, R=20, L=2, full_prob=1., sdc=0)
for k in ('x', 'y'): sc['log'][k][1] = 7.
st = S.make_state(sc, timestep=4)
st = st.replace(sim_trajectory=st.sim_trajectory.replace(x=st.sim_trajectory.x + 2.))
m = metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=('log_divergence',)))['log_divergence']
if abs(float(m.value[1]) - 2) > 1e-4:
  fail(f'log divergence {m.value}')
''')

seed('C17-clamped-time', 'C17', 'waymax/metrics/imitation.py',
  [("""    current_log_state = datatypes.dynamic_slice(
        simulator_state.log_trajectory,
        simulator_state.timestep,
        1,
        -1,
    )""",
    """    current_log_state = datatypes.dynamic_slice(
        simulator_state.log_trajectory,
        jnp.minimum(
            simulator_state.timestep,
            simulator_state.log_trajectory.num_timesteps - 2,
        ),
        1,
        -1,
    )""")],
  'the last step of an episode',
  'at the last step the simulated position is compared with the log of the step before',
  '''
sc = S.gen_scene(np.random.default_rng(3), A=3, T=8, R=20, L=2, full_prob=1., sdc=0)
sc['log']['x'][:] += 3 * np.arange(8, dtype=np.float32)
st = S.make_state(sc, timestep=7)
m = metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=('log_divergence',)))['log_divergence']
if float(np.max(np.asarray(m.value))) > 1e-4:
  fail(f'divergence of the log from itself at the last step: {m.value}')
''')

RG = 'waymax/metrics/roadgraph.py'
seed('C18-prior-any-curve', 'C18', RG,
  [("""  prior_point_in_same_curve = jnp.equal(
      roadgraph_points.ids[nearest_indices], roadgraph_points.ids[prior_indices]
  )""",
    """  prior_point_in_same_curve = jnp.equal(
      roadgraph_points.types[nearest_indices],
      roadgraph_points.types[prior_indices],
  )""")],
  'a box corner nearest to the first point of a road edge that is stored right after another road edge of the same type',
  'the direction of a different edge decides on which side of an edge a corner lies',
  '''
from waymax.metrics import roadgraph as rgm
def pts(x, y, dx, dy, ids):
  n = len(x); f = lambda v: jnp.asarray(np.array(v, np.float32))
  return datatypes.RoadgraphPoints(x=f(x), y=f(y), z=f([0] * n), dir_x=f(dx), dir_y=f(dy), dir_z=f([0] * n),
    types=jnp.full((n,), 15, jnp.int32), ids=jnp.asarray(np.array(ids, np.int32)), valid=jnp.ones(n, bool))
two = pts([50, 0], [50, 0], [0, 1], [1, 0], [1, 2])
one = pts([0], [0], [1], [0], [2])
q = jnp.asarray(np.array([[.5, -2., 0.], [-.5, -2., 0]], np.float32))
a = np.sign(np.asarray(rgm.compute_signed_distance_to_nearest_road_edge_point(q, two)))
b = np.sign(np.asarray(rgm.compute_signed_distance_to_nearest_road_edge_point(q, one)))
if not np.array_equal(a, b):
  fail(f'side with a far-away other edge {a}, alone {b}')
''')

seed('C18-edge-types', 'C18', 'waymax/datatypes/roadgraph.py',
  [("      types == MapElementIds.ROAD_EDGE_MEDIAN,\n  )",
    "      (types == MapElementIds.ROAD_EDGE_MEDIAN)\n      & jnp.any(types == MapElementIds.ROAD_EDGE_BOUNDARY),\n  )")],
  'a map whose only road edges are medians',
  'medians are ignored where the map has no road boundary',
  '''
if not bool(np.asarray(datatypes.is_road_edge(jnp.asarray(np.array([16, 1], np.int32))))[0]):
  fail('a median is not a road edge')
''')

seed('C18-z', 'C18', RG,
  [("  z_stretched_differences = differences * jnp.array([[[1.0, 1.0, z_stretch]]])",
    "  dz = differences[..., 2]\n  # Cap the penalty: far above is as good as above.\n  differences = differences.at[..., 2].set(jnp.clip(dz, -2.5, 2.5))\n  z_stretched_differences = differences * jnp.array([[[1.0, 1.0, z_stretch]]])")],
  'a car under (or on) an overpass more than 2.5 m away in height whose own road edge is farther than 5 m',
  'the edge of the road above decides whether a car on the road below is off-road',
  '''
from waymax.metrics import roadgraph as rgm
f = lambda v: jnp.asarray(np.array(v, np.float32))
rg = datatypes.RoadgraphPoints(x=f([0, 0]), y=f([0, 9]), z=f([6, 0]), dir_x=f([1, 1]), dir_y=f([0, 0]), dir_z=f([0, 0]),
  types=jnp.full((2,), 15, jnp.int32), ids=jnp.asarray(np.array([1, 2], np.int32)), valid=jnp.ones(2, bool))
q = jnp.asarray(np.array([[0., 1., 0.]], np.float32))
d = np.abs(np.asarray(rgm.compute_signed_distance_to_nearest_road_edge_point(q, rg)))[0]
if abs(d - 8) > 1e-3:
  fail(f'distance {d}: the edge 6 m above was taken instead of the one 8 m away on the same level')
''')
