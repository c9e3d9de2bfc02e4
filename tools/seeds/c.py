"""Planted bugs, third batch (C19-C33)."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location('seeds_a', _o.path.join(_o.path.dirname(__file__), 'a.py'))
_a = _u.module_from_spec(_s); _s.loader.exec_module(_a)
HEAD = _a.HEAD
SPECS = []
def seed(id, prop, file, edits, needs, breaks, demo, **k):
  SPECS.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo, **k))

BI = 'waymax/dynamics/bicycle_model.py'
CO, RG, RT = 'waymax/metrics/comfort.py', 'waymax/metrics/roadgraph.py', 'waymax/metrics/route.py'
WP = 'waymax/agents/waypoint_following_agent.py'
OPS = 'waymax/datatypes/operations.py'
OBJ = 'waymax/datatypes/object_state.py'
FAC = 'waymax/dataloader/womd_factories.py'
UT = 'waymax/dataloader/womd_utils.py'
DL = 'waymax/dataloader/dataloader_utils.py'
WD = 'waymax/dataloader/womd_dataloader.py'
VZ = 'waymax/visualization/viz.py'

# ---------------------------------------------------------------- C19
KIM = '''
def line(speeds, yaws, dt=.1):
  n = len(speeds)
  x = np.cumsum(np.concatenate([[0], speeds[:-1]])) * dt
  yaws = np.asarray(yaws, float)
  z = np.zeros(n)
  return dict(x=x, y=z, z=z, yaw=yaws, vel_x=speeds * np.cos(yaws), vel_y=speeds * np.sin(yaws),
              length=z + 4, width=z + 2, height=z + 1.5)
def state(tracks, timestep):
  """tracks: list of scenarios, each a list of (speeds, yaws)."""
  scs = []
  for s, tr in enumerate(tracks):
    T = len(tr[0][0])
    sc = S.gen_scene(np.random.default_rng(s), A=len(tr), T=T, R=5, L=1, full_prob=1., sdc=0)
    for a, (v, y) in enumerate(tr):
      for k, val in line(np.asarray(v, float), y).items():
        sc['log'][k][a] = val
    scs.append(sc)
  st = S.make_state(S.stack_scenes(scs))
  return st.replace(timestep=jnp.asarray(timestep, jnp.int32))
'''
seed('C19-first-scenario-step', 'C19', CO,
  [("""    actions = bicycle_model.compute_inverse(traj, timestep - 1, self._dt)""",
    """    previous = jnp.maximum(timestep - 1, 0)
    if previous.ndim:
      # Scenarios of a batch advance together.
      previous = previous[(0,) * previous.ndim]
    actions = bicycle_model.compute_inverse(traj, previous, self._dt)""")],
  'a batch whose scenarios are at different steps',
  'the infeasibility of every scenario of a batch is judged at the step of the first one',
  KIM + '''
v = [5.] * 4 + [9.] * 4          # 40 m/s^2 between steps 3 and 4
for ts in ([4, 2], [2, 4], [6, 4]):
  st = state([[(v, [0.] * 8)], [(v, [0.] * 8)]], ts)
  got = np.asarray(metrics.KinematicsInfeasibilityMetric().compute(st).value)[:, 0] if hasattr(metrics, 'KinematicsInfeasibilityMetric') else None
  if got is None:
    from waymax.metrics import comfort
    got = np.asarray(comfort.KinematicsInfeasibilityMetric().compute(st).value)[:, 0]
  want = [float(t == 4) for t in ts]
  if list(got) != want:
    fail(f'timesteps {ts}: flags {got}, expected {want}')
''')

seed('C19-turn-while-braking', 'C19', BI,
  [("""  steering = delta_yaw / (speed[..., 0:1, :] * dt + 0.5 * accel * dt**2)""",
    """  steering = delta_yaw / (
      speed[..., 0:1, :] * dt + 0.5 * jnp.abs(accel) * dt**2
  )""")],
  'an object that brakes hard while turning close to the curvature limit',
  'the arc travelled by a braking object is overestimated, so its curvature is underestimated and the step not flagged',
  KIM + '''
from waymax.metrics import comfort
# 6 -> 5 m/s within 0.1 s (-10 m/s^2) and 0.31 of curvature over the 0.55 m travelled
k = 0.31 * 0.55
st = state([[([6., 6., 5.], [0., 0., k])]], [2])
got = float(comfort.KinematicsInfeasibilityMetric().compute(st).value[0, 0])
if got != 1.:
  fail(f'curvature 0.31 while braking is not flagged: {got}')
''')

# ---------------------------------------------------------------- C20
ROUTE = '''
def route_state(path_xy, valid, on_route, arc, sdc_log, T=None):
  T = len(sdc_log)
  sc = S.gen_scene(np.random.default_rng(0), A=2, T=T, R=5, L=1, full_prob=1., sdc=0, center=(0., 0.))
  sc['log']['x'][0], sc['log']['y'][0] = np.asarray(sdc_log, np.float32).T
  st = S.make_state(sc)
  xy = np.asarray(path_xy, np.float32)
  return st.replace(timestep=jnp.asarray(T - 1), sdc_paths=datatypes.Paths(
      x=jnp.asarray(xy[..., 0]), y=jnp.asarray(xy[..., 1]), z=jnp.zeros(xy.shape[:-1]),
      ids=jnp.zeros(xy.shape[:-1], jnp.int32), valid=jnp.asarray(valid),
      arc_length=jnp.asarray(arc, jnp.float32), on_route=jnp.asarray(on_route)[:, None]))
from waymax.metrics import route, roadgraph as mrg
'''
seed('C20-arclength-invalid', 'C20', RT,
  [("""      dist = jnp.where(path.valid, dist_raw, jnp.inf)
      idx = jnp.argmin(dist, axis=-1, keepdims=True)""",
    """      # The points of the reference path are selected from valid ones.
      idx = jnp.argmin(dist_raw, axis=-1, keepdims=True)""")],
  'an invalid point of the reference path that is nearer to the car than every valid one',
  'progression reads the arc length of invalid path points',
  ROUTE + '''
xy = [[(0, 0), (5, 0), (10, 0), (4.9, 0)]]
st = route_state(xy, [[True, True, True, False]], [True], [[0, 5, 10, 999.]], [(0, 0), (2, 0), (4.9, 0)])
st = st.replace(log_trajectory=st.log_trajectory.replace(x=st.log_trajectory.x.at[0, -1].set(10.)))
got = float(route.ProgressionMetric().compute(st).value)
if abs(got - .5) > 1e-4:
  fail(f'progression {got}, expected 0.5')
''')

seed('C20-offroute-near-any', 'C20', RT,
  [("""    sdc_off_route = (
        min_sdc_dist_to_valid_on_route_paths > self.MAX_DISTANCE_TO_ROUTE_PATH
    ) | (""",
    """    # Far from every drivable path.
    min_sdc_dist_to_valid_paths = jnp.min(
        sdc_dist_to_valid_paths, axis=(-1, -2)
    )
    sdc_off_route = (
        min_sdc_dist_to_valid_paths > self.MAX_DISTANCE_TO_ROUTE_PATH
    ) | (""")],
  'a car more than 5 m from its route with an off-route path between 3 and 5 m away',
  'the 5 m limit applies to the nearest path of any kind instead of the route',
  ROUTE + '''
xy = [[(0, 0), (5, 0), (10, 0)], [(0, 10), (5, 10), (10, 10)]]
st = route_state(xy, [[True] * 3] * 2, [True, False], [[0, 5, 10]] * 2, [(0, 0), (2, 3), (5, 5.8)])
got = float(route.OffRouteMetric().compute(st).value)
if abs(got - 5.8) > 1e-3:
  fail(f'off-route distance {got}, expected 5.8')
''')

seed('C20-reference-path', 'C20', RT,
  [("""    idx = jnp.argmin(dist_path, axis=-2, keepdims=True)  # (..., 1, 1)""",
    """    # Paths are compared by how far their points are from the car on average,
    # which is stable where paths cross.
    dist_mean = jnp.mean(
        dist, axis=-1, keepdims=True, where=jnp.isfinite(dist)
    )
    dist_mean = jnp.where(jnp.isfinite(dist_path), dist_mean, jnp.inf)
    idx = jnp.argmin(dist_mean, axis=-2, keepdims=True)  # (..., 1, 1)""")],
  'two on-route paths with different arc lengths where the nearest one is not the nearest on average',
  'progression is measured along a path that is not the closest one',
  ROUTE + '''
xy = [[(0, 0), (5, 0), (100, 0)], [(0, 3), (5, 3), (10, 3)]]
st = route_state(xy, [[True] * 3] * 2, [True, True], [[0, 5, 100], [0, 50, 60]], [(0, 0), (2, 0), (5, 0)])
st = st.replace(log_trajectory=st.log_trajectory.replace(x=st.log_trajectory.x.at[0, -1].set(100.)))
got = float(route.ProgressionMetric().compute(st).value)
if abs(got - .05) > 1e-4:
  fail(f'progression {got}, expected 0.05')
''')

# ---------------------------------------------------------------- C21
seed('C21-invalid-scenario-value', 'C21', 'waymax/rewards/linear_combination_reward.py',
  [("""      metric_all_agents = all_metrics[reward_metric_name].masked_value()
""",
    """      result = all_metrics[reward_metric_name]
      if result.value.ndim < agent_mask.ndim:
        # One value for the scenario, applies to every controlled object.
        metric_all_agents = result.value
      else:
        metric_all_agents = result.masked_value()
""")],
  'a metric with one value per scenario whose invalid results are not zero, e.g. a user-registered one',
  'invalid values of scenario-level metrics count towards the reward',
  '''
from waymax.metrics import abstract_metric, metric_factory
from waymax import rewards
class Fuel(abstract_metric.AbstractMetric):
  def compute(self, simulator_state):
    shape = simulator_state.shape
    return abstract_metric.MetricResult.create_and_validate(jnp.full(shape, 7.), jnp.zeros(shape, bool))
metric_factory.register_metric('fuel', Fuel())
st = S.make_state(S.gen_scene(np.random.default_rng(0), A=3, T=6, R=10, L=1, full_prob=1., sdc=0)).replace(timestep=jnp.asarray(2))
r = rewards.LinearCombinationReward(config.LinearCombinationRewardConfig({'fuel': -1.}))
got = np.asarray(r.compute(st, None, jnp.ones(3, bool)))
if (got != 0).any():
  fail(f'reward of an invalid metric: {got}')
''')

seed('C21-cached-results', 'C21', 'waymax/metrics/metric_factory.py',
  [("""  results = {}
  for metric_name in metrics_config.metrics_to_run:
    if metric_name in _METRICS_REGISTRY:
      results[metric_name] = _METRICS_REGISTRY[metric_name].compute(
          simulator_state
      )
""",
    """  results = {}
  # Variants of one metric share their computation.
  computed = {}
  for metric_name in metrics_config.metrics_to_run:
    if metric_name in _METRICS_REGISTRY:
      metric = _METRICS_REGISTRY[metric_name]
      if type(metric) not in computed:
        computed[type(metric)] = metric.compute(simulator_state)
      results[metric_name] = computed[type(metric)]
""")],
  'two registered metrics of one class with different parameters in one configuration',
  'a second metric of the same class reports the results of the first',
  '''
from waymax.metrics import comfort, metric_factory
metric_factory.register_metric('strict_kim', comfort.KinematicsInfeasibilityMetric(max_acc=.01, max_steering=1e-4))
bad = 0
for i in range(10):
  st = S.make_state(S.gen_scene(np.random.default_rng(i), A=4, T=6, R=10, L=1, full_prob=1., sdc=0)).replace(timestep=jnp.asarray(3))
  both = metrics.run_metrics(st, config.MetricsConfig(('kinematic_infeasibility', 'strict_kim')))
  alone = metrics.run_metrics(st, config.MetricsConfig(('strict_kim',)))
  if not same(both['strict_kim'], alone['strict_kim']):
    fail(f'scene {i}: {both["strict_kim"].value} with, {alone["strict_kim"].value} without the other metric')
''')

# ---------------------------------------------------------------- C22
IDM = '''
def lane(objs, T=40, timestep=5, yaw=0.):
  """Objects (x, speed, logged?) on one lane along x."""
  A = len(objs)
  sc = S.gen_scene(np.random.default_rng(0), A=A, T=T, R=5, L=1, full_prob=1., sdc=0, center=(0., 0.))
  t = np.arange(T) - timestep
  for a, (x, y, v) in enumerate(objs):
    for k, val in dict(x=x + v * .1 * t, y=y + 0 * t, z=0 * t, vel_x=v + 0. * t, vel_y=0 * t, yaw=0 * t,
                       length=4 + 0 * t, width=2 + 0 * t, height=1.5 + 0 * t).items():
      sc['log'][k][a] = val
  return S.make_state(sc, timestep=timestep)
def idm_accel(v, gap, lead, v0=30., s0=2., T=2., a=2., b=4., delta=4.):
  s = s0 + max(0, v * T + v * (v - lead) / (2 * np.sqrt(a * b)))
  return a * (1 - (v / v0) ** delta - (s / gap) ** 2)
'''
seed('C22-slowest-ahead', 'C22', WP,
  [("""    cumsum_t = jnp.cumsum(jnp.where(mask_t, collision_vels_t, 0), axis=-1)
    # Shape: (..., num_timesteps).
    collision_vels_cum = jnp.where(mask_t, cumsum_t, jnp.inf)
    # Shape: (...)
    lead_vel = jnp.min(collision_vels_cum, axis=-1)
""",
    """    # Shape: (...)
    lead_vel = jnp.min(jnp.where(mask_t, collision_vels_t, jnp.inf), axis=-1)
""")],
  'two objects ahead of which the farther one is slower',
  'the agent reacts to the speed of the slowest object ahead at the distance of the nearest one',
  IDM + '''
pol = agents.IDMRoutePolicy(is_controlled_func=lambda s: jnp.arange(3) == 0)
st = lane([(0., 0., 10.), (6., 0., 9.), (13., 0., 1.)])
v, _ = pol.update_speed(st)
alone, _ = pol.update_speed(lane([(0., 0., 10.), (6., 0., 9.), (13., 30., 1.)]))
if abs(float(v[0]) - float(alone[0])) > 1e-4:
  fail(f'speed {float(v[0])} with, {float(alone[0])} without a slow object behind the leader')
''')

seed('C22-last-waypoint-count', 'C22', WP,
  [("""    last_valid_idx = jnp.where(traj.valid, jnp.arange(traj.shape[0]), 0)
    last_valid_idx = jnp.argmax(last_valid_idx, axis=-1)""",
    """    last_valid_idx = jnp.maximum(jnp.sum(traj.valid, axis=-1) - 1, 0)""")],
  'an agent whose logged path has invalid steps before its last valid one, near the end of its path',
  'the last waypoint of a path with gaps is mistaken, so the agent never ends or ends early',
  IDM + '''
pol = agents.IDMRoutePolicy(is_controlled_func=lambda s: jnp.arange(2) == 0, invalidate_on_end=True)
st = lane([(0., 0., 10.), (0., 50., 5.)], T=20, timestep=15)
log = st.log_trajectory
valid = log.valid.at[0, 3:9].set(False)
# Twelve valid steps: 15 is not the last waypoint.
st = st.replace(log_trajectory=log.replace(valid=valid))
u = pol.update_trajectory(st)
st2 = lane([(0., 0., 10.), (0., 50., 5.)], T=20, timestep=13)
valid = st2.log_trajectory.valid.at[0, 2:8].set(False)
st2 = st2.replace(log_trajectory=st2.log_trajectory.replace(valid=valid))
for s in (st, st2):
  u = pol.update_trajectory(s)
  if not bool(u.valid[0, 0]):
    fail('agent invalidated before the end of its path')
end = lane([(0., 0., 10.), (0., 50., 5.)], T=20, timestep=19)
valid = end.log_trajectory.valid.at[0, 3:9].set(False)
end = end.replace(log_trajectory=end.log_trajectory.replace(valid=valid))
u = pol.update_trajectory(end)
if bool(u.valid[0, 0]):
  fail('agent still valid past the end of its path')
''')

seed('C22-parked-by-old-speed', 'C22', WP,
  [("""      moving_after_last_waypoint = reached_last_waypoint & (
          new_speed > _STATIC_SPEED_THRESHOLD
      )""",
    """      moving_after_last_waypoint = reached_last_waypoint & (
          cur_speed > _STATIC_SPEED_THRESHOLD
      )""")],
  'an agent whose speed crosses 1 m/s in the step in which it reaches the end of its path',
  'whether an agent at the end of its path is parked is judged by its previous speed',
  IDM + '''
from waymax.agents import constant_speed
pol = constant_speed.ConstantSpeedPolicy(speed=.2)
st = lane([(0., 0., 1.5), (0., 50., 5.)], T=12, timestep=11)
u = pol.update_trajectory(st)
if not bool(u.valid[0, 0]):
  fail('a parked agent (0.2 m/s) at the end of its path was removed')
pol = constant_speed.ConstantSpeedPolicy(speed=3.)
u = pol.update_trajectory(lane([(0., 0., .5), (0., 50., 5.)], T=12, timestep=11))
if bool(u.valid[0, 0]):
  fail('a moving agent (3 m/s) past the end of its path was kept')
''')

# ---------------------------------------------------------------- C23
seed('C23-either-valid', 'C23', 'waymax/agents/actor_core.py',
  [("""    action = _merge_actions(
        output.is_controlled[..., jnp.newaxis], output.action, action
    )
""",
    """    mask = output.is_controlled[..., jnp.newaxis]
    merged = _merge_actions(mask, output.action, action)
    # An object keeps an action that was usable before.
    action = merged.replace(
        data=jnp.where(output.action.valid | ~mask, merged.data, action.data),
        valid=action.valid | (mask & output.action.valid),
    )
""")],
  'an object claimed by two actors (or by none but the first) where the later one gives it an invalid action',
  'an invalid action of the claiming actor is replaced by the action of another actor',
  '''
from waymax.agents import actor_core
def out(seed, claim, valid):
  r = np.random.default_rng(seed)
  return actor_core.WaymaxActorOutput(actor_state=None, is_controlled=jnp.asarray(claim),
      action=datatypes.Action(data=jnp.asarray(r.normal(size=(3, 2)).astype(np.float32)), valid=jnp.asarray(valid)[:, None]))
a = out(0, [True, True, False], [True, True, True])
b = out(1, [False, True, True], [True, False, True])
m = agents.merge_actions([a, b])
if bool(m.valid[1, 0]) or not np.array_equal(m.data[1], b.action.data[1]):
  fail(f'object 1 is claimed by the second actor: {m.data[1]} valid {m.valid[1]}, expected {b.action.data[1]} invalid')
''')

seed('C23-zero-speed', 'C23', 'waymax/agents/constant_speed.py',
  [("""    if speed is None:
      vel_x = traj_t0.vel_x""",
    """    if not speed:
      vel_x = traj_t0.vel_x""")],
  'a constant-speed actor created with speed 0',
  'an actor asked to stand still keeps its current speed',
  '''
st = S.make_state(S.gen_scene(np.random.default_rng(2), A=4, T=8, R=5, L=1, full_prob=1., sdc=0), timestep=3)
dyn = dynamics.StateDynamics()
act = agents.create_constant_speed_actor(dyn, lambda s: jnp.ones(4, bool), speed=0.)
o = act.select_action({}, st, None, None)
cur = st.current_sim_trajectory
d = np.abs(np.asarray(o.action.data[:, 0]) - np.asarray(cur.x[:, 0])).max()
if d > 1e-4:
  fail(f'an actor of speed 0 moves by {d} m')
''')

seed('C23-expert-from-log', 'C23', 'waymax/agents/expert.py',
  [("""  prev_sim_traj = datatypes.dynamic_slice(  # pytype: disable=wrong-arg-types  # jax-ndarray
      simulator_state.sim_trajectory, simulator_state.timestep, 1, axis=-1
  )
  next_logged_traj""",
    """  logged = datatypes.dynamic_slice(
      simulator_state.log_trajectory, simulator_state.timestep, 1, axis=-1
  )
  simulated = datatypes.dynamic_slice(
      simulator_state.sim_trajectory, simulator_state.timestep, 1, axis=-1
  )
  # Velocities of the recording are less noisy.
  prev_sim_traj = simulated.replace(vel_x=logged.vel_x, vel_y=logged.vel_y)
  next_logged_traj""")],
  'an expert action for an object that has diverged from its log in speed',
  'the expert action starts from the logged velocity instead of the simulated one',
  '''
from waymax.agents import expert
for i in range(6):
  st = S.make_state(S.gen_scene(np.random.default_rng(i), A=3, T=8, R=5, L=1, full_prob=1., sdc=0), timestep=3)
  sim = st.sim_trajectory
  st = st.replace(sim_trajectory=sim.replace(vel_x=sim.vel_x + 2.))
  dyn = dynamics.DeltaLocal() if i % 2 else dynamics.InvertibleBicycleModel()
  got = expert.infer_expert_action(st, dyn)
  both = jax.tree_util.tree_map(lambda a, b: jnp.concatenate([a[:, 3:4], b[:, 4:5]], -1), st.sim_trajectory, st.log_trajectory)
  want = dyn.inverse(both, st.object_metadata, 0)
  if not np.allclose(got.data, want.data, atol=1e-4):
    fail(f'scene {i}: {np.asarray(got.data)[0]}, expected {np.asarray(want.data)[0]}')
''')

# ---------------------------------------------------------------- C24
MAP = '''
from waymax.datatypes import roadgraph
def check(sc_rg, refs, k, tol=1e-3):
  rg = datatypes.RoadgraphPoints(**{n: jnp.asarray(v) for n, v in sc_rg.items()})
  n = len(sc_rg['x'])
  tiled = jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, (len(refs), n)), rg)
  out = roadgraph.filter_topk_roadgraph_points(tiled, jnp.asarray(refs, jnp.float32), k)
  for i, r in enumerate(refs):
    d = np.hypot(sc_rg['x'].astype(float) - r[0], sc_rg['y'].astype(float) - r[1])
    want = np.sort(np.where(sc_rg['valid'], d, np.inf))[:k]
    v = np.asarray(out.valid[i])
    got = np.sort(np.where(v, np.hypot(np.asarray(out.x[i], float) - r[0], np.asarray(out.y[i], float) - r[1]), np.inf))
    fin = np.isfinite(want)
    if (np.isfinite(got) != fin).any() or np.abs(got[fin] - want[fin]).max(initial=0) > tol:
      fail(f'{k} nearest points of {r}: distances {got[:5]}..., expected {want[:5]}...')
'''
seed('C24-expanded-squares', 'C24', 'waymax/datatypes/roadgraph.py',
  [("""    distances = jnp.linalg.norm(
        reference_points[..., jnp.newaxis, :] - roadgraph.xy, axis=-1
    )""",
    """    # |a - b|^2 = |a|^2 + |b|^2 - 2 a b, without materialising the differences.
    xy = roadgraph.xy
    distances = (
        jnp.sum(reference_points**2, axis=-1, keepdims=True)
        + jnp.sum(xy**2, axis=-1)
        - 2.0 * jnp.einsum('...nd,...d->...n', xy, reference_points)
    )""")],
  'a scene several kilometres away from the coordinate origin',
  'far from the origin the distances lose all precision and the points kept are not the nearest',
  MAP + '''
rng = np.random.default_rng(0)
rg = S.gen_roadgraph(rng, 300, center=(9000., -7000.), spread=20.)
check(rg, [(9000., -7000.), (9010., -7003.)], 10, 5e-3)
''')

seed('C24-far-sentinel', 'C24', 'waymax/datatypes/roadgraph.py',
  [("""    valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))""",
    """    # Any distance beyond the sensor range keeps invalid points out.
    valid_distances = jnp.where(roadgraph.valid, distances, 500.0)""")],
  'a reference point more than 500 m from valid map points that have to be kept, on a map with invalid points',
  'invalid points are preferred to valid points farther than 500 m',
  MAP + '''
rng = np.random.default_rng(0)
rg = S.gen_roadgraph(rng, 100, center=(0., 0.), spread=20., invalid_frac=.3)
check(rg, [(900., 0.), (0., 0.)], 50)
''')

# ---------------------------------------------------------------- C25
seed('C25-zero-mean', 'C25', OPS,
  [("""  mean = masked_sum / num_valid
  mean = jnp.where(num_valid == 0, invalid_value, mean)""",
    """  mean = masked_sum / jnp.maximum(num_valid, 1.0)
  mean = jnp.where(masked_sum == 0, invalid_value, mean)""")],
  'valid entries that add up to exactly zero',
  'a mean of zero is reported as the filler value',
  '''
from waymax.datatypes import operations
x = jnp.asarray([[1., -1., 5.], [0., 0., 3.], [2., 4., 9.]])
v = jnp.asarray([[True, True, False], [True, True, False], [False, False, False]])
got = np.asarray(operations.masked_mean(x, v, axis=-1))[:, 0]
if list(got) != [0., 0., -1.]:
  fail(f'masked means {got}, expected [0, 0, -1]')
''')

seed('C25-equal-enough', 'C25', OPS,
  [("""    compare_func: Callable[[jax.Array, jax.Array], bool] = jnp.array_equal,
) -> bool:""",
    """    compare_func: Callable[[jax.Array, jax.Array], bool] = lambda a, b: (
        a.shape == b.shape and jnp.allclose(a, b, rtol=1e-6, atol=1e-6)
    ),
) -> bool:""")],
  'two structures that differ by less than 1e-6 relative, e.g. in an id or a timestamp above one million',
  'structures that differ compare equal',
  '''
a = datatypes.Trajectory.zeros((2, 3))
a = a.replace(timestamp_micros=a.timestamp_micros + 5000000)
b = a.replace(timestamp_micros=a.timestamp_micros.at[0, 0].add(1))
if a == b:
  fail('trajectories with different timestamps are equal')
''')

seed('C25-masked-nan', 'C25', 'waymax/datatypes/array.py',
  [("""    fill_array = jnp.full_like(self.value, fill_value, dtype=self.value.dtype)
    return jnp.where(self.valid, self.value, fill_array)""",
    """    valid = self.valid.astype(self.value.dtype)
    return self.value * valid + (1 - valid) * jnp.asarray(
        fill_value, self.value.dtype
    )""")],
  'an invalid element that is NaN or infinite, or a non-finite fill value',
  'masking multiplies instead of replacing, so non-finite invalid elements survive',
  '''
from waymax.datatypes import array
m = array.MaskedArray.create_and_validate(jnp.asarray([1., jnp.nan, jnp.inf]), jnp.asarray([True, False, False]))
got = np.asarray(m.masked_value(0.))
if not np.array_equal(got, [1., 0., 0.]):
  fail(f'masked value {got}')
''')

# ---------------------------------------------------------------- C26
seed('C26-slow-heading', 'C26', OBJ,
  [("""    vel_yaw = jnp.arctan2(self.vel_y, self.vel_x)""",
    """    # The direction of a tiny velocity is noise.
    vel_yaw = jnp.where(
        (jnp.abs(self.vel_x) < 1e-2) & (jnp.abs(self.vel_y) < 1e-2),
        self.yaw,
        jnp.arctan2(self.vel_y, self.vel_x),
    )""")],
  'an object slower than 1 cm/s whose heading is not its direction of motion',
  'the velocity heading of slow objects is their body heading',
  '''
t = datatypes.Trajectory.zeros((1, 2))
t = t.replace(valid=jnp.ones((1, 2), bool), vel_x=jnp.asarray([[.005, 1.]]), vel_y=jnp.asarray([[.005, 1.]]), yaw=jnp.full((1, 2), 2.))
got = np.asarray(t.vel_yaw)
if np.abs(got - np.pi / 4).max() > 1e-5:
  fail(f'velocity headings {got}')
''')

seed('C26-unchecked-metadata', 'C26', OBJ,
  [("""        self.is_modeled,
        self.is_valid,
        self.objects_of_interest,
        self.is_controlled,
    ])
    chex.assert_type(""",
    """        self.is_modeled,
        self.is_valid,
        self.is_controlled,
    ])
    chex.assert_type(""")],
  'metadata whose objects_of_interest has another shape',
  'metadata with mismatched shapes validates',
  '''
m = S.make_state(S.gen_scene(np.random.default_rng(0), A=4, T=5, R=5, L=1)).object_metadata
m.validate()
m = m.replace(objects_of_interest=m.objects_of_interest[:2])
try:
  m.validate()
except AssertionError:
  sys.exit(0)
fail('metadata with objects_of_interest of shape (2,) for 4 objects validates')
''')

# ---------------------------------------------------------------- C27
DATA = '''
import tempfile, tensorflow as tf
from waymax.dataloader import dataloader_utils as du
def write(d, nfiles, per):
  n = 0
  for i in range(nfiles):
    with tf.io.TFRecordWriter(f'{d}/data.tfrecord-{i:05d}-of-{nfiles:05d}') as w:
      for _ in range(per):
        w.write(str(n).encode()); n += 1
  return f'{d}/data.tfrecord@{nfiles}', n
def read(path, **k):
  ds = du.tf_examples_dataset(path, config.DataFormat.TFRECORD, preprocess_fn=lambda s: {'v': tf.strings.to_number(s, tf.int32)}, **k)
  return [x['v'] for x in ds.as_numpy_iterator()]
'''
seed('C27-host-seed', 'C27', DL,
  [("""    random.seed(shuffle_seed)
""",
    """    # Makes sure each host reads its files in a different order.
    random.seed(shuffle_seed + jax.process_index())
""")],
  'several hosts reading one dataset with a shuffle seed',
  'hosts shuffle the file list differently before taking their share, so files are read twice or never',
  DATA + '''
with tempfile.TemporaryDirectory() as d:
  path, n = write(d, 8, 3)
  jax.process_count = lambda *a: 4
  seen = []
  for h in range(4):
    jax.process_index = lambda *a, h=h: h
    seen += [int(v) for v in read(path, shuffle_seed=3, repeat=1)]
  if sorted(seen) != list(range(n)):
    fail(f'{len(set(seen))} of {n} records delivered over all hosts')
''')

seed('C27-batch-order', 'C27', DL,
  [("""      for batch_size in reversed(batch_dims):
        ds = ds.batch(
            batch_size,""",
    """      for axis in range(len(batch_dims)):
        ds = ds.batch(
            batch_dims[axis],""")],
  'two or more batch dimensions of different sizes',
  'the batch dimensions come out in reverse order',
  DATA + '''
with tempfile.TemporaryDirectory() as d:
  path, n = write(d, 2, 12)
  for v in read(path, repeat=1, batch_dims=(2, 3)):
    if v.shape != (2, 3):
      fail(f'batch of shape {v.shape}, configured (2, 3)')
''')

seed('C27-at-in-directory', 'C27', DL,
  [("""  if '@' in os.path.basename(path):
""",
    """  if '@' in path and path.rsplit('@', 1)[1].split('/')[0].isdigit():
""")] ,
  'a single file in a directory whose name contains @ followed by digits',
  'the path of a single file below such a directory is taken for a sharded path',
  DATA + '''
with tempfile.TemporaryDirectory() as d:
  os.makedirs(f'{d}/run@2')
  f = f'{d}/run@2/one.tfrecord'
  with tf.io.TFRecordWriter(f) as w:
    for i in range(5): w.write(str(i).encode())
  try:
    got = [int(v) for v in read(f, repeat=1)]
  except Exception as e:
    fail(f'{type(e).__name__}: {e}')
  if sorted(got) != list(range(5)):
    fail(f'records {got}')
''')

# ---------------------------------------------------------------- C28
WOMD = '''
import womd as W
'''
seed('C28-lights-truncated', 'C28', WD,
  [("""        if k.startswith('state/')""",
    """        if 'state/' in k""")],
  'limiting the number of objects below the number of steps',
  'the object limit also cuts steps off every traffic-light feature',
  '''
import tensorflow as tf
from waymax.dataloader import womd_dataloader
ex = {}
for t, n in [('past', 10), ('current', 1), ('future', 80)]:
  for f in ['bbox_yaw', 'valid', 'x']:
    ex[f'state/{t}/{f}'] = tf.zeros((8, n), tf.int64 if f == 'valid' else tf.float32)
  ex[f'traffic_light_state/{t}/x'] = tf.zeros((n, 16))
out = womd_dataloader.preprocess_womd_example(ex, aggregate_timesteps=True, max_num_objects=4)
if out['state/all/x'].shape != (4, 91):
  fail(f"objects: {out['state/all/x'].shape}")
if out['traffic_light_state/all/x'].shape != (91, 16):
  fail(f"traffic lights of shape {out['traffic_light_state/all/x'].shape}, expected (91, 16)")
''')

EXD = '''
def example(A=5, T=9, L=2, R=6, seed=0):
  r = np.random.default_rng(seed)
  e = {}
  for k in ['x', 'y', 'z', 'velocity_x', 'velocity_y', 'bbox_yaw', 'length', 'width', 'height']:
    e[f'state/all/{k}'] = jnp.asarray(r.uniform(.5, 5, size=(A, T)).astype(np.float32))
  e['state/all/valid'] = jnp.asarray(r.integers(0, 2, (A, T)))
  e['state/all/timestamp_micros'] = jnp.tile(jnp.arange(T) * 100000, (A, 1))
  for k in ['x', 'y', 'z']:
    e[f'traffic_light_state/all/{k}'] = jnp.asarray(r.normal(size=(T, L)).astype(np.float32))
  for k in ['state', 'id', 'valid']:
    e[f'traffic_light_state/all/{k}'] = jnp.asarray(r.integers(0, 2, (T, L)))
  for k in ['tracks_to_predict', 'is_sdc', 'objects_of_interest', 'id', 'type']:
    e[f'state/{k}'] = jnp.asarray(r.integers(0, 2, A))
  e['roadgraph_samples/xyz'] = jnp.asarray(r.normal(size=(R, 3)).astype(np.float32))
  e['roadgraph_samples/dir'] = jnp.asarray(r.normal(size=(R, 3)).astype(np.float32))
  for k in ['type', 'id', 'valid']:
    e[f'roadgraph_samples/{k}'] = jnp.asarray(r.integers(0, 2, (R, 1)))
  return e
from waymax.dataloader import womd_factories
'''
seed('C28-first-size', 'C28', FAC,
  [("""  width = operations.masked_mean(width, valid=valid, axis=-1)""",
    """  mean_width = operations.masked_mean(width, valid=valid, axis=-1)
  # Tracks that are seen throughout have a stable size estimate.
  width = jnp.where(
      jnp.all(valid, axis=-1, keepdims=True), width[..., :1], mean_width
  )""")],
  'an object that is valid at every step and whose recorded width varies',
  'the width of objects valid at every step is that of the first step instead of the mean',
  EXD + '''
e = example()
e['state/all/valid'] = jnp.ones_like(e['state/all/valid'])
t = womd_factories.trajectory_from_womd_dict(e, 'all')
want = np.asarray(e['state/all/width']).mean(-1, keepdims=True)
d = np.abs(np.asarray(t.width) - want).max()
if d > 1e-3:
  fail(f'width differs from the mean of the recorded widths by {d}')
''')

seed('C28-float-ids', 'C28', FAC,
  [("""  ids = jnp.asarray(example[prefix_key + 'id'][..., 0], dtype=jnp.int32)
  valids = jnp.asarray(example[prefix_key + 'valid'][..., 0], dtype=jnp.bool_)""",
    """  fields = jnp.concatenate(
      [xyz, jnp.asarray(example[prefix_key + 'id'], jnp.float32)], axis=-1
  )
  xyz, ids = fields[..., :3], fields[..., 3].astype(jnp.int32)
  valids = jnp.asarray(example[prefix_key + 'valid'][..., 0], dtype=jnp.bool_)""")],
  'map features with ids above 2^24',
  'ids of map features pass through float32 and lose their low bits',
  EXD + '''
e = example()
e['roadgraph_samples/id'] = e['roadgraph_samples/id'] * 0 + jnp.asarray([[16777217 + 2 * i] for i in range(6)])
rg = womd_factories.roadgraph_from_womd_dict(e)
if not np.array_equal(np.asarray(rg.ids), np.asarray(e['roadgraph_samples/id'])[:, 0]):
  fail(f"ids {np.asarray(rg.ids)}, recorded {np.asarray(e['roadgraph_samples/id'])[:, 0]}")
''')

# ---------------------------------------------------------------- C29
EXPORT = '''
from waymax.dataloader import womd_utils, womd_factories
def export(st, A, R, L):
  desc = womd_utils.get_features_description(max_num_objects=A, max_num_rg_points=R, num_tls=L)
  return desc, womd_utils.simulator_state_to_womd_dict(st, desc)
def scenario(seed, t, A=4, R=12, L=3, T=91, **k):
  return S.make_state(S.gen_scene(np.random.default_rng(seed), A=A, T=T, R=R, L=L, **k), timestep=t), A, R, L
'''
seed('C29-lights-from-start', 'C29', UT,
  [("""  tl_past = operations.dynamic_slice(
      state.log_traffic_light,
      start_index=jnp.array(state.timestep, int) - num_history,
      slice_size=num_history,
      axis=-1,
  )""",
    """  # The history starts with the recording.
  tl_past = jax.tree_util.tree_map(
      lambda x: x[..., :num_history], state.log_traffic_light
  )"""),
   ("""from waymax.datatypes import object_state
""", """import jax
from waymax.datatypes import object_state
""")],
  'exporting a state later than step 10',
  'the exported past of the traffic lights is the beginning of the log instead of the steps before the export',
  EXPORT + '''
for t in (10, 30):
  st, A, R, L = scenario(0, t)
  _, d = export(st, A, R, L)
  want = np.asarray(st.log_traffic_light.state)[:, t - 10:t].T
  if not np.array_equal(np.asarray(d['traffic_light_state/past/state']), want):
    fail(f'exported past lights at step {t} are not steps {t - 10}..{t - 1}')
''')

seed('C29-trackless-attributes', 'C29', UT,
  [("""  return tree.map_structure(_set_invalid, metadata_dict)""",
    """  exported = tree.map_structure(_set_invalid, metadata_dict)
  # Only a modelled object can be of interest.
  exported['state/objects_of_interest'] = jnp.where(
      metadata.is_modeled,
      exported['state/objects_of_interest'],
      jnp.minimum(exported['state/objects_of_interest'], 0),
  )
  return exported""")],
  'an object of interest that is not to be predicted',
  'the object-of-interest flag of unmodelled objects is lost in the export',
  EXPORT + '''
st, A, R, L = scenario(0, 10)
m = st.object_metadata
st = st.replace(object_metadata=m.replace(is_valid=jnp.ones(A, bool), is_modeled=jnp.zeros(A, bool), objects_of_interest=jnp.ones(A, bool)))
_, d = export(st, A, R, L)
if not (np.asarray(d['state/objects_of_interest']) == 1).all():
  fail(f"objects of interest exported as {d['state/objects_of_interest']}")
''')

# ---------------------------------------------------------------- C30
VIZ = '''
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from waymax.visualization import viz, color
def lines(f):
  """Lines drawn by f(ax): list of (x, y, colour, marker)."""
  fig, ax = plt.subplots()
  f(ax)
  out = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), matplotlib.colors.to_rgb(l.get_color()), l.get_marker()) for l in ax.lines]
  plt.close(fig)
  return out
'''
seed('C30-light-colour', 'C30', VZ,
  [("""  tls_state = tls.state[:, timestep][valid]""",
    """  # Steps without a signal repeat the previous state.
  shown = np.maximum.accumulate(np.asarray(tls.state), axis=1)
  tls_state = shown[:, timestep][valid]""")],
  'a traffic light that changes to a state with a smaller number, e.g. from go to stop',
  'a light is drawn in the colour of an earlier state',
  VIZ + '''
tl = S.make_state(S.gen_scene(np.random.default_rng(0), A=2, T=4, R=5, L=1)).log_traffic_light
tl = tl.replace(valid=jnp.ones((1, 4), bool), state=jnp.asarray([[6, 6, 4, 4]], jnp.int32))
got = lines(lambda ax: viz.plot_traffic_light_signals_as_points(ax, tl, 2))
if len(got) != 1 or got[0][2] != (1., 0., 0.):
  fail(f'a red light is drawn as {[g[2] for g in got]}')
''')

seed('C30-overlap-ghost', 'C30', VZ,
  [("""  overlap_mask_matrix = np.where(
      valid[None, :, time_idx], overlap_mask_matrix, False
  )""",
    """  overlap_mask_matrix = np.where(
      valid[:, time_idx, None], overlap_mask_matrix, False
  )""")],
  'a valid object whose box overlaps the stored box of an absent one at the shown step',
  'objects that touch only absent objects are highlighted as overlapping',
  VIZ + '''
t = datatypes.Trajectory.zeros((2, 3))
t = t.replace(length=t.length + 4, width=t.width + 2, valid=jnp.asarray([[True] * 3, [False] * 3]))
got = lines(lambda ax: viz.plot_trajectory(ax, t, np.zeros(2, bool), time_idx=1))
if any(c == (1., 0., 0.) and x.size for x, y, c, m in got):
  fail('an object is highlighted as overlapping an absent object')
''')

# ---------------------------------------------------------------- C31
seed('C31-idm-ghost-gap', 'C31', WP,
  [("""    collision_valid = (
        traj.valid[..., jnp.newaxis, :]
        & obj_curr_traj.valid[..., jnp.newaxis, :, :]
        & ~self_mask
    )
""",
    """    # Invalid objects are left out of the lead speeds below.
    collision_valid = traj.valid[..., jnp.newaxis, :] & ~self_mask
""")],
  'a valid leader ahead and the stored box of an absent object between it and the agent',
  'an absent object between an agent and its leader shortens the gap',
  IDM + '''
pol = agents.IDMRoutePolicy(is_controlled_func=lambda s: jnp.arange(3) == 0)
res = []
for x in (5., 500.):
  st = lane([(0., 0., 10.), (9., 0., 9.), (x, 0., 0.)])
  off = lambda t: t.replace(valid=t.valid.at[2].set(False))
  st = st.replace(sim_trajectory=off(st.sim_trajectory), log_trajectory=off(st.log_trajectory))
  res.append(float(pol.update_speed(st)[0][0]))
if res[0] != res[1]:
  fail(f'speed {res[0]} or {res[1]} depending on where an absent object is stored')
''')

seed('C31-overlap-ghost', 'C31', 'waymax/metrics/overlap.py',
  [("""    valid = current_traj.valid[..., 0:1]  # Shape: (..., num_objects, 1)
    pairwise_overlap = jnp.logical_and(pairwise_overlap, valid)
    num_overlap = jnp.sum(pairwise_overlap, axis=-2)""",
    """    valid = current_traj.valid[..., 0:1]  # Shape: (..., num_objects, 1)
    pairwise_overlap = jnp.logical_and(pairwise_overlap, valid)
    num_overlap = jnp.sum(pairwise_overlap, axis=-1)""")],
  'a valid object whose box overlaps the stored box of an absent one',
  'a valid object overlaps absent ones',
  '''
t = datatypes.Trajectory.zeros((2, 1))
t = t.replace(length=t.length + 4, width=t.width + 2, valid=jnp.asarray([[True], [False]]))
from waymax.metrics import overlap
got = np.asarray(overlap.OverlapMetric().compute_overlap(t).value)
if got[0] != 0:
  fail(f'overlap with an absent object: {got}')
''')

# ---------------------------------------------------------------- C32
seed('C32-done-with-track', 'C32', 'waymax/datatypes/simulator_state.py',
  [("""    return jnp.array(  # pytype: disable=bad-return-type  # jnp-type
        (self.timestep + 1) >= self.log_trajectory.num_timesteps, bool
    )""",
    """    ended = (self.timestep + 1) >= self.log_trajectory.num_timesteps
    if self.log_trajectory.num_timesteps > 1:
      # Nothing is left to simulate once the recording holds no object.
      last = jnp.max(
          jnp.where(
              jnp.any(self.log_trajectory.valid, axis=-2),
              jnp.arange(self.log_trajectory.num_timesteps),
              0,
          ),
          axis=-1,
      )
      ended = ended | ((last > 0) & (self.timestep >= last))
    return jnp.array(ended, bool)""")],
  'a log whose last steps hold no valid object',
  'an episode is reported done before the end of the log',
  '''
sc = S.gen_scene(np.random.default_rng(0), A=3, T=10, R=5, L=1, full_prob=1., sdc=0)
sc['log']['valid'][:, 7:] = False
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=2))
st = e.reset(S.make_state(sc))
n = 0
while not bool(st.is_done):
  st = e.step(st, datatypes.Action(data=jnp.zeros((3, 5)), valid=jnp.zeros((3, 1), bool)))
  n += 1
if n != 8 or int(st.remaining_timesteps) != 0:
  fail(f'done after {n} steps with {int(st.remaining_timesteps)} remaining, expected 8')
''')

# ---------------------------------------------------------------- C33
seed('C33-history-warmup', 'C33', 'waymax/config.py',
  [("""      if self.observation.num_steps > self.init_steps:""",
    """      if self.observation.num_steps > self.init_steps + 1:""")],
  'an observation history one step longer than the warm-up',
  'a contradictory configuration is accepted',
  '''
for n, w in [(5, 5), (3, 5)]:
  config.EnvironmentConfig(init_steps=w, observation=config.ObservationConfig(num_steps=n))
for n, w in [(6, 5), (2, 1), (12, 11)]:
  try:
    config.EnvironmentConfig(init_steps=w, observation=config.ObservationConfig(num_steps=n))
  except ValueError:
    continue
  fail(f'history of {n} steps accepted with a warm-up of {w}')
''')

seed('C33-normalized-bounds', 'C33', BI,
  [("""    if not self._normalize_actions:
      return specs.BoundedArray(
          # last dim: (acceleration, steering)
          shape=(2,),
          dtype=np.float32,
          minimum=np.array([-self._max_accel, -self._max_steering]),
          maximum=np.array([self._max_accel, self._max_steering]),
      )""",
    """    if not self._normalize_actions or self._max_accel < 1.0:
      return specs.BoundedArray(
          # last dim: (acceleration, steering)
          shape=(2,),
          dtype=np.float32,
          minimum=np.array([-self._max_accel, -self._max_steering]),
          maximum=np.array([self._max_accel, self._max_steering]),
      )""")],
  'a normalised bicycle model with a maximum acceleration below 1',
  'the advertised bounds of a normalised model are those of the unnormalised one',
  '''
for a in (.5, 3.):
  spec = dynamics.InvertibleBicycleModel(max_accel=a, normalize_actions=True).action_spec()
  if not (np.all(np.asarray(spec.maximum) == 1.) and np.all(np.asarray(spec.minimum) == -1.)):
    fail(f'bounds of a normalised model with max_accel {a}: {spec.minimum} {spec.maximum}')
''')
