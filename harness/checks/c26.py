"""C26: derived object quantities follow from the stored fields."""
import enum
import numpy as np
from harness import gen, world
from harness.core import Part

PROPERTY = 'C26'
RULE = ('random trajectories, maps, routes, lights, actions and states of several batch shapes: every derived view against '
        'its NumPy definition, validation against single-field corruptions, clocks along whole episodes; non-trivial: '
        'valid and invalid entries both present')
REQUIRED = ['obs:speed', 'obs:velocity-heading', 'obs:positions', 'obs:field-stack', 'obs:box-corners', 'obs:invalid-speed',
            'obs:map-views', 'obs:route-views', 'obs:light-views', 'obs:counts', 'obs:validate-accepts', 'obs:validate-refuses',
            'obs:done', 'obs:remaining', 'obs:current-sim', 'obs:current-log', 'obs:as-action', 'obs:zeros', 'obs:filler',
            'obs:road-edge', 'obs:control-mask', 'obs:control-mask-refused', 'obs:advance-by-log', 'event:own-timestep', 'event:batched', 'event:last-step', 'obs:state-validate',
            'obs:enum-codes']
ASSUMPTIONS = ['box corners to 1e-4 m plus float32 resolution']
SHAPES = [(), (2,), (2, 3), (1,)]


def views(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  r = c.rng
  B = SHAPES[(c.k // 3 + c.shard) % 4]
  A, T = 1 + (c.shard + c.k // 150) % 6, 1 + (3 * c.shard + c.k // 60) % 8
  n = int(np.prod(B))
  R = 3 + 2 * c.shard
  scenes = [gen.gen_scene(r, A=A, T=T, R=R, L=2, P=2, N=5, full_prob=.3, sdc_full=False) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  c.hit('event:batched', bool(B))
  slow = r.random(sc['log']['x'].shape) < .2  # creeping objects still move somewhere
  for k in ('vel_x', 'vel_y'):
    v = sc['log'][k]
    sc['log'][k] = np.where(slow & sc['log']['valid'], r.choice([-1, 1], v.shape) * r.uniform(.001, .008, v.shape), v).astype(np.float32)
  st = gen.make_state(sc, timestep=0)
  L, tr = sc['log'], st.log_trajectory
  v = L['valid']
  c.nontrivial(bool(v.any() and not v.all()))
  c.signature(L['x'], v)
  c.describe(batch=str(B), A=A, T=T, valid=v)
  sh = B + (A, T)
  f8 = {k: np.asarray(q, np.float64) for k, q in L.items()}
  sp, vy = np.asarray(tr.speed), np.asarray(tr.vel_yaw)
  c.close('speed', sp, np.hypot(f8['vel_x'], f8['vel_y']), where=v, atol=1e-5)
  c.eq('invalid-speed', sp, np.full(sh, -1, np.float32), where=~v)
  mv = v & (np.hypot(f8['vel_x'], f8['vel_y']) > 1e-3)
  c.angle_close('velocity-heading', vy, np.arctan2(f8['vel_y'], f8['vel_x']), where=mv, atol=1e-5)
  c.eq('invalid-speed', vy, np.full(sh, -1, np.float32), where=~v)
  c.eq('positions', tr.xy, np.stack([L['x'], L['y']], -1), dtype=True)
  c.eq('positions', tr.xyz, np.stack([L['x'], L['y'], L['z']], -1), dtype=True)
  c.eq('positions', tr.vel_xy, np.stack([L['vel_x'], L['vel_y']], -1), dtype=True)
  pool = ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height', 'valid', 'timestamp_micros', 'speed']
  names = [str(q) for q in r.choice(pool, int(r.integers(1, 7)))]
  names = [q for q in names if q != 'timestamp_micros'] or ['x']
  want = np.stack([np.asarray(getattr(tr, q)) for q in names], -1)
  c.eq('field-stack', tr.stack_fields(names), want, msg=str(names))
  cs, sn = np.cos(f8['yaw']), np.sin(f8['yaw'])
  cor = []
  for a, b in [(1, -1), (1, 1), (-1, 1), (-1, -1)]:
    dx, dy = a * f8['length'] / 2, b * f8['width'] / 2
    cor.append(np.stack([f8['x'] + cs * dx - sn * dy, f8['y'] + sn * dx + cs * dy], -1))
  c.close('box-corners', tr.bbox_corners, np.stack(cor, -2), atol=1e-4 + 1e-6 * np.abs(f8['x']).max(), rtol=1e-6)
  c.check('counts', tr.shape == sh and tr.num_objects == A and tr.num_timesteps == T, 'trajectory sizes')
  # compiled views are the same
  if c.k % 10 == 0:
    g = jax.jit(lambda q: (q.speed, q.vel_yaw, q.bbox_corners))(tr)
    c.close('speed', g[0], sp, atol=1e-5)
    c.angle_close('velocity-heading', g[1], vy, atol=1e-5)
  m, M = sc['meta'], st.object_metadata
  c.check('counts', M.shape == B + (A,) and M.num_objects == A and st.num_objects == A and tuple(st.shape) == B
          and tuple(st.batch_dims) == B, 'metadata / state sizes')
  g, G = sc['rg'], st.roadgraph_points
  for name, keys in (('xy', 'x y'), ('xyz', 'x y z'), ('dir_xy', 'dir_x dir_y'), ('dir_xyz', 'dir_x dir_y dir_z')):
    c.eq('map-views', getattr(G, name), np.stack([g[k] for k in keys.split()], -1), msg=name, dtype=True)
  c.check('counts', G.shape == B + (R,) and G.num_points == R, 'map sizes')
  p, P = sc['paths'], st.sdc_paths
  c.eq('route-views', P.xy, np.stack([p['x'], p['y']], -1), dtype=True)
  c.eq('route-views', P.xyz, np.stack([p['x'], p['y'], p['z']], -1), dtype=True)
  c.check('counts', P.shape == B + (2, 5) and P.num_paths == 2 and P.num_points_per_path == 5, 'route sizes')
  l, K = sc['tl'], st.log_traffic_light
  c.eq('light-views', K.xy, np.stack([l['x'], l['y']], -1), dtype=True)
  c.check('counts', K.shape == B + (2, T) and K.num_traffic_lights == 2 and K.num_timesteps == T, 'light sizes')
  from waymax.datatypes import roadgraph
  c.eq('road-edge', roadgraph.is_road_edge(jnp.asarray(g['types'])), (g['types'] == 15) | (g['types'] == 16))
  e = dt.MapElementIds
  codes = dict(LANE_UNDEFINED=0, LANE_FREEWAY=1, LANE_SURFACE_STREET=2, LANE_BIKE_LANE=3, ROAD_LINE_UNKNOWN=5,
               ROAD_LINE_BROKEN_SINGLE_WHITE=6, ROAD_LINE_SOLID_SINGLE_WHITE=7, ROAD_LINE_SOLID_DOUBLE_WHITE=8,
               ROAD_LINE_BROKEN_SINGLE_YELLOW=9, ROAD_LINE_BROKEN_DOUBLE_YELLOW=10, ROAD_LINE_SOLID_SINGLE_YELLOW=11,
               ROAD_LINE_SOLID_DOUBLE_YELLOW=12, ROAD_LINE_PASSING_DOUBLE_YELLOW=13, ROAD_EDGE_UNKNOWN=14,
               ROAD_EDGE_BOUNDARY=15, ROAD_EDGE_MEDIAN=16, STOP_SIGN=17, CROSSWALK=18, SPEED_BUMP=19)
  for k, q in codes.items():
    c.check('enum-codes', getattr(e, k) == q, f'{k}', got=int(getattr(e, k)))
  o = dt.ObjectTypeIds if hasattr(dt, 'ObjectTypeIds') else __import__('waymax.datatypes.object_state', fromlist=['x']).ObjectTypeIds
  c.check('enum-codes', [int(o[k]) for k in ('UNSET', 'VEHICLE', 'PEDESTRIAN', 'CYCLIST', 'OTHER')] == [0, 1, 2, 3, 4], 'object types')
  z = dt.Trajectory.zeros(sh)
  z.validate()
  for k, q in dict(z).items():
    c.eq('zeros', q, np.zeros(sh, L[k].dtype), dtype=True, msg=k)
  f = dt.fill_invalid_trajectory(tr)
  for k, q in dict(f).items():
    c.eq('filler', q, np.full(sh, False if k == 'valid' else -1, L[k].dtype), dtype=True, msg=k)
  up = dt.TrajectoryUpdate(**{k: jnp.asarray(L[k][..., :1]) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')})
  act = up.as_action()
  c.eq('as-action', act.data, np.stack([L[k][..., 0] for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1), dtype=True)
  c.eq('as-action', act.valid, v[..., :1])
  c.check('counts', up.shape == B + (A, 1) and act.shape == B + (A,), 'action sizes')
  from waymax import config as wc
  for who, key in (('SDC', 'is_sdc'), ('MODELED', 'is_modeled'), ('VALID', 'is_valid')):
    c.eq('control-mask', dt.get_control_mask(M, getattr(wc.ObjectType, who)), m[key], msg=who)
  c.raises('control-mask-refused', ValueError, lambda: dt.get_control_mask(M, wc.ObjectType.NON_SDC), 'NON_SDC mask')


def validation(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  r = c.rng
  B = SHAPES[(c.k // 3 + c.shard) % 4]
  A, T = 2 + (c.shard + c.k // 150) % 4, 2 + (3 * c.shard + c.k // 60) % 7
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=7, L=3, P=2, N=5) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  st = gen.make_state(sc, timestep=np.zeros(B, np.int32))
  up = dt.TrajectoryUpdate(**{k: jnp.asarray(sc['log'][k][..., :1]) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')})
  objs = [st.log_trajectory, st.object_metadata, st.roadgraph_points, st.sdc_paths, st.log_traffic_light, up,
          dt.MaskedArray(value=st.log_trajectory.x, valid=st.log_trajectory.valid),
          dt.ObjectPose2D.from_center_and_yaw(st.log_trajectory.xy[..., 0, :], st.log_trajectory.yaw[..., 0])]
  nm = ''
  for o in objs:
    nm = type(o).__name__
    try:
      o.validate()
      c.check('validate-accepts', True)
    except Exception as e:  # pylint: disable=broad-except
      c.fail('validate-accepts', f'{nm} refused: {e}'[:300])
    fields = list(dict(o))
    k = fields[int(r.integers(len(fields)))]
    x = getattr(o, k)
    free = (nm == 'MaskedArray' and k == 'value')
    for kind in ('dtype', 'shape'):
      if kind == 'dtype':
        if free:
          continue
        others = [d for d in (jnp.float32, jnp.int32, jnp.bool_, jnp.float16) if d != x.dtype]
        y = x.astype(others[int(r.integers(len(others)))])
      else:
        if x.ndim == 0:
          continue
        # grow a leading dimension, or (for the last one) append a column
        lead = r.integers(0, x.ndim)
        if free or nm == 'ObjectPose2D':
          lead = 0
        y = jnp.concatenate([x, jnp.take(x, jnp.array([0]), axis=lead)], axis=lead)
      bad = o.replace(**{k: y})
      c.raises('validate-refuses', (AssertionError, ValueError, TypeError), bad.validate, f'{nm}.{k} with wrong {kind}')
  data = jnp.zeros(B + (A, 3))
  dt.Action(data=data, valid=jnp.ones(B + (A, 1), bool)).validate()
  for bad in (dict(data=data, valid=jnp.ones(B + (A, 1))), dict(data=data, valid=jnp.ones(B + (A, 2), bool)),
              dict(data=data, valid=jnp.ones(B + (A + 1, 1), bool))):
    c.raises('validate-refuses', (AssertionError, ValueError, TypeError), dt.Action(**bad).validate, 'Action')
  st.validate()
  st.replace(roadgraph_points=None).validate()
  c.hit('obs:state-validate')
  if B:
    grow = lambda t: jax.tree_util.tree_map(lambda x: jnp.concatenate([x, x[:1]]), t)
    for k in ('sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'timestep'):
      c.raises('state-validate', (AssertionError, ValueError, TypeError), st.replace(**{k: grow(getattr(st, k))}).validate,
               f'state with another batch size in {k}')
  c.signature(sc['log']['x'])
  c.nontrivial()


def clock(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  r = c.rng
  B = SHAPES[(c.k // 3 + c.shard) % 4]
  A, T = 1 + (c.shard + c.k // 150) % 4, 3 + (3 * c.shard + c.k // 60) % 9
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  own = bool(B) and bool(r.random() < .7)
  ts = r.integers(0, T, B) if own else int(r.integers(0, T))
  if own and r.random() < .5:
    ts.flat[0] = T - 1
  c.hit('event:own-timestep', own)
  sim = gen.sim_mid_episode(r, sc, T)
  st = gen.make_state(sc, sim, ts)
  c.signature(np.asarray(ts), sim['x'])
  c.describe(batch=str(B), T=T, t=str(ts))
  c.eq('done', st.is_done, np.asarray(ts) + 1 >= T)
  c.check('done', np.asarray(st.is_done).dtype == bool, 'type of done')
  c.eq('remaining', st.remaining_timesteps, T - 1 - np.asarray(ts))
  c.check('remaining', np.asarray(st.remaining_timesteps).dtype.kind == 'i', 'type of remaining')
  c.hit('event:last-step', np.sum(np.asarray(ts) == T - 1))
  for name, src, mon in (('current_sim_trajectory', sim, 'current-sim'), ('current_log_trajectory', sc['log'], 'current-log')):
    cur = getattr(st, name)
    for k, q in src.items():
      c.eq(mon, getattr(cur, k), world.at_step(q, ts, B)[..., None], msg=k, dtype=True)
  # advancing by log copies exactly the next steps
  tmax = int(np.max(ts))
  if tmax < T - 1:
    m = int(r.integers(1, T - tmax))
    nx = dt.update_state_by_log(st, m)
    c.eq('advance-by-log', nx.timestep, np.asarray(ts) + m)
    tt = np.arange(T)
    lo = np.asarray(ts)[..., None, None] if np.ndim(ts) else ts
    new = np.broadcast_to((tt > lo) & (tt <= lo + m), B + (A, T))
    for k, q in sim.items():
      c.eq('advance-by-log', getattr(nx.sim_trajectory, k), np.where(new, sc['log'][k], q), msg=k)
    c.tree_eq('advance-by-log', gen.to_np(nx.log_trajectory), gen.to_np(st.log_trajectory))
    c.nontrivial()


def case(c):
  [views, validation, clock][c.k % 3](c)


PARTS = [Part('derived', case, shards=8, quick=48, thorough=2000)]
