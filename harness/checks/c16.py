"""C16: ego-frame views do not depend on the world frame."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C16'
RULE = ('random scenes are run beside a copy moved by a random planar rigid motion and beside slightly jittered copies; metrics, '
        'rewards, object- and car-frame observations, inverse actions and next states of scene and copy are compared, the '
        'jittered copies telling which decisions are too close to a threshold to judge; non-trivial: a rotation of more than 0.05 rad')
REQUIRED = ['obs:metric-invariant', 'obs:metric-valid-invariant', 'obs:reward-invariant', 'obs:object-view-invariant',
            'obs:car-view-invariant', 'obs:inverse-invariant', 'obs:next-state-moves', 'obs:episode-moves',
            'event:metric-nonzero-overlap', 'event:metric-nonzero-offroad', 'event:metric-nonzero-kinematic_infeasibility',
            'event:metric-nonzero-log_divergence', 'event:metric-nonzero-sdc_wrongway', 'event:metric-nonzero-sdc_off_route',
            'event:metric-nonzero-sdc_progression', 'event:sim-agents', 'event:far-move', 'event:half-turn', 'event:fillers-stay']
ASSUMPTIONS = ['observers, objects, lights and map points that are invalid are not judged',
               'values may differ by float32 rounding of the coordinates plus five times the effect of a 2 mm / 1 mrad jitter',
               'world-frame actions (global displacement, absolute state) are moved with the scene']

CONFIGS = [('bicycle', False, 'VALID', False), ('delta_local', True, 'SDC', False), ('bicycle_norm', True, 'SDC', True),
           ('delta_global', False, 'MODELED', False), ('state', False, 'VALID', False), ('disc_delta', True, 'SDC', False),
           ('delta_local', False, 'VALID', False), ('disc_bicycle', False, 'SDC', False)]
A, T, R, P, N, INIT, J, K = 5, 10, 40, 3, 14, 3, 6, 9


def motion(r, kind):
  th = [r.uniform(-np.pi, np.pi), np.pi, np.pi / 2, r.uniform(-.02, .02)][kind]
  far = r.random() < .2
  sh = r.normal(size=2) * (1200 if far else 60)
  return th, sh, far


def move_xy(x, y, th, sh):
  c, s = np.cos(th), np.sin(th)
  x, y = x.astype(np.float64), y.astype(np.float64)
  return c * x - s * y + sh[0], s * x + c * y + sh[1]


def move_traj(tr, th, sh, only_valid):
  o = {k: v.copy() for k, v in tr.items()}
  o['x'], o['y'] = move_xy(tr['x'], tr['y'], th, sh)
  o['vel_x'], o['vel_y'] = move_xy(tr['vel_x'], tr['vel_y'], th, (0, 0))
  o['yaw'] = gen.wrap(tr['yaw'].astype(np.float64) + th)
  for k in ('x', 'y', 'vel_x', 'vel_y', 'yaw'):
    o[k] = np.where(tr['valid'] | (not only_valid), o[k], tr[k]).astype(np.float32)
  return o


def move_scene(sc, th, sh, only_valid):
  o = dict(sc)
  o['log'] = move_traj(sc['log'], th, sh, only_valid)
  rg = dict(sc['rg'])
  rg['x'], rg['y'] = [q.astype(np.float32) for q in move_xy(rg['x'], rg['y'], th, sh)]
  rg['dir_x'], rg['dir_y'] = [q.astype(np.float32) for q in move_xy(rg['dir_x'], rg['dir_y'], th, (0, 0))]
  o['rg'] = rg
  for k in ('tl', 'paths'):
    q = dict(sc[k])
    q['x'], q['y'] = [v.astype(np.float32) for v in move_xy(q['x'], q['y'], th, sh)]
    o[k] = q
  return o


def jitter(r, d, amp=2e-3, ang=1e-3, keys=('x', 'y', 'vel_x', 'vel_y')):
  o = dict(d)
  for k in keys:
    if k in o:
      o[k] = (o[k] + r.normal(size=o[k].shape) * amp).astype(np.float32)
  for k in ('yaw', 'dir_x', 'dir_y'):
    if k in o:
      o[k] = (o[k] + r.normal(size=o[k].shape) * ang).astype(np.float32)
  return o


def move_action(kind, d, th, sh):
  d = d.copy()
  if kind == 'delta_global':
    d[..., 0], d[..., 1] = move_xy(d[..., 0], d[..., 1], th, (0, 0))
  elif kind == 'state':
    d[..., 0], d[..., 1] = move_xy(d[..., 0], d[..., 1], th, sh)
    d[..., 2] = gen.wrap(d[..., 2] + th)
    d[..., 3], d[..., 4] = move_xy(d[..., 3], d[..., 4], th, (0, 0))
  return d


def near(c, monitor, got, want, jit, atol, where, msg):
  """|got - want| <= atol + 5 max |jit - want|, wherever `where`."""
  got, want, jit = [np.asarray(v, np.float64) for v in (got, want, jit)]
  dev = np.abs(jit - want[None]).max(0)
  bad = ~(np.abs(got - want) <= atol + 5 * dev) & where
  c.hit('obs:' + monitor)
  c.hit('event:judged-entries', (where & (dev < .1)).sum())
  if bad.any():
    i = tuple(int(v) for v in np.argwhere(bad)[0])
    c.fail(monitor, f'{msg} differs at {i} in the moved copy', got=got[i], want=want[i], jitter_effect=dev[i])


def case(c):
  import jax
  r = c.rng
  kind, planning, ctrl, agents = CONFIGS[c.shard % 8]
  if 'env' not in c.cache:
    env = world.make_env(kind, world.config(A, INIT, ctrl, bool(c.shard % 2)), planning, agents)
    f = world.everything(env, obs_steps=2, topk=K)
    dyn = sim.make_dynamics(kind)
    inv = jax.jit(lambda tr, m, t: dyn.inverse(tr, m, t))
    c.cache['env'] = (env, jax.jit(f), jax.jit(env.step), jax.jit(env.reset), inv)
  env, f, step, reset, inv = c.cache['env']
  th, sh, far = motion(r, [0, 0, 1, 0, 2, 0, 3, 0][c.k % 8])
  c.hit('event:far-move', far)
  c.hit('event:half-turn', abs(th) == np.pi)
  c.hit('event:sim-agents', agents)
  only_valid = bool(r.random() < .5)
  c.hit('event:fillers-stay', only_valid)
  sc = gen.gen_scene(r, A=A, T=T, R=R, P=P, N=N, L=2, center=[(0., 0.), (120., -45.)][int(r.integers(2))],
                     full_prob=.6, spread=float(r.choice([4., 12.])))
  if r.random() < .5:  # the car drives close to (possibly against) its paths
    sc['paths'] = gen.gen_paths(r, P, N, sc['log'], sc['sdc'], lateral=4.)
  mv = lambda s: move_scene(s, th, sh, only_valid)
  jit_scenes = []
  for _ in range(J):
    q = dict(sc)
    for k in ('log', 'rg', 'tl', 'paths'):
      q[k] = jitter(r, sc[k])
    jit_scenes.append(q)
  stack = lambda ss: gen.stack_scenes(ss, (2 + J,))
  all_scenes = [sc, mv(sc)] + jit_scenes
  big = max(float(np.abs(s[k][q]).max()) for s in all_scenes[:2] for k in ('log', 'rg', 'paths') for q in 'xy')
  atol = 1e-3 + 6e-6 * big
  B = 2 + J
  lead = () if planning else (A,)

  def acts():
    d, v = sim.gen_action(r, kind, lead, center=sc['center'], valid_p=.9)
    d2 = move_action(kind, d, th, sh).astype(d.dtype)
    return sim.make_action(np.stack([d, d2] + [d] * J), np.stack([v] * B))

  episode = c.k % 2 == 0
  if episode:
    st = reset(gen.make_state(stack(all_scenes)))
    n = int(r.integers(1, T - INIT - 1))
    for _ in range(n):
      st = step(st, acts())
    t = INIT - 1 + n
  else:
    t = int(r.integers(1, T - 1))
    s0 = gen.sim_mid_episode(r, sc, t, noise=float(r.choice([.3, 1., 3.])))
    if r.random() < .5:
      s0['valid'] = s0['valid'] | sc['log']['valid'] & (np.arange(T) <= t)
    sims = [s0, move_traj(s0, th, sh, only_valid)] + [jitter(r, s0) for _ in range(J)]
    simt = {k: np.stack([q[k] for q in sims]) for k in s0}
    st = gen.make_state(stack(all_scenes), simt, np.full(B, t))
    st = reset(st).replace(sim_trajectory=st.sim_trajectory, timestep=st.timestep)
  c.describe(dyn=kind, planning=planning, sim_agents=agents, angle=float(th), shift=[float(v) for v in sh], t=t,
             episode=episode, moved_invalid=not only_valid)
  c.signature(sc['log']['x'], th, float(sh[0]), t)
  S = {k: np.asarray(v) for k, v in dict(st.sim_trajectory).items()}
  # where the simulated copies have drifted apart chaotically nothing can be said
  if episode:
    ok = S['valid'][0] & (np.arange(T) <= t)
    back = move_traj({k: v[0] for k, v in S.items()}, th, sh, False)
    for k, tol in (('x', atol), ('y', atol), ('vel_x', 10 * atol if 'delta' in kind else 3e-3), ('vel_y', 10 * atol if 'delta' in kind else 3e-3)):
      # without sim agents the motion is smooth, so rounding alone explains differences
      w = np.abs(S[k][1] - back[k]) <= (3 * tol if not agents else 3 * tol + 8 * spread_of(S, k, th))
      c.check('episode-moves', (w | ~ok).all(), f'{k} of an episode does not move with the scene',
              worst=np.abs(S[k][1] - back[k])[ok].max())
    c.check('episode-moves', (S['valid'][0] == S['valid'][1]).all() or agents and (S['valid'][2:] != S['valid'][:1]).any(), 'validity changed')
    dy = np.abs(gen.wrap(S['yaw'][1].astype(np.float64) - back['yaw']))
    c.check('episode-moves', ((dy <= (2e-3 + 5e-5 * atol if not agents else .02 + 8 * spread_of(S, 'yaw', th))) | ~ok).all(),
            'headings do not turn with the scene', worst=dy[ok].max())
    if c.failed:
      return
  a = acts()
  out = gen.to_np(f(st, a))
  now = S['valid'][0][:, t]
  sdc = sc['sdc']
  drift = max(float(np.abs(S[k][1] - move_traj({q: v[0] for q, v in S.items()}, th, sh, False)[k])[S['valid'][0] & (np.arange(T) <= t)].max(initial=0.)) for k in 'xy')
  atol2 = atol + 3 * drift
  # metrics and rewards
  mask = np.array(now[sdc]) if planning else now
  for name, m in out['metrics'].items():
    scen = name.startswith('sdc_')
    w = np.array(now[sdc]) if (scen or planning) else now
    v, ok = m.value, m.valid
    w = np.broadcast_to(w, v.shape[1:])
    stable = (ok[2:] == ok[:1]).all(0)
    c.eq('metric-valid-invariant', ok[1], ok[0], where=w & stable, msg=name)
    near(c, 'metric-invariant', v[1], v[0], v[2:], atol2 if name != 'sdc_progression' else 1e-4 + atol2, w & stable & ok[0], name)
    c.hit('event:metric-nonzero-' + name, (w & stable & ok[0] & (v[0] != 0)).sum())
  near(c, 'reward-invariant', out['reward'][1], out['reward'][0], out['reward'][2:], 8 * atol2, np.broadcast_to(now & now[sdc] if not planning else now[sdc], out['reward'].shape[1:]), 'reward')
  # own-frame views
  for key, mon in (('obs_OBJECT', 'object-view-invariant'), ('sdc_obs_SDC', 'car-view-invariant')):
    views(c, mon, out[key], now if key == 'obs_OBJECT' else now[sdc:sdc + 1], atol2)
  # inverse actions of the simulated motion
  if t > 0:
    act = inv(st.sim_trajectory, st.object_metadata, np.int32(t - 1))
    d, v = np.asarray(act.data).astype(np.float64), np.asarray(act.valid)
    both = S['valid'][0][:, t - 1] & S['valid'][0][:, t]
    stable = (v[2:] == v[:1]).all(0)[:, 0]
    c.eq('inverse-invariant', v[1], v[0], where=(both & stable)[:, None], msg='validity')
    w = (both & stable & v[0][:, 0])[:, None] & np.ones(d.shape[-1], bool)
    if kind in ('delta_global', 'state'):
      want = move_action(kind, d[0], th, sh)
      inside = np.abs(d[0][:, :2]).max(-1) < 4.2 if kind == 'delta_global' else np.ones(A, bool)
      angle = np.arange(d.shape[-1]) == 2
      e = np.abs(d[1] - want)
      e = np.where(angle, np.abs(gen.wrap(d[1] - want)), e)
      c.check('inverse-invariant', not (w & inside[:, None] & (e > 2 * atol2 + 3e-3)).any(), 'world-frame inverse action does not move with the scene')
    elif kind.startswith('disc'):
      if kind == 'disc_delta':  # turns by -pi and by +pi are the same
        d = np.where(d % 9 == 8, d - 8, d)
      base, bins, lim = ('delta_local', [4, 5, 8], [6, 6, np.pi]) if kind == 'disc_delta' else ('bicycle', [6, 9], [6, .3])
      if 'cont' not in c.cache:
        cont = sim.make_dynamics(base)
        c.cache['cont'] = jax.jit(lambda tr, m, u: cont.inverse(tr, m, u))
      q = np.asarray(c.cache['cont'](st.sim_trajectory, st.object_metadata, np.int32(t - 1)).data)[0].astype(np.float64)
      pos = (q + lim) / (2 * np.array(lim)) * bins
      firm = (np.abs(pos - np.floor(pos) - .5) > .02).all(-1)  # away from the border between two grid cells
      w = w & (d[2:] == d[:1]).all(0) & firm[:, None]
      c.hit('event:firm-discrete', w.sum())
      c.eq('inverse-invariant', d[1], d[0], where=w, msg='discrete action')
    else:
      near(c, 'inverse-invariant', d[1], d[0], d[2:], 2e-3 + 2 * atol2, w, 'action')
  # next states
  if t < T - 1:
    nx = {k: v[..., t + 1] for k, v in dict(out['next'].sim_trajectory).items()}
    ok = nx['valid'][0]
    stable = (nx['valid'][2:] == ok[None]).all(0)
    c.eq('next-state-moves', nx['valid'][1], ok, where=stable)
    w = ok & stable
    m = move_traj({k: v[0] for k, v in nx.items()}, th, sh, False)
    jm = [move_traj({k: v[2 + j] for k, v in nx.items()}, th, sh, False) for j in range(J)]
    sl = 3 if 'delta' in kind else 1
    for k in ('x', 'y'):
      near(c, 'next-state-moves', nx[k][1], m[k], np.stack([q[k] for q in jm]) if agents else m[k][None], 2 * atol2, w, 'next ' + k)
    for k in ('vel_x', 'vel_y'):
      near(c, 'next-state-moves', nx[k][1], m[k], np.stack([q[k] for q in jm]) if agents else m[k][None], 5e-3 + 10 * sl * atol2 * ('delta' in kind or agents), w, 'next ' + k)
    e = gen.wrap(nx['yaw'][1].astype(np.float64) - m['yaw'])
    je = np.stack([gen.wrap(q['yaw'].astype(np.float64) - m['yaw']) for q in jm]) if agents else np.zeros((1, A))
    near(c, 'next-state-moves', e, np.zeros(A), je, 3e-3, w, 'next heading')
    for k in ('z', 'length', 'width', 'height', 'timestamp_micros'):
      c.eq('next-state-moves', nx[k][1], nx[k][0], where=w, msg=k)
  c.nontrivial(abs(th) > .05)


def spread_of(S, k, th):
  if k == 'yaw':
    return np.abs(gen.wrap(S[k][2:].astype(np.float64) - S[k][:1])).max(0)
  # x and y mix under rotation
  pair = {'x': ('x', 'y'), 'y': ('x', 'y')}.get(k, ('vel_x', 'vel_y'))
  return np.max([np.abs(S[q][2:] - S[q][:1]).max(0) for q in pair], axis=0)


def views(c, mon, o, seen, atol):
  """Own-frame observations of scene (0) and moved scene (1); jittered copies tell which map points are ambiguous."""
  g = lambda part: {k: v for k, v in dict(getattr(o, part)).items()}
  tr, tl, rg = g('trajectory'), g('traffic_lights'), g('roadgraph_static_points')
  sv = seen[:, None, None]
  c.eq(mon, tr['valid'][1], tr['valid'][0], where=sv, msg='history validity')
  c.eq(mon, tl['valid'][1], tl['valid'][0], where=sv, msg='light validity')
  c.eq(mon, o.is_ego[1], o.is_ego[0], msg='ego flag')
  c.eq(mon, o.pose2d.valid[1], o.pose2d.valid[0], msg='pose validity')
  w = tr['valid'][0] & sv
  for k in ('x', 'y', 'z', 'length', 'width', 'height'):
    c.close(mon, tr[k][1], tr[k][0], atol=3 * atol, rtol=1e-5, where=w, msg=k)
  for k in ('vel_x', 'vel_y'):
    c.close(mon, tr[k][1], tr[k][0], atol=5e-3 + 10 * atol, rtol=1e-5, where=w, msg=k)
  c.angle_close(mon, tr['yaw'][1], tr['yaw'][0], atol=3e-3 + atol, where=w, msg='yaw')
  c.eq(mon, tr['timestamp_micros'][1], tr['timestamp_micros'][0], where=w, msg='time')
  w = tl['valid'][0] & sv
  for k in ('x', 'y', 'z'):
    c.close(mon, tl[k][1], tl[k][0], atol=3 * atol, rtol=1e-5, where=w, msg='light ' + k)
  for k in ('state', 'lane_ids'):
    c.eq(mon, tl[k][1], tl[k][0], where=w, msg='light ' + k)
  # map: only observers whose selection and order survives the jitter
  key = np.stack([rg['x'], rg['y']], -1)
  same = (np.abs(key[2:] - key[:1]).max(-1) < .1).all(0) & (rg['valid'][2:] == rg['valid'][:1]).all(0)
  firm = same | ~rg['valid'][0] & (~rg['valid'][2:]).all(0)
  w = firm & seen[:, None]
  c.hit('event:firm-map-points', w.sum())
  c.eq(mon, rg['valid'][1], rg['valid'][0], where=w, msg='map validity')
  w = w & rg['valid'][0]
  for k in ('x', 'y', 'z'):
    c.close(mon, rg[k][1], rg[k][0], atol=3 * atol + .005, rtol=1e-5, where=w, msg='map ' + k)
  for k in ('dir_x', 'dir_y', 'dir_z'):
    c.close(mon, rg[k][1], rg[k][0], atol=3e-3 + atol, where=w, msg='map ' + k)
  for k in ('types', 'ids'):
    c.eq(mon, rg[k][1], rg[k][0], where=w, msg='map ' + k)


PARTS = [Part('move', case, shards=8, quick=48, thorough=700)]
