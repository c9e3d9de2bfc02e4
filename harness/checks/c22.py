"""C22: route-following agents obey the IDM law on their logged path."""
import itertools
import numpy as np
from harness import gen, world
from harness.core import Part
from harness.checks.c13 import depth

PROPERTY = 'C22'
RULE = ('random traffic with leaders placed ahead, beside, behind and on top, absent objects, gaps in the log and ends of '
        'logs; every returned action is judged against a float64 re-computation of IDM, projection and end handling; '
        'non-trivial: a valid object braked for a leader or was projected')
REQUIRED = ['event:recorded-size', 'obs:idm-speed', 'obs:next-position', 'obs:next-heading', 'obs:next-velocity', 'obs:action-valid', 'obs:filler',
            'obs:controlled', 'obs:speed-not-negative', 'obs:frozen-policy', 'obs:constant-policy', 'obs:user-speed',
            'obs:leader-off-path', 'obs:params-untouched', 'obs:builder', 'event:leader', 'event:free', 'event:invalid-leader', 'event:stopped',
            'event:end-reached', 'event:strayed', 'event:log-lookahead', 'event:near-log-end', 'event:invalidated-at-end',
            'event:batched', 'event:own-timestep', 'event:two-leaders', 'event:three-leaders']
ASSUMPTIONS = ['objects whose box contact with another is within 2e-3 m of ambiguous, and quantities within float32 '
               'rounding of a threshold, may follow either branch']
DT = .1


def cand_nearest(d, valid, tol):
  d = np.where(valid, d, np.inf)
  m = d.min()
  if not np.isfinite(m):
    return [0]
  return [int(i) for i in np.where(d <= m + tol)[0]]


def both(x, thr, tol):
  """Possible outcomes of x < thr."""
  if x < thr - tol:
    return [True]
  if x > thr + tol:
    return [False]
  return [True, False]


def follow(log, cur, new_speed, speed_ok, on_end, tol):
  """All admissible next states of one object: list of (x, y, yaw, vx, vy, valid)."""
  cur_speed = np.hypot(cur['vel_x'], cur['vel_y']) if cur['valid'] else -1.
  v1 = new_speed if speed_ok else cur_speed
  dist = (v1 + cur_speed) / 2 * DT
  cs, sn = np.cos(cur['yaw']), np.sin(cur['yaw'])
  p = np.array([cur['x'] + dist * cs, cur['y'] + dist * sn])
  pts = np.stack([log['x'], log['y']], -1)
  d = np.linalg.norm(pts - p, axis=-1)
  last = np.where(log['valid'])[0]
  last = int(last[-1]) if len(last) else 0
  out = []
  for i in cand_nearest(d, log['valid'], tol):
    gap = np.linalg.norm(pts[last] - pts[i])
    di = d[i] if log['valid'].any() else np.inf
    for a, b in itertools.product(both(gap, .05, tol), both(di, 5., tol)):
      reached = a or not b
      u = np.array([np.cos(log['yaw'][i]), np.sin(log['yaw'][i])])
      if reached and on_end:
        u = u * 0
      q = pts[i] + u * np.dot(u, p - pts[i])
      if reached:
        v = (0., 0.) if on_end else (cur['vel_x'], cur['vel_y'])
      else:
        v = (v1 * cs, v1 * sn)
      for moving in ([not m for m in both(v1, 1., 1e-4)] if on_end else [False]):
        ok = bool(speed_ok and cur['valid'] and not (reached and on_end and moving))
        out.append((q[0], q[1], log['yaw'][i], v[0], v[1], ok, reached, (not b)))
  return out


def idm(i, sim, log, prm, mode, L, N):
  """(speed, tolerance, info) of object i; speed None if ambiguous."""
  cur = {k: v[i] for k, v in sim.items()}
  v = np.hypot(cur['vel_x'], cur['vel_y'])
  A = len(sim['x'])
  T = log['x'].shape[1]
  info = {}
  if mode == 'current':
    pts = np.array([[cur[k] for k in ('x', 'y', 'z', 'length', 'width', 'yaw', 'valid')]], np.float64)
  else:
    lg = {k: q[i] for k, q in log.items()}
    d = np.linalg.norm(np.stack([lg[k] - cur[k] for k in 'xyz'], -1), axis=-1)
    cands = cand_nearest(d, lg['valid'], 1e-4 + 2e-6 * abs(cur['x']))
    if len({(lg['x'][j], lg['y'][j], lg['z'][j]) for j in cands}) > 1:
      return None, 0, info
    j = cands[0]
    idx = list(range(j, min(T, j + L)))
    info['near-log-end'] = j + L > T
    pts = np.array([[lg[k][q] for k in ('x', 'y', 'z', 'length', 'width', 'yaw', 'valid')] for q in idx], np.float64)
  if N:
    e = pts[-1]
    s = np.linspace(0, prm['dist'], N + 1)[1:]
    add = np.repeat(e[None], N, 0)
    add[:, 0] += s * np.cos(e[5])
    add[:, 1] += s * np.sin(e[5])
    pts = np.concatenate([pts, add])
  box = pts[:, [0, 1, 3, 4, 5]]
  ob = np.stack([sim[k] for k in ('x', 'y', 'length', 'width', 'yaw')], -1).astype(np.float64)
  dp = depth(box[:, None], ob[None])
  act = (pts[:, 6] > 0)[:, None] & sim['valid'][None] & (np.arange(A) != i)[None]
  tol = 2e-3 + 2e-6 * max(abs(cur['x']), abs(cur['y']))
  if (act & (np.abs(dp) < tol)).any():
    return None, 0, info
  hit = act & (dp > 0)
  info['ghost'] = ((dp > 0) & (pts[:, 6] > 0)[:, None] & ~sim['valid'][None] & (np.arange(A) != i)[None]).any() and not hit.any()
  spd = np.hypot(sim['vel_x'], sim['vel_y'])
  a, b = prm['a'], prm['b']
  free = a * (1 - (v / prm['v0']) ** prm['delta'])
  acc, at = free, 1e-4 * max(1, abs(free))
  rows = hit.any(-1)
  info['leader'] = bool(rows.any())
  if rows.any():
    f = int(np.argmax(rows))
    info['two'] = hit[f].sum() > 1
    info['three'] = hit[f].sum() > 2
    lead = spd[hit[f]].min()
    dist = np.linalg.norm(pts[rows][:, :3] - np.array([cur['x'], cur['y'], cur['z']]), axis=-1).min()
    dtol = 1e-4 + 2e-7 * max(abs(cur['x']), abs(cur['y'])) if dist > 0 else 0.
    dist = .1 if dist == 0 else dist
    if dist < 20 * dtol:
      return None, 0, info
    s = prm['s0'] + max(0., v * prm['headway'] + v * (v - lead) / (2 * np.sqrt(a * b)))
    acc = free - a * (s / dist) ** 2
    at += a * (s / dist) ** 2 * (3 * dtol / dist + 2e-5)
  info['stopped'] = v + DT * acc < 0
  return max(0., v + DT * acc), DT * at + 1e-4, info


def crowd(r, sim, t, A):
  """Places leaders at the shown step."""
  if A >= 5 and r.random() < .4:  # several objects on one spot ahead
    i, *js = r.permutation(A)[:int(r.integers(4, 6))]
    h, s = sim['yaw'][i, t], r.uniform(5, 14)
    for j in js:
      sim['x'][j, t] = sim['x'][i, t] + s * np.cos(h) + r.normal() * .1
      sim['y'][j, t] = sim['y'][i, t] + s * np.sin(h) + r.normal() * .1
      sim['z'][j, t], sim['yaw'][j, t] = sim['z'][i, t], gen.wrap(h + r.normal() * .1)
    return
  for _ in range(int(r.integers(1, A + 1))):
    i, j = r.integers(0, A, 2)
    if i == j:
      continue
    h = sim['yaw'][i, t]
    s = r.choice([0., r.uniform(0, 5), r.uniform(4, 16), r.uniform(-9, 0)], p=[.05, .25, .55, .15])
    l = r.choice([0., r.normal() * .7, r.uniform(-5, 5)])
    sim['x'][j, t] = sim['x'][i, t] + s * np.cos(h) - l * np.sin(h)
    sim['y'][j, t] = sim['y'][i, t] + s * np.sin(h) + l * np.cos(h)
    if r.random() < .7:
      sim['yaw'][j, t] = gen.wrap(h + r.normal() * .2)
    if r.random() < .4:
      sim['z'][j, t] = sim['z'][i, t]


def scene(c, B, A, T):
  r = c.rng
  n = int(np.prod(B))
  out = []
  t = int(r.integers(0, T))
  for _ in range(n):
    s = gen.gen_scene(r, A=A, T=T, R=0, L=1, spread=float(r.choice([3., 10., 25.])), full_prob=.5, sdc_full=False)
    if c.k % 5 == 4:  # recorded standing traffic: repeated way points
      q = r.integers(0, A)
      for k in ('x', 'y', 'yaw'):
        s['log'][k][q, T // 2:] = s['log'][k][q, T // 2 - 1]
    sim = gen.sim_mid_episode(r, s, t, noise=float(r.choice([0., .3, 1.])))
    crowd(r, sim, t, A)
    if r.random() < .2:
      q = r.integers(0, A)
      sim['x'][q, t] += r.uniform(-9, 9)
      sim['y'][q, t] += r.uniform(-9, 9)
    out.append((s, sim))
  if not B:
    return out, out[0][0], out[0][1], t, t
  sc = gen.stack_scenes([s for s, _ in out], B)
  sim = {k: np.stack([m[k] for _, m in out]).reshape(B + (A, T)) for k in out[0][1]}
  ts = t
  if len(B) == 1 and c.k % 2:
    ts = r.integers(0, t + 1, B)
    c.hit('event:own-timestep')
  return out, sc, sim, t, ts


def speeds_judge(c, name, act, i, want, pos_tol, vtol):
  """act: 5-vector + valid of object; want: admissible list."""
  data, ok = act
  best = None
  for w in want:
    e = [abs(data[0] - w[0]), abs(data[1] - w[1]), abs(float(gen.wrap(data[2] - w[2]))),
         abs(data[3] - w[3]), abs(data[4] - w[4])]
    score = (bool(ok) != w[5], max(e[0], e[1]) / pos_tol + e[2] / 1e-4 + max(e[3], e[4]) / vtol)
    if best is None or score < best[0]:
      best = (score, w, e)
  _, w, e = best
  c.check('action-valid', bool(ok) == w[5], f'{name} object {i}', got=ok, want=w[5])
  if not w[5]:
    c.check('filler', (np.asarray(data) == -1).all(), f'{name} object {i} invalid action is not the filler', data=data)
    return w
  c.check('next-position', max(e[0], e[1]) <= pos_tol, f'{name} object {i}', got=data, want=w)
  c.check('next-heading', e[2] <= 1e-4, f'{name} object {i}', got=data, want=w)
  c.check('next-velocity', max(e[3], e[4]) <= vtol, f'{name} object {i}', got=data, want=w)
  return w


def judge(c, name, out, sims, logs, speeds, on_end):
  """speeds(b, i) -> (speed, ok, tol) or None."""
  data = np.asarray(out.action.data, np.float64)
  ok = np.asarray(out.action.valid)[..., 0]
  A = data.shape[-2]
  data, ok = data.reshape(-1, A, 5), ok.reshape(-1, A)
  for b in range(len(data)):
    for i in range(A):
      cur = {k: v[b, i] for k, v in sims.items()}
      log = {k: v[b, i] for k, v in logs.items()}
      if not cur['valid']:
        c.check('action-valid', not ok[b, i], f'{name}: absent object moved')
        c.check('filler', (data[b, i] == -1).all(), f'{name}: absent object filler')
        continue
      if not log['valid'].any():
        continue  # nothing to follow
      sp = speeds(b, i)
      if sp is None:
        c.hit('event:ambiguous')
        continue
      tol = 2e-4 + 1e-6 * max(abs(cur['x']), abs(cur['y'])) + sp[2] * DT
      w = speeds_judge(c, name, (data[b, i], ok[b, i]), i, follow(log, cur, sp[0], sp[1], on_end, tol), tol + 1e-3, sp[2] + 2e-4)
      c.hit('event:end-reached', w[6] and not w[7])
      c.hit('event:strayed', w[7])
      c.hit('event:invalidated-at-end', w[6] and not w[5])
      if sp[1] and ok[b, i] and not w[6]:
        got = np.hypot(data[b, i, 3], data[b, i, 4])
        h = data[b, i, 3] * np.cos(cur['yaw']) + data[b, i, 4] * np.sin(cur['yaw'])
        c.check('speed-not-negative', h >= -1e-5, f'{name}: commanded backwards', h=h)
        if name == 'idm':
          c.check('idm-speed', abs(got - sp[0]) <= sp[2], f'object {i}', got=got, want=sp[0], tol=sp[2])
        elif name == 'constant':
          c.check('constant-policy', abs(got - sp[0]) <= 1e-3, f'object {i}', got=got, want=sp[0])
        else:
          c.check('user-speed', abs(got - sp[0]) <= 1e-3, f'object {i}', got=got, want=sp[0])


def case(c):
  import jax
  import jax.numpy as jnp
  from waymax import agents
  from waymax.agents import waypoint_following_agent as wf, sim_agent
  r = c.rng
  A, T, B = [(6, 16, ()), (5, 40, (3,)), (4, 14, (2, 2)), (7, 20, ()), (6, 13, (2,)), (3, 30, ()), (8, 12, ()), (1, 9, ())][c.shard % 8]
  if c.recorded_size(20):
    A, T, B = 24, 91, ()
  L, N, mode = [(10, 10, 'current'), (26, 6, 'log'), (10, 5, 'current'), (6, 0, 'log'), (8, 10, 'log'), (10, 10, 'current'),
                (5, 10, 'log'), (9, 4, 'log')][c.shard % 8]
  on_end = bool((c.shard // 2) % 2)
  raw, sc, sim, t, ts = scene(c, B, A, T)
  st = gen.make_state(sc, sim, ts)
  take = lambda q: world.at_step(q, ts, B)
  n = int(np.prod(B))
  cur = {k: take(v).reshape(n, A) for k, v in sim.items()}
  logs = {k: v.reshape(n, A, T) for k, v in sc['log'].items()}
  f64 = lambda d: {k: (v if v.dtype == bool else v.astype(np.float64)) for k, v in d.items()}
  cur, logs = f64(cur), f64(logs)
  c.signature(sim['x'], sc['log']['x'])
  c.describe(A=A, T=T, batch=str(B), t=str(ts), mode=mode, on_end=on_end)
  c.hit('event:batched', bool(B))
  own = jnp.asarray(sc['meta']['is_sdc'])
  key = jax.random.PRNGKey(c.k)
  prm = dict(v0=float(r.uniform(3, 35)), s0=float(r.uniform(.5, 4)), headway=float(r.uniform(.3, 3)), a=float(r.uniform(.5, 4)),
             b=float(r.uniform(1, 6)), delta=float(r.choice([1., 2., 4., 6.])), dist=float(r.uniform(4, 25)))
  default = c.k % 4 == 0 and mode == 'current'
  if default:
    prm = dict(v0=30., s0=2., headway=2., a=2., b=4., delta=4., dist=10.)
    nn, oe = 10, False
  else:
    nn, oe = N, on_end

  def run_idm(p, s):
    pol = wf.IDMRoutePolicy(
        is_controlled_func=lambda s: s.object_metadata.is_modeled, desired_vel=p['v0'], min_spacing=p['s0'],
        safe_time_headway=p['headway'], max_accel=p['a'], max_decel=p['b'], delta=p['delta'], max_lookahead=L,
        lookahead_from_current_position=mode == 'current', additional_lookahead_points=N,
        additional_lookahead_distance=p['dist'], invalidate_on_end=on_end)
    return pol.select_action({}, s, None, key)

  def run_default(p, s):
    return wf.IDMRoutePolicy().select_action({}, s, None, key)

  which = ('default' if default else 'param', jnp.ndim(st.timestep))
  if which not in c.cache:
    c.cache[which] = jax.jit(run_default if default else run_idm)
  before = gen.to_np(st)
  if c.k % 10 == 9:
    c.hit('event:eager')
    out = (run_default if default else run_idm)(prm, st)
  else:
    out = c.cache[which](prm, st)
  c.tree_eq('params-untouched', gen.to_np(st), before)
  c.check('controlled', out.actor_state is None, 'actor state appeared')
  c.eq('controlled', out.is_controlled, ~np.asarray(own) if default else sc['meta']['is_modeled'])
  if default and not B and 'builder' not in c.cache:
    from waymax import config as wc
    from waymax.agents import agent_builder
    for who in ('SDC', 'NON_SDC'):
      pol = agent_builder.create_sim_agents_from_config(wc.SimAgentConfig(wc.SimAgentType.IDM, getattr(wc.ObjectType, who)))
      o2 = pol.select_action({}, st, None, key)
      c.eq('builder', o2.is_controlled, np.asarray(own) if who == 'SDC' else ~np.asarray(own))
      c.tree_close('builder', gen.to_np(o2.action), gen.to_np(out.action), atol=2e-3, msg='built agent differs')
      for bad in ('MODELED', 'VALID'):
        c.raises('builder', NotImplementedError, lambda: agent_builder.create_sim_agents_from_config(
            wc.SimAgentConfig(wc.SimAgentType.IDM, getattr(wc.ObjectType, bad))), bad)
    c.cache['builder'] = True

  def sp(b, i):
    v, tol, info = idm(i, {k: q[b] for k, q in cur.items()}, {k: q[b] for k, q in logs.items()}, prm, mode, L, nn)
    if v is None:
      return None
    c.hit('event:leader' if info['leader'] else 'event:free')
    c.hit('event:log-lookahead', mode == 'log')
    c.hit('event:near-log-end', bool(info.get('near-log-end')))
    c.hit('event:two-leaders', bool(info.get('two')))
    c.hit('event:three-leaders', bool(info.get('three')))
    c.hit('event:stopped', bool(info['stopped']))
    c.hit('event:invalid-leader', bool(info['ghost']))
    if info['leader']:
      c.nontrivial()
    return v, True, tol
  judge(c, 'idm', out, cur, logs, sp, oe)

  # an extra, far object never matters; nor does an absent one on top
  if A > 1 and not default:
    s2 = {k: v.copy() for k, v in sim.items()}
    j = int(r.integers(A))
    far = r.random() < .5
    if far:
      s2['x'][..., j, :] += 5000.
    else:
      s2['valid'][..., j, :] = False
    o2 = c.cache[which](prm, gen.make_state(sc, s2, ts)) if which in c.cache else None
    if far:  # the same as if it were absent
      s3 = {k: v.copy() for k, v in sim.items()}
      s3['valid'][..., j, :] = False
      o3 = c.cache[which](prm, gen.make_state(sc, s3, ts))
      keep = np.arange(A) != j
      c.eq('leader-off-path', np.asarray(o2.action.data)[..., keep, :], np.asarray(o3.action.data)[..., keep, :],
           msg='a far object changed an action')
  # other policies
  speed = float(r.choice([0., .5, r.uniform(0, 15)]))
  kk = ('const', jnp.ndim(st.timestep))
  if kk not in c.cache:
    class User(wf.WaypointFollowingPolicy):
      def __init__(self, sp_, va_, end):
        super().__init__(invalidate_on_end=end)
        self.q = (sp_, va_)
      def update_speed(self, state, dt=.1):
        return self.q
    def rest(s, x, us, uv):
      return (agents.constant_speed.ConstantSpeedPolicy(speed=x).select_action({}, s, None, key),
              sim_agent.FrozenSimPolicy().select_action({}, s, None, key),
              User(us, uv, False).select_action({}, s, None, key), User(us, uv, True).select_action({}, s, None, key))
    c.cache[kk] = jax.jit(rest)
  us = r.uniform(0, 15, B + (A,)).astype(np.float32)
  uv = r.random(B + (A,)) < .7
  o_c, o_f, o_u, o_ue = c.cache[kk](st, speed, us, uv)
  judge(c, 'constant', o_c, cur, logs, lambda b, i: (speed, True, 1e-4), True)
  usr = lambda b, i: (float(us.reshape(n, A)[b, i]), bool(uv.reshape(n, A)[b, i]), 1e-4)
  judge(c, 'user', o_u, cur, logs, usr, False)
  judge(c, 'user', o_ue, cur, logs, usr, True)
  fd = np.asarray(o_f.action.data)
  for q, k in enumerate(['x', 'y', 'yaw', 'vel_x', 'vel_y']):
    c.eq('frozen-policy', fd[..., q], take(sim[k]), msg=k)
  c.eq('frozen-policy', np.asarray(o_f.action.valid)[..., 0], take(sim['valid']))
  c.eq('controlled', o_f.is_controlled, ~np.asarray(own))


PARTS = [Part('agents', case, shards=8, quick=60, thorough=1500)]
