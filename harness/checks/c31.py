"""C31: invalid objects and points never influence valid ones."""
import numpy as np
from harness import gen, sim, world
from harness.checks.c16 import CONFIGS, A, T, R, P, N, INIT, K
from harness.core import Part

PROPERTY = 'C31'
RULE = ('every scene runs beside copies in which all invalid entries (logged and simulated steps, lights, map points, route '
        'points) hold zeros, -1, large garbage or the values of a valid neighbour; whole episodes and mid-episode states are '
        'compared bit for bit wherever entries are valid; non-trivial: an invalid object step, map point and route point exist')
REQUIRED = ['obs:metrics', 'obs:metric-validity', 'obs:rewards', 'obs:object-view', 'obs:car-view', 'obs:world-view', 'obs:next-state',
            'obs:episode', 'obs:inverse', 'obs:policies', 'obs:flags', 'event:invalid-object-steps', 'event:invalid-map-points',
            'event:invalid-route-points', 'event:invalid-light-steps', 'event:neighbour-leftovers', 'event:absent-now',
            'event:log-invalid-now', 'event:appearing', 'event:sim-agents', 'event:overlap-seen', 'event:offroad-seen',
            'event:followers-moving']
ASSUMPTIONS = ['garbage is finite (up to about 1e30); timestamps are kept (the next timestamp is always the logged one)',
               'the recorded car exists at the first and last logged step, and simulated objects exist at some logged step',
               'sizes are constant over time for objects recorded at some step (the data loader guarantees it)']
MODES = ['zero', 'neg1', 'garbage', 'huge', 'neighbour']
B = 1 + len(MODES)


def poison(r, d, mode, keys, recorded=None):
  """Overwrites the invalid entries of a dict of equally shaped arrays."""
  o = dict(d)
  valid = d['valid']
  src = None
  if mode == 'neighbour' and valid.any():
    idx = np.argwhere(valid)
    if valid.ndim > 1:  # a valid object at the same step where there is one
      src = np.zeros(valid.shape + (valid.ndim,), int)
      pick = idx[r.integers(0, len(idx), valid.size)].reshape(valid.shape + (valid.ndim,))
      for t in range(valid.shape[-1]):
        good = np.where(valid[..., t])[0] if valid.ndim == 2 else []
        if len(good):
          pick[:, t, 0], pick[:, t, 1] = r.choice(good, valid.shape[0]), t
      src = pick
    else:
      src = idx[r.integers(0, len(idx), valid.size)].reshape(valid.shape + (1,))
  for k in keys:
    v = d[k]
    if k in ('length', 'width', 'height'):
      g = np.abs(r.normal(size=(len(v), 1)) * 300) * np.ones(v.shape) if mode in ('garbage', 'huge') else -1.
      o[k] = np.where(valid.any(-1, keepdims=True) | (recorded[:, None] if recorded is not None else False), v, g).astype(v.dtype)
      continue
    if mode == 'zero':
      g = np.zeros_like(v)
    elif mode == 'neg1':
      g = np.full_like(v, -1)
    elif mode == 'neighbour' and src is not None:
      g = v[tuple(np.moveaxis(src, -1, 0))]
    else:
      s = float(r.choice([1e6, 1e30])) if mode == 'huge' else 300.
      g = (r.normal(size=v.shape) * s).astype(v.dtype)
    o[k] = np.where(valid, v, g).astype(v.dtype)
  return o


TK = ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height']


def poison_scene(r, sc, mode):
  o = dict(sc)
  o['log'] = poison(r, sc['log'], mode, TK)
  o['rg'] = poison(r, sc['rg'], mode, ['x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids'])
  o['tl'] = poison(r, sc['tl'], mode, ['x', 'y', 'z', 'state', 'lane_ids'])
  o['paths'] = poison(r, sc['paths'], mode, ['x', 'y', 'z', 'arc_length', 'ids'])
  dead = ~sc['paths']['valid'].any(-1, keepdims=True)
  o['paths']['on_route'] = np.where(dead, r.random(dead.shape) < .5, sc['paths']['on_route'])
  return o


def same(c, mon, v, where, msg):
  """v[j] equals v[0] wherever `where` (broadcast from the left), for every poisoned copy j."""
  v = np.asarray(v)
  w = np.asarray(where)
  w = np.broadcast_to(w.reshape(w.shape + (1,) * (v.ndim - 1 - w.ndim)), v.shape[1:])
  for j in range(1, v.shape[0]):
    if v.dtype.kind == 'f':
      c.close(mon, v[j], v[0], atol=1e-5, rtol=1e-6, where=w, msg=f'{msg} [{MODES[j - 1]}]')
    else:
      c.eq(mon, v[j], v[0], where=w, msg=f'{msg} [{MODES[j - 1]}]')


def policies():
  from waymax import agents
  from waymax.agents import waypoint_following_agent as wf, constant_speed as cs, sim_agent as sa, expert, actor_core
  from waymax import dynamics
  dyn = dynamics.StateDynamics()
  everyone = lambda s: s.object_metadata.is_sdc | True
  del agents, actor_core
  return dict(idm=wf.IDMRoutePolicy(everyone), idm_log=wf.IDMRoutePolicy(everyone, lookahead_from_current_position=False, max_lookahead=4),
              idm_end=wf.IDMRoutePolicy(everyone, invalidate_on_end=True),
              frozen=sa.FrozenSimPolicy(everyone), const=cs.ConstantSpeedPolicy(4.),
              expert=expert.create_expert_actor(dyn, everyone), cspeed=cs.create_constant_speed_actor(dyn, everyone))


def view(c, mon, o, seen, tag):
  tr, tl, rg = [dict(getattr(o, p)) for p in ('trajectory', 'traffic_lights', 'roadgraph_static_points')]
  for q, d in (('history', tr), ('light', tl), ('map', rg)):
    same(c, mon, d['valid'], seen, f'{tag} {q} validity')
    for k, v in d.items():
      if k != 'valid':
        w = d['valid'][0] & seen.reshape(seen.shape + (1,) * (d['valid'][0].ndim - seen.ndim))
        same(c, mon, v, w, f'{tag} {q} {k}')
  same(c, mon, o.is_ego, np.ones(seen.shape, bool), tag + ' ego flag')
  for k, v in dict(o.metadata).items():
    same(c, mon, v, seen, f'{tag} metadata {k}')
  same(c, mon, o.pose2d.valid, np.ones(seen.shape, bool), tag + ' frame validity')
  for k in ('original_xy', 'original_yaw'):
    same(c, mon, getattr(o.pose2d, k), seen, tag + ' frame ' + k)


def case(c):
  import jax
  r = c.rng
  kind, planning, ctrl, agents = CONFIGS[c.shard % 8]
  allow = bool(c.shard % 2) if not agents else True
  if 'env' not in c.cache:
    env = world.make_env(kind, world.config(A, INIT, ctrl, allow), planning, agents)
    f = world.everything(env, obs_steps=2, topk=K, frames=('OBJECT', 'GLOBAL'))
    dyn = sim.make_dynamics(kind)
    inv = jax.jit(lambda tr, m, t: dyn.inverse(tr, m, t))
    pol = policies()
    keys = list(pol)
    mine = {k: pol[k] for k in (keys[c.shard % 3], keys[3 + c.shard % 4])}

    def select(s):
      q = {k: a.select_action({}, s, None, None) for k, a in mine.items()}
      return {k: (v.action.data, v.action.valid, v.is_controlled) for k, v in q.items()}
    c.cache['env'] = (env, jax.jit(f), jax.jit(env.step), jax.jit(env.reset), inv, jax.jit(select))
  env, f, step, reset, inv, select = c.cache['env']
  sc = gen.gen_scene(r, A=A, T=T, R=R, P=P, N=N, L=3, center=[(0., 0.), (120., -45.)][int(r.integers(2))],
                     full_prob=.25, spread=float(r.choice([3., 10.])), fill='keep', sdc_full=bool(r.random() < .8))
  sc['log']['valid'][sc['sdc'], [0, -1]] = True  # progression is measured from the car's logged start to its logged end
  if r.random() < .4:
    sc['paths'] = gen.gen_paths(r, P, N, sc['log'], sc['sdc'], lateral=4., invalid_frac=.3)
  lead = () if planning else (A,)
  base = [sc] + [poison_scene(r, sc, m) for m in MODES]
  stack = gen.stack_scenes(base, (B,))

  def acts():
    d, v = sim.gen_action(r, kind, lead, center=sc['center'], valid_p=.9)
    return sim.make_action(np.stack([d] * B), np.stack([v] * B))

  episode = c.k % 2 == 0
  st = reset(gen.make_state(stack))
  if episode:
    n = int(r.integers(1, T - INIT))
    for _ in range(n):
      st = step(st, acts())
    t = INIT - 1 + n
  else:
    t = int(r.integers(1, T))
    s0 = gen.sim_mid_episode(r, sc, t, noise=float(r.choice([.3, 1., 3.])))
    s0['valid'] = s0['valid'] | sc['log']['valid'] & (np.arange(T) <= t) & (r.random((A, T)) < .7)
    s0['valid'] &= sc['log']['valid'].any(-1, keepdims=True)  # objects that were never recorded cannot be simulated
    sims = [s0] + [poison(r, s0, m, TK, sc['log']['valid'].any(-1)) for m in MODES]
    m = gen.make_state(stack, {k: np.stack([q[k] for q in sims]) for k in s0}, np.full(B, t))
    st = st.replace(sim_trajectory=m.sim_trajectory, timestep=m.timestep)
  c.describe(dyn=kind, planning=planning, sim_agents=agents, allow_new=allow, t=t, episode=episode)
  c.signature(sc['log']['x'], sc['log']['valid'], t)
  S = {k: np.asarray(v) for k, v in dict(st.sim_trajectory).items()}
  past = np.arange(T) <= t
  seen = S['valid'][0] & past
  now = S['valid'][0][:, t]
  sdc = sc['sdc']
  lv = sc['log']['valid']
  c.hit('event:sim-agents', agents)
  c.hit('event:invalid-object-steps', (~S['valid'][0] & past).sum() + (~lv).sum())
  c.hit('event:invalid-map-points', (~sc['rg']['valid']).sum())
  c.hit('event:invalid-route-points', (~sc['paths']['valid']).sum())
  c.hit('event:invalid-light-steps', (~sc['tl']['valid'][:, t]).sum())
  c.hit('event:absent-now', (~now).sum())
  c.hit('event:log-invalid-now', (now & ~lv[:, t]).sum())
  c.hit('event:neighbour-leftovers', (~now).sum() * now.any())
  same(c, 'episode', S['valid'], np.ones((A, T), bool), 'validity')
  for k in S:
    if k != 'valid':
      same(c, 'episode', S[k], seen, k)
  if c.failed:
    return
  a = acts()
  out = gen.to_np(f(st, a))
  for k in ('done', 'remaining', 'term', 'trunc'):
    same(c, 'flags', np.broadcast_to(out[k], (B,)) if np.ndim(out[k]) == 0 else out[k], np.array(True), k)
  for name, m in out['metrics'].items():
    scen = name.startswith('sdc_')
    w = np.broadcast_to(np.array(now[sdc]) if (scen or planning) else now, m.value.shape[1:])
    same(c, 'metric-validity', m.valid, w, name)
    same(c, 'metrics', m.value, w & m.valid[0], name)
    c.hit('event:overlap-seen', name == 'overlap' and (m.value[0] > 0).any())
    c.hit('event:offroad-seen', name == 'offroad' and (m.value[0] > 0).any())
  same(c, 'rewards', out['reward'], now & now[sdc] if not planning else now[sdc], 'reward')
  view(c, 'object-view', out['obs_OBJECT'], now, 'object view')
  view(c, 'world-view', out['obs_GLOBAL'], np.ones(A, bool) & now, 'world view')
  view(c, 'car-view', out['sdc_obs_SDC'], now[sdc:sdc + 1], 'car view')
  if t > 0:
    act = inv(st.sim_trajectory, st.object_metadata, np.int32(t - 1))
    both = S['valid'][0][:, t - 1] & now
    same(c, 'inverse', act.valid, np.ones(A, bool), 'inverse validity')
    same(c, 'inverse', act.data, both, 'inverse action')
  for k, (d, v, ctl) in select(st).items():
    same(c, 'policies', ctl, np.ones(A, bool), k + ' control')
    same(c, 'policies', v, now, k + ' validity')
    same(c, 'policies', d, now & np.asarray(v)[0, :, 0], k + ' action')
    c.hit('event:followers-moving', (now & np.asarray(v)[0, :, 0]).sum() * k.startswith('idm'))
  if t < T - 1:
    nx = {k: v[..., t + 1] for k, v in dict(out['next'].sim_trajectory).items()}
    same(c, 'next-state', nx['valid'], np.ones(A, bool), 'validity')
    c.hit('event:appearing', (nx['valid'][0] & ~now).sum())
    for k, v in nx.items():
      if k != 'valid':
        same(c, 'next-state', v, nx['valid'][0], 'next ' + k)
  c.nontrivial(bool((~lv).any() and (~sc['rg']['valid']).any() and (~sc['paths']['valid']).any()))


PARTS = [Part('poison', case, shards=8, quick=48, thorough=700)]
