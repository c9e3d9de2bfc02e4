"""C09: in the planning environment the ego obeys the user and agents obey their policies."""
import numpy as np
from harness import gen, sim
from harness.core import Part
from harness.checks.c03 import cmp_pose, next_valid, POSE
from harness.checks.c13 import depth

PROPERTY = 'C09'
RULE = ('episodes in the planning environment with 0-3 sim agents whose outputs and claims are arbitrary (scripted) or '
        'come from the built-in policies; every step is compared per object with a who-controls-whom oracle; '
        'non-trivial: at least two of {user-steered, agent-steered, log-replayed} objects seen in the episode')
REQUIRED = ['obs:ego-follows-user', 'obs:agent-pose', 'obs:log-pose', 'obs:validity', 'obs:actor-state-threaded',
            'obs:mismatch-refused', 'obs:control-mode-refused', 'obs:actor-keys-distinct', 'obs:count-mismatch-refused',
            'obs:user-action-frame', 'obs:wrapper-forward', 'obs:wrapper-inverse',
            'event:claimed-twice', 'event:agent-claims-ego', 'event:initially-overlapping', 'event:no-agents', 'event:claimed-object-appears',
            'event:built-in-agents', 'event:agent-steered', 'event:log-replayed', 'event:absent-at-start-overlap']
ASSUMPTIONS = ['objects whose boxes at the first logged step are within 1 cm of contact are not judged',
               'the order of sim-agent actors is the order of the constructor argument']

SHAPES = [(), (2,), (), (2, 2)]


def scripted(name):
  from waymax.agents import actor_core
  import jax.numpy as jnp
  from waymax import datatypes as dt

  def init(rng, state):
    return dict(n=jnp.zeros((), jnp.int32), key=jnp.zeros(2, jnp.uint32) if rng is None else rng,
                t0=state.timestep)

  def select(params, state, actor_state, rng):
    act = dt.Action(data=params['data'], valid=params['valid'])
    new = dict(n=actor_state['n'] + params['inc'], key=actor_state['key'] if rng is None else rng,
               t0=actor_state['t0'])
    return actor_core.WaymaxActorOutput(actor_state=new, action=act, is_controlled=params['ctrl'])
  return actor_core.actor_core_factory(init, select, name)


def overlap_mask(log):
  """(overlapping, ambiguous) of (..., A) objects at the first logged step."""
  box = np.stack([log[k][..., 0] for k in ['x', 'y', 'length', 'width', 'yaw']], -1)
  d = depth(box[..., :, None, :], box[..., None, :, :])
  A = box.shape[-2]
  v = log['valid'][..., 0]
  ok = v[..., :, None] & v[..., None, :] & ~np.eye(A, dtype=bool)
  return ((d > 0) & ok).any(-1), ((np.abs(d) < .01) & ok).any(-1)


def make_scenes(c, B, A, T, r):
  n = int(np.prod(B))
  scenes = []
  for _ in range(n):
    s = gen.gen_scene(r, A=A, T=T, R=8, L=1, sdc_full=bool(r.random() < .7), full_prob=.3,
                      spread=float(r.choice([3., 8., 40.])))
    if A > 2 and r.random() < .6:  # put one object onto another at the start
      i, j = r.choice(A, 2, replace=False)
      lo = s['log']
      if r.random() < .5:
        lo['valid'][[i, j], 0] = True
      for f in ('x', 'y'):
        lo[f][i, 0] = lo[f][j, 0] + r.normal() * .3
        if r.random() < .5:  # ... and apart later
          lo[f][i, 1:] += 30.
    scenes.append(s)
  return gen.stack_scenes(scenes, B) if B else scenes[0], scenes


def scripted_episode(c):
  import jax
  import jax.numpy as jnp
  from waymax import env as _env
  r = c.rng
  blk = c.k // 12
  kind = sim.DYN_KINDS[(c.shard + blk) % len(sim.DYN_KINDS)]
  A = [6, 4, 8, 5][(c.shard + blk) % 4]
  T = 6
  B = SHAPES[(c.shard // 2 + blk) % 4]
  K = [2, 3, 1, 0][(c.shard + blk) % 4]
  allow = bool((c.shard // 4 + blk) % 2)
  use_rng = bool((c.shard + blk) % 3 == 0)
  init = 1 + (c.shard + blk) % 3
  key = (kind, A, B, K, allow, init, use_rng)
  if key not in c.cache:
    dyn = sim.make_dynamics(kind)
    actors = [scripted(f'a{i}') for i in range(K)]

    def step(state, action, params, rng):
      env = _env.PlanningAgentEnvironment(dyn, sim.env_config(A, init, 'SDC', allow),
                                          sim_agent_actors=actors, sim_agent_params=params)
      return env.step(state, action, rng)

    def update(state, action):
      env = _env.PlanningAgentEnvironment(dyn, sim.env_config(A, init, 'SDC', allow),
                                          sim_agent_actors=actors, sim_agent_params=[{}] * K)
      return env.dynamics.compute_update(action, state.current_sim_trajectory)
    env0 = _env.PlanningAgentEnvironment(dyn, sim.env_config(A, init, 'SDC', allow),
                                         sim_agent_actors=actors, sim_agent_params=[{}] * K)
    c.cache[key] = (env0, jax.jit(step), jax.jit(update))
  env0, step, update = c.cache[key]
  sc, scenes = make_scenes(c, B, A, T, r)
  log = sc['log']
  c.describe(dyn=kind, A=A, batch=str(B), actors=K, allow_new=allow, init_steps=init)
  c.signature(log['x'], log['valid'], str(key))
  over, amb = overlap_mask(log)
  c.hit('event:initially-overlapping', over.sum())
  box_over = depth(*(lambda b: (b[..., :, None, :], b[..., None, :, :]))(
      np.stack([log[k][..., 0] for k in ['x', 'y', 'length', 'width', 'yaw']], -1)))
  c.hit('event:absent-at-start-overlap', ((box_over > .1) & ~np.eye(A, dtype=bool)).any(-1).sum() - over.sum() > 0)
  if not K:
    c.hit('event:no-agents')
  rng = jax.random.PRNGKey(c.idx) if use_rng else None
  state = env0.reset(gen.make_state(sc), rng)
  c.check('actor-state-threaded', len(state.sim_agent_actor_states) == K, 'number of actor states after reset')
  if use_rng and K > 1:
    ks = [tuple(np.asarray(s['key']).tolist()) for s in state.sim_agent_actor_states]
    c.check('actor-keys-distinct', len(set(ks)) == K, 'actors share one random key at reset')
  scale = max(1., float(np.abs(log['x']).max()), float(np.abs(log['y']).max()))
  cur = {k: np.array(v) for k, v in gen.to_np(dict(state.sim_trajectory)).items()}
  sdc = sc['meta']['is_sdc']
  valid_now = log['valid'][..., init - 1]
  totals = np.zeros(K, np.int64)
  seen = set()
  for t in range(init - 1, T - 1):
    data, valid = sim.gen_action(r, kind, B, scenes[0]['center'])
    act = sim.make_action(data, valid)
    params = []
    for i in range(K):
      ctrl = r.random(B + (A,)) < r.choice([.2, .6, 1.])
      if r.random() < .75:
        ctrl &= ~sdc
      params.append(dict(data=(r.normal(size=B + (A, 5)) * 20).astype(np.float32), valid=r.random(B + (A, 1)) < .7,
                         ctrl=ctrl, inc=np.int32(r.integers(1, 100))))
    step_rng = jax.random.PRNGKey(1000 + t) if use_rng else None
    new = step(state, act, params, step_rng)
    o = {k: np.array(v) for k, v in gen.to_np(dict(new.sim_trajectory)).items()}
    at = lambda d, s: {k: v[..., s] for k, v in d.items()}
    now, nxt, lg = at(cur, t), at(o, t + 1), at(log, t + 1)
    # who controls whom
    owner = np.where(sdc, 0, -1)
    for i, p in enumerate(params):
      c.hit('event:claimed-twice', (p['ctrl'] & ~over & (owner > 0)).sum())
      owner = np.where(p['ctrl'] & ~over, i + 1, owner)
      c.hit('event:agent-claims-ego', (p['ctrl'] & sdc & ~over).sum())
    judged = ~amb
    tile = np.repeat(data[..., None, :], A, -2)
    want = sim.ref_update(kind, tile, now)
    cmp_pose(c, 'ego-follows-user', nxt, want, (owner == 0) & judged & valid_now, scale, f'step {t}')
    for i, p in enumerate(params):
      for q, f in enumerate(POSE):
        c.eq('agent-pose', nxt[f], p['data'][..., q], where=(owner == i + 1) & judged & valid_now, msg=f'{f} step {t} actor {i}')
    for f in POSE:
      c.eq('log-pose', nxt[f], lg[f], where=((owner < 0) | (allow & ~valid_now)) & judged, msg=f'{f} step {t}')
    wv = next_valid(owner >= 0, valid_now, lg['valid'], allow)
    c.eq('validity', nxt['valid'], wv, where=judged, msg=f'step {t}')
    c.eq('log-pose', nxt['timestamp_micros'], lg['timestamp_micros'], msg='timestamps')
    if K:
      totals += [int(p['inc']) for p in params]
      got = [int(np.asarray(s['n']).ravel()[0]) for s in new.sim_agent_actor_states]
      c.check('actor-state-threaded', got == totals.tolist(), 'actor states mixed up', got=got, want=totals.tolist())
      if use_rng and K > 1:
        ks = [tuple(np.asarray(s['key']).tolist()) for s in new.sim_agent_actor_states]
        c.check('actor-keys-distinct', len(set(ks)) == K, 'actors share one random key in step')
    c.hit('event:agent-steered', (owner > 0).sum())
    c.hit('event:log-replayed', (owner < 0).sum())
    seen |= set(np.sign(owner).ravel().tolist())
    u = update(state, act)
    c.eq('user-action-frame', np.asarray(u.x).shape, B + (A, 1), msg='shape of the tiled update')
    if c.failed:
      return
    state, cur = new, o
    valid_now = np.where(amb, nxt['valid'], wv)
  c.nontrivial(len(seen) >= 2)


def builtin_episode(c):
  """Built-in policies: the merged step equals what each policy asks for separately."""
  import jax
  from waymax import env as _env
  from waymax.agents import waypoint_following_agent as wf, constant_speed as cs, sim_agent as sa
  r = c.rng
  blk = c.k // 12
  A, T = [(5, 9), (7, 8)][(c.shard + blk) % 2]
  B = [(), (2,)][(c.shard // 2) % 2]
  allow = bool(c.shard % 2)
  init = 2
  kind = ['bicycle', 'delta_local', 'state'][(c.shard + blk) % 3]
  key = ('builtin', A, T, B, allow, kind)
  if key not in c.cache:
    even = lambda s: (s.object_metadata.ids % 2 == 0) & ~s.object_metadata.is_sdc
    actors = [sa.FrozenSimPolicy(), wf.IDMRoutePolicy(even)]
    if c.shard % 2:
      actors = [wf.IDMRoutePolicy(), cs.ConstantSpeedPolicy(3.), sa.FrozenSimPolicy(even)]
    env = _env.PlanningAgentEnvironment(sim.make_dynamics(kind), sim.env_config(A, init, 'SDC', allow),
                                        sim_agent_actors=actors, sim_agent_params=[{}] * len(actors))
    select = lambda s: [a.select_action({}, s, None, None) for a in actors]
    c.cache[key] = (env, jax.jit(env.step), jax.jit(select))
  env, step, select = c.cache[key]
  sc, scenes = make_scenes(c, B, A, T, r)
  log, sdc = sc['log'], sc['meta']['is_sdc']
  c.signature(log['x'], str(key))
  c.describe(dyn=kind, A=A, T=T, batch=str(B), builtin=True)
  over, amb = overlap_mask(log)
  state = env.reset(gen.make_state(sc))
  cur = {k: np.array(v) for k, v in gen.to_np(dict(state.sim_trajectory)).items()}
  valid_now = log['valid'][..., init - 1]
  for t in range(init - 1, T - 1):
    data, valid = sim.gen_action(r, kind, B, scenes[0]['center'])
    outs = gen.to_np(select(state))
    new = step(state, sim.make_action(data, valid))
    o = {k: np.array(v) for k, v in gen.to_np(dict(new.sim_trajectory)).items()}
    at = lambda d, s: {k: v[..., s] for k, v in d.items()}
    now, nxt, lg = at(cur, t), at(o, t + 1), at(log, t + 1)
    owner = np.where(sdc, 0, -1)
    for i, p in enumerate(outs):
      owner = np.where(np.asarray(p.is_controlled) & ~over, i + 1, owner)
    for i, p in enumerate(outs):
      for q, f in enumerate(POSE):
        c.close('agent-pose', nxt[f], np.asarray(p.action.data)[..., q], atol=2e-3, rtol=1e-5,
                where=(owner == i + 1) & ~amb & valid_now, msg=f'{f} step {t} policy {i}')
    for f in POSE:
      c.eq('log-pose', nxt[f], lg[f], where=((owner < 0) | (allow & ~valid_now)) & ~amb, msg=f'{f} step {t}')
    wv = next_valid(owner >= 0, valid_now, lg['valid'], allow)
    c.eq('validity', nxt['valid'], wv, where=~amb, msg=f'step {t}')
    c.hit('event:built-in-agents')
    c.hit('event:claimed-object-appears', ((owner > 0) & ~valid_now & wv).sum())
    if c.failed:
      return
    state, cur = new, o
    valid_now = np.where(amb, nxt['valid'], wv)
  c.nontrivial()


def refusals(c):
  from waymax import env as _env
  r = c.rng
  A = int(r.integers(2, 6))
  dyn = sim.make_dynamics('state')
  K, M = int(r.integers(0, 4)), int(r.integers(0, 4))
  mk = lambda k, m, ctrl='SDC': _env.PlanningAgentEnvironment(
      dyn, sim.env_config(A, 1, ctrl), sim_agent_actors=[scripted('s')] * k, sim_agent_params=[{}] * m)
  if K != M:
    c.raises('mismatch-refused', ValueError, lambda: mk(K, M), f'{K} actors, {M} params')
  env = mk(K, K)
  for ctrl in ('MODELED', 'VALID', 'NON_SDC'):
    c.raises('control-mode-refused', ValueError, lambda: mk(K, K, ctrl), ctrl)
  s = gen.gen_scene(r, A=A, T=4, R=4, L=1)
  state = env.reset(gen.make_state(s)).replace(sim_agent_actor_states=[{}] * (K + 1))
  c.raises('count-mismatch-refused', ValueError,
           lambda: env.step(state, sim.make_action(*sim.gen_action(r, 'state', ()))), 'actor states')
  # the single-agent dynamics wrapper: one action moves whichever objects are flagged
  kind = ['bicycle', 'delta_local', 'delta_global', 'state', 'disc_bicycle'][c.k // 12 % 5]
  B = [(), (2,)][c.shard % 2]
  T = 5
  multi = sim.make_dynamics(kind)
  dyn = _env.PlanningAgentEnvironment(multi, sim.env_config(A, 1), ).dynamics
  sc, _ = make_scenes(c, B, A, T, r)
  t = int(r.integers(0, T - 1))
  simt = gen.sim_mid_episode(r, sc, t)
  st = gen.make_state(sc, simt, t)
  data, valid = sim.gen_action(r, kind, B)
  mask = r.random(B + (A,)) < .5
  allow = bool(r.random() < .5)
  o = gen.to_np(dict(dyn.forward(sim.make_action(data, valid), st.sim_trajectory, st.log_trajectory, mask, t, allow)))
  now = {k: v[..., t] for k, v in simt.items()}
  nxt = {k: v[..., t + 1] for k, v in o.items()}
  want = sim.ref_update(kind, np.repeat(data[..., None, :], A, -2), now)
  scale = max(1., float(np.abs(simt['x']).max()), float(np.abs(simt['y']).max()))
  cmp_pose(c, 'wrapper-forward', nxt, want, mask & now['valid'], scale, kind)
  c.eq('wrapper-forward', nxt['valid'], next_valid(mask, now['valid'], sc['log']['valid'][..., t + 1], allow), msg='valid')
  inv = gen.to_np(dyn.inverse(st.log_trajectory, st.object_metadata, t))
  full = gen.to_np(multi.inverse(st.log_trajectory, st.object_metadata, t))
  sdc = np.asarray(sc['meta']['is_sdc'])
  c.eq('wrapper-inverse', inv.data, full.data[sdc].reshape(B + (-1,)), msg=kind)
  c.eq('wrapper-inverse', inv.valid, full.valid[sdc].reshape(B + (-1,)), msg=kind)
  c.signature(K, M, A)
  c.nontrivial()


def case(c):
  if c.k % 12 == 11:
    refusals(c)
  elif c.k % 12 in (4, 9):
    builtin_episode(c)
  else:
    scripted_episode(c)


PARTS = [Part('planning', case, shards=8, quick=24, thorough=300)]
