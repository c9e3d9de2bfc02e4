"""C33: advertised specs describe what environments accept and return."""
import itertools
import numpy as np
from harness import gen, sim, world
from harness.core import Part
from harness.checks import c12

PROPERTY = 'C33'
RULE = ('environments over random dynamics limits, discretisations, object counts, batches and metric sets: specs are read, actions are drawn '
        'from the advertised spec (inside, at both bounds) and stepped, expert actions, rewards, discounts and observations are judged '
        'against the advertised spec; configurations are built over the whole consistency table; non-trivial: an episode was stepped')
REQUIRED = ['obs:action-spec', 'obs:valid-spec', 'obs:reward-spec', 'obs:discount-spec', 'obs:reward-conforms', 'obs:action-accepted', 'obs:expert-in-spec',
            'obs:expert-accepted', 'obs:observation-conforms', 'obs:discount-conforms', 'obs:contradiction-refused', 'obs:consistent-accepted', 'obs:unknown-refused',
            'event:multi', 'event:planning', 'event:batched', 'event:discrete', 'event:unbounded', 'event:no-reward', 'event:bound-action',
            'event:normalised', 'event:history-configs', 'event:route-configs']
ASSUMPTIONS = ['for absolute-state dynamics (unbounded spec) actions are drawn from +-1e4']

SHAPES = [(), (2,), (), (2, 2), (1,), (), (3,), ()]


def model(r, i):
  """(kind, model, lower, upper, dtype) with the limits asked for."""
  import jax.numpy as jnp
  from waymax import dynamics as d
  p = dict(max_accel=float(r.choice([r.uniform(1, 9), r.uniform(.05, 1)])), max_steering=float(r.choice([r.uniform(.05, .8), r.uniform(1, 1.5)], p=[.8, .2])))
  q = dict(max_dx=float(r.uniform(.5, 9)), max_dy=float(r.uniform(.5, 9)), max_dyaw=float(r.uniform(.2, np.pi)))
  bp, bq = np.array(list(p.values())), np.array(list(q.values()))
  if i == 0:
    return 'bicycle', d.InvertibleBicycleModel(**p), -bp, bp
  if i == 1:
    return 'normalised', d.InvertibleBicycleModel(normalize_actions=True, **p), -np.ones(2), np.ones(2)
  if i == 2:
    return 'delta_global', d.DeltaGlobal(**q), -bq, bq
  if i == 3:
    return 'delta_local', d.DeltaLocal(**q), -bq, bq
  if i == 4:
    return 'state', d.StateDynamics(), np.full(5, -np.inf), np.full(5, np.inf)
  base, n = [(d.InvertibleBicycleModel(**p), 2), (d.DeltaGlobal(**q), 3), (d.DeltaLocal(**q), 3),
             (d.InvertibleBicycleModel(normalize_actions=True, **p), 2)][int(r.integers(4))]
  bins = r.integers(1, 9, n)
  kw = {} if r.random() < .5 else dict(bin_inverse=False)
  return 'discrete', d.DiscreteActionSpaceWrapper(base, jnp.asarray(bins, jnp.int32), **kw), np.zeros(1), np.full(1, np.prod(bins + 1) - 1)


def in_bounds(a, lo, hi):
  a = np.asarray(a, np.float64)
  tol = 1e-6 * (1 + np.abs(np.where(np.isfinite(lo), lo, 0)))
  return (a >= lo - tol).all() and (a <= hi + tol).all() and np.isfinite(a).all()


def draw(r, lo, hi, lead, dtype, mode):
  l, h = np.where(np.isfinite(lo), lo, -1e4), np.where(np.isfinite(hi), hi, 1e4)
  if dtype == np.int32:
    v = r.integers(int(l[0]), int(h[0]) + 1, lead + (1,))
    if mode == 'bound':
      v = np.where(r.random(v.shape) < .5, int(l[0]), int(h[0]))
    return v.astype(np.int32)
  v = r.uniform(l, h, lead + l.shape)
  if mode == 'bound':
    v = np.where(r.random(v.shape) < .5, l, h)
  return v.astype(np.float32)


def episode(c):
  import jax
  import jax.numpy as jnp
  from waymax import agents, config as wc, datatypes as dt, env as _env
  from waymax.datatypes import observation as ob
  from waymax.env.wrappers import brax_wrapper as bw
  r, sr = c.rng, c.shard_rng
  planning = bool((c.shard + c.k // 16) % 2)
  B = SHAPES[(c.shard + 3 * (c.k // 16)) % 8]
  A, T, w = [(4, 6, 2), (2, 5, 1), (6, 7, 4), (1, 6, 3)][c.shard % 4]
  kind, dyn, lo, hi = model(r, (c.k + c.shard) % 6)
  dtype = np.int32 if kind == 'discrete' else np.float32
  rewards = bool(r.random() < .75)
  ctrl = 'SDC' if planning else str(r.choice(['SDC', 'MODELED', 'VALID']))
  k_metrics = [n for n in world.OBJ_METRICS[:3] if r.random() < .6]
  wts = {n: float(np.float32(r.normal())) for n in world.OBJ_METRICS[:3] if r.random() < .6}
  cfg = world.config(A, w, ctrl, bool(r.random() < .5), metrics=tuple(k_metrics), rewards=wts, compute_reward=rewards)
  env = (_env.PlanningAgentEnvironment if planning else _env.MultiAgentEnvironment)(dyn, cfg)
  c.describe(dyn=kind, planning=planning, control=ctrl, A=A, T=T, batch=str(B), low=lo, high=hi, rewards=rewards)
  c.signature(kind, lo, hi, planning, str(B), ctrl, tuple(k_metrics))
  for cond, ev in ((planning, 'planning'), (not planning, 'multi'), (B, 'batched'), (kind == 'discrete', 'discrete'), (kind == 'state', 'unbounded'),
                   (kind == 'normalised', 'normalised'), (not rewards, 'no-reward')):
    if cond:
      c.hit('event:' + ev)
  # What is advertised.
  s = dyn.action_spec()
  c.check('action-spec', s.shape == lo.shape and np.dtype(s.dtype) == dtype, 'dynamics spec', got=str(s))
  c.close('action-spec', np.broadcast_to(s.minimum, lo.shape), lo, rtol=1e-6, atol=0, msg='dynamics minimum')
  c.close('action-spec', np.broadcast_to(s.maximum, hi.shape), hi, rtol=1e-6, atol=0, msg='dynamics maximum')
  spec = env.action_spec()
  own = () if planning else (A,)
  c.check('action-spec', spec.data.shape == own + lo.shape and np.dtype(spec.data.dtype) == dtype, 'env spec', got=str(spec.data.shape))
  c.close('action-spec', np.broadcast_to(spec.data.minimum, own + lo.shape), np.broadcast_to(lo, own + lo.shape), rtol=1e-6, atol=0, msg='env minimum')
  c.close('action-spec', np.broadcast_to(spec.data.maximum, own + hi.shape), np.broadcast_to(hi, own + hi.shape), rtol=1e-6, atol=0, msg='env maximum')
  c.check('valid-spec', spec.valid.shape == own + (1,) and np.dtype(spec.valid.dtype) == bool, 'validity spec', got=str(spec.valid))
  rs, ds = env.reward_spec(), env.discount_spec()
  c.check('reward-spec', rs.shape == own and np.dtype(rs.dtype) == np.float32, 'reward spec', got=str(rs))
  c.check('discount-spec', ds.shape == () and np.dtype(ds.dtype) == np.float32 and ds.minimum == 0 and ds.maximum == 1, 'discount spec', got=str(ds))
  # What is accepted and returned.
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=8, L=2, full_prob=.5, hostile=.6) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  state = env.reset(gen.make_state(sc))
  brax = bw.BraxWrapper(env, dyn, cfg)
  step = env.step if c.k % 6 else jax.jit(env.step)
  for t in range(w - 1, min(T - 1, w + 2)):
    mode = 'bound' if r.random() < .3 else 'inside'
    c.hit('event:bound-action', int(mode == 'bound'))
    data = draw(r, lo, hi, B + own, dtype, mode)
    for row in data.reshape((-1,) + spec.data.shape)[:2]:
      c.check('action-spec', _validates(spec.data, row), 'a value inside the advertised bounds fails the advertised spec', value=row)
    valid = np.ones(B + own + (1,), bool) if r.random() < .5 else r.random(B + own + (1,)) < .7
    act = sim.make_action(data, valid)
    rew = np.asarray(env.reward(state, act))
    c.check('reward-conforms', rew.shape == B + rs.shape and rew.dtype == rs.dtype and np.isfinite(rew).all(), 'reward', got=f'{rew.dtype}{rew.shape}', want=str(rs))
    # Expert actions of this step, on the log itself.
    inv = dyn.inverse(state.log_trajectory, state.object_metadata, t)
    d, v = np.asarray(inv.data), np.asarray(inv.valid)
    c.check('expert-in-spec', d.shape == B + (A,) + lo.shape and d.dtype == dtype and v.shape == B + (A, 1) and v.dtype == bool, 'inverse shape or type',
            got=f'{d.dtype}{d.shape} {v.dtype}{v.shape}')
    c.check('expert-in-spec', in_bounds(d[v[..., 0]], lo, hi), 'inverse outside the advertised range', timestep=t)
    if c.k % 2 == 0:
      actor = agents.create_expert_actor(dyn)
      out = actor.select_action({}, state, None, None).action
      ed, evd = np.asarray(out.data), np.asarray(out.valid)
      c.check('expert-in-spec', ed.shape == B + (A,) + lo.shape and ed.dtype == dtype and in_bounds(ed[evd[..., 0]], lo, hi), 'expert actor action',
              got=f'{ed.dtype}{ed.shape}')
      if planning:
        sel = np.asarray(sc['meta']['is_sdc'])
        out = sim.make_action(ed[sel].reshape(B + lo.shape), evd[sel].reshape(B + (1,)))
      nxt = env.step(state, out)
      c.check('expert-accepted', np.asarray(nxt.timestep).max() == t + 1, 'expert action')
    before = np.asarray(state.timestep)
    state = step(state, act)
    x = np.stack([np.asarray(getattr(state.sim_trajectory, k))[..., t + 1] for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1)
    ok = np.asarray(state.sim_trajectory.valid)[..., t + 1]
    c.check('action-accepted', np.asarray(state.timestep).max() == before.max() + 1 and np.isfinite(x[ok]).all(), 'next state after an in-spec action', timestep=t)
    if not B:
      try:
        state.validate()
        c.hit('obs:action-accepted')
      except Exception as e:  # pylint: disable=broad-except
        c.fail('action-accepted', f'state after an in-spec action does not validate: {e}'[:300])
    if c.failed:
      return
  if c.k % 3 == 1:
    ts = brax.step(brax.reset(gen.make_state(sc)), act) if w < T else brax.reset(gen.make_state(sc))
    dis = np.asarray(ts.discount)
    c.check('discount-conforms', dis.shape == B + ds.shape and dis.dtype == np.float32 and (dis >= 0).all() and (dis <= 1).all(), 'Brax discount',
            got=f'{dis.dtype}{dis.shape}')
    rr = np.asarray(ts.reward)
    c.check('reward-conforms', rr.shape == B + rs.shape and rr.dtype == np.float32, 'Brax reward', got=f'{rr.dtype}{rr.shape}')
  if c.k % 5 == 1 and (c.shard % 2 == 0 or c.tier != "quick"):
    steps, top = int(r.integers(1, w + 1)), int(r.integers(1, 9))
    oc = wc.ObservationConfig(num_steps=steps, roadgraph_top_k=top, coordinate_frame=wc.CoordinateFrame[str(r.choice(['GLOBAL', 'SDC', 'OBJECT']))])
    for name, f, m in (('object', ob.observation_from_state, A), ('sdc', ob.sdc_observation_from_state, 1)):
      if name == 'sdc' and oc.coordinate_frame == wc.CoordinateFrame.OBJECT:
        oc = wc.ObservationConfig(num_steps=steps, roadgraph_top_k=top, coordinate_frame=wc.CoordinateFrame.SDC)
      o = f(state, oc.num_steps, oc.roadgraph_top_k, oc.coordinate_frame)
      got = (o.trajectory.shape, o.is_ego.shape, o.roadgraph_static_points.shape, o.traffic_lights.shape, o.metadata.shape, o.shape)
      want = (B + (m, A, steps), B + (m, A), B + (m, top), B + (m, 2, steps), B + (m, A), B + (m,))
      c.check('observation-conforms', got == want, f'{name} observation shapes', got=str(got), want=str(want))
      try:
        o.validate()
      except Exception as e:  # pylint: disable=broad-except
        c.fail('observation-conforms', f'{name} observation does not validate: {e}'[:300])
  c.nontrivial()


def _validates(spec, row):
  try:
    spec.validate(row)
    return True
  except ValueError:
    return False


def configs(c):
  """The consistency table of configurations."""
  from waymax import config as wc, env as _env, metrics, rewards as rw
  from waymax.agents import agent_builder
  r = c.rng
  for _ in range(8):
    h, w = int(r.integers(1, 20)), int(r.integers(1, 20))
    if r.random() < .3:
      h = w + int(r.integers(0, 2))
    mk = lambda: wc.EnvironmentConfig(init_steps=w, observation=wc.ObservationConfig(num_steps=h))
    c.signature(h, w)
    c.hit('event:history-configs')
    if h > w:
      c.raises('contradiction-refused', ValueError, mk, f'history {h} > warm-up {w}')
    else:
      e = mk()
      c.check('consistent-accepted', e.observation.num_steps == h and e.init_steps == w, f'history {h}, warm-up {w}')
  c.check('consistent-accepted', wc.EnvironmentConfig(init_steps=1).observation is None, 'no observation')
  route = ('sdc_wrongway', 'sdc_progression', 'sdc_off_route')
  for _ in range(8):
    names = [n for n in world.ALL_METRICS if r.random() < .4]
    r.shuffle(names)
    inc = bool(r.random() < .4)
    mk = lambda: wc.WaymaxConfig(data_config=wc.DatasetConfig(path='x', include_sdc_paths=inc, num_paths=2, num_points_per_path=3),
                                 env_config=wc.EnvironmentConfig(metrics=wc.MetricsConfig(tuple(names))))
    c.signature(tuple(names), inc)
    c.hit('event:route-configs')
    if not inc and set(names) & set(route):
      c.raises('contradiction-refused', ValueError, mk, f'{names} without routes')
    else:
      c.check('consistent-accepted', mk().env_config.metrics.metrics_to_run == tuple(names), str(names))
  # Environments refuse what they cannot run.
  dyn = sim.make_dynamics('delta_local')
  for ty in ('MODELED', 'VALID', 'NON_SDC'):
    c.raises('contradiction-refused', ValueError, lambda: _env.PlanningAgentEnvironment(dyn, world.config(4, 2, ty, metrics=(), rewards={})), f'planning env controlling {ty}')
  name = 'no_such_metric_' + str(int(r.integers(1e6)))
  c.raises('unknown-refused', ValueError, lambda: rw.LinearCombinationReward(wc.LinearCombinationRewardConfig({'overlap': 1., name: 2.})), 'unknown reward metric')
  sc = gen.make_state(gen.gen_scene(r, A=2, T=4, R=3, L=1), timestep=2)
  c.raises('unknown-refused', ValueError, lambda: metrics.run_metrics(sc, wc.MetricsConfig(('overlap', name))), 'unknown metric')
  for n in world.ALL_METRICS:
    c.raises('unknown-refused', ValueError, lambda: metrics.register_metric(n, metrics.OverlapMetric()), f'second metric named {n}')
  c.check('consistent-accepted', set(world.ALL_METRICS) <= set(metrics.get_metric_names()), 'built-in metrics registered')
  for ty in ('MODELED', 'VALID'):
    c.raises('contradiction-refused', NotImplementedError, lambda: agent_builder.create_sim_agents_from_config(
        wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType[ty])), f'IDM controlling {ty}')
  for ty, f in (('SDC', lambda m: m), ('NON_SDC', lambda m: ~m)):
    a = agent_builder.create_sim_agents_from_config(wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType[ty]))
    c.check('consistent-accepted', a is not None, ty)


def case(c):
  if c.k % 8 == 7:
    configs(c)
  else:
    episode(c)


PARTS = [Part('specs', case, shards=8, quick=8, thorough=300)]
