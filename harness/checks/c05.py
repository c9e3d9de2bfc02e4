"""C05: a rollout is the iterated step loop."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C05'
RULE = ('random scenes x environment x actor (expert, constant speed, IDM, stateful counter, randomised, '
        'parameterised) x horizon 1..remaining; every record of the rollout trace is replayed: state i+1 against '
        'env.step(state i, action i), metrics/reward/observation i against state i, action i against the actor '
        'state threaded up to i; non-trivial: at least 2 steps')
REQUIRED = ['obs:record-count', 'obs:starts-at-reset', 'obs:next-state', 'obs:metrics-of-state', 'obs:reward-of-pair',
            'obs:observation-of-state', 'obs:action-of-actor', 'obs:padding-action', 'obs:actor-state-threaded',
            'obs:seed-determinism', 'obs:expert-follows-log', 'event:batched', 'event:planning', 'event:full-horizon']
ASSUMPTIONS = ['replayed steps compared to 1e-3 (scan and single step are compiled separately)']

A, T, R, P, N, INIT = 3, 9, 14, 2, 6, 2
TOL = dict(atol=1e-3, rtol=1e-4)
CONFIGS = [  # dynamics, planning, actor
    ('state', False, 'expert'), ('bicycle', True, 'expert'), ('delta_global', False, 'counter'),
    ('bicycle', True, 'counter'), ('state', False, 'idm'), ('delta_local', True, 'random'),
    ('bicycle', False, 'param'), ('state', True, 'constant')]


def make_actor(name, env, planning, dyn):
  import jax, jax.numpy as jnp
  from waymax import agents, datatypes as dt
  is_sdc = lambda s: s.object_metadata.is_sdc
  dim = dyn.action_spec().shape[0]
  lead = lambda s: s.shape if planning else s.shape + (A,)
  if name == 'expert':
    return agents.create_expert_actor(env.dynamics), None
  if name == 'constant':
    return agents.create_constant_speed_actor(env.dynamics, is_sdc, 3.0), None
  if name == 'idm':
    return agents.IDMRoutePolicy(is_sdc), None

  def out(s, data, st):
    return agents.WaymaxActorOutput(
        actor_state=st, is_controlled=is_sdc(s),
        action=dt.Action(data=data.astype(jnp.float32), valid=jnp.ones(lead(s) + (1,), bool)))

  if name == 'counter':  # state: (count, checksum of the steps seen)
    def init(rng, s):
      return {'n': jnp.asarray(s.timestep, jnp.int32) * 0 + 100, 'seen': jnp.asarray(s.timestep, jnp.int32)}
    def select(params, s, st, rng):
      data = jnp.zeros(lead(s) + (dim,)).at[..., 0].set((st['n'] % 7) * .1).at[..., 1].set((st['seen'] % 5) * .02)
      return out(s, data, {'n': st['n'] + 1, 'seen': (st['seen'] * 3 + s.timestep) % 1009})
    return agents.actor_core_factory(init, select, 'counter'), None
  if name == 'random':
    def init(rng, s):
      return jax.random.uniform(rng, (1,))
    def select(params, s, st, rng):
      data = jax.random.uniform(rng, lead(s) + (dim,), minval=-.5, maxval=.5)
      return out(s, data.at[..., 0].set(st[0] * .25), st)
    return agents.actor_core_factory(init, select, 'random'), None
  if name == 'param':
    def select(params, s, st, rng):
      v = s.current_sim_trajectory.vel_x[..., 0]
      data = jnp.stack([params['gain'] * v + params['bias'], params['bias'] * .1 + 0 * v], -1)
      return out(s, data, st)
    return agents.actor_core_factory(lambda rng, s: (), select, 'param'), 'gain'
  raise ValueError(name)


def case(c):
  import jax, jax.numpy as jnp
  import waymax.env.rollout; import sys; ro = sys.modules["waymax.env.rollout"]
  from waymax.datatypes import observation as ob
  kind, planning, actor_name = CONFIGS[c.shard % len(CONFIGS)]
  B = [(), (2,)][(c.shard // 2 + c.k // 8) % 2]
  maxn = T - INIT
  n = [maxn, 1 + (c.shard + c.k // 8) % (maxn - 1)][(c.k // 4) % 2]
  key = ('env',)
  if key not in c.cache:
    names = ('log_divergence', 'overlap', 'sdc_progression')
    cfg = world.config(A, INIT, metrics=names, rewards=world.weights(names=names))
    env = world.make_env(kind, cfg, planning, agents=actor_name == 'counter' and planning)
    env.observe = lambda s: ob.sdc_observation_from_state(s, 2, 5)
    actor, needs = make_actor(actor_name, env, planning, env.dynamics)
    c.cache[key] = (env, actor, needs, jax.jit(env.step), jax.jit(env.metrics), jax.jit(env.reward),
                    jax.jit(env.observe), jax.jit(actor.select_action))
  env, actor, needs, step, metrics, reward, observe, select = c.cache[key]
  params = {'gain': jnp.float32(c.rng.normal() * .3), 'bias': jnp.float32(c.rng.normal())} if needs else None
  scenes = [gen.gen_scene(c.rng, A=A, T=T, R=R, P=P, N=N, full_prob=.7) for _ in range(int(np.prod(B)))]
  state0 = gen.make_state(gen.stack_scenes(scenes, B) if B else scenes[0])
  if ('ro', n, B) not in c.cache:
    c.cache[('ro', n, B)] = jax.jit(lambda s, r, p: ro.rollout(s, actor, env, r, n, p))
  seed = int(c.rng.integers(1 << 30))
  fn = c.cache[('ro', n, B)]
  if c.k == 0 and c.shard == 0:
    fn = lambda s, r, p: ro.rollout(s, actor, env, r, n, p)
  out = fn(state0, jax.random.PRNGKey(seed), params)
  c.describe(dyn=kind, planning=planning, actor=actor_name, batch=str(B), steps=n)
  c.signature(np.stack([s['log']['x'] for s in scenes]), n, seed)
  c.nontrivial(n >= 2)
  c.hit('event:steps', n)
  if B:
    c.hit('event:batched')
  if planning:
    c.hit('event:planning')
  if n == maxn:
    c.hit('event:full-horizon')
  c.check('record-count', out.shape == (n + 1,) + B, f'shape {out.shape}')
  for leaf in jax.tree_util.tree_leaves(out):
    c.check('record-count', leaf.shape[0] == n + 1, f'leaf of {leaf.shape[0]} records, expected {n + 1}')
  if c.failed:
    return
  rec = lambda t, i: jax.tree_util.tree_map(lambda x: x[i], t)
  c.tree_eq('starts-at-reset', gen.to_np(rec(out.state, 0)), gen.to_np(env.reset(state0)))
  # actor state threaded by hand, with the actor called on the recorded states
  ast = actor.init(None, env.reset(state0)) if actor_name != 'random' else None
  for i in range(n + 1):
    s_i, a_i = rec(out.state, i), rec(out.action, i)
    if i < n:
      if actor_name != 'random':
        o = select(params, s_i, ast, None)
        c.tree_close('action-of-actor', gen.to_np(a_i), gen.to_np(o.action), msg=f'step {i}', **TOL)
        ast = o.actor_state
        if actor_name == 'counter':
          c.hit('obs:actor-state-threaded')
      c.tree_close('next-state', gen.to_np(rec(out.state, i + 1)), gen.to_np(step(s_i, a_i)), msg=f'step {i}', **TOL)
    else:
      c.check('padding-action', not np.asarray(a_i.valid).any() and not np.asarray(a_i.data).any(),
              'last action is not zero and invalid')
    c.tree_close('metrics-of-state', gen.to_np(rec(out.metrics, i)), gen.to_np(metrics(s_i)), msg=f'record {i}', **TOL)
    c.tree_close('reward-of-pair', gen.to_np(rec(out.reward, i)), gen.to_np(reward(s_i, a_i)), msg=f'record {i}', **TOL)
    c.tree_close('observation-of-state', gen.to_np(rec(out.observation, i)), gen.to_np(observe(s_i)),
                 msg=f'record {i}', **TOL)
    c.eq('next-state', np.asarray(out.state.timestep)[i], np.array(INIT - 1 + i), msg='timestep')
    if c.failed:
      return
  # seeds
  again = c.cache[('ro', n, B)](state0, jax.random.PRNGKey(seed), params)
  if fn is c.cache[('ro', n, B)]:
    c.tree_eq('seed-determinism', gen.to_np(again), gen.to_np(out), msg='same seed')
  else:
    c.tree_close('seed-determinism', gen.to_np(again), gen.to_np(out), msg='compiled', atol=5e-3, rtol=1e-4)
  if actor_name == 'random':
    d = np.asarray(out.action.data)[:n].reshape(n, -1)
    c.check('seed-determinism', np.all(d[:, 0] == d[0, 0]), 'actor state drawn at init changed during the rollout')
    for i in range(n):
      for j in range(i):
        c.check('seed-determinism', np.any(d[i, 1:] != d[j, 1:]), f'steps {j} and {i} drew the same randomness')
    other = np.asarray(c.cache[('ro', n, B)](state0, jax.random.PRNGKey(seed + 1), params).action.data)
    c.check('seed-determinism', np.any(other[:n] != np.asarray(out.action.data)[:n]), 'another seed, same actions')


def expert_log(c):
  """An expert rollout reproduces the logged self-driving-car trajectory."""
  import jax
  import waymax.env.rollout; import sys; ro = sys.modules["waymax.env.rollout"]
  kind, planning = [('state', False), ('state', True), ('delta_global', False), ('delta_local', True)][c.shard % 4]
  if 'env' not in c.cache:
    c.cache['env'] = world.make_env(kind, world.config(A, INIT, metrics=('log_divergence',), rewards={'overlap': -1.}), planning)
    env = c.cache['env']
    c.cache['f'] = jax.jit(lambda s: ro.rollout_log_by_expert_sdc(s, env, env.dynamics, T - INIT))
    c.cache['one'] = jax.jit(lambda s: ro.rollout_log_by_expert_sdc(s, env, env.dynamics))
  s = gen.gen_scene(c.rng, A=A, T=T, R=R, P=P, N=N, hostile=0.)
  st = gen.make_state(s)
  out = gen.to_np(c.cache['f'](st))
  c.signature(s['log']['x'])
  c.nontrivial()
  c.check('record-count', out.shape == (T - INIT + 1,), f'{out.shape}')
  sdc = s['sdc']
  fin = out.state.sim_trajectory
  for i in range(T - INIT + 1):
    t = INIT - 1 + i
    got = out.state.sim_trajectory
    c.check('expert-follows-log', bool(got.valid[i, sdc, t]), f'car invalid at step {t}')
    for f in ('x', 'y'):
      c.close('expert-follows-log', got[f][i, sdc, t], s['log'][f][sdc, t], atol=2e-2, msg=f'{f} step {t}')
    c.angle_close('expert-follows-log', got.yaw[i, sdc, t], s['log']['yaw'][sdc, t], atol=1e-3, msg=f'yaw step {t}')
  div = out.metrics['log_divergence']
  val = div.value if planning else div.value[:, sdc]
  c.close('expert-follows-log', val, np.zeros(T - INIT + 1), atol=3e-2, msg='log divergence')
  if c.k == 0:
    c.check('record-count', c.cache['one'](st).shape == (2,), 'default horizon is one step')


PARTS = [Part('replay', case, shards=8, quick=8, thorough=120),
         Part('expert_log', expert_log, shards=4, quick=10, thorough=150)]
