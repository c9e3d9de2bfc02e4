"""C12: the Brax adapter reports consistent transitions."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C12'
RULE = ('whole episodes through the Brax adapter (multi-agent, planning, sim agents, user subclasses with their own '
        'termination or observation, batches) replayed step by step against the wrapped environment; '
        'non-trivial: at least two steps taken')
REQUIRED = ['obs:reset', 'obs:next-state', 'obs:observation', 'obs:reward', 'obs:metrics', 'obs:done', 'obs:discount',
            'obs:input-untouched', 'obs:specs-forwarded', 'obs:shape', 'event:planning', 'event:multi', 'event:terminated', 'event:batched',
            'event:truncated', 'event:custom-observation', 'event:compiled', 'event:sim-agents', 'event:restart', 'event:relabelled']
ASSUMPTIONS = ['floats to 2e-3 (adapter and environment may be compiled separately)']

CONFIGS = [  # dynamics, planning, control, agents, variant
    ('bicycle', False, 'SDC', False, 'plain'), ('delta_local', True, 'SDC', True, 'plain'),
    ('state', False, 'VALID', False, 'terminating'), ('bicycle', True, 'SDC', False, 'terminating'),
    ('disc_bicycle', False, 'MODELED', False, 'observing'), ('delta_global', True, 'SDC', False, 'observing'),
    ('bicycle_norm', False, 'SDC', False, 'terminating'), ('disc_delta', True, 'SDC', True, 'plain')]
SHAPES = [(), (2,), (), (3,), (2, 2), (), (2,), ()]


def subclass(base, variant):
  import jax.numpy as jnp
  from waymax.datatypes import observation as ob
  from waymax import config as wc
  if variant == 'terminating':
    class Env(base):
      def termination(self, state):  # a declared ending that depends on the scenario
        n = state.log_trajectory.num_timesteps
        end = (state.object_metadata.ids.sum(-1) % (n + 2)).astype(jnp.int32)
        return jnp.broadcast_to(state.timestep, end.shape) >= end
    return Env
  if variant == 'observing':
    class Env(base):
      def observe(self, state):
        return ob.sdc_observation_from_state(state, 1, 3, wc.CoordinateFrame.SDC)
    return Env
  return base


def build(kind, planning, ctrl, agents, variant, A, init, allow=True, metrics=('log_divergence', 'overlap', 'kinematic_infeasibility'),
          rewards=None):
  from waymax import env as _env, config as wc
  from waymax.agents import agent_builder
  cfg = world.config(A, init, ctrl, allow, metrics=metrics, rewards=rewards or {'overlap': -1., 'log_divergence': -.5})
  dyn = sim.make_dynamics(kind)
  base = subclass(_env.PlanningAgentEnvironment if planning else _env.MultiAgentEnvironment, variant)
  kw = {}
  if agents:
    kw = dict(sim_agent_actors=[agent_builder.create_sim_agents_from_config(
        wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType.NON_SDC))], sim_agent_params=[{}])
  return base(dyn, cfg, **kw), dyn, cfg


def case(c):
  import jax
  import jax.numpy as jnp
  import dataclasses
  from waymax.env.wrappers import brax_wrapper as bw
  r = c.rng
  kind, planning, ctrl, agents, variant = CONFIGS[c.shard % 8]
  blk = c.k // 12
  B = SHAPES[(c.shard + 3 * blk) % 8]
  A, T, init = [(4, 7, 2), (3, 6, 1), (5, 9, 4)][(c.shard + blk) % 3]
  key = (B, A, T)
  if key not in c.cache:
    env, dyn, cfg = build(kind, planning, ctrl, agents, variant, A, init)
    brax = bw.BraxWrapper(env, dyn, cfg)
    ref = lambda s, a: dict(n=env.step(s, a), r=env.reward(s, a), m=env.metrics(s))
    c.cache[key] = (env, brax, jax.jit(ref), jax.jit(brax.step), jax.jit(env.observe), jax.jit(brax.reset))
  env, brax, ref, jstep, observe, jreset = c.cache[key]
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=12, L=1, full_prob=.6) for _ in range(n)]
  if n > 1 and variant == 'terminating' and r.random() < .5:
    for s in scenes:
      s['meta']['ids'] = scenes[0]['meta']['ids']
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  scen = gen.make_state(sc)
  c.describe(dyn=kind, planning=planning, control=ctrl, agents=agents, variant=variant, A=A, T=T, batch=str(B))
  c.signature(sc['log']['x'], str(key))
  c.hit('event:planning' if planning else 'event:multi')
  if agents:
    c.hit('event:sim-agents')
  if B:
    c.hit('event:batched')
  rshape = B + (() if planning else (A,))
  tol = dict(atol=2e-3, rtol=1e-5)
  s0 = env.reset(scen)
  if c.k % 3 == 1:  # restart of a scenario that was already played
    scen = s0.replace(timestep=jnp.asarray(T - 1, jnp.int32)) if c.k % 2 else s0
    c.hit('event:restart')
  eager_reset = c.k % 12 == 0
  ts = (brax.reset if eager_reset else jreset)(scen)
  c.tree_eq('reset', gen.to_np(ts.state), gen.to_np(s0), msg='state')
  c.tree_close('reset', gen.to_np(ts.observation), gen.to_np(observe(s0)), msg='observation', **tol)
  c.eq('reset', ts.reward, np.zeros(rshape, np.float32), dtype=True, msg='reward')
  if init < T and variant != 'terminating':
    c.eq('reset', ts.done, np.zeros(B, bool), dtype=True, msg='done')
  c.eq('reset', ts.discount, np.ones(B, np.float32), dtype=True, msg='discount')
  c.tree_close('reset', gen.to_np(ts.metrics), gen.to_np(env.metrics(s0) if eager_reset else ref(s0, zero(kind, rshape))['m']), msg='metrics', **tol)
  c.check('shape', ts.shape == B, 'TimeStep.shape', got=str(ts.shape))
  if variant == 'observing':
    c.hit('event:custom-observation')
  state, start = s0, ts
  steps = T - init
  eager_at = int(r.integers(0, steps)) if c.k % 6 == 0 else -1
  for t in range(steps):
    data, valid = sim.gen_action(r, kind, rshape, scenes[0]['center'])
    act = sim.make_action(data, valid)
    if r.random() < .3:
      # everything but the state of the transition passed in is irrelevant
      ts = ts.replace(reward=ts.reward + 3, done=~ts.done, discount=ts.discount * .97,
                      metrics=jax.tree_util.tree_map(lambda q: ~q if q.dtype == bool else q + 2, ts.metrics))
      c.hit('event:relabelled')
    if t == eager_at:
      before = gen.to_np(ts)
      new = brax.step(ts, act)
      c.tree_eq('input-untouched', gen.to_np(ts), before, msg='transition passed in')
      c.eq('input-untouched', act.data, data, msg='action')
    else:
      new = jstep(ts, act)
      c.hit('event:compiled')
    want = gen.to_np(ref(state, act))
    c.tree_close('next-state', gen.to_np(new.state), want['n'], msg=f'step {t}', **tol)
    c.tree_close('observation', gen.to_np(new.observation), gen.to_np(observe(new.state)), msg=f'step {t}', **tol)
    c.close('reward', new.reward, want['r'], atol=1e-3, msg=f'step {t}')
    c.tree_close('metrics', gen.to_np(new.metrics), want['m'], msg=f'step {t}', atol=1e-3, rtol=1e-4)
    term = np.broadcast_to(np.asarray(env.termination(new.state)), B)
    ended = term | (t + 1 >= steps)
    c.eq('done', new.done, ended, dtype=True, msg=f'step {t}')
    c.eq('discount', new.discount, (~term).astype(np.float32), dtype=True, msg=f'step {t}')
    c.hit('event:terminated', term.sum())
    c.hit('event:truncated', int(t + 1 >= steps))
    c.eq('done', brax.termination(new.state), np.asarray(env.termination(new.state)), msg='termination forwarded')
    c.eq('done', brax.truncation(new.state), np.full(B, t + 1 >= steps), msg='truncation forwarded', dtype=True)
    if c.failed:
      return
    ts, state = new, new.state
  again = jreset(state)
  for f in ('state', 'observation', 'reward', 'discount', 'metrics'):
    c.tree_close('reset', gen.to_np(getattr(again, f)), gen.to_np(getattr(start, f)), msg='second episode ' + f, **tol)
  if variant != 'terminating' and init < T:
    c.eq('reset', again.done, np.zeros(B, bool), dtype=True, msg='second episode done')
  c.check('specs-forwarded', brax.reward_spec() == env.reward_spec() and brax.discount_spec() == env.discount_spec(), 'reward/discount spec')
  a, b = brax.action_spec(), env.action_spec()
  c.check('specs-forwarded', a.data.shape == b.data.shape and a.valid.shape == b.valid.shape and
          np.array_equal(a.data.minimum, b.data.minimum) and np.array_equal(a.data.maximum, b.data.maximum), 'action spec')
  c.nontrivial(steps >= 2)


def zero(kind, shape):
  d = sim.action_dim(kind)
  return sim.make_action(np.zeros(shape + (d,), np.int32 if kind.startswith('disc') else np.float32), np.ones(shape + (1,), bool))


PARTS = [Part('episodes', case, shards=8, quick=12, thorough=300)]
