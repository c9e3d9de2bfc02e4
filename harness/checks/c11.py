"""C11: the dm_env adapter follows the dm_env episode protocol."""
import os
import shutil
import tempfile
import numpy as np
from harness import gen, sim, womd, world
from harness.core import Part
from harness.checks import c12

PROPERTY = 'C11'
RULE = ('random call histories (reset, step, step too early, step after the end, reset mid-episode, property reads) on the '
        'dm_env adapter over a recorded stream of scenarios, judged call by call by a protocol automaton plus an '
        'independently stepped environment; some adapters are built from a record file by make_sdc_dm_environment; '
        'non-trivial: at least two episodes were started')
REQUIRED = ['obs:first', 'obs:mid', 'obs:last', 'obs:reward', 'obs:observation', 'obs:discount', 'obs:state', 'obs:scenario-order',
            'obs:step-before-reset-refused', 'obs:step-after-last-refused', 'obs:refusal-has-no-effect', 'obs:state-before-reset-refused',
            'obs:observation-spec', 'obs:reward-spec', 'obs:action-spec', 'obs:discount-spec', 'obs:mixed-batch-refused',
            'obs:finished-scenario-refused', 'obs:non-sdc-refused', 'obs:config',
            'event:planning', 'event:multi', 'event:batched', 'event:terminated', 'event:truncated', 'event:reset-mid-episode',
            'event:scalar-action', 'event:custom-observation', 'event:tree-observation', 'event:from-file', 'event:sim-agents',
            'event:action-reward']
ASSUMPTIONS = ['one scenario is taken from the data source when the adapter is built (the sample for the observation spec)',
               'floats to 1e-3 (adapter and reference are compiled separately)']

CONFIGS = [  # dynamics, planning, control, agents, variant, batch
    ('disc_bicycle', True, 'SDC', False, 'plain', ()), ('bicycle', True, 'SDC', False, 'terminating', (2,)),
    ('state', False, 'VALID', False, 'tree', ()), ('delta_local', True, 'SDC', True, 'plain', (2, 1)),
    ('disc_delta', False, 'MODELED', False, 'plain', (3,)), ('bicycle_norm', True, 'SDC', False, 'observing', ()),
    ('delta_global', True, 'SDC', False, 'action-reward', (2,)), ('bicycle', False, 'SDC', False, 'terminating', ())]


def subclass(base, variant):
  import jax.numpy as jnp
  if variant == 'tree':
    class Env(base):
      def observe(self, state):
        t = state.current_sim_trajectory
        return dict(pose=(t.x, t.yaw), ok=t.valid, clock=state.remaining_timesteps + 0 * state.object_metadata.ids[..., 0])
    return Env
  if variant == 'action-reward':
    class Env(base):
      def reward(self, state, action):
        t = state.current_sim_trajectory
        return jnp.where(action.valid[..., 0], -jnp.square(action.data).sum(-1) + .01 * t.x[..., 0, 0], -1e3)
    return Env
  return c12.subclass(base, variant)


def build(kind, planning, ctrl, agents, variant, A, init):
  from waymax import env as _env, config as wc
  from waymax.agents import agent_builder
  cfg = world.config(A, init, ctrl, True, metrics=('log_divergence', 'overlap'), rewards={'overlap': -1., 'log_divergence': -.5})
  dyn = sim.make_dynamics(kind)
  base = subclass(_env.PlanningAgentEnvironment if planning else _env.MultiAgentEnvironment, variant)
  kw = {}
  if agents:
    kw = dict(sim_agent_actors=[agent_builder.create_sim_agents_from_config(
        wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType.NON_SDC))], sim_agent_params=[{}])
  return base(dyn, cfg, **kw), cfg


class Stream:
  """The data source, counting what has been taken."""

  def __init__(self, scenarios):
    self.items, self.taken = list(scenarios), 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.taken >= len(self.items):
      raise StopIteration
    self.taken += 1
    return self.items[self.taken - 1]


def specs(c, adapter, env, cfg, kind, planning, squeeze, scen, B):
  import jax
  s = adapter.action_spec()
  raw = env.action_spec().data
  squeezed = kind.startswith('disc') and planning and squeeze
  if squeezed:
    c.check('action-spec', s.shape == () and s.dtype == raw.dtype and s.minimum == raw.minimum[0] and s.maximum == raw.maximum[0],
            'scalar action spec', got=str(s))
  else:
    c.check('action-spec', s.shape == raw.shape and s.dtype == raw.dtype and np.array_equal(s.minimum, raw.minimum) and
            np.array_equal(s.maximum, raw.maximum), 'action spec', got=str(s))
  c.check('reward-spec', adapter.reward_spec() == env.reward_spec(), 'reward spec')
  d = adapter.discount_spec()
  c.check('discount-spec', d.minimum == 0 and d.maximum == 1 and d.dtype == np.float32 and d.shape == (), 'discount spec', got=str(d))
  obs = env.observe(env.reset(scen))
  want = jax.tree_util.tree_map(lambda x: np.asarray(x), obs)
  got = adapter.observation_spec()
  gl, gt = jax.tree_util.tree_flatten(got, is_leaf=lambda x: hasattr(x, 'generate_value'))
  wl, wt = jax.tree_util.tree_flatten(want)
  if c.check('observation-spec', len(gl) == len(wl), 'number of observation leaves'):
    for g, w in zip(gl, wl):
      shapes = [B + g.shape] + ([g.shape] if w.ndim == 0 else [])  # a shared scalar clock has no batch dimension
      c.check('observation-spec', w.shape in shapes and w.dtype == g.dtype, 'observation leaf does not conform',
              got=f'{w.dtype}{w.shape}', want=str(g))
  c.check('config', adapter.config is env.config and adapter.stateless_env is env, 'config/env forwarded')


def monitor(c, adapter, env, ref, scens, stream, kind, planning, A, B, center, n_ops, T, init, squeeze, pos0):
  """Drives one history and judges every call."""
  import dm_env
  import jax
  import jax.numpy as jnp
  from waymax.env import errors
  r = c.rng
  step_ref, observe = ref
  dim = sim.action_dim(kind)
  lead = B + (() if planning else (A,))
  mode, state, used, eps, history = 'new', None, pos0, 0, []

  def action():
    data, _ = sim.gen_action(r, kind, lead, center)
    sent = data
    if kind.startswith('disc'):
      sent = data[..., 0] if (squeeze or r.random() < .5) else data
    return data, (sent if r.random() < .7 else jnp.asarray(sent))

  for i in range(n_ops):
    p = r.random()
    if mode == 'new':
      op = 'step' if p < .3 else 'peek' if p < .45 else 'reset'
    elif mode == 'broken':
      op = 'reset'
    elif mode == 'run':
      op = 'reset' if p < .06 else 'peek' if p < .12 else 'step'
    else:
      op = 'step' if p < .35 else 'peek' if p < .45 else 'reset'
    history.append(op)
    if op == 'peek':
      if mode == 'new':
        c.raises('state-before-reset-refused', errors.SimulationNotInitializedError, lambda: adapter.simulation_state, 'simulation_state')
      else:
        c.tree_close('state', gen.to_np(adapter.simulation_state), gen.to_np(state), atol=1e-3, msg='between calls')
      continue
    if op == 'reset':
      if used >= len(scens):
        c.raises('scenario-order', StopIteration, adapter.reset, 'exhausted data source')
        return
      if mode == 'run':
        c.hit('event:reset-mid-episode')
      scen = scens[used]
      used += 1
      if scen.log_trajectory.num_timesteps <= init:  # nothing left to simulate
        c.raises('finished-scenario-refused', errors.SimulationNotInitializedError, adapter.reset, 'scenario without remaining steps')
        c.raises('step-before-reset-refused', errors.SimulationNotInitializedError, lambda: adapter.step(action()[1]), 'step after a refused reset')
        mode = 'new'
        continue
      ts = adapter.reset()
      state = env.reset(scen)
      mode = 'run'
      eps += 1
      c.nontrivial(eps >= 2)
      if stream is not None:
        c.check('scenario-order', stream.taken == used, 'scenarios taken from the source', got=stream.taken, want=used)
      c.check('first', ts.step_type == dm_env.StepType.FIRST and ts.reward is None and ts.discount is None, 'reset step', got=str(ts.step_type))
      c.tree_eq('scenario-order', gen.to_np(adapter.simulation_state), gen.to_np(state), msg=f'reset {eps}')
      c.tree_close('observation', gen.to_np(ts.observation), gen.to_np(observe(state)), atol=2e-3, msg='reset')
      continue
    data, sent = action()
    if mode == 'new':
      c.raises('step-before-reset-refused', errors.SimulationNotInitializedError, lambda: adapter.step(sent), 'step before reset')
      if stream is not None:
        c.check('refusal-has-no-effect', stream.taken == used, 'a refused step consumed a scenario')
      continue
    if mode == 'done':
      before = gen.to_np(adapter.simulation_state)
      c.raises('step-after-last-refused', errors.EpisodeAlreadyFinishedError, lambda: adapter.step(sent), 'step after LAST')
      c.tree_eq('refusal-has-no-effect', gen.to_np(adapter.simulation_state), before, msg='refused step')
      continue
    act = sim.make_action(data, np.ones(lead + (1,), bool))
    want_r, new = step_ref(state, act)
    term = np.broadcast_to(np.asarray(env.termination(new)), B)
    t = int(np.asarray(new.timestep).max())
    ended = term | (t >= T - 1)
    if ended.any() and not ended.all():
      c.raises('mixed-batch-refused', NotImplementedError, lambda: adapter.step(sent), 'batch with mixed step types')
      mode = 'broken'  # only a reset is meaningful now
      continue
    ts = adapter.step(sent)
    c.tree_close('state', gen.to_np(adapter.simulation_state), gen.to_np(new), atol=1e-3, msg=f'timestep {t}')
    c.tree_close('observation', gen.to_np(ts.observation), gen.to_np(observe(new)), atol=2e-3, msg=f'timestep {t}')
    c.close('reward', ts.reward, want_r, atol=1e-3, msg=f'timestep {t}')
    spec = env.reward_spec()
    if type(env).reward.__qualname__.startswith(('Planning', 'Multi', 'Base')):
      c.check('reward-spec', np.asarray(ts.reward).shape == B + spec.shape and np.asarray(ts.reward).dtype == spec.dtype, 'reward does not conform',
              got=f'{np.asarray(ts.reward).dtype}{np.asarray(ts.reward).shape}', want=str(spec))
    disc = np.asarray(ts.discount, np.float32)
    if ended.all():
      c.check('last', ts.step_type == dm_env.StepType.LAST, 'episode has ended', got=str(ts.step_type), timestep=t)
      c.eq('discount', np.broadcast_to(disc, B), (~term).astype(np.float32), msg='LAST')
      c.hit('event:terminated', int(term.any()))
      c.hit('event:truncated', int((~term).any()))
      mode = 'done'
    else:
      c.check('mid', ts.step_type == dm_env.StepType.MID, 'episode has not ended', got=str(ts.step_type), timestep=t)
      c.eq('discount', np.broadcast_to(disc, B), np.ones(B, np.float32), msg='MID')
    c.check('discount-spec', (disc >= 0).all() and (disc <= 1).all(), 'discount range')
    state = new
    if c.failed:
      c.describe(history=' '.join(history))
      return
  c.describe(episodes=eps, history=' '.join(history)[:300])


def case(c):
  if c.k % 5 == 2 and c.shard % 2 == 0:
    from_file(c)
  else:
    histories(c)


def histories(c):
  import jax
  from waymax.env.wrappers import dm_env_wrapper as dw
  r = c.rng
  kind, planning, ctrl, agents, variant, B = CONFIGS[c.shard % 8]
  A, T, init = [(4, 6, 2), (3, 5, 1), (5, 8, 4), (4, 7, 5)][c.shard % 4]
  if 'env' not in c.cache:
    env, cfg = build(kind, planning, ctrl, agents, variant, A, init)
    c.cache['env'] = (env, cfg, jax.jit(lambda s, a: (env.reward(s, a), env.step(s, a))), jax.jit(env.observe))
  env, cfg, step_ref, observe = c.cache['env']
  n = int(np.prod(B))

  def scenario(T):
    scenes = [gen.gen_scene(r, A=A, T=T, R=6, L=1, full_prob=.6) for _ in range(n)]
    if n > 1 and variant == 'terminating' and r.random() < .7:
      for s in scenes:
        s['meta']['ids'] = scenes[0]['meta']['ids']
    sc = gen.stack_scenes(scenes, B) if B else scenes[0]
    c.signature(sc['log']['x'])
    return gen.make_state(sc)
  scens = [scenario(T if i == 0 or r.random() < .85 else init) for i in range(int(r.integers(4, 16)))]
  stream = Stream(scens)
  squeeze = bool(c.k % 5 != 3)
  adapter = dw.DMEnvWrapper(stream, env, squeeze_scalar_actions=squeeze)
  c.describe(dyn=kind, planning=planning, control=ctrl, agents=agents, variant=variant, A=A, T=T, init=init, batch=str(B), squeeze=squeeze)
  for cond, ev in ((planning, 'planning'), (not planning, 'multi'), (B, 'batched'), (agents, 'sim-agents'), (variant == 'observing', 'custom-observation'),
                   (variant == 'tree', 'tree-observation'), (variant == 'action-reward', 'action-reward'), (kind.startswith('disc') and planning and squeeze, 'scalar-action')):
    if cond:
      c.hit('event:' + ev)
  c.check('scenario-order', stream.taken == 1, 'scenarios taken when built', got=stream.taken)
  if c.k % 2 == 0 or c.k % 5 == 1:
    specs(c, adapter, env, cfg, kind, planning, squeeze, scens[0], B)
    c.check('scenario-order', stream.taken == 1, 'reading specs takes no scenario', got=stream.taken)
  monitor(c, adapter, env, (step_ref, observe), scens, stream, kind, planning, A, B, (0., 0.), int(r.integers(40, 110)), T, init,
          squeeze and planning, 1)


def from_file(c):
  """make_sdc_dm_environment on a record file."""
  import jax
  from waymax import config as wc
  from waymax.dataloader import womd_dataloader as wd, womd_factories as wf
  from waymax.env.wrappers import dm_env_wrapper as dw
  r = c.rng
  A, R, init = 6, 9, int(r.integers(86, 90))
  batched = bool(c.shard // 2 % 2)
  B = (2,) if batched else ()
  kind = ['delta_local', 'disc_bicycle'][(c.shard // 4) % 2]
  agents = bool(r.random() < .6)
  n = 2 * (4 if batched else 3)
  payloads = [womd.serialize(womd.features(womd.gen_record(r, R=R, tag=i, live=6))) for i in range(n)]
  tmp = tempfile.mkdtemp(prefix='c11_')
  try:
    path = os.path.join(tmp, 'd', 'rec.tfrecord')
    womd.write(path, payloads)
    data = wc.DatasetConfig(path=path, max_num_rg_points=R, max_num_objects=A, batch_dims=B, repeat=1, data_format=wc.DataFormat.TFRECORD)
    sa = [wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType.NON_SDC)] if agents else None
    cfg = world.config(A, init, 'SDC', True, metrics=('log_divergence',), rewards={'log_divergence': -.5}, sim_agents=sa)
    c.describe(source='file', dyn=kind, batch=str(B), agents=agents, init=init)
    c.signature(str(payloads[0][:200]), init)
    c.hit('event:from-file')
    for ty in ('MODELED', 'VALID', 'NON_SDC'):
      bad = world.config(A, init, ty, True, metrics=(), rewards={})
      c.raises('non-sdc-refused', ValueError, lambda: dw.make_sdc_dm_environment(sim.make_dynamics(kind), data, bad), ty)
    adapter = dw.make_sdc_dm_environment(sim.make_dynamics(kind), data, cfg)
    env = world.make_env(kind, cfg, True, agents)
    parsed = [wf.simulator_state_from_womd_dict(wd.preprocess_serialized_womd_data(p, data)) for p in payloads]
    if batched:
      import jax.numpy as jnp
      parsed = [jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]) if np.ndim(a) else a, parsed[i], parsed[i + 1])
                for i in range(0, n, 2)]
      parsed = [p.replace(timestep=jnp.asarray(-1, jnp.int32)) for p in parsed]
    step_ref = jax.jit(lambda s, a: (env.reward(s, a), env.step(s, a)))
    monitor(c, adapter, env, (step_ref, lambda s: s), parsed, None, kind, True, A, B, (0., 0.), 24, 91, init, True, 1)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


PARTS = [Part('histories', case, shards=8, quick=5, thorough=60)]
