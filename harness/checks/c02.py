"""C02: a step appends one simulated step and changes nothing else."""
import numpy as np
from harness import gen, sim
from harness.core import Part

PROPERTY = 'C02'
RULE = ('whole episodes (warm-up to end of log) of random scenes x environment kind x dynamics x control mode x '
        'action streams (in range, saturating, NaN/inf, flagged invalid); every step is frame-checked; '
        'non-trivial: at least 2 steps taken')
REQUIRED = ['obs:timestep-plus-one', 'obs:past-unchanged', 'obs:future-unchanged', 'obs:rest-unchanged',
            'obs:inputs-untouched', 'event:steps', 'event:planning', 'event:multi', 'event:nonfinite-action',
            'event:eager', 'event:sim-agents', 'event:recorded-size']
ASSUMPTIONS = ['synthetic scenes', 'most steps run compiled; one per episode runs uncompiled']

FIELDS = ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height']
SHAPES = [(), (2,), (2, 2), (1,)]


def case(c, big=False):
  import jax
  from waymax import env as _env, config as wc
  from waymax.agents import agent_builder
  r = c.rng
  kind = sim.DYN_KINDS[(c.shard + c.k // 8) % len(sim.DYN_KINDS)]
  A = [3, 6, 1, 5][(c.shard + c.k // 8) % 4]
  T = [9, 14, 7, 24][(c.shard // 2 + c.k // 8) % 4]
  B = SHAPES[(c.shard + c.k // 16) % 4]
  planning = ((c.shard + c.k // 8) % 2) == 1
  ctrl = 'SDC' if planning else ['SDC', 'VALID', 'MODELED'][(c.k // 8 + c.shard) % 3]
  allow = bool((c.k // 4) % 2)
  init = 1 + (c.shard * 3 + c.k // 8) % (T - 2)
  agents = planning and (c.shard % 4 == 1)
  if big:
    # The size of recorded scenarios: 91 steps, the usual 11-step warm-up, many objects.
    A, T, B, init, agents = [32, 128][c.shard], [100, 91][c.shard], (), 11, False
    planning = c.k % 2 == 1
    ctrl = 'SDC' if planning else 'VALID'
    c.hit('event:recorded-size')
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=12, L=2, P=2, N=6) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  key = (kind, A, T, B, planning, ctrl, allow, init, agents)
  c.describe(dyn=kind, A=A, T=T, batch=str(B), planning=planning, control=ctrl, allow_new=allow,
             init_steps=init, sim_agents=agents)
  c.signature(sc['log']['x'], sc['log']['valid'], str(key))
  if key not in c.cache:
    dyn = sim.make_dynamics(kind)
    cfg = sim.env_config(A, init, ctrl, allow)
    if planning:
      kw = {}
      if agents:
        confs = (wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType.NON_SDC),)
        acts = [agent_builder.create_sim_agents_from_config(cf) for cf in confs]
        kw = dict(sim_agent_actors=acts, sim_agent_params=[{}] * len(acts))
      env = _env.PlanningAgentEnvironment(dyn, cfg, **kw)
    else:
      env = _env.MultiAgentEnvironment(dyn, cfg)
    c.cache[key] = (env, jax.jit(env.step))
  env, step = c.cache[key]
  state = env.reset(gen.make_state(sc))
  prev = gen.to_np(state)
  sh = B if planning else B + (A,)
  eager_at = init + int(r.integers(0, T - init))
  stream = r.choice(['normal', 'nonfinite', 'invalid', 'normal'])
  tgrid = np.arange(T)
  for t in range(init - 1, T - 1):
    data, valid = sim.gen_action(r, kind, sh, sc and scenes[0]['center'])
    if stream == 'nonfinite' and data.dtype.kind == 'f':
      m = r.random(data.shape) < .3
      data = np.where(m, r.choice([np.nan, np.inf, -np.inf], size=data.shape), data).astype(np.float32)
      c.hit('event:nonfinite-action')
    if stream == 'invalid':
      valid = np.zeros_like(valid)
    act = sim.make_action(data, valid)
    if t + 1 == eager_at:
      new = env.step(state, act)
      c.tree_eq('inputs-untouched', gen.to_np(state), prev, msg='state')
      c.eq('inputs-untouched', act.data, data, msg='action data')
      c.eq('inputs-untouched', act.valid, valid, msg='action valid')
      c.hit('event:eager')
    else:
      new = step(state, act)
    o = gen.to_np(new)
    c.hit('event:steps')
    c.eq('timestep-plus-one', o.timestep, np.asarray(prev.timestep) + 1, dtype=True)
    for f in FIELDS:
      got, want = o.sim_trajectory[f], prev.sim_trajectory[f]
      c.eq('past-unchanged', got[..., :t + 1], want[..., :t + 1], msg=f'{f} step {t}', dtype=True)
      c.eq('future-unchanged', got[..., t + 2:], want[..., t + 2:], msg=f'{f} step {t}', dtype=True)
    for f in ['log_trajectory', 'log_traffic_light', 'object_metadata', 'sdc_paths', 'roadgraph_points']:
      c.tree_eq('rest-unchanged', getattr(o, f), getattr(prev, f), msg=f'{f} step {t}')
    if c.failed:
      return
    state, prev = new, o
  c.nontrivial(T - init >= 2)
  c.hit('event:planning' if planning else 'event:multi')
  if agents:
    c.hit('event:sim-agents')


def recorded_size(c):
  case(c, big=True)


PARTS = [Part('episodes', case, shards=8, quick=13, thorough=240),
         Part('recorded-size', recorded_size, shards=2, quick=2, thorough=12)]
