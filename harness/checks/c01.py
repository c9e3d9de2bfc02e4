"""C01: reset replays the warm-up log bit for bit and hides the future."""
import numpy as np
from harness import gen, sim
from harness.core import Part

PROPERTY = 'C01'
RULE = ('random scenes (A, T, batch shape, validity pattern, motion, fillers) x warm-up length 1..T x '
        'prior history (never reset, random garbage simulated trajectory and timestep, state reached '
        'after stepping); non-trivial: at least one object invalid somewhere and warm-up < T')
REQUIRED = ['event:recorded-size', 'obs:warmup-equals-log', 'obs:future-hidden', 'obs:rest-unchanged', 'obs:input-untouched',
            'obs:reset-idempotent', 'obs:wrong-object-count-refused', 'obs:timestep',
            'event:planning', 'event:multi', 'event:batched', 'event:after-episode']
ASSUMPTIONS = ['scenes are synthetic; WOMD recordings are not available offline']

SHAPES = [(), (1,), (3,), (2, 2)]


def case(c):
  from waymax import env as _env, datatypes as dt
  import jax, jax.numpy as jnp
  r, sr = c.rng, c.shard_rng
  # Shapes fixed per shard block to limit compilation.
  A = int([1, 2, 5, 8][c.shard % 4])
  T = int([6, 17, 11, 30][(c.shard + c.k // 25) % 4])
  B = SHAPES[(c.shard // 2 + c.k // 9) % 4]
  if c.recorded_size(17):
    A, T, B = 128, [120, 91][(c.k // 17) % 2], ()
  planning = bool(r.random() < .5)
  init = int(r.integers(1, T + 1)) if r.random() < .8 else int(r.choice([1, T]))
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=12, L=2, P=2, N=6) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  kind = r.choice(['bicycle', 'delta_local', 'state'])
  hist = r.choice(['fresh', 'garbage', 'episode'])
  c.describe(A=A, T=T, batch=str(B), planning=planning, init_steps=init, history=str(hist), dyn=str(kind))
  c.signature(sc['log']['x'], sc['log']['valid'], init, planning, str(hist))
  c.nontrivial((not sc['log']['valid'].all()) and init < T or A == 1)
  c.hit('event:planning' if planning else 'event:multi')
  if B:
    c.hit('event:batched')
  dyn = sim.make_dynamics(kind)
  ctrl = 'SDC' if planning else str(r.choice(['SDC', 'MODELED', 'VALID']))
  cfg = sim.env_config(A, init, ctrl, bool(r.random() < .5))
  env = (_env.PlanningAgentEnvironment if planning else _env.MultiAgentEnvironment)(dyn, cfg)
  if hist == 'garbage':
    junk = {k: (np.where(r.random(v.shape) < .5, v, v[..., ::-1]) if v.dtype == bool
                else (v + r.integers(-9, 9, v.shape)).astype(v.dtype)) for k, v in sc['log'].items()}
    state = gen.make_state(sc, sim=junk, timestep=int(r.integers(-4, T + 3)))
  elif hist == 'episode' and init < T:
    state = env.reset(gen.make_state(sc))
    sh = B if planning else B + (A,)
    for _ in range(int(r.integers(1, min(4, T - init + 1)))):
      state = env.step(state, sim.make_action(*sim.gen_action(r, kind, sh)))
    c.hit('event:after-episode')
  else:
    state = gen.make_state(sc)
  before = gen.to_np(state)
  out = env.reset(state)
  o = gen.to_np(out)
  c.tree_eq('input-untouched', gen.to_np(state), before)
  c.eq('timestep', np.broadcast_to(o.timestep, B), np.full(B, init - 1))
  log = before.log_trajectory
  tgrid = np.broadcast_to(np.arange(T), B + (A, T))
  warm = tgrid < init
  for f in ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height']:
    got, want = o.sim_trajectory[f], log[f]
    c.eq('warmup-equals-log', got, want, where=warm, msg=f, dtype=True)
    filler = np.zeros_like(want) if want.dtype == bool else np.full_like(want, -1)
    c.eq('future-hidden', got, filler, where=~warm, msg=f)
  for f in ['log_trajectory', 'log_traffic_light', 'object_metadata', 'sdc_paths', 'roadgraph_points']:
    c.tree_eq('rest-unchanged', getattr(o, f), getattr(before, f), msg=f)
  again = gen.to_np(env.reset(out))
  c.tree_eq('reset-idempotent', again, o)
  # rng must not change what a reset produces when there is no stochastic agent
  if c.k % 5 == 0:
    o2 = gen.to_np(env.reset(state, jax.random.PRNGKey(int(r.integers(1000)))))
    c.tree_eq('reset-rng-independent', o2.sim_trajectory, o.sim_trajectory)
  if c.k % 4 == 0:
    bad = sim.env_config(A + int(r.choice([1, 3])) if A == 1 or r.random() < .5 else A - 1, init, ctrl)
    benv = (_env.PlanningAgentEnvironment if planning else _env.MultiAgentEnvironment)(dyn, bad)
    c.raises('wrong-object-count-refused', Exception, lambda: benv.reset(state), 'object count mismatch')
  # the same scene re-wrapped: log-advance helper is the same replay
  if c.k % 3 == 0 and init < T:
    m = int(r.integers(1, T - init + 1))
    adv = gen.to_np(dt.update_state_by_log(out, m))
    w2 = tgrid < init + m
    c.eq('log-advance', np.broadcast_to(adv.timestep, B), np.full(B, init + m - 1))
    for f in ['x', 'yaw', 'valid', 'vel_y', 'timestamp_micros']:
      c.eq('log-advance', adv.sim_trajectory[f], log[f], where=w2, msg=f)
      c.eq('log-advance', adv.sim_trajectory[f], o.sim_trajectory[f], where=~w2, msg=f + ' tail')


PARTS = [Part('reset', case, shards=8, quick=34, thorough=600)]
