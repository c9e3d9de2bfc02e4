"""C04: batched, compiled, repeated execution agree with single runs."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C04'
RULE = ('random scene batches of shape (2,), (3,), (2,2), (1,2) are simulated and every result a user can ask for '
        '(state, metrics, reward, observations, flags) is compared element by element with the single-scenario run: '
        'with one shared timestep, with per-scenario timesteps, compiled against uncompiled, and repeated after '
        'other scenarios were processed; non-trivial: batch with more than one element or repeated call')
REQUIRED = ['obs:batched-equals-single', 'obs:per-scenario-timestep-equals-single', 'obs:compiled-equals-eager',
            'obs:repeat-equals-first', 'obs:shared-equals-new', 'event:planning', 'event:multi', 'event:batch-rank-2', 'event:sim-agents', 'event:finished-element']
ASSUMPTIONS = ['floats to 2e-3 absolute + 1e-4 relative, integers and flags exactly']

SHAPES = [(2,), (3,), (2, 2), (1, 2)]
CONFIGS = [  # dynamics, planning, control, sim agents
    ('bicycle', False, 'VALID', False), ('bicycle', True, 'SDC', True), ('delta_local', False, 'SDC', False),
    ('state', False, 'MODELED', False), ('disc_bicycle', True, 'SDC', False), ('delta_global', True, 'SDC', True),
    ('bicycle_norm', False, 'SDC', False), ('disc_delta', False, 'VALID', False)]
TOL = dict(atol=2e-3, rtol=1e-4)
A, T, R, P, N, INIT = 4, 9, 24, 2, 8, 2


def setup(c, allow):
  import jax
  kind, planning, ctrl, agents = CONFIGS[c.shard % len(CONFIGS)]
  key = ('env', allow)
  if key not in c.cache:
    env = world.make_env(kind, world.config(A, INIT, ctrl, allow), planning, agents)
    f = world.everything(env, obs_steps=2)
    c.cache[key] = (env, f, jax.jit(f), jax.jit(env.step))
  c.hit('event:planning' if planning else 'event:multi')
  if agents:
    c.hit('event:sim-agents')
  c.describe(dyn=kind, planning=planning, control=ctrl, sim_agents=agents, allow_new=allow)
  return c.cache[key] + (kind, planning)


def scenes_for(c, n):
  return [gen.gen_scene(c.rng, A=A, T=T, R=R, P=P, N=N, full_prob=.6, spread=float(c.rng.choice([4., 20.])))
          for _ in range(n)]


def actions(c, kind, planning, B, mode=None):
  return sim.gen_action(c.rng, kind, B + (() if planning else (A,)), mode=mode)


def batched(c):
  env, f, jf, jstep, kind, planning = setup(c, bool((c.shard // 2 + c.k // 48) % 2))
  B = SHAPES[(c.k // 24 + c.shard) % len(SHAPES)]
  n = int(np.prod(B))
  scenes = scenes_for(c, n)
  st = env.reset(gen.make_state(gen.stack_scenes(scenes, B)))
  singles = [env.reset(gen.make_state(s)) for s in scenes]
  steps = int(c.rng.integers(0, T - INIT - 1))
  c.signature(np.stack([s['log']['x'] for s in scenes]))
  c.describe(batch=str(B), steps=steps)
  if len(B) > 1:
    c.hit('event:batch-rank-2')
  at = lambda a, i: a.reshape((n,) + a.shape[len(B):])[i]
  for t in range(steps + 1):
    d, v = actions(c, kind, planning, B)
    act = sim.make_action(d, v)
    sact = [sim.make_action(at(d, i), at(v, i)) for i in range(n)]
    if t < steps:
      st = jstep(st, act)
      singles = [jstep(s, a) for s, a in zip(singles, sact)]
      continue
    out = gen.to_np(jf(st, act))
    for i in range(n):
      want = gen.to_np(jf(singles[i], sact[i]))
      got = dict(out)
      got_i = split(out, i, n, len(B))
      c.tree_close('batched-equals-single', got_i, want, msg=f'element {i}', **TOL)
  c.nontrivial(n > 1)


def split(out, i, n, nb):
  """Takes element i of all leaves; leaves shared by the batch (scalar timestep) are kept."""
  import jax
  def g(path, x):
    k = jax.tree_util.keystr(path)
    if x.ndim < nb and ('timestep' in k or 'remaining' in k or 'done' in k):
      return x
    return x.reshape((n,) + x.shape[nb:])[i]
  return jax.tree_util.tree_map_with_path(g, out)


def own_timestep(c):
  """Scenarios of one batch standing at different steps."""
  import jax
  env, f, jf, jstep, kind, planning = setup(c, bool((c.shard // 2 + c.k // 48) % 2))
  B = [(2,), (4,)][c.shard % 2]
  n = B[0]
  scenes = scenes_for(c, n)
  singles = []
  for s in scenes:
    st = env.reset(gen.make_state(s))
    for _ in range(int(c.rng.integers(0, T - INIT + 1))):
      st = jstep(st, sim.make_action(*actions(c, kind, planning, ())))
    singles.append(st)
  batch = jax.tree_util.tree_map(lambda *x: np.stack([np.asarray(v) for v in x]), *singles)
  batch = jax.tree_util.tree_map(jax.numpy.asarray, batch)
  # a finished scenario cannot be stepped: compare next states of the others only
  d, v = actions(c, kind, planning, B)
  out = gen.to_np(jf(batch, sim.make_action(d, v)))
  c.signature(np.stack([s['log']['x'] for s in scenes]), np.asarray(batch.timestep))
  c.describe(timesteps=np.asarray(batch.timestep))
  for i in range(n):
    want = gen.to_np(jf(singles[i], sim.make_action(d[i], v[i])))
    got = split(out, i, n, 1)
    if bool(want['done']):
      got.pop('next'), want.pop('next')
      c.hit('event:finished-element')
    c.tree_close('per-scenario-timestep-equals-single', got, want, msg=f'element {i}', **TOL)
  c.nontrivial(len(set(np.asarray(batch.timestep).tolist())) > 1)


def compiled(c):
  env, f, jf, jstep, kind, planning = setup(c, bool((c.shard // 2 + c.k // 48) % 2))
  s = scenes_for(c, 1)[0]
  st = env.reset(gen.make_state(s))
  for _ in range(int(c.rng.integers(0, T - INIT - 1))):
    st = jstep(st, sim.make_action(*actions(c, kind, planning, ())))
  act = sim.make_action(*actions(c, kind, planning, ()))
  a, b = gen.to_np(jf(st, act)), gen.to_np(f(st, act))
  c.signature(s['log']['x'])
  c.tree_close('compiled-equals-eager', a, b, **TOL)
  c.nontrivial()


def repeated(c):
  env, f, jf, jstep, kind, planning = setup(c, bool((c.shard // 2 + c.k // 48) % 2))
  sts, acts = [], []
  for s in scenes_for(c, 3):
    st = env.reset(gen.make_state(s))
    for _ in range(int(c.rng.integers(0, T - INIT - 1))):
      st = jstep(st, sim.make_action(*actions(c, kind, planning, ())))
    sts.append(st)
    acts.append(sim.make_action(*actions(c, kind, planning, ())))
    c.signature(s['log']['x'])
  fn = f if c.k % 16 == 3 and c.shard % 4 == 0 else jf
  first = [gen.to_np(fn(s, a)) for s, a in zip(sts, acts)]
  frozen = [gen.to_np(s) for s in sts]
  for i in c.rng.permutation(np.repeat(np.arange(3), 1 if fn is f else 3)):
    c.tree_eq('repeat-equals-first', gen.to_np(fn(sts[i], acts[i])), first[i], msg=f'scene {i}')
  for s, fr in zip(sts, frozen):
    c.tree_eq('repeat-equals-first', gen.to_np(s), fr, msg='state after use')
  env.reset(sts[0])
  c.tree_eq('repeat-equals-first', gen.to_np(fn(sts[0], acts[0])), first[0], msg='after a reset')
  c.nontrivial()


def stateless(c):
  """One environment object serving scenario after scenario answers like a new one for each."""
  kind, planning, ctrl, agents = CONFIGS[c.shard % len(CONFIGS)]
  allow = bool(c.shard % 2)
  make = lambda: world.make_env(kind, world.config(A, INIT, ctrl, allow), planning, agents)
  shared = make()
  for i in range(2):
    s = gen.gen_scene(c.rng, A=A, T=T, R=R, P=P, N=N, full_prob=.8, spread=float([2., 40.][(i + c.k // 8) % 2]))
    st0 = gen.make_state(s)
    got = shared.reset(st0)
    act = sim.make_action(*actions(c, kind, planning, ()))
    one = make()
    want = one.reset(st0)
    for _ in range(2):
      got, want = shared.step(got, act), one.step(want, act)
    c.tree_eq('shared-equals-new', gen.to_np(got), gen.to_np(want), msg=f'scenario {i}')
    c.tree_eq('shared-equals-new', gen.to_np(shared.reward(got, act)), gen.to_np(one.reward(want, act)), msg=f'reward {i}')


def agree(c):
  if c.k % 8 in (3, 6):
    stateless(c)
  # one part, so that the shard's compiled functions are shared by all sub-workloads
  [batched, own_timestep, batched, repeated, batched, own_timestep, compiled, own_timestep][c.k % 8](c)


PARTS = [Part('agree', agree, shards=8, quick=16, thorough=240)]
