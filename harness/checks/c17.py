"""C17: log divergence is the current distance to the log."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C17'
RULE = ('mid-episode states of random scenes (late, vanishing, flickering objects; shared and per-scenario timesteps) and '
        'whole replay episodes; every object is compared with the float64 planar distance to its log; non-trivial: objects '
        'that are off their log and objects invalid in exactly one trajectory')
REQUIRED = ['event:recorded-size', 'obs:value', 'obs:valid', 'obs:zero-on-replay', 'event:own-timestep', 'event:sim-only', 'event:log-only',
            'event:elevation-differs', 'event:replay-steps']
ASSUMPTIONS = ['values of invalid entries are not constrained']
SHAPES = [(6, 9, ()), (4, 7, (3,)), (1, 5, ()), (5, 8, (2, 2)), (9, 12, (2,)), (3, 6, (4,))]


def states(c):
  import jax
  from waymax import metrics
  r = c.rng
  scenes, sc, simt, ts, B, A, T = world.metric_state(c, SHAPES, own=c.k % 2, R=0, L=1, full_prob=.3, sdc_full=False)
  flip = r.random(simt['valid'].shape) < .1
  simt['valid'] = simt['valid'] ^ flip
  simt['z'] = (simt['z'] + r.normal(size=simt['z'].shape) * 3).astype(np.float32)
  c.hit('event:elevation-differs')
  m = metrics.LogDivergenceMetric()
  if 'f' not in c.cache:
    c.cache['f'] = jax.jit(m.compute)
  res = (m.compute if c.k % 8 == 0 else c.cache['f'])(gen.make_state(sc, simt, ts))
  lg = sc['log']
  a = lambda q: world.at_step(q, ts, B)
  sv, lv = a(simt['valid']), a(lg['valid'])
  c.signature(a(simt['x']), sv, lv)
  c.describe(A=A, T=T, batch=str(B), t=str(ts))
  c.hit('event:sim-only', (sv & ~lv).sum())
  c.hit('event:log-only', (lv & ~sv).sum())
  c.eq('valid', res.valid, sv & lv)
  want = np.hypot(a(simt['x']).astype(np.float64) - a(lg['x']), a(simt['y']).astype(np.float64) - a(lg['y']))
  c.close('value', res.value, want, atol=2e-5, rtol=2e-6, where=sv & lv)
  c.nontrivial(bool(((want > .1) & sv & lv).any() and (sv ^ lv).any()) or A == 1)


def replay(c):
  import jax
  from waymax import env as _env, metrics
  r = c.rng
  A, T, B = SHAPES[c.shard % len(SHAPES)]
  n = int(np.prod(B))
  init = 1 + c.shard % 3
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1, full_prob=.5, sdc_full=False) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  if 'env' not in c.cache:
    env = _env.MultiAgentEnvironment(sim.make_dynamics('state'), sim.env_config(A, init, 'MODELED', True))
    c.cache['env'] = (env, jax.jit(env.step), jax.jit(metrics.LogDivergenceMetric().compute))
  env, step, met = c.cache['env']
  s = env.reset(gen.make_state(sc))
  lg = sc['log']
  c.signature(lg['x'], lg['valid'])
  c.describe(A=A, T=T, batch=str(B), replay=True)
  for t in range(init - 1, T):
    res = met(s)
    v = np.asarray(res.valid)
    c.hit('event:replay-steps')
    c.close('zero-on-replay', np.where(v, res.value, 0.), np.zeros(v.shape), atol=0, msg=f'step {t}')
    c.eq('valid', v, np.asarray(s.sim_trajectory.valid)[..., t] & lg['valid'][..., t], msg=f'replay step {t}')
    if t < T - 1:
      nxt = np.stack([lg[f][..., t + 1] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1)
      s = step(s, sim.make_action(nxt, np.ones(B + (A, 1), bool)))
  c.nontrivial(bool((~lg['valid']).any()))


def divergence(c):
  replay(c) if c.k % 6 == 5 else states(c)


PARTS = [Part('divergence', divergence, shards=6, quick=96, thorough=3000)]
