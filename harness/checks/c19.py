"""C19: infeasibility flags exactly motions beyond the vehicle limits."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C19'
RULE = ('simulated histories with motions placed on both sides of the acceleration and curvature limits (slow, fast, reversing, '
        'across the heading seam) at every step, shared and per-scenario timesteps, plus whole episodes driven by in-limit '
        'bicycle actions; float64 oracle; non-trivial: feasible and infeasible valid motions both present')
REQUIRED = ['event:recorded-size', 'obs:value', 'obs:valid', 'obs:in-limit-never-flagged', 'event:own-timestep', 'event:accel-infeasible',
            'event:curvature-infeasible', 'event:feasible', 'event:just-over', 'event:just-under', 'event:slow', 'event:heading-wrap',
            'event:custom-limits', 'event:episode-steps']
ASSUMPTIONS = ['motions within 0.5% (plus float32 rounding) of a limit, of the 0.6 m/s cut-off or of a half turn are not judged']
SHAPES = [(6, 9, ()), (4, 7, (3,)), (1, 5, ()), (5, 8, (2, 2)), (9, 12, (2,)), (3, 6, (4,))]


def flags(c):
  import jax
  from waymax.metrics import comfort
  r = c.rng
  scenes, sc, simt, ts, B, A, T = world.metric_state(c, SHAPES, own=c.k % 2, t_min=1, R=0, L=1, full_prob=.4, sdc_full=False)
  custom = c.k % 4 == 3
  dt, ma, ms = .1, 10.4, .3
  if custom:
    dt, ma, ms = [(.2, 5., .1), (.05, 12., .5), (.1, 3., .2)][(c.k // 4) % 3]
    c.hit('event:custom-limits')
  # motions relative to the limits
  sh = simt['x'].shape
  v = np.where(r.random(sh[:-1] + (1,)) < .2, r.uniform(0., .5, sh[:-1] + (1,)), r.uniform(.7, 25., sh[:-1] + (1,)))
  v = np.broadcast_to(v, sh).copy()
  yaw = np.broadcast_to(r.uniform(-np.pi, np.pi, sh[:-1] + (1,)), sh).copy()
  fac = lambda: r.choice([0., .5, .9, .99, 1.01, 1.1, 2., 10.], size=sh[:-1], p=[.2, .2, .1, .1, .1, .1, .1, .1]) * r.choice([-1, 1], size=sh[:-1])
  for s in range(1, T):
    fa, fc = fac(), fac()
    v[..., s] = np.abs(v[..., s - 1] + fa * ma * dt)
    yaw[..., s] = yaw[..., s - 1] + np.clip(fc * ms * (v[..., s] + v[..., s - 1]) / 2 * dt, -3., 3.)
  head = gen.wrap(yaw + np.where(r.random(sh) < .1, r.normal(size=sh), 0.))
  simt['vel_x'], simt['vel_y'] = (v * np.cos(yaw)).astype(np.float32), (v * np.sin(yaw)).astype(np.float32)
  simt['yaw'] = head.astype(np.float32)
  fut = np.arange(T) > np.asarray(ts)[..., None, None]
  for k in ('vel_x', 'vel_y', 'yaw'):
    simt[k] = np.where(fut, np.float32(-1), simt[k])
  m = comfort.KinematicsInfeasibilityMetric(dt=dt, max_acc=ma, max_steering=ms) if custom else comfort.KinematicsInfeasibilityMetric()
  key = (dt, ma, ms)
  if key not in c.cache:
    c.cache[key] = jax.jit(m.compute)
  res = (m.compute if c.k % 10 == 0 else c.cache[key])(gen.make_state(sc, simt, ts))
  a = lambda k, o=0: world.at_step(simt[k], np.asarray(ts) + o, B)
  f = lambda k, o=0: a(k, o).astype(np.float64)
  val = a('valid') & a('valid', -1)
  v0, v1 = np.hypot(f('vel_x', -1), f('vel_y', -1)), np.hypot(f('vel_x'), f('vel_y'))
  acc = (v1 - v0) / dt
  slow = (v0 < .6) | (v1 < .6)
  d0 = np.arctan2(f('vel_y'), f('vel_x')) - f('yaw', -1)
  dy = gen.wrap(d0)
  with np.errstate(all='ignore'):
    cur = np.where(slow, 0., dy / (v0 * dt + .5 * acc * dt * dt))
  over_a, over_c = np.abs(acc) > ma + 1e-3, np.abs(cur) > ms + 1e-3
  want = (over_a | over_c).astype(np.float32)
  amb = (np.abs(np.abs(acc) - ma - 1e-3) < 5e-3 * ma + 4e-6 * (v0 + v1) / dt)
  ambc = (np.abs(np.abs(cur) - ms - 1e-3) < 5e-3 * ms) | (np.abs(v0 - .6) < 1e-3) | (np.abs(v1 - .6) < 1e-3) | (np.abs(np.abs(dy) - np.pi) < 1e-3) & ~slow
  judge = val & ((over_a & ~amb) | ~(amb | ambc))
  c.signature(simt['vel_x'], simt['yaw'], np.asarray(ts), custom)
  c.describe(A=A, T=T, batch=str(B), t=str(ts), limits=(dt, ma, ms))
  for k, q in [('accel-infeasible', over_a), ('curvature-infeasible', over_c & ~over_a), ('feasible', want == 0), ('slow', slow),
               ('just-over', (want == 1) & (np.abs(acc) < 1.05 * ma) & (np.abs(cur) < 1.05 * ms)),
               ('just-under', (want == 0) & ((np.abs(acc) > .95 * ma) | (np.abs(cur) > .95 * ms))),
               ('heading-wrap', (np.abs(d0) > np.pi) & ~slow)]:
    c.hit('event:' + k, (q & judge).sum())
  c.eq('valid', res.valid, val)
  c.eq('value', res.value, want, where=judge, msg=f't={ts}')
  c.nontrivial(bool((judge & (want > 0)).any() and (judge & (want == 0)).any()))


def episode(c):
  import jax
  from waymax import env as _env
  from waymax.metrics import comfort
  r = c.rng
  A, T, B = SHAPES[c.shard % len(SHAPES)]
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1, full_prob=.7) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  if 'env' not in c.cache:
    env = _env.MultiAgentEnvironment(sim.make_dynamics(['bicycle', 'bicycle_norm'][c.shard % 2]), sim.env_config(A, 2, 'VALID', True))
    c.cache['env'] = (env, jax.jit(env.step), jax.jit(comfort.KinematicsInfeasibilityMetric().compute))
  env, step, met = c.cache['env']
  st = env.reset(gen.make_state(sc))
  kind = ['bicycle', 'bicycle_norm'][c.shard % 2]
  c.signature(sc['log']['x'])
  c.describe(A=A, T=T, batch=str(B), dyn=kind, episode=True)
  mask = sc['meta']['is_valid']
  for t in range(1, T - 1):
    d, v = sim.gen_action(r, kind, B + (A,), mode='in' if r.random() < .6 else 'out')
    st = step(st, sim.make_action(d, v))
    res = met(st)
    c.hit('event:episode-steps')
    sv = np.asarray(st.sim_trajectory.valid)
    # an object that was re-injected from the log did not make its last motion by an action
    m = mask & sv[..., t] & sv[..., t + 1]
    c.eq('in-limit-never-flagged', res.value, np.zeros(B + (A,), np.float32), where=m, msg=f'step {t + 1}')
    c.eq('valid', res.valid, sv[..., t] & sv[..., t + 1], msg=f'step {t + 1}')
  c.nontrivial()


def feasible(c):
  episode(c) if c.k % 6 == 5 else flags(c)


PARTS = [Part('feasible', feasible, shards=6, quick=60, thorough=2000)]
