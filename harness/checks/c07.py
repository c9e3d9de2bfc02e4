"""C07: bicycle dynamics obey limits and the kinematic update."""
import numpy as np
from harness import gen, sim
from harness.checks import c06
from harness.core import Part

PROPERTY = 'C07'
RULE = ('random object states x actions (in range, out of range, infinite) x limits x time step x normalisation; update, '
        'inverse and update-inverse-update round trips are compared with a float64 oracle; non-trivial: both saturated '
        'and unsaturated actions or both valid and invalid steps present')
REQUIRED = ['obs:update-pose', 'obs:update-velocity', 'obs:update-valid', 'obs:accel-limit', 'obs:curvature-limit',
            'obs:inverse-in-range', 'obs:inverse-valid', 'obs:inverse-zero-when-invalid', 'obs:inverse-value',
            'obs:round-trip-motion', 'obs:round-trip-action', 'event:saturated', 'event:infinite', 'event:normalized',
            'event:slow', 'event:extreme-leftovers', 'event:round-trips', 'event:heading-wrap']
ASSUMPTIONS = ['speeds within 1e-3 m/s of the 0.6 m/s inverse cut-off are not judged',
               'tolerances grow with coordinate size and speed (float32)']

PREFIX = [(), (3,), (2, 2)]


def bicycle(x, accel, steer, dt):
  """Float64 kinematic update of states x with physical controls."""
  v = np.hypot(x['vel_x'], x['vel_y'])
  arc = v * dt + .5 * accel * dt * dt
  yaw = x['yaw'] + steer * arc
  nv = v + accel * dt
  return dict(x=x['x'] + x['vel_x'] * dt + .5 * accel * np.cos(x['yaw']) * dt * dt,
              y=x['y'] + x['vel_y'] * dt + .5 * accel * np.sin(x['yaw']) * dt * dt,
              yaw=yaw, vel_x=nv * np.cos(yaw), vel_y=nv * np.sin(yaw)), arc, nv


def model_for(c):
  from waymax import dynamics as dyn
  r = c.rng
  norm = bool(c.k % 2)
  dt, ma, ms = .1, 6., .3
  if c.k % 3:
    dt = float(r.choice([.1, .05, .2]))
    ma, ms = float(np.float32(r.uniform(1., 12.))), float(np.float32(r.uniform(.05, .8)))
    m = dyn.InvertibleBicycleModel(dt=dt, max_accel=ma, max_steering=ms, normalize_actions=norm)
  else:
    m = dyn.InvertibleBicycleModel(normalize_actions=norm)
  c.hit('event:normalized', norm)
  return m, norm, dt, ma, ms


def states(r, B, A, T, scale):
  d, tr = c06.make_traj(r, B, A, T, scale, .5)
  # speeds: rest, below the inverse cut-off, driving, fast; direction mostly along heading
  sh = B + (A, T)
  v = r.choice([0., .3, 1.5, 9., 30.], size=sh) * r.uniform(.5, 1.5, sh)
  off = np.where(r.random(sh) < .6, 0., r.uniform(-np.pi, np.pi, sh))
  d['vel_x'] = (v * np.cos(d['yaw'] + off)).astype(np.float32)
  d['vel_y'] = (v * np.sin(d['yaw'] + off)).astype(np.float32)
  import jax.numpy as jnp
  return d, tr.replace(vel_x=jnp.asarray(d['vel_x']), vel_y=jnp.asarray(d['vel_y']))


def forward(c):
  from waymax import datatypes as dt_
  r = c.rng
  B, A = PREFIX[c.shard % 3], [6, 1, 9][(c.shard // 2) % 3]
  m, norm, dt, ma, ms = model_for(c)
  scale = float(r.choice([5., 100., 5000.]))
  d, tr = states(r, B, A, 1, scale)
  top = np.array([1., 1.]) if norm else np.array([ma, ms])
  data = r.uniform(-1, 1, B + (A, 2)) * top * r.choice([.3, 1., 3., 1e4], size=B + (A, 2))
  inf = r.random(B + (A, 2)) < .05
  data = np.where(inf, np.sign(data) * np.inf, data).astype(np.float32)
  valid = r.random(B + (A, 1)) < .7
  up = gen.to_np(dict(m.compute_update(sim.make_action(data, valid), tr)))
  sat = np.abs(data) > top
  c.hit('event:saturated', sat.sum())
  c.hit('event:infinite', inf.sum())
  c.describe(batch=str(B), A=A, normalized=norm, dt=dt, max_accel=ma, max_steering=ms)
  c.signature(d['x'], data, norm, ma, ms, dt)
  ctl = np.clip(data.astype(np.float64), -top, top) * (np.array([ma, ms]) if norm else 1.)
  x64 = {k: v[..., 0].astype(np.float64) for k, v in d.items() if v.dtype.kind == 'f'}
  want, arc, nv = bicycle(x64, ctl[..., 0], ctl[..., 1], dt)
  cmax = max(1., float(np.abs(d['x']).max()), float(np.abs(d['y']).max()))
  for f in ('x', 'y'):
    c.close('update-pose', up[f][..., 0], want[f], atol=2e-5 + 3e-7 * cmax, rtol=0, msg=f)
  ytol = 1e-5 + 2e-6 * np.abs(want['yaw'])
  c.angle_close('update-pose', up['yaw'][..., 0], want['yaw'], atol=ytol, msg='yaw')
  for f in ('vel_x', 'vel_y'):
    c.close('update-velocity', up[f][..., 0], want[f], atol=1e-4 + 2 * np.abs(nv) * ytol, rtol=0, msg=f)
  c.check('heading-range', np.all(np.abs(up['yaw']) <= np.pi + 1e-5), 'new heading outside [-pi, pi]')
  c.eq('update-valid', up['valid'], d['valid'] & valid)
  # limits, judged on the motion itself
  v0 = np.hypot(x64['vel_x'], x64['vel_y'])
  v1 = up['vel_x'][..., 0] * np.cos(up['yaw'][..., 0].astype(np.float64)) + up['vel_y'][..., 0] * np.sin(up['yaw'][..., 0].astype(np.float64))
  c.check('accel-limit', np.all(np.abs(v1 - v0) <= ma * dt * (1 + 1e-5) + 1e-4 * (1 + v0 / 30)),
          'speed changes faster than the limit', worst=np.max(np.abs(v1 - v0)) / dt, limit=ma)
  turn = np.abs(gen.wrap(up['yaw'][..., 0].astype(np.float64) - x64['yaw']))
  dist = np.abs(v0 + v1) / 2 * dt
  c.check('curvature-limit', np.all(turn <= ms * dist + 5e-5), 'turns tighter than the limit', worst=np.max(turn - ms * dist))
  c.nontrivial(bool(sat.any() and (~sat).any()))


def inverse(c):
  import jax.numpy as jnp
  from waymax import datatypes as dt_
  r = c.rng
  B, A, T = PREFIX[c.shard % 3], [6, 1, 9][(c.shard // 2) % 3], [2, 5][c.shard % 2]
  m, norm, dt, ma, ms = model_for(c)
  top = np.array([1., 1.]) if norm else np.array([ma, ms])
  phys = np.array([ma, ms])
  d, tr = states(r, B, A, T, float(r.choice([5., 100., 5000.])))
  t = int(r.integers(0, T - 1))
  # gentle motions for half the objects: next velocity close to the current one
  gentle = r.random(B + (A,)) < .6
  v0, v1 = [np.hypot(d['vel_x'][..., s].astype(np.float64), d['vel_y'][..., s]) for s in (t, t + 1)]
  nv = np.maximum(v0 + r.uniform(-1, 1, B + (A,)) * ma * dt * .9, 0.)
  nyaw = d['yaw'][..., t] + r.uniform(-1, 1, B + (A,)) * ms * .9 * (v0 + nv) / 2 * dt
  for f, w in [('vel_x', nv * np.cos(nyaw)), ('vel_y', nv * np.sin(nyaw)), ('yaw', gen.wrap(nyaw))]:
    d[f][..., t + 1] = np.where(gentle, w, d[f][..., t + 1]).astype(np.float32)
  tr = tr.replace(**{f: jnp.asarray(d[f]) for f in ('vel_x', 'vel_y', 'yaw')})
  if r.random() < .4:  # absent entries may hold anything finite
    inv_entry = ~d['valid']
    for f in ('x', 'y', 'vel_x', 'vel_y'):
      d[f] = np.where(inv_entry, (r.normal(size=d[f].shape) * float(r.choice([1e6, 1e25, 1e37]))), d[f]).astype(np.float32)
    tr = tr.replace(**{f: jnp.asarray(d[f]) for f in ('x', 'y', 'vel_x', 'vel_y')})
    c.hit('event:extreme-leftovers', inv_entry.sum())
  inv = m.inverse(tr, None, t if c.k % 2 else jnp.asarray(t, jnp.int32))
  got, gv = np.asarray(inv.data), np.asarray(inv.valid)
  c.describe(batch=str(B), A=A, T=T, t=t, normalized=norm, dt=dt, max_accel=ma, max_steering=ms)
  c.signature(d['vel_x'], d['valid'], t, norm, ma, ms, dt)
  at = lambda f, s: d[f][..., s].astype(np.float64)
  v0, v1 = np.hypot(at('vel_x', t), at('vel_y', t)), np.hypot(at('vel_x', t + 1), at('vel_y', t + 1))
  v0, v1 = np.minimum(v0, 1e6), np.minimum(v1, 1e6)
  both = d['valid'][..., t] & d['valid'][..., t + 1]
  c.eq('inverse-valid', gv[..., 0], both)
  c.check('inverse-in-range', np.all(np.abs(got) <= top * (1 + 1e-6)), 'inverse outside the action range',
          worst=np.abs(got).reshape(-1, 2).max(0))
  c.eq('inverse-zero-when-invalid', got, np.zeros_like(got), where=~both[..., None])
  accel = (v1 - v0) / dt
  slow = (v0 < .6) | (v1 < .6)
  c.hit('event:slow', (slow & both).sum())
  dyaw0 = np.arctan2(at('vel_y', t + 1), at('vel_x', t + 1)) - at('yaw', t)
  dyaw = gen.wrap(dyaw0)
  c.hit('event:heading-wrap', ((np.abs(dyaw0) > np.pi) & both & ~slow).sum())
  with np.errstate(all='ignore'):
    steer = np.where(slow, 0., dyaw / (v0 * dt + .5 * accel * dt * dt))
  want = np.clip(np.stack([accel, steer], -1), -phys, phys) * (top / phys)
  judge = both & (np.abs(v0 - .6) > 1e-3) & (np.abs(v1 - .6) > 1e-3) & (slow | (np.abs(np.abs(dyaw) - np.pi) > 1e-3))
  c.close('inverse-value', got[..., 0], want[..., 0], atol=(2e-4 + 2e-6 * (v0 + v1) / dt) * (top / phys)[0], rtol=0, where=judge, msg='acceleration')
  c.close('inverse-value', got[..., 1], want[..., 1], atol=3e-4 * (top / phys)[1], rtol=1e-4, where=judge, msg='curvature')
  c.nontrivial(bool(both.any() and (~both).any()))


def round_trip(c):
  """update -> inverse -> update reproduces a motion made by in-range actions."""
  import jax.numpy as jnp
  from waymax import datatypes as dt_
  r = c.rng
  B, A = PREFIX[c.shard % 3], [6, 1, 9][(c.shard // 2) % 3]
  m, norm, dt, ma, ms = model_for(c)
  top = np.array([1., 1.]) if norm else np.array([ma, ms])
  d, tr = states(r, B, A, 1, float(r.choice([5., 100.])))
  data = (r.uniform(-1, 1, B + (A, 2)) * top).astype(np.float32)
  ones = np.ones(B + (A, 1), bool)
  up = m.compute_update(sim.make_action(data, ones), tr)
  pair = {f: jnp.concatenate([getattr(tr, f), getattr(up, f) if hasattr(up, f) else getattr(tr, f)], -1) for f in d}
  inv = m.inverse(dt_.Trajectory(**pair), None, 0)
  again = gen.to_np(dict(m.compute_update(inv, tr)))
  u = gen.to_np(dict(up))
  v0 = np.hypot(d['vel_x'][..., 0].astype(np.float64), d['vel_y'][..., 0])
  acc = data[..., 0] * (ma if norm else 1.)
  v1 = v0 + acc * dt
  turn = np.abs(data[..., 1] * (ms if norm else 1.) * (v0 + v1) / 2 * dt)
  ok = (v0 > .61) & (v1 > .61) & (turn < 3.1) & d['valid'][..., 0]
  c.hit('event:round-trips', ok.sum())
  c.signature(d['x'], data, norm, ma, ms, dt)
  c.describe(batch=str(B), A=A, normalized=norm, dt=dt, max_accel=ma, max_steering=ms)
  for f in ('x', 'y'):
    c.close('round-trip-motion', again[f], u[f], atol=2e-4, rtol=1e-6, where=ok[..., None], msg=f)
  c.angle_close('round-trip-motion', again['yaw'], u['yaw'], atol=1e-4, where=ok[..., None], msg='yaw')
  for f in ('vel_x', 'vel_y'):
    c.close('round-trip-motion', again[f], u[f], atol=(1e-3 + 2e-4 * np.abs(v1))[..., None], rtol=0, where=ok[..., None], msg=f)
  tol = np.stack([np.full_like(v0, 1e-4) + 4e-6 * v0 / dt, 4e-4 + 2e-5 / np.maximum(v0, .6)], -1) * (top / np.array([ma, ms]))
  c.close('round-trip-action', np.asarray(inv.data), data, atol=tol, rtol=2e-4, where=ok[..., None])
  c.nontrivial(bool(ok.any()))


def drive(c):
  [forward, inverse, round_trip][(c.k // 2) % 3](c)


PARTS = [Part('drive', drive, shards=6, quick=144, thorough=1800)]
