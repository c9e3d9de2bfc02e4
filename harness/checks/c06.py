"""C06: delta and state dynamics compute the documented motion."""
import numpy as np
from harness import gen, sim
from harness.core import Part

PROPERTY = 'C06'
RULE = ('random object states x actions x limits x time step; update, shared forward and inverse of the displacement '
        '(world and own frame) and absolute-state models are compared with a float64 oracle, and inverse actions are '
        're-applied; non-trivial: valid and invalid objects/actions both present')
REQUIRED = ['obs:update-pose', 'obs:update-velocity', 'obs:update-valid', 'obs:inverse-value', 'obs:inverse-in-range',
            'obs:inverse-valid', 'obs:round-trip', 'obs:state-round-trip', 'event:beyond-limits', 'event:heading-wrap',
            'event:large-coordinates', 'obs:forward-step']
ASSUMPTIONS = ['headings are compared modulo full turns', 'tolerances grow with coordinate size (float32)']

PREFIX = [(), (3,), (2, 2)]


def rot(a, x, y):
  c, s = np.cos(a), np.sin(a)
  return c * x - s * y, s * x + c * y


def make_traj(r, B, A, T, scale, motion):
  """Random consecutive states with per-step displacements of size `motion`."""
  from waymax import datatypes as dt
  import jax.numpy as jnp
  sh = B + (A, T)
  d = {}
  d['x'] = r.uniform(-scale, scale, B + (A, 1)) + np.cumsum(r.normal(size=sh) * motion, -1)
  d['y'] = r.uniform(-scale, scale, B + (A, 1)) + np.cumsum(r.normal(size=sh) * motion, -1)
  yaw = r.uniform(-np.pi, np.pi, sh)
  slow = r.random(B + (A, 1)) < .6
  yaw = np.where(slow, yaw[..., :1] + np.cumsum(r.normal(size=sh) * .3, -1), yaw)
  seam = r.random(B + (A, 1)) < .25
  yaw = np.where(seam, np.pi + np.cumsum(r.normal(size=sh) * .2, -1), yaw)
  d['yaw'] = gen.wrap(yaw)
  d['vel_x'], d['vel_y'] = r.normal(size=sh) * 8, r.normal(size=sh) * 8
  d['z'] = r.normal(size=sh)
  for k, m in [('length', 4.5), ('width', 2.), ('height', 1.6)]:
    d[k] = np.broadcast_to(m * r.uniform(.7, 1.3, B + (A, 1)), sh)
  d = {k: np.ascontiguousarray(v, dtype=np.float32) for k, v in d.items()}
  d['valid'] = r.random(sh) < .8
  d['timestamp_micros'] = np.broadcast_to((np.arange(T) * 100000).astype(np.int32), sh).copy()
  return d, dt.Trajectory(**{k: jnp.asarray(v) for k, v in d.items()})


def motion(c):
  import jax, jax.numpy as jnp
  from waymax import datatypes as dt, dynamics as dyn
  r = c.rng
  B, A, T = PREFIX[c.shard % 3], [5, 1, 8][(c.shard // 2) % 3], [2, 6, 9][c.shard % 3]
  scale = float(r.choice([5., 100., 5000.]))
  lim = r.uniform(.4, 8., 2)
  lim = np.append(lim, r.choice([np.pi, 3.0, 1.0, .3]))
  step = float(r.choice([.1, .1, .05, .2]))
  if c.k % 3 == 0:
    lim, step = np.array([6., 6., np.pi]), .1
  name = ['global', 'local', 'state'][c.k % 3] if c.k % 4 else ['local', 'global'][(c.k // 4) % 2]
  kw = dict(dt=step, max_dx=float(lim[0]), max_dy=float(lim[1]), max_dyaw=float(lim[2]))
  if name == 'state':
    model = dyn.StateDynamics()
  elif c.k % 3 == 0:
    model = dyn.DeltaGlobal() if name == 'global' else dyn.DeltaLocal()
  else:
    model = dyn.DeltaGlobal(**kw) if name == 'global' else dyn.DeltaLocal(**kw)
  motion_size = float(r.choice([.3, 2., 8.]))
  d, tr = make_traj(r, B, A, T, scale, motion_size)
  t = int(r.integers(0, T - 1))
  c.describe(model=name, limits=lim, dt=step, batch=str(B), A=A, t=t, scale=scale)
  c.signature(name, d['x'], d['valid'], t)
  cmax = max(float(np.abs(d['x']).max()), float(np.abs(d['y']).max()), 1.)
  c.hit('event:large-coordinates', cmax > 2000)
  now = {k: v[..., t] for k, v in d.items()}
  nxt = {k: v[..., t + 1] for k, v in d.items()}
  f64 = lambda q: {k: np.asarray(v, np.float64) for k, v in q.items()}
  n64, x64 = f64(now), f64(nxt)

  # --- forward motion
  if name == 'state':
    data = r.normal(size=B + (A, 5)) * [scale, scale, 2, 9, 9]
  else:
    data = r.uniform(-1, 1, B + (A, 3)) * lim * r.choice([.1, 1., 1.], size=B + (A, 1))
  data = data.astype(np.float32)
  valid = r.random(B + (A, 1)) < .7
  act = sim.make_action(data, valid)
  cur = dt.dynamic_slice(tr, t, 1, -1)
  up = gen.to_np(dict(model.compute_update(act, cur)))
  if name == 'state':
    want = {f: data[..., i].astype(np.float64) for i, f in enumerate(['x', 'y', 'yaw', 'vel_x', 'vel_y'])}
    wv = valid[..., 0]
  else:
    dx, dy = data[..., 0].astype(np.float64), data[..., 1].astype(np.float64)
    if name == 'local':
      dx, dy = rot(n64['yaw'], dx, dy)
    want = dict(x=n64['x'] + dx, y=n64['y'] + dy, yaw=n64['yaw'] + data[..., 2], vel_x=dx / step, vel_y=dy / step)
    wv = now['valid'] & valid[..., 0]
  ptol = 2e-5 + 3e-7 * cmax
  for f in ('x', 'y'):
    c.close('update-pose', up[f][..., 0], want[f], atol=ptol, rtol=0, msg=f'{name} {f}')
  c.angle_close('update-pose', up['yaw'][..., 0], want['yaw'], atol=3e-5, msg=f'{name} yaw')
  for f in ('vel_x', 'vel_y'):
    c.close('update-velocity', up[f][..., 0], want[f], atol=2e-4 * .1 / step, rtol=2e-6, msg=f'{name} {f}')
  c.eq('update-valid', up['valid'][..., 0], wv, msg=name)
  # the shared forward step writes exactly this update for controlled objects that exist
  if c.k % 2 == 0:
    mask = r.random(B + (A,)) < .6
    fw = gen.to_np(dict(model.forward(act, tr, tr, jnp.asarray(mask), jnp.asarray(t), True)))
    for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
      c.eq('forward-step', fw[f][..., t + 1], np.where(mask, up[f][..., 0], nxt[f]), where=~mask | now['valid'],
           msg=f'{name} {f}')

  # --- inverse
  tt = t if c.k % 2 else jnp.asarray(t, jnp.int32)
  inv = model.inverse(tr, None, tt)
  idata, ival = np.asarray(inv.data), np.asarray(inv.valid)
  both = (now['valid'] & nxt['valid'])[..., None]
  if name == 'state':
    c.eq('inverse-valid', ival, nxt['valid'][..., None], msg=name)
    back = gen.to_np(dict(model.compute_update(inv, cur)))
    for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
      c.eq('state-round-trip', back[f][..., 0], nxt[f], where=nxt['valid'], msg=f)
  else:
    dx, dy = x64['x'] - n64['x'], x64['y'] - n64['y']
    dyaw = gen.wrap(x64['yaw'] - n64['yaw'])
    c.hit('event:heading-wrap', (np.abs(x64['yaw'] - n64['yaw']) > np.pi).sum())
    if name == 'local':
      dx, dy = rot(-n64['yaw'], dx, dy)
    raw = np.stack([dx, dy, dyaw], -1)
    want = np.clip(raw, -lim, lim)
    beyond = (np.abs(raw) > lim).any(-1, keepdims=True)
    c.hit('event:beyond-limits', (beyond & both).sum())
    seam = np.abs(np.abs(dyaw) - np.pi)[..., None] < 1e-3
    tol = 5e-5 + 4e-7 * cmax
    c.close('inverse-value', idata, want, atol=tol, rtol=1e-6, where=both & ~seam, msg=name)
    c.eq('inverse-valid', ival, both, msg=name)
    c.check('inverse-in-range', np.all(np.abs(idata) <= np.asarray(lim, np.float32) + 1e-6),
            f'{name}: inverse leaves the action range', worst=np.abs(idata).reshape(-1, 3).max(0), lim=lim)
    back = gen.to_np(dict(model.compute_update(inv, cur)))
    # only where the required motion is clearly inside the limits
    ok = (both & (np.abs(raw) <= lim - np.array([1e-3, 1e-3, 0 if lim[2] > 3.1 else 1e-3])).all(-1, keepdims=True))[..., 0]
    c.hit('event:round-trips', ok.sum())
    for f in ('x', 'y'):
      c.close('round-trip', back[f][..., 0], x64[f], atol=5e-5 + 1e-6 * cmax, rtol=0, where=ok, msg=f'{name} {f}')
    c.angle_close('round-trip', back['yaw'][..., 0], x64['yaw'], atol=5e-5, where=ok, msg=f'{name} yaw')
    c.eq('update-valid', back['valid'][..., 0], both[..., 0] & now['valid'], msg=f'{name} after inverse')
  c.nontrivial(bool(valid.any() and (~valid).any()) or A == 1)


PARTS = [Part('motion', motion, shards=6, quick=120, thorough=1500)]
