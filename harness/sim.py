"""Environments, dynamics models and action generators used by several checks."""
import numpy as np


DYN_KINDS = ['bicycle', 'bicycle_norm', 'delta_global', 'delta_local', 'state',
             'disc_bicycle', 'disc_delta']


def make_dynamics(kind, **kw):
  import jax.numpy as jnp
  from waymax import dynamics as d
  if kind == 'bicycle':
    return d.InvertibleBicycleModel(**kw)
  if kind == 'bicycle_norm':
    return d.InvertibleBicycleModel(normalize_actions=True, **kw)
  if kind == 'delta_global':
    return d.DeltaGlobal(**kw)
  if kind == 'delta_local':
    return d.DeltaLocal(**kw)
  if kind == 'state':
    return d.StateDynamics()
  if kind == 'disc_bicycle':
    return d.DiscreteActionSpaceWrapper(d.InvertibleBicycleModel(**kw), jnp.array([6, 9]))
  if kind == 'disc_delta':
    return d.DiscreteActionSpaceWrapper(d.DeltaLocal(**kw), jnp.array([4, 5, 8]))
  raise ValueError(kind)


def action_dim(kind):
  return {'bicycle': 2, 'bicycle_norm': 2, 'delta_global': 3, 'delta_local': 3,
          'state': 5, 'disc_bicycle': 1, 'disc_delta': 1}[kind]


def gen_action(rng, kind, shape, center=(0., 0.), mode=None, valid_p=.85):
  """Random action arrays of leading `shape`; returns (data, valid)."""
  import jax.numpy as jnp
  mode = mode or rng.choice(['in', 'out', 'mixed'], p=[.6, .2, .2])
  d = action_dim(kind)
  if kind.startswith('disc'):
    n = 70 if kind == 'disc_bicycle' else 270
    data = rng.integers(0, n, shape + (1,)).astype(np.int32)
  else:
    lim = {'bicycle': [6., .3], 'bicycle_norm': [1., 1.],
           'delta_global': [6., 6., np.pi], 'delta_local': [6., 6., np.pi],
           'state': [30., 30., np.pi, 15., 15.]}[kind]
    data = rng.uniform(-1, 1, shape + (d,)) * np.array(lim)
    if mode == 'out' and kind != 'state':
      data *= rng.uniform(1, 4)
    elif mode == 'mixed':
      data *= rng.choice([0., .01, 1., 1., 2.], size=shape + (1,))
    if kind == 'state':
      data[..., 0] += center[0]
      data[..., 1] += center[1]
    data = data.astype(np.float32)
  valid = rng.random(shape + (1,)) < valid_p
  return data, valid


def make_action(data, valid):
  import jax.numpy as jnp
  from waymax import datatypes as dt
  return dt.Action(data=jnp.asarray(data), valid=jnp.asarray(valid))


def env_config(A, init_steps, controlled='SDC', allow_new=True, **kw):
  from waymax import config as c
  return c.EnvironmentConfig(
      max_num_objects=A, init_steps=init_steps,
      controlled_object=getattr(c.ObjectType, controlled),
      allow_new_objects_after_warmup=allow_new, **kw)


def ref_update(kind, data, cur, dt=0.1, max_accel=6.0, max_steering=.3):
  """Float64 oracle of compute_update; cur: dict of (..., ) current fields."""
  g = {k: np.asarray(v, np.float64) for k, v in cur.items() if k not in ('valid',)}
  data = np.asarray(data, np.float64)
  x, y, yaw, vx, vy = g['x'], g['y'], g['yaw'], g['vel_x'], g['vel_y']
  if kind == 'state':
    return {k: data[..., i] for i, k in enumerate(['x', 'y', 'yaw', 'vel_x', 'vel_y'])}
  if kind == 'disc_bicycle':
    idx = data[..., 0].astype(np.int64)
    i0, i1 = idx // 10, idx % 10
    data = np.stack([-6. + 12. * i0 / 6, -.3 + .6 * i1 / 9], -1)
    kind = 'bicycle'
  if kind == 'disc_delta':
    idx = data[..., 0].astype(np.int64)
    i0, i1, i2 = idx // 54, (idx // 9) % 6, idx % 9
    data = np.stack([-6 + 12 * i0 / 4, -6 + 12 * i1 / 5, -np.pi + 2 * np.pi * i2 / 8], -1)
    kind = 'delta_local'
  if kind in ('delta_global', 'delta_local'):
    dx, dy, dyaw = data[..., 0], data[..., 1], data[..., 2]
    if kind == 'delta_local':
      c, s = np.cos(yaw), np.sin(yaw)
      dx, dy = c * dx - s * dy, s * dx + c * dy
    return dict(x=x + dx, y=y + dy, yaw=yaw + dyaw, vel_x=dx / dt, vel_y=dy / dt)
  if kind in ('bicycle', 'bicycle_norm'):
    if kind == 'bicycle_norm':
      a = np.clip(data[..., 0], -1, 1) * max_accel
      st = np.clip(data[..., 1], -1, 1) * max_steering
    else:
      a = np.clip(data[..., 0], -max_accel, max_accel)
      st = np.clip(data[..., 1], -max_steering, max_steering)
    v = np.hypot(vx, vy)
    nx = x + vx * dt + .5 * a * np.cos(yaw) * dt * dt
    ny = y + vy * dt + .5 * a * np.sin(yaw) * dt * dt
    nyaw = yaw + st * (v * dt + .5 * a * dt * dt)
    nv = v + a * dt
    return dict(x=nx, y=ny, yaw=nyaw, vel_x=nv * np.cos(nyaw), vel_y=nv * np.sin(nyaw))
  raise ValueError(kind)
