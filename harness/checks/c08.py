"""C08: discrete actions form a lossless, nearest-bin grid code."""
import numpy as np
from harness import gen, sim
from harness.checks import c06
from harness.core import Part

PROPERTY = 'C08'
RULE = ('random grids (1-4 dimensions, unequal bin counts, random bounds) are enumerated completely and random values are '
        'encoded; wrapped dynamics are compared with the continuous model and its inverse, and the search inverse with an '
        'exhaustive float64 search per object; non-trivial: at least two dimensions with different bin counts')
REQUIRED = ['obs:code-round-trip', 'obs:compiled', 'obs:decode-value', 'obs:decode-distinct', 'obs:encode-nearest', 'obs:encode-saturates',
            'obs:mismatch-refused', 'obs:update-equals-continuous', 'obs:inverse-is-encoding', 'obs:search-minimal',
            'obs:inverse-valid', 'event:three-dimensions', 'event:unequal-bins', 'event:several-objects-search', 'obs:spec', 'event:many-bins']
ASSUMPTIONS = ['values within 1e-3 of a bin boundary may go either way']

PREFIX = [(), (3,), (2, 2)]


def grid_values(mins, maxs, bins):
  axes = [np.linspace(a, b, n + 1) for a, b, n in zip(mins, maxs, bins)]
  return np.stack([g.ravel() for g in np.meshgrid(*axes, indexing='ij')], -1)


def code(c):
  import jax.numpy as jnp
  from waymax.dynamics import discretizer as dz
  r = c.rng
  D = int(r.choice([1, 2, 3, 3, 4]))
  bins = r.integers(1, 9 if D < 4 else 5, D)
  if (c.k // 2) % 4 == 1:  # many bins per dimension
    D = int(r.choice([1, 2, 3]))
    bins = r.integers(*{1: (130, 3000), 2: (20, 320), 3: (6, 48)}[D], D)
    c.hit('event:many-bins')
  if c.k % 4 == 0 and D > 1:
    bins[0] = bins[-1] + 1
  mins = r.uniform(-8, 4, D)
  maxs = mins + r.uniform(.2, 12, D)
  if c.k % 3 == 0:
    maxs = np.abs(mins) + .1
    mins = -maxs
  mins, maxs = mins.astype(np.float32), maxs.astype(np.float32)
  c.hit('event:three-dimensions', D >= 3)
  c.hit('event:unequal-bins', len(set(bins.tolist())) > 1)
  c.describe(bins=bins, mins=mins, maxs=maxs)
  c.signature(bins, mins, maxs)
  disc = dz.Discretizer(jnp.asarray(mins), jnp.asarray(maxs), jnp.asarray(bins, jnp.int32))
  n = int(np.prod(bins + 1))
  idx = jnp.arange(n, dtype=jnp.int32)[:, None]
  cont = np.asarray(disc.make_continuous(idx))
  want = grid_values(mins.astype(np.float64), maxs.astype(np.float64), bins)
  width = (maxs.astype(np.float64) - mins) / bins
  tol = 1e-5 * (1 + np.abs(mins) + np.abs(maxs))
  c.close('decode-value', cont, want, atol=tol, rtol=0)
  c.check('decode-distinct', len(np.unique(np.rint((cont - mins) / width), axis=0)) == n, 'two indices share a grid point')
  enc = np.asarray(disc.discretize(jnp.asarray(cont)))
  c.eq('code-round-trip', enc, np.arange(n)[:, None])
  if (c.k // 4) % 2 or n > 5000:
    import jax
    c.eq('compiled', jax.jit(disc.discretize)(jnp.asarray(cont)), enc)
    c.eq('compiled', np.asarray(jax.jit(disc.make_continuous)(idx)).shape, cont.shape)
  c.check('index-type', np.issubdtype(enc.dtype, np.integer), f'index dtype {enc.dtype}')
  # other leading shapes decode alike
  B = PREFIX[c.k % 3] + (3,)
  pick = r.integers(0, n, B + (1,)).astype(np.int32)
  dec = np.asarray(disc.make_continuous(jnp.asarray(pick)))
  c.close('decode-value', dec, want[pick[..., 0]], atol=tol, rtol=0, msg='leading shape')
  # nearest bin and saturation
  vals = (mins + r.uniform(-.6, 1.6, B + (D,)) * (maxs - mins)).astype(np.float32)
  vals = np.where(r.random(vals.shape) < .05, np.sign(vals) * 1e6, vals).astype(np.float32)
  e = np.asarray(disc.discretize(jnp.asarray(vals)))
  ok = e.shape == B + (1,) and (e >= 0).all() and (e < n).all()
  c.check('encode-range', ok, 'index out of range or of the wrong shape', shape=e.shape)
  if ok:
    g = want[e[..., 0]]
    v = np.clip(vals.astype(np.float64), mins, maxs)
    c.check('encode-nearest', np.all(np.abs(g - v) <= width / 2 + 1e-3 * width + tol), 'not the nearest grid point',
            worst=np.max(np.abs(g - v) / width))
    low, high = vals < mins - 1e-3, vals > maxs + 1e-3
    sat = np.all(np.where(low, np.abs(g - mins) <= tol, True)) and np.all(np.where(high, np.abs(g - maxs) <= tol, True))
    c.check('encode-saturates', sat, 'out-of-range value does not map to the end point')
  # refusals
  if c.k % 5 == 0:
    a = jnp.ones
    for sh in [((D,), (D + 1,), (D,)), ((D,), (D,), (D + 1,)), ((D + 1,), (D,), (D,))]:
      c.raises('mismatch-refused', ValueError, lambda: dz.Discretizer(-a(sh[0]), a(sh[1]), jnp.ones(sh[2], jnp.int32)), str(sh))
    c.raises('mismatch-refused', ValueError, lambda: disc.discretize(jnp.zeros((4, D + 1))), 'wrong vector length')
  c.nontrivial(len(set(bins.tolist())) > 1)


def cont_model(r, which):
  from waymax import dynamics as dyn
  p = dict(max_accel=float(r.uniform(2, 9)), max_steering=float(r.uniform(.1, .6)))
  q = dict(max_dx=float(r.uniform(.5, 6)), max_dy=float(r.uniform(.5, 6)), max_dyaw=float(r.uniform(.3, 3.1)))
  return [('bicycle', lambda: dyn.InvertibleBicycleModel(**p)), ('norm', lambda: dyn.InvertibleBicycleModel(normalize_actions=True, **p)),
          ('delta_global', lambda: dyn.DeltaGlobal(**q)), ('delta_local', lambda: dyn.DeltaLocal(**q))][which] + (p,)


def wrapper(c):
  import jax.numpy as jnp
  from waymax import datatypes as dt, dynamics as dyn
  r = c.rng
  B, A, T = PREFIX[c.shard % 3], [5, 2, 8][(c.shard // 2) % 3], 4
  name, mk, lim = cont_model(r, int(r.integers(4)))
  cm = mk()
  mn, mx = np.asarray(cm.action_spec().minimum, np.float64), np.asarray(cm.action_spec().maximum, np.float64)
  bins = r.integers(2, 9, len(mn))
  dm = dyn.DiscreteActionSpaceWrapper(cm, jnp.asarray(bins, jnp.int32))
  n = int(np.prod(bins + 1))
  grid = grid_values(mn, mx, bins)
  d, tr = c06.make_traj(r, B, A, T, 50., float(r.choice([.2, 1.])))
  t = int(r.integers(0, T - 1))
  c.describe(model=name, bins=bins, batch=str(B), A=A, t=t)
  c.signature(name, bins, d['x'], t)
  spec = dm.action_spec()
  c.check('spec', tuple(spec.shape) == (1,) and int(np.max(spec.minimum)) == 0 and int(np.max(spec.maximum)) == n - 1
          and np.issubdtype(np.dtype(spec.dtype), np.integer), 'discrete action spec', minimum=spec.minimum, maximum=spec.maximum)
  idx = r.integers(0, n, B + (A, 1)).astype(np.int32)
  valid = r.random(B + (A, 1)) < .6
  cur = dt.dynamic_slice(tr, t, 1, -1)
  got = gen.to_np(dict(dm.compute_update(sim.make_action(idx, valid), cur)))
  want = gen.to_np(dict(cm.compute_update(sim.make_action(grid[idx[..., 0]].astype(np.float32), valid), cur)))
  for f in ('x', 'y'):
    c.close('update-equals-continuous', got[f], want[f], atol=3e-4, rtol=1e-6, msg=f'{name} {f}')
  c.angle_close('update-equals-continuous', got['yaw'], want['yaw'], atol=3e-4, msg=name)
  for f in ('vel_x', 'vel_y'):
    c.close('update-equals-continuous', got[f], want[f], atol=5e-3, rtol=1e-4, msg=f'{name} {f}')
  c.eq('update-equals-continuous', got['valid'], want['valid'], msg='valid')
  c.eq('update-equals-continuous', got['valid'], d['valid'][..., t:t + 1] & valid, msg='valid')
  ci, di = cm.inverse(tr, None, t), dm.inverse(tr, None, t)
  e = np.asarray(di.data)
  both = d['valid'][..., t:t + 1] & d['valid'][..., t + 1:t + 2]
  c.eq('inverse-valid', np.asarray(di.valid), both)
  ok = e.shape == B + (A, 1) and (e >= 0).all() and (e < n).all()
  c.check('inverse-range', ok, 'index out of range')
  if ok:
    width = (mx - mn) / bins
    off = np.abs(grid[e[..., 0]] - np.asarray(ci.data))
    c.check('inverse-is-encoding', np.all(off <= width * .501 + 1e-5), f'{name}: not the nearest grid action', worst=np.max(off / width))
  c.nontrivial(len(set(bins.tolist())) > 1)


def corners(x, y, yaw, l, w):
  out = []
  for sx, sy in [(1, -1), (1, 1), (-1, 1), (-1, -1)]:
    cx, cy = c06.rot(yaw, sx * l / 2, sy * w / 2)
    out += [x + cx, y + cy]
  return np.stack(out, -1)


def search(c):
  import jax.numpy as jnp
  from waymax import dynamics as dyn
  r = c.rng
  B, A, T = [(), (2,)][c.shard % 2], [4, 1, 6][c.k % 3], 3
  which = (c.k + c.shard) % 4
  name, mk, lim = cont_model(r, which)
  cm = mk()
  mn, mx = np.asarray(cm.action_spec().minimum, np.float64), np.asarray(cm.action_spec().maximum, np.float64)
  bins = r.integers(2, 7, len(mn))
  dm = dyn.DiscreteActionSpaceWrapper(cm, jnp.asarray(bins, jnp.int32), bin_inverse=False)
  grid = grid_values(mn, mx, bins)
  d, tr = c06.make_traj(r, B, A, T, 50., .5)
  scene = gen.gen_scene(r, A=A, T=T, R=0, L=1)
  import jax
  from waymax import datatypes as dt
  meta = gen.make_state(gen.stack_scenes([scene] * 2, (2,)) if B else scene).object_metadata
  t = int(r.integers(0, T - 1))
  inv = dm.inverse(tr, meta, t)
  e, v = np.asarray(inv.data), np.asarray(inv.valid)
  c.describe(model=name, bins=bins, batch=str(B), A=A, t=t)
  c.signature(name, bins, d['x'], t)
  both = d['valid'][..., t] & d['valid'][..., t + 1]
  c.eq('inverse-valid', v[..., 0], both)
  ok = e.shape == B + (A, 1) and (e >= 0).all() and (e < len(grid)).all()
  c.check('inverse-range', ok, 'index out of range or wrong shape', shape=e.shape)
  if not ok:
    return
  c.hit('event:several-objects-search', (both.sum() > 1))
  f = lambda k, s: d[k][..., s].astype(np.float64)
  cur = {k: f(k, t)[..., None] for k in ['x', 'y', 'yaw', 'vel_x', 'vel_y', 'length', 'width']}
  # (.., A, n) oracle next poses
  if name.startswith('delta'):
    dx, dy = grid[:, 0], grid[:, 1]
    if name == 'delta_local':
      dx, dy = c06.rot(cur['yaw'], dx, dy)
    nx, ny, nyaw = cur['x'] + dx, cur['y'] + dy, cur['yaw'] + grid[:, 2]
  else:
    phys = grid * (np.array([lim['max_accel'], lim['max_steering']]) if name == 'norm' else 1.)
    from harness.checks import c07
    o, _, _ = c07.bicycle(cur, phys[:, 0], phys[:, 1], .1)
    nx, ny, nyaw = o['x'], o['y'], o['yaw']
  L, W = np.broadcast_to(cur['length'], nx.shape), np.broadcast_to(cur['width'], nx.shape)
  cand = corners(nx, ny, nyaw, L, W)
  goal = corners(f('x', t + 1), f('y', t + 1), f('yaw', t + 1), f('length', t + 1), f('width', t + 1))[..., None, :]
  dist = np.linalg.norm(cand - goal, axis=-1)
  got = np.take_along_axis(dist, e.astype(np.int64), -1)[..., 0]
  best = dist.min(-1)
  c.check('search-minimal', np.all(np.where(both, got <= best + 2e-3 + 1e-4 * best, True)),
          f'{name}: chosen action is not the closest one for its object', excess=np.max(np.where(both, got - best, 0)))
  c.nontrivial(bool(both.sum() > 1))


def grids(c):
  if c.k % 12 == 11:
    search(c)
  else:
    [code, wrapper][c.k % 2](c)


PARTS = [Part('grids', grids, shards=8, quick=24, thorough=800)]
