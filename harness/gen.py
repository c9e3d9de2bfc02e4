"""Synthetic scenarios: plain-NumPy scene dictionaries and SimulatorStates."""
import numpy as np

F = np.float32
DT = 0.1

TRAJ_F = ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height']


def wrap(a):
  return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


def gen_traj(rng, A, T, center=(0., 0.), spread=40., hostile=0.2, sdc=0, first_valid=None):
  """Numpy trajectories with a mix of motion kinds; returns dict of (A, T)."""
  out = {k: np.zeros((A, T)) for k in TRAJ_F}
  kinds = []
  for a in range(A):
    kind = rng.choice(['parked', 'const', 'accel', 'turn', 'stopgo', 'jitter', 'reverse', 'fast', 'drift'],
                      p=[.15, .17, .17, .2, .1, .1, .05, .03, .03])
    if kind == 'jitter' and rng.random() > hostile * 5:
      kind = 'turn'
    kinds.append(kind)
    x, y = center[0] + rng.normal() * spread, center[1] + rng.normal() * spread
    yaw = rng.uniform(-np.pi, np.pi)
    if rng.random() < 0.15:
      yaw = rng.choice([0., np.pi / 2, -np.pi / 2, np.pi - 1e-3, -np.pi + 1e-3, np.pi / 4])
    v = 0. if kind == 'parked' else rng.uniform(0.3, 18.)
    if kind == 'reverse':
      v = rng.uniform(0.5, 4.)
    elif kind == 'fast':
      v = rng.uniform(20., 45.)
    slip = rng.uniform(-np.pi, np.pi) if kind == 'drift' else 0.  # moves in another direction than it faces
    zz = rng.normal() * 2
    dz = rng.normal() * 0.02
    acc = 0.
    curv = 0.
    for t in range(T):
      if kind == 'accel':
        if t % 7 == 0:
          acc = rng.uniform(-4, 4)
      elif kind == 'turn':
        if t % 9 == 0:
          curv, acc = rng.uniform(-.2, .2), rng.uniform(-2, 2)
      elif kind == 'stopgo':
        if t % 6 == 0:
          acc = rng.choice([-6., 3., 0.])
      sgn = -1. if kind == 'reverse' else 1.
      out['x'][a, t], out['y'][a, t], out['z'][a, t] = x, y, zz + dz * t
      out['yaw'][a, t] = wrap(yaw)
      go = yaw + slip
      out['vel_x'][a, t], out['vel_y'][a, t] = sgn * v * np.cos(go), sgn * v * np.sin(go)
      if kind == 'jitter':
        x += rng.normal() * 1.5
        y += rng.normal() * 1.5
        yaw = wrap(yaw + rng.normal() * 1.0)
        v = abs(rng.normal() * 6)
      else:
        d = v * DT + .5 * acc * DT * DT
        if v + acc * DT < 0:
          acc, v, d = 0., 0., 0.
        x += sgn * d * np.cos(go)
        y += sgn * d * np.sin(go)
        yaw = yaw + curv * d
        v = max(0., v + acc * DT)
    typ = rng.integers(3)
    L, W, H = [(4.6, 2.0, 1.7), (0.9, 0.9, 1.8), (1.9, .8, 1.7)][typ]
    if rng.random() < .08:
      L, W, H = 14., 2.6, 3.5
    f = rng.uniform(.7, 1.4, 3)
    out['length'][a], out['width'][a], out['height'][a] = L * f[0], W * f[1], H * f[2]
  out = {k: v.astype(F) for k, v in out.items()}
  out['kinds'] = kinds
  return out


def gen_valid(rng, A, T, sdc=0, t_now=None, full_prob=0.4, sdc_full=True):
  valid = np.ones((A, T), bool)
  for a in range(A):
    if a == sdc and sdc_full:
      continue
    r = rng.random()
    if r < full_prob:
      continue
    k = rng.choice(['late', 'gone', 'flicker', 'never', 'window', 'hole'],
                   p=[.25, .2, .2, .1, .15, .1])
    if k == 'late':
      valid[a, :rng.integers(0, T)] = False
    elif k == 'gone':
      valid[a, rng.integers(1, T + 1):] = False
    elif k == 'flicker':
      valid[a] = rng.random(T) < .6
    elif k == 'never':
      valid[a] = False
    elif k == 'window':
      i, j = sorted(rng.integers(0, T + 1, 2))
      valid[a, :i] = False
      valid[a, j:] = False
    else:
      valid[a, rng.integers(0, T)] = False
  return valid


INVALID_FILL = ('neg1', 'zero', 'garbage', 'keep')


def fill_invalid(rng, tr, valid, mode):
  """Overwrites invalid (object, step) entries of the float fields."""
  if mode == 'keep':
    return
  for k in ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw']:
    a = tr[k]
    if mode == 'neg1':
      a[~valid] = -1.
    elif mode == 'zero':
      a[~valid] = 0.
    else:
      a[~valid] = (rng.normal(size=a.shape) * 1e3).astype(F)[~valid]


def gen_roadgraph(rng, R, center=(0., 0.), spread=40., zspread=2., big_ids=False,
                  edge_frac=.4, invalid_frac=.1, npoly=None):
  npoly = npoly or max(1, R // 12)
  cuts = np.sort(rng.choice(np.arange(1, R), size=min(npoly - 1, R - 1), replace=False)) if R > 1 and npoly > 1 else np.array([], int)
  segs = np.split(np.arange(R), cuts)
  f = lambda: np.zeros(R)
  x, y, z, dx, dy, dz = f(), f(), f(), f(), f(), f()
  types, ids = np.zeros(R, np.int32), np.zeros(R, np.int32)
  base = rng.integers(1, 50)
  idlist = base + rng.permutation(len(segs))
  if big_ids:
    gap = min(10**6, 10**9 // len(segs))
    idlist = 16777217 + 2 * rng.integers(0, gap, size=len(segs)) + np.arange(len(segs)) * (2 * gap + 3)
  for i, s in enumerate(segs):
    n = len(s)
    px, py = center[0] + rng.normal() * spread, center[1] + rng.normal() * spread
    h = rng.uniform(-np.pi, np.pi)
    pz = rng.normal() * zspread
    c = rng.normal() * .05
    step = rng.choice([.5, 1., 2., 5.])
    if rng.random() < edge_frac:
      ty = rng.choice([15, 16])
    else:
      ty = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19])
    for j in s:
      x[j], y[j], z[j] = px, py, pz
      slope = rng.normal() * .02
      nn = np.sqrt(1 + slope**2)
      dx[j], dy[j], dz[j] = np.cos(h) / nn, np.sin(h) / nn, slope / nn
      if ty not in (15, 16) and j == s[-1] and rng.random() < .5:
        dx[j] = dy[j] = dz[j] = 0.  # the last point of a line leads nowhere
      types[j], ids[j] = ty, idlist[i]
      px += step * np.cos(h)
      py += step * np.sin(h)
      pz += step * slope
      h += c * step
  valid = rng.random(R) >= invalid_frac
  if rng.random() < .3:
    valid[int(R * rng.uniform(.5, 1)):] = False
  if rng.random() < .5:
    for a in (x, y, z, dx, dy, dz):
      a[~valid] = -1.
    types[~valid] = -1
    ids[~valid] = -1
  return dict(x=x.astype(F), y=y.astype(F), z=z.astype(F), dir_x=dx.astype(F),
              dir_y=dy.astype(F), dir_z=dz.astype(F), types=types, ids=ids, valid=valid)


def gen_lights(rng, L, T, center=(0., 0.), spread=40.):
  sh = (L, T)
  c = np.array(center)
  pos = c + rng.normal(size=(L, 2)) * spread
  valid = rng.random(sh) < .7
  return dict(x=np.broadcast_to(pos[:, :1], sh).astype(F).copy(),
              y=np.broadcast_to(pos[:, 1:], sh).astype(F).copy(),
              z=rng.normal(size=sh).astype(F),
              state=rng.integers(0, 9, sh).astype(np.int32),
              lane_ids=np.broadcast_to(rng.integers(1, 300, (L, 1)), sh).astype(np.int32).copy(),
              valid=valid)


def gen_paths(rng, P, N, tr, sdc=0, invalid_frac=.1, lateral=8.):
  """Paths roughly along the SDC log, offset laterally; some off-route."""
  x0, y0 = float(tr['x'][sdc, 0]), float(tr['y'][sdc, 0])
  yaw0 = float(tr['yaw'][sdc, 0])
  d = dict(x=np.zeros((P, N)), y=np.zeros((P, N)), z=np.zeros((P, N)),
           ids=np.zeros((P, N), np.int32), arc_length=np.zeros((P, N)))
  valid = np.ones((P, N), bool)
  for p in range(P):
    off = rng.normal() * lateral
    h = yaw0 + rng.normal() * .25
    c = rng.normal() * .01
    step = rng.choice([.5, 1., 2.])
    px = x0 - np.sin(yaw0) * off - np.cos(yaw0) * 5
    py = y0 + np.cos(yaw0) * off - np.sin(yaw0) * 5
    s = 0.
    for j in range(N):
      d['x'][p, j], d['y'][p, j], d['z'][p, j] = px, py, 0.
      d['arc_length'][p, j] = s
      d['ids'][p, j] = 10 * p + j // 10
      px += step * np.cos(h)
      py += step * np.sin(h)
      h += c * step
      s += step
    if rng.random() < .5:
      valid[p, rng.integers(N // 2, N + 1):] = False
    elif rng.random() < .4:
      valid[p] = rng.random(N) > .3
    if rng.random() < invalid_frac:
      valid[p] = False
  on_route = rng.random((P, 1)) < .6
  out = {k: (v.astype(F) if v.dtype != np.int32 else v) for k, v in d.items()}
  out.update(valid=valid, on_route=on_route)
  return out


def gen_scene(rng, A=6, T=20, R=60, L=3, P=0, N=20, center=None, spread=25.,
              sdc=None, fill=None, big_ids=False, dense=False, full_prob=.4,
              sdc_full=True, hostile=.2, obj_ids=True):
  if center is None:
    center = [(0., 0.), (120., -45.), (2000., 1500.)][rng.choice(3, p=[.5, .3, .2])]
  if dense:
    spread = min(spread, 6.)
  sdc = int(rng.integers(A)) if sdc is None else sdc
  tr = gen_traj(rng, A, T, center, spread, hostile, sdc)
  kinds = tr.pop('kinds')
  valid = gen_valid(rng, A, T, sdc, full_prob=full_prob, sdc_full=sdc_full)
  fill = fill or rng.choice(INVALID_FILL)
  fill_invalid(rng, tr, valid, fill)
  tr['valid'] = valid
  ts = (100000 * np.arange(T)[None] + rng.integers(0, 50, (A, 1)) * 7).astype(np.int32)
  if fill == 'neg1':
    ts = np.where(valid, ts, -1).astype(np.int32)
  tr['timestamp_micros'] = ts
  is_sdc = np.arange(A) == sdc
  modeled = rng.random(A) < .4
  meta = dict(
      ids=(rng.permutation(A * 7)[:A] + 1).astype(np.int32),
      object_types=rng.integers(0, 5, A).astype(np.int32),
      is_sdc=is_sdc, is_modeled=modeled, is_valid=valid.any(-1),
      objects_of_interest=rng.random(A) < .2, is_controlled=rng.random(A) < .5)
  scene = dict(log=tr, meta=meta, tl=gen_lights(rng, L, T, center, spread),
               rg=gen_roadgraph(rng, R, center, spread, big_ids=big_ids) if R else None,
               paths=gen_paths(rng, P, N, tr, sdc) if P else None,
               sdc=sdc, kinds=kinds, fill=str(fill), center=center)
  return scene


def stack_scenes(scenes, batch=None):
  """Stacks scene dicts into one with leading batch dims."""
  def rec(vals):
    v0 = vals[0]
    if isinstance(v0, dict):
      return {k: rec([v[k] for v in vals]) for k in v0}
    if v0 is None:
      return None
    a = np.stack(vals)
    return a.reshape(tuple(batch) + a.shape[1:]) if batch is not None else a
  return {k: rec([s[k] for s in scenes]) for k in ['log', 'meta', 'tl', 'rg', 'paths']}


def make_state(scene, sim=None, timestep=None):
  """SimulatorState from a scene dict (jnp arrays)."""
  import jax.numpy as jnp
  from waymax import datatypes as dt
  j = lambda d: {k: jnp.asarray(v) for k, v in d.items()}
  log = dt.Trajectory(**j(scene['log']))
  if sim is None:
    sim_t = dt.Trajectory(**j(scene['log']))
  else:
    sim_t = dt.Trajectory(**j(sim))
  ts = jnp.asarray(-1 if timestep is None else timestep, dtype=jnp.int32)
  return dt.SimulatorState(
      sim_trajectory=sim_t, log_trajectory=log,
      log_traffic_light=dt.TrafficLights(**j(scene['tl'])),
      object_metadata=dt.ObjectMetadata(**j(scene['meta'])),
      timestep=ts,
      sdc_paths=dt.Paths(**j(scene['paths'])) if scene.get('paths') is not None else None,
      roadgraph_points=dt.RoadgraphPoints(**j(scene['rg'])) if scene.get('rg') is not None else None)


def to_np(tree):
  """Deep NumPy copy of a pytree."""
  import jax
  return jax.tree_util.tree_map(lambda x: np.array(x), tree)


def index_batch(tree, i):
  import jax
  return jax.tree_util.tree_map(lambda x: x[i], tree)


def sim_mid_episode(rng, scene, t, noise=1.0, A=None, turns=True):
  """A plausible sim trajectory: perturbed log up to t, invalid afterwards."""
  log = scene['log']
  sim = {k: np.array(v) for k, v in log.items()}
  shape = sim['x'].shape
  for k, s in [('x', 1.), ('y', 1.), ('yaw', .2), ('vel_x', 1.), ('vel_y', 1.)]:
    sim[k] = (sim[k] + np.cumsum(rng.normal(size=shape), -1) * .3 * s * noise).astype(F)
  sim['yaw'] = wrap(sim['yaw']).astype(F)
  if turns and rng.random() < .15:  # simulated headings need not be wrapped
    sim['yaw'] = (sim['yaw'] + 2 * np.pi * rng.integers(-2, 3, shape[:-1] + (1,))).astype(F)
  flip = rng.random(shape) < .05
  sim['valid'] = sim['valid'] ^ flip
  T = shape[-1]
  fut = np.arange(T) > t
  for k in sim:
    if k == 'valid':
      sim[k] = sim[k] & ~fut
    else:
      sim[k] = np.where(fut, np.array(-1, sim[k].dtype), sim[k])
  return sim
