"""C18: off-road means a box corner crosses the nearest road edge."""
import numpy as np
from harness import gen, world
from harness.core import Part

PROPERTY = 'C18'
RULE = ('random multi-level maps mixing all element types, shared ids and invalid points x boxes of all headings; per corner a '
        'float64 oracle finds the nearest edge and the side; cases where rounding could change the nearest edge or the side '
        'are not judged; non-trivial: both on-road and off-road objects judged')
REQUIRED = ['event:recorded-size', 'obs:metric-value', 'obs:metric-valid', 'obs:signed-distance', 'event:offroad', 'event:onroad', 'event:nearest-is-not-edge',
            'event:nearest-invalid', 'event:elevation-decides', 'event:stretch-decides', 'event:prior-decides', 'event:curve-head-decides', 'event:no-edges', 'event:own-timestep',
            'event:one-corner-off', 'obs:others-irrelevant', 'obs:other-elements-irrelevant']
ASSUMPTIONS = ['corners whose nearest edge or side is ambiguous at float32 resolution are not judged', 'invalid objects are not judged']
SHAPES = [(5, 4, ()), (3, 4, (2,)), (1, 3, ()), (4, 3, (2, 2)), (8, 5, ()), (2, 4, (3,)), (6, 4, ()), (12, 3, ())]


def edge_sign(q, rg, stretch=2.0):
  """Per query (n,3): (sign or 0 when ambiguous, signed distance, info)."""
  x = {k: np.asarray(v, np.float64) if v.dtype.kind == 'f' else v for k, v in rg.items()}
  edge = rg['valid'] & np.isin(rg['types'], [15, 16])
  n = len(q)
  if not edge.any():
    return -np.ones(n), np.full(n, -np.inf), dict(none=True)
  P = np.stack([x['x'], x['y'], x['z']], -1)
  D = P[None] - q[:, None].astype(np.float64)
  sq = lambda s: (D * np.array([1., 1., s])) ** 2
  d2 = np.where(edge, sq(stretch).sum(-1), np.inf)
  near = d2.argmin(-1)
  dmin = np.sqrt(d2.min(-1))
  tol = 1e-3 + 1e-4 * dmin + 2e-6 * np.abs(P[:, :2]).max()
  cand = np.sqrt(d2) <= (dmin + tol)[:, None]
  heads = []
  def cross(i):
    dd = q[:, :2] - np.stack([x['x'][i], x['y'][i]], -1)
    j = np.maximum(i - 1, 0)
    c0 = dd[:, 0] * x['dir_y'][i] - dd[:, 1] * x['dir_x'][i]
    c1 = dd[:, 0] * x['dir_y'][j] - dd[:, 1] * x['dir_x'][j]
    same = (rg['ids'][i] == rg['ids'][j]) & rg['valid'][j]
    heads.append(~same & rg['valid'][j] & (rg['types'][i] == rg['types'][j]) & (np.sign(np.minimum(c0, c1)) != np.sign(c0)))
    return np.where(same & (c1 < c0), c1, c0), c0, np.hypot(dd[:, 0], dd[:, 1])
  sure = np.zeros(n, bool)
  sgn = np.zeros(n)
  ctol = 2e-4 + 1e-6 * np.abs(P[:, :2]).max()
  val, c0, dxy = cross(near)
  sgn = np.where(np.abs(val) > ctol, np.sign(val), 0.)
  for i in range(P.shape[0]):
    m = cand[:, i] & (near != i)
    if m.any():
      v, _, _ = cross(np.full(n, i))
      agree = (np.sign(v) == sgn) & (np.abs(v) > ctol)
      sgn = np.where(m & ~agree, 0., sgn)
  unique = cand.sum(-1) == 1
  info = dict(none=False, unique=unique,
              not_edge=(np.where(rg['valid'], sq(stretch).sum(-1), np.inf).argmin(-1) != near),
              invalid=(np.where(np.isin(rg['types'], [15, 16]), sq(stretch).sum(-1), np.inf).argmin(-1) != near),
              elev=(np.where(edge, sq(0.).sum(-1), np.inf).argmin(-1) != near),
              stretch=(np.where(edge, sq(1.).sum(-1), np.inf).argmin(-1) != near),
              prior=np.sign(val) != np.sign(c0), head=heads[0])
  return sgn, sgn * dxy, info


def make_map(r, R, center, z):
  rg = gen.gen_roadgraph(r, R, center, spread=float(r.choice([4., 12.])), zspread=float(r.choice([.3, 2., 4.])),
                         edge_frac=float(r.choice([.2, .5, .9])), invalid_frac=float(r.choice([0., .1, .4])), npoly=int(r.choice([1, 3, max(1, R // 8)])))
  if r.random() < .35:
    # many short edges of the same type, next to each other in memory
    rg = gen.gen_roadgraph(r, R, center, spread=float(r.choice([4., 12.])), zspread=.3, edge_frac=.95, invalid_frac=.05, npoly=max(1, R // 3))
    rg['types'] = np.where(rg['types'] == 16, 15, rg['types']).astype(np.int32)
  if r.random() < .5:
    # sharp corners: two directions on one curve
    turn = r.random(R) < .3
    th = r.uniform(-np.pi, np.pi, R)
    rg['dir_x'] = np.where(turn, np.cos(th), rg['dir_x']).astype(np.float32)
    rg['dir_y'] = np.where(turn, np.sin(th), rg['dir_y']).astype(np.float32)
  if r.random() < .12:
    rg['types'] = np.where(np.isin(rg['types'], [15, 16]), 14, rg['types']).astype(np.int32)
  if r.random() < .2:
    # a curve whose head is invalid
    rg['valid'][: int(r.integers(0, R // 2 + 1))] = False
  rg['z'] = (rg['z'] + z).astype(np.float32)
  return rg


def offroad(c):
  import jax, jax.numpy as jnp
  from waymax import metrics, datatypes as dt
  from waymax.metrics import roadgraph as mrg
  r = c.rng
  R = [30, 12, 60, 2, 1, 40, 90, 25][c.shard]
  A, T, B = SHAPES[c.shard]
  if c.recorded_size(35):
    A, T, B, R = 32, [120, 91][(c.k // 35) % 2], (), 2000
  n = int(np.prod(B))
  center = [(0., 0.), (200., -90.), (2500., 1200.)][r.integers(3)]
  scenes = []
  for _ in range(n):
    s = gen.gen_scene(r, A=A, T=T, R=R, L=1, center=center, spread=float(r.choice([3., 10.])), full_prob=.6, sdc_full=False)
    s['rg'] = make_map(r, R, center, float(np.median(s['log']['z'])))
    if r.random() < .3:
      s['log']['length'] *= 3
    scenes.append(s)
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(0, T))
  simt = gen.sim_mid_episode(r, sc, t)
  own = bool(len(B) == 1 and c.k % 2)
  ts = r.integers(0, t + 1, B) if own else t
  c.hit('event:own-timestep', own)
  m = metrics.OffroadMetric()
  if 'f' not in c.cache:
    c.cache['f'] = jax.jit(m.compute)
    c.cache['g'] = jax.jit(mrg.compute_signed_distance_to_nearest_road_edge_point)
  st = gen.make_state(sc, simt, ts)
  res = (m.compute if c.k % 10 == 0 else c.cache['f'])(st)
  got, gv = np.asarray(res.value), np.asarray(res.valid)
  if not c.check('metric-value', got.shape == B + (A,) and gv.shape == B + (A,), 'shape', shape=got.shape):
    return
  a = lambda k: world.at_step(simt[k], ts, B).reshape(n, A)
  q = {k: a(k) for k in ['x', 'y', 'z', 'yaw', 'length', 'width', 'valid']}
  c.signature(q['x'], sc['rg']['x'], sc['rg']['valid'])
  c.describe(A=A, R=R, batch=str(B), t=str(ts))
  c.eq('metric-valid', gv.reshape(n, A), np.ones((n, A), bool), where=q['valid'])
  got = got.reshape(n, A)
  on = off = 0
  for b in range(n):
    half = np.array([[1, -1], [1, 1], [-1, 1], [-1, -1]]) / 2
    f = {k: v[b].astype(np.float64) for k, v in q.items() if k != 'valid'}
    lx, ly = half[:, 0] * f['length'][:, None], half[:, 1] * f['width'][:, None]
    cs, sn = np.cos(f['yaw'])[:, None], np.sin(f['yaw'])[:, None]
    cor = np.stack([f['x'][:, None] + cs * lx - sn * ly, f['y'][:, None] + sn * lx + cs * ly,
                    np.broadcast_to(f['z'][:, None], (A, 4))], -1)
    sg, sd, info = edge_sign(cor.reshape(-1, 3), scenes[b]['rg'])
    sg = sg.reshape(A, 4)
    v = q['valid'][b]
    if info['none']:
      c.hit('event:no-edges')
    else:
      rep = lambda k: (info[k].reshape(A, 4) & (sg != 0) & v[:, None]).sum()
      c.hit('event:nearest-is-not-edge', rep('not_edge'))
      c.hit('event:nearest-invalid', rep('invalid'))
      c.hit('event:elevation-decides', rep('elev'))
      c.hit('event:stretch-decides', rep('stretch'))
      c.hit('event:prior-decides', rep('prior'))
      c.hit('event:curve-head-decides', rep('head'))
    sure_off = (sg > 0).any(-1)
    sure_on = (sg < 0).all(-1)
    c.hit('event:one-corner-off', (((sg > 0).sum(-1) == 1) & v).sum())
    on += int((sure_on & v).sum())
    off += int((sure_off & v).sum())
    c.eq('metric-value', got[b], sure_off.astype(np.float32), where=v & (sure_off | sure_on), msg=f'scenario {b} t={ts}')
  c.hit('event:onroad', on)
  c.hit('event:offroad', off)
  # the shared primitive on free query points
  s = scenes[0]
  qp = np.stack([s['rg']['x'], s['rg']['y'], s['rg']['z']], -1)[r.integers(0, R, 24)] + r.normal(size=(24, 3)) * [4., 4., 1.]
  qp = qp.astype(np.float32)
  g = np.asarray(c.cache['g'](jnp.asarray(qp), dt.RoadgraphPoints(**{k: jnp.asarray(v) for k, v in s['rg'].items()})))
  sg, sd, info = edge_sign(qp, s['rg'])
  if info['none']:
    c.check('signed-distance', not (g > 0).any(), 'off-road without any road edge')
  else:
    cm = np.abs(np.stack([s['rg']['x'], s['rg']['y']])).max()
    c.close('signed-distance', g, sd, atol=1e-3 + 1e-6 * cm, where=(sg != 0) & info['unique'])
  # non-edge elements and other objects are irrelevant
  if c.k % 3 == 0:
    edge = sc['rg']['valid'] & np.isin(sc['rg']['types'], [15, 16])
    rg2 = dict(sc['rg'])
    for k in ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z'):
      rg2[k] = np.where(edge, rg2[k], (r.normal(size=edge.shape) * 300)).astype(np.float32)
    # garbage stays a different curve
    rg2['ids'] = np.where(edge, rg2['ids'], -7).astype(np.int32)
    o = np.asarray(c.cache['f'](gen.make_state({**sc, 'rg': rg2}, simt, ts)).value).reshape(n, A)
    ok = q['valid'].copy()
    if (edge != sc['rg']['valid']).any() or True:
      # ids of elements preceding an edge on the same curve were kept above only for edges
      c.eq('other-elements-irrelevant', o, got, where=ok & same_curve_safe(sc['rg'], edge, B, n)[:, None])
    sim2 = {k: v.copy() for k, v in simt.items()}
    keep = int(r.integers(A))
    for k in ('x', 'y', 'z', 'yaw'):
      g2 = (r.normal(size=sim2[k].shape) * 50).astype(np.float32)
      g2[..., keep, :] = sim2[k][..., keep, :]
      sim2[k] = g2
    o = np.asarray(c.cache['f'](gen.make_state(sc, sim2, ts)).value).reshape(n, A)
    c.eq('others-irrelevant', o[:, keep], got[:, keep], where=q['valid'][:, keep])
  c.nontrivial(bool(on and off) or A == 1)


def same_curve_safe(rg, edge, B, n):
  """No edge point is directly preceded by a valid non-edge point of its own id."""
  prev = np.roll(rg['ids'], 1, -1)
  prev_bad = np.roll(rg['valid'] & ~edge, 1, -1)
  prev_bad[..., 0] = False
  return ~((edge & (rg['ids'] == prev) & prev_bad).any(-1)).reshape(n)


PARTS = [Part('offroad', offroad, shards=8, quick=140, thorough=3000)]
