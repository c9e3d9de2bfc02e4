"""C13: box overlap decisions match exact rectangle geometry."""
import numpy as np
from harness import gen
from harness.core import Part

PROPERTY = 'C13'
RULE = ('random, near-contact, contained, crossing, axis-aligned and identical box pairs and sets are judged by a float64 '
        'separating-axis oracle (itself cross-checked by polygon clipping); scenes are judged per object and step; '
        'non-trivial: both overlapping and separated pairs present')
REQUIRED = ['event:recorded-size', 'obs:pair-decision', 'obs:pairwise-decision', 'obs:no-self-overlap', 'obs:metric-value', 'obs:metric-valid',
            'obs:oracle-cross-check', 'event:overlapping', 'event:separated', 'event:near-contact', 'event:crossing',
            'event:invalid-neighbour', 'event:crowd', 'event:metric-steps', 'event:own-timestep', 'obs:rigid-motion', 'event:duplicates']
ASSUMPTIONS = ['pairs within 2e-4 m (plus float32 resolution of the coordinates) of contact are not judged',
               'box sides are at least 1 cm']


def depth(a, b):
  """Signed overlap depth of box arrays (..., 5): > 0 iff the interiors intersect."""
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  d = b[..., :2] - a[..., :2]
  out = np.full(np.broadcast_shapes(a.shape, b.shape)[:-1], np.inf)
  ua = lambda q, k: np.stack([np.cos(q[..., 4] + k), np.sin(q[..., 4] + k)], -1)
  axes = lambda q: (ua(q, 0.), ua(q, np.pi / 2))
  A, B = axes(a), axes(b)
  dot = lambda p, q: (p * q).sum(-1)
  for ax in A + B:
    ra = a[..., 2] / 2 * np.abs(dot(A[0], ax)) + a[..., 3] / 2 * np.abs(dot(A[1], ax))
    rb = b[..., 2] / 2 * np.abs(dot(B[0], ax)) + b[..., 3] / 2 * np.abs(dot(B[1], ax))
    out = np.minimum(out, ra + rb - np.abs(dot(d, ax)))
  return out


def corners(box):
  x, y, l, w, h = [float(v) for v in box]
  c, s = np.cos(h), np.sin(h)
  return [(x + a * l / 2 * c - b * w / 2 * s, y + a * l / 2 * s + b * w / 2 * c)
          for a, b in [(1, -1), (1, 1), (-1, 1), (-1, -1)]]


def clip_area(p, q):
  """Area of the intersection of two convex counter-clockwise polygons."""
  poly = corners(p)
  cl = corners(q)
  for i in range(4):
    (x1, y1), (x2, y2) = cl[i], cl[(i + 1) % 4]
    side = lambda pt: (x2 - x1) * (pt[1] - y1) - (y2 - y1) * (pt[0] - x1)
    out = []
    for j in range(len(poly)):
      u, v = poly[j], poly[(j + 1) % len(poly)]
      su, sv = side(u), side(v)
      if su >= 0:
        out.append(u)
      if su * sv < 0:
        t = su / (su - sv)
        out.append((u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])))
    poly = out
    if not poly:
      return 0.
  return abs(sum(poly[i][0] * poly[(i + 1) % len(poly)][1] - poly[(i + 1) % len(poly)][0] * poly[i][1]
                 for i in range(len(poly)))) / 2


def tol(a, b):
  return 2e-4 + 1.5e-6 * np.maximum(np.abs(a[..., :2]).max(-1), np.abs(b[..., :2]).max(-1))


def gen_boxes(r, n, center):
  b = np.zeros((n, 5))
  b[:, :2] = np.array(center) + r.normal(size=(n, 2)) * r.choice([1., 4., 10.])
  b[:, 2] = r.choice([.5, 2., 4.6, 12., 30.], size=n) * r.uniform(.5, 1.5, n)
  b[:, 3] = r.choice([.3, 1., 2., 8.], size=n) * r.uniform(.5, 1.5, n)
  b[:, 4] = r.uniform(-np.pi, np.pi, n)
  ax = r.random(n) < .25
  b[:, 4] = np.where(ax, r.choice([0, np.pi / 2, -np.pi / 2, np.pi, np.pi / 4], size=n), b[:, 4])
  b[:, 4] += np.where(r.random(n) < .1, 2 * np.pi * r.integers(-3, 4, n), 0)
  return b


def pairs(c):
  import jax.numpy as jnp
  from waymax.utils import geometry
  r = c.rng
  center = [(0., 0.), (150., -80.), (3000., 4000.)][c.k % 3]
  n = 400
  a, b = gen_boxes(r, n, center), gen_boxes(r, n, center)
  kind = r.integers(0, 7, n)
  # crossing: same centre, perpendicular, longer than the other is wide
  m = kind == 1
  b[m, :2] = a[m, :2] + r.normal(size=(m.sum(), 2)) * .05
  b[m, 4] = a[m, 4] + np.pi / 2 + r.normal(size=m.sum()) * .1
  a[m, 2], b[m, 2], a[m, 3], b[m, 3] = 20., 20., 1., 1.
  c.hit('event:crossing', m.sum())
  # identical, contained
  m = kind == 2
  b[m] = a[m]
  m = kind == 3
  b[m, :2], b[m, 2:4] = a[m, :2], a[m, 2:4] * .3
  # near contact along a random direction
  m = (kind == 4) | (kind == 5)
  for i in np.where(m)[0]:
    u = r.uniform(-np.pi, np.pi) if kind[i] == 4 else a[i, 4] + r.choice([0, np.pi / 2, np.pi])
    lo, hi = 0., 80.
    for _ in range(40):
      mid = (lo + hi) / 2
      b[i, :2] = a[i, :2] + mid * np.array([np.cos(u), np.sin(u)])
      lo, hi = (mid, hi) if depth(a[i], b[i]) > 0 else (lo, mid)
    b[i, :2] = a[i, :2] + (lo + r.choice([-1, 1]) * r.choice([.003, .02, .1])) * np.array([np.cos(u), np.sin(u)])
  c.hit('event:near-contact', m.sum())
  a, b = a.astype(np.float32), b.astype(np.float32)
  dp = depth(a, b)
  judge = np.abs(dp) > tol(a, b)
  want = dp > 0
  got = np.asarray(geometry.has_overlap(jnp.asarray(a), jnp.asarray(b)))
  rev = np.asarray(geometry.has_overlap(jnp.asarray(b), jnp.asarray(a)))
  c.signature(a, b)
  c.describe(center=center, pairs=n, overlapping=int((want & judge).sum()), unjudged=int((~judge).sum()))
  c.hit('event:overlapping', (want & judge).sum())
  c.hit('event:separated', (~want & judge).sum())
  bad = (got != want) & judge
  c.check('pair-decision', not bad.any(), 'wrong overlap decision',
          **(dict(a=a[bad][0], b=b[bad][0], got=got[bad][0], depth=dp[bad][0]) if bad.any() else {}))
  c.eq('pair-decision', rev, got, where=judge, msg='not symmetric')
  for i in r.choice(n, 12, replace=False):
    if judge[i]:
      area = clip_area(a[i], b[i])
      c.check('oracle-cross-check', (area > 1e-9) == bool(want[i]), 'the oracles disagree', a=a[i], b=b[i], area=area)
  # moving both boxes together
  th, sh = r.uniform(-np.pi, np.pi), r.normal(size=2) * 30
  def mv(q):
    q = q.astype(np.float64)
    cs, sn = np.cos(th), np.sin(th)
    rel = q[:, :2] - np.array(center)
    o = q.copy()
    o[:, 0], o[:, 1] = cs * rel[:, 0] - sn * rel[:, 1] + sh[0], sn * rel[:, 0] + cs * rel[:, 1] + sh[1]
    o[:, 4] += th
    return o.astype(np.float32)
  g2 = np.asarray(geometry.has_overlap(jnp.asarray(mv(a)), jnp.asarray(mv(b))))
  c.eq('rigid-motion', g2, got, where=np.abs(dp) > tol(a, b) + 1e-3, msg='changed by a rigid motion of both')
  # sets of boxes, with leading dimensions
  B, A = [((), 12), ((3,), 7), ((2, 2), 5)][c.k % 3]
  s = gen_boxes(r, int(np.prod(B)) * A, center).reshape(B + (A, 5)).astype(np.float32)
  twin = r.random(A) < .3  # duplicated tracks
  s = np.where(twin[:, None], s[..., [int(r.integers(A))], :], s)
  c.hit('event:duplicates', twin.sum())
  pw = np.asarray(geometry.compute_pairwise_overlaps(jnp.asarray(s)))
  if c.check('pairwise-decision', pw.shape == B + (A, A), 'shape', shape=pw.shape):
    x, y = s[..., :, None, :], s[..., None, :, :]
    dp = depth(x, y)
    eye = np.eye(A, dtype=bool)
    c.check('no-self-overlap', not pw[..., eye].any(), 'a box overlaps itself')
    jd = (np.abs(dp) > tol(np.broadcast_to(x, dp.shape + (5,)), np.broadcast_to(y, dp.shape + (5,)))) & ~eye
    c.eq('pairwise-decision', pw, dp > 0, where=jd)
  c.nontrivial(bool((want & judge).any() and (~want & judge).any()))


def metric(c):
  import jax, jax.numpy as jnp
  from waymax import metrics
  r = c.rng
  A, T = [(7, 8), (1, 4), (12, 6), (3, 10)][c.shard % 4]
  B = [(), (2,), (2, 2)][(c.shard + c.k // 24) % 3]
  if c.recorded_size():
    A, T, B = 64, 91, ()
  crowd = c.shard == 1 and c.k % 40 == 17  # more objects on one spot than a narrow counter holds
  if crowd:
    A, T, B = int(r.choice([128, 129, 256, 257])), 2, ()
    c.hit('event:crowd')
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1, spread=float(r.choice([2., 5., 15.])), full_prob=.3, sdc_full=False)
            for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(0, T))
  simt = gen.sim_mid_episode(r, sc, t)
  if crowd:
    simt['x'][...], simt['y'][...] = r.normal(size=simt['x'].shape) * .02, r.normal(size=simt['x'].shape) * .02
    simt['valid'][..., :t + 1] = True
  if A > 1 and r.random() < .4:
    i, j = r.choice(A, 2, replace=False)  # a duplicated track
    for f in ('x', 'y', 'yaw', 'length', 'width'):
      simt[f][..., j, :] = simt[f][..., i, :]
  own = bool(len(B) == 1 and c.k % 2)
  ts = r.integers(0, t + 1, B) if own else t
  c.hit('event:own-timestep', own)
  if 'f' not in c.cache:
    c.cache['f'] = jax.jit(metrics.OverlapMetric().compute)
  st = gen.make_state(sc, simt, ts)
  fn = metrics.OverlapMetric().compute if c.k % 12 == 0 else c.cache['f']
  res = fn(st)
  got, gv = np.asarray(res.value), np.asarray(res.valid)
  take = lambda q: np.take_along_axis(q, np.broadcast_to(np.asarray(ts)[..., None, None], B + (A, 1)), -1)[..., 0]
  box = np.stack([take(simt[k]) for k in ['x', 'y', 'length', 'width', 'yaw']], -1)
  valid = take(simt['valid'])
  c.signature(box, valid)
  c.describe(A=A, T=T, batch=str(B), t=str(ts), valid=valid)
  c.eq('metric-valid', gv, valid)
  x, y = box[..., :, None, :], box[..., None, :, :]
  dp = depth(x, y)
  tl = tol(np.broadcast_to(x, dp.shape + (5,)), np.broadcast_to(y, dp.shape + (5,)))
  other = ~np.eye(A, dtype=bool) & valid[..., None, :]
  sure = ((dp > tl) & other).any(-1)
  maybe = ((dp > -tl) & other).any(-1)
  c.hit('event:metric-steps')
  c.hit('event:overlapping', (sure & valid).sum())
  c.hit('event:invalid-neighbour', ((dp > 0) & ~np.eye(A, dtype=bool) & ~valid[..., None, :] & valid[..., None]).sum())
  c.eq('metric-value', got, sure.astype(np.float32), where=valid & (sure == maybe), msg=f't={ts}')
  c.nontrivial(bool(sure.any() and (~maybe).any()) or A == 1)


def boxes(c):
  [pairs, metric, metric][c.k % 3](c)


PARTS = [Part('boxes', boxes, shards=8, quick=60, thorough=1500)]
