"""C24: nearest-map-point filtering is exact and lossless."""
import numpy as np
from harness import gen
from harness.core import Part

PROPERTY = 'C24'
RULE = ('random maps (ids beyond 2**24, all types, all validity patterns, distance ties, far points) x reference points x k x '
        'batch shapes; output points are matched to input rows bit for bit and compared with a float64 ranking; '
        'non-trivial: k smaller than the number of valid points')
REQUIRED = ['event:recorded-size', 'obs:member', 'obs:no-duplicate', 'obs:nearest', 'obs:invalid-only-if-needed', 'obs:whole-map', 'obs:too-many-refused',
            'obs:input-intact', 'event:big-ids', 'event:ties', 'event:few-valid', 'event:none-valid', 'event:batch', 'obs:road-edge-types']
ASSUMPTIONS = ['distances equal within 1e-6 relative count as ties']


def filt(c):
  import jax, jax.numpy as jnp
  from waymax import datatypes as dt
  r = c.rng
  B = [(), (3,), (2, 2), (1,)][c.shard % 4]
  R = [1, 30, 200, 64, 7, 120, 2, 400][(c.shard + c.k // 16) % 8]
  if c.recorded_size():
    R = 20000
  n = int(np.prod(B))
  maps, refs = [], []
  for _ in range(n):
    center = [(0., 0.), (500., -300.), (-8000., 6000.)][r.integers(3)]
    m = gen.gen_roadgraph(r, R, center, spread=float(r.choice([10., 100.])), big_ids=bool(r.random() < .6))
    if m['ids'].max() > 2**24:
      c.hit('event:big-ids')
    mode = r.choice(['plain', 'few', 'none', 'ties', 'full'], p=[.4, .2, .1, .2, .1])
    if mode == 'few':
      m['valid'] &= r.random(R) < .15
    elif mode == 'none':
      m['valid'][:] = False
    elif mode == 'full':
      m['valid'][:] = True
    elif mode == 'ties':
      q = r.integers(0, max(1, R // 3), R)
      for f in ('x', 'y'):
        m[f] = m[f][q]
    c.hit('event:' + {'few': 'few-valid', 'none': 'none-valid', 'ties': 'ties'}.get(mode, 'plain-map'))
    # every row is identifiable
    m['dir_z'] = np.arange(R).astype(np.float32) + r.random()
    j = r.integers(R)
    refs.append(np.array([m['x'][j], m['y'][j]]) + r.normal(size=2) * r.choice([0., 3., 60.]))
    maps.append(m)
  st = lambda f: np.stack([m[f] for m in maps]).reshape(B + (R,))
  rg = dt.RoadgraphPoints(**{f: jnp.asarray(st(f)) for f in maps[0]})
  ref = np.stack(refs).reshape(B + (2,)).astype(np.float32)
  k = int(r.choice([1, max(1, R // 2), max(1, R - 1), int(r.integers(1, R + 1)), R]))
  before = gen.to_np(dict(rg))
  out = gen.to_np(dict(dt.filter_topk_roadgraph_points(rg, jnp.asarray(ref), k)))
  c.signature(before['x'], before['valid'], ref, k)
  c.describe(points=R, k=k, batch=str(B))
  c.hit('event:batch', bool(B))
  c.tree_eq('input-intact', gen.to_np(dict(rg)), before)
  if k == R:
    c.tree_eq('whole-map', out, before)
  deep = False
  for b in range(n):
    m = maps[b]
    o = {f: v.reshape((n,) + v.shape[len(B):])[b] for f, v in out.items()}
    if not c.check('member', o['x'].shape == (k,), 'number of points', got=o['x'].shape):
      return
    rows = []
    order = {float(v): i for i, v in enumerate(m['dir_z'])}
    for i in range(k):
      row = order.get(float(o['dir_z'][i]))
      good = row is not None and all(o[f][i] == m[f][row] and o[f].dtype == m[f].dtype for f in m)
      if not c.check('member', good, 'output point is not an input point with every field intact',
                     out={f: float(o[f][i]) for f in o}, inp=None if row is None else {f: float(m[f][row]) for f in m}):
        return
      rows.append(row)
    c.check('no-duplicate', len(set(rows)) == k, 'a point appears twice', rows=rows)
    rb = ref.reshape(n, 2)[b].astype(np.float64)
    dist = np.hypot(m['x'].astype(np.float64) - rb[0], m['y'].astype(np.float64) - rb[1])
    kept = np.zeros(R, bool)
    kept[rows] = True
    nv = int(m['valid'].sum())
    kv = kept & m['valid']
    if (~kept & m['valid']).any():
      far = dist[kv].max() if kv.any() else -1.
      near = dist[~kept & m['valid']].min()
      tol = 1e-3 + 2e-7 * (np.abs(m['x']).max() + np.abs(m['y']).max()) + 1e-6 * near
      c.check('nearest', near >= far - tol, 'an omitted valid point is closer than a kept one', kept=far, omitted=near)
      c.check('invalid-only-if-needed', not (kept & ~m['valid']).any(), 'an invalid point was kept while valid ones were omitted')
      deep = True
    else:
      c.check('invalid-only-if-needed', int(kv.sum()) == min(k, nv), 'valid points missing')
  if c.k % 8 == 0:
    c.raises('too-many-refused', NotImplementedError, lambda: dt.filter_topk_roadgraph_points(rg, jnp.asarray(ref), R + 1), 'k > number of points')
  ty = np.arange(-1, 25).astype(np.int32)
  c.eq('road-edge-types', np.asarray(dt.is_road_edge(jnp.asarray(ty))), (ty == 15) | (ty == 16))
  c.nontrivial(deep)


PARTS = [Part('filter', filt, shards=8, quick=60, thorough=1500)]
