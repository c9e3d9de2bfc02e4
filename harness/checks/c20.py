"""C20: route metrics measure the ego against its legal paths."""
import numpy as np
from harness import gen, world
from harness.core import Part

PROPERTY = 'C20'
RULE = ('random path sets (partly or wholly invalid, mixed on-/off-route, closed, short) x car positions near and far x steps '
        'and batch shapes; wrong-way, off-route and progression compared with float64 oracles; decisions within rounding of a '
        'threshold or a tie between paths are not judged; non-trivial: both zero and non-zero results in the case')
REQUIRED = ['event:recorded-size', 'obs:wrongway', 'obs:wrongway-valid', 'obs:off-route', 'obs:off-route-valid', 'obs:progression', 'obs:progression-valid',
            'obs:missing-paths-refused', 'event:wrong-way', 'event:legal', 'event:off-by-distance', 'event:off-by-comparison', 'event:on-route',
            'event:no-path', 'event:only-off-route-paths', 'event:car-absent', 'event:progress-partial', 'event:same-point',
            'event:nearest-invalid', 'event:own-timestep', 'event:batch', 'event:off-route-path-closer']
ASSUMPTIONS = ['wrong-way is judged for a car that is currently valid', 'progression is judged when the car is valid at log start and end',
               'thresholds 3.5 m (wrong way), 5 m and 2 m (off route)']
SHAPES = [(4, 8, (), 3, 20), (3, 6, (4,), 2, 10), (1, 5, (), 5, 6), (3, 6, (2, 2), 1, 12), (5, 10, (), 8, 30), (2, 7, (3,), 4, 8)]


def paths_for(r, s, P, N):
  mode = r.choice(['along', 'wide', 'short'])
  p = gen.gen_paths(r, P, N, s['log'], s['sdc'], invalid_frac=float(r.choice([0., .2, .6])), lateral=float(r.choice([2., 8., 25.])))
  k = r.random()
  if k < .08:
    p['valid'][:] = False
  elif k < .2:
    p['on_route'][:] = False
  elif k < .3:
    p['on_route'][:] = True
  elif k < .38:
    p['arc_length'][:] = p['arc_length'][:, :1]  # closed: start and end coincide
  if r.random() < .3:
    # the valid points start in the middle
    p['valid'][:, :int(r.integers(0, N // 2 + 1))] = False
  if r.random() < .4:
    # padded garbage that happens to be close to the car
    bad = ~p['valid']
    for f in ('x', 'y'):
      p[f][bad] = s['log'][f][s['sdc'], 0]
  return p


def routes(c):
  import jax
  from waymax import metrics
  r = c.rng
  A, T, B, P, N = SHAPES[c.shard % len(SHAPES)]
  if c.recorded_size(30):
    A, T, B, P, N = 32, [120, 91][(c.k // 30) % 2], (), 30, 300
  n = int(np.prod(B))
  scenes = []
  for _ in range(n):
    s = gen.gen_scene(r, A=A, T=T, R=0, L=1, center=[(0., 0.), (300., -700.)][r.integers(2)], sdc_full=bool(r.random() < .8))
    s['paths'] = paths_for(r, s, P, N)
    scenes.append(s)
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(0, T))
  simt = gen.sim_mid_episode(r, sc, t, noise=float(r.choice([0., 1., 6.])))
  own = bool(len(B) == 1 and c.k % 2)
  ts = r.integers(0, t + 1, B) if own else t
  c.hit('event:own-timestep', own)
  c.hit('event:batch', bool(B))
  fs = dict(w=metrics.WrongWayMetric(), o=metrics.OffRouteMetric(), p=metrics.ProgressionMetric())
  if 'f' not in c.cache:
    c.cache['f'] = jax.jit(lambda s: {k: m.compute(s) for k, m in fs.items()})
  st = gen.make_state(sc, simt, ts)
  out = {k: m.compute(st) for k, m in fs.items()} if c.k % 12 == 0 else c.cache['f'](st)
  out = {k: (np.asarray(m.value), np.asarray(m.valid)) for k, m in out.items()}
  c.describe(A=A, T=T, paths=P, points=N, batch=str(B), t=str(ts))
  c.signature(simt['x'], sc['paths']['x'], sc['paths']['valid'], np.asarray(ts))
  for k, (v, m) in out.items():
    if not c.check('shape', v.shape == B and m.shape == B, f'{k}: one value per scenario', got=v.shape):
      return
  out = {k: (v.reshape(n), m.reshape(n)) for k, (v, m) in out.items()}
  tt = np.broadcast_to(np.asarray(ts), B).reshape(n)
  fl = {k: v.reshape((n,) + v.shape[len(B):]) for k, v in simt.items()}
  seen = set()
  for b in range(n):
    s, u, e = scenes[b], int(tt[b]), scenes[b]['sdc']
    p = s['paths']
    car = np.array([fl['x'][b, e, u], fl['y'][b, e, u]], np.float64)
    cv = bool(fl['valid'][b, e, u])
    px = np.stack([p['x'], p['y']], -1).astype(np.float64)
    d = np.linalg.norm(px - car, axis=-1)
    dv = np.where(p['valid'], d, np.inf)
    tol = 1e-3 + 1e-6 * np.abs(px).max() + 2e-6 * np.abs(car).max()
    w = f'scenario {b} step {u}'
    c.hit('event:no-path', not p['valid'].any())
    c.hit('event:car-absent', not cv)
    if p['valid'].any():
      c.hit('event:nearest-invalid', not p['valid'].ravel()[d.argmin()])
    # wrong way
    if cv:
      v, m = out['w'][0][b], out['w'][1][b]
      c.eq('wrongway-valid', m, bool(p['valid'].any()), msg=w)
      if p['valid'].any():
        md = dv.min()
        if abs(md - 3.5) > tol:
          c.hit('event:wrong-way' if md > 3.5 else 'event:legal')
          seen.add(md > 3.5)
          c.close('wrongway', v, md if md > 3.5 else 0., atol=tol, rtol=1e-5, msg=w)
    # off route
    on = np.where(p['on_route'] & p['valid'], d, np.inf).min()
    off = np.where(~p['on_route'] & p['valid'], d, np.inf).min()
    v, m = out['o'][0][b], out['o'][1][b]
    usable = cv and np.isfinite(on)
    c.hit('event:only-off-route-paths', bool(cv and not np.isfinite(on) and np.isfinite(off)))
    c.eq('off-route-valid', m, usable, msg=w)
    if usable:
      if abs(on - 5.) > tol and (not np.isfinite(off) or abs(on - off - 2.) > 2 * tol):
        far, cmp_ = on > 5., on - off > 2.
        c.hit('event:off-by-distance', far)
        c.hit('event:off-by-comparison', cmp_ and not far)
        c.hit('event:on-route', not (far or cmp_))
        c.hit('event:off-route-path-closer', off < on)
        c.close('off-route', v, on if far or cmp_ else 0., atol=tol, rtol=1e-5, msg=w)
    # progression
    v, m = out['p'][0][b], out['p'][1][b]
    c.eq('progression-valid', m, usable, msg=w)
    lv = s['log']['valid'][e]
    if usable and lv[0] and lv[-1]:
      per = np.where(p['on_route'] & p['valid'], d, np.inf).min(-1)
      best = int(per.argmin())
      tie = np.delete(per, best)
      if not len(tie) or tie.min() > per[best] + 2 * tol:
        def arc(pt):
          q = np.where(p['valid'][best], np.linalg.norm(px[best] - pt, axis=-1), np.inf)
          i = int(q.argmin())
          near = q <= q[i] + 2 * tol
          a = p['arc_length'][best].astype(np.float64)
          return a[i], len(set(a[near].tolist())) == 1
        lg = s['log']
        (a0, k0), (a1, k1), (a, k2) = [arc(np.array([x, y], np.float64)) for x, y in
                                       [(lg['x'][e, 0], lg['y'][e, 0]), (lg['x'][e, -1], lg['y'][e, -1]), car]]
        if k0 and k1 and k2:
          want = 1. if a0 == a1 else (a - a0) / (a1 - a0)
          c.hit('event:same-point', a0 == a1)
          c.hit('event:progress-partial', a0 != a1 and 0 < want < 1)
          c.close('progression', v, want, atol=1e-4, rtol=1e-4, msg=w)
  if c.k % 15 == 1:
    bare = st.replace(sdc_paths=None)
    for k in ('o', 'p'):
      c.raises('missing-paths-refused', ValueError, lambda: fs[k].compute(bare), 'no routes')
  c.nontrivial(len(seen) > 1 or n == 1)


PARTS = [Part('routes', routes, shards=6, quick=120, thorough=3000)]
