"""C15: observations contain exactly the recent past in the chosen frame."""
import numpy as np
from harness import gen
from harness.checks.c14 import se2, ex
from harness.core import Part

PROPERTY = 'C15'
RULE = ('mid-episode states of random scenes x frames x history lengths x map sizes x batch shapes; every field of every '
        "observer's view is compared with a float64 reconstruction from the state, and recomputed after the future was "
        'overwritten; non-trivial: several steps of history or a non-world frame, with an invalid observer or point')
REQUIRED = ['event:recorded-size', 'obs:history-position', 'obs:history-velocity', 'obs:history-heading', 'obs:history-valid', 'obs:history-other',
            'obs:lights', 'obs:map-fields', 'obs:map-position', 'obs:map-nearest', 'obs:map-valid', 'obs:metadata', 'obs:is-ego',
            'obs:pose', 'obs:future-blind', 'obs:single-observer-view', 'obs:routes', 'obs:too-many-points-refused',
            'event:frame-GLOBAL', 'event:frame-SDC', 'event:frame-OBJECT', 'event:invalid-observer', 'event:few-valid-points',
            'event:own-timestep', 'event:whole-map', 'obs:unsupported-frame-refused']
ASSUMPTIONS = ['float32 rounding grows with coordinate size', 'map points within 1e-3 m of the k-th distance may be either kept or not',
               'views of observers that are invalid are only required to be invalid']

SHAPES = [(), (2,), (), (2, 2)]


def observe(c):
  import jax, jax.numpy as jnp
  from waymax import config as wc
  from waymax.datatypes import observation as ob
  r = c.rng
  B = SHAPES[c.shard % 4]
  A, T, R = [(5, 9, 40), (1, 6, 12), (4, 11, 80), (3, 7, 20)][(c.shard // 2) % 4]
  k = [1, 3, 2, 5][(c.shard + c.k // 36) % 4]
  K = [7, R, 1, 15][(c.shard // 2 + c.k // 36) % 4]
  K = min(K, R)
  frame = ['GLOBAL', 'SDC', 'OBJECT'][c.k % 3]
  sdc_fn = bool((c.k // 3) % 2)
  if c.recorded_size(18):
    B, A, T, R, k, K = (), 24, [91, 120][(c.k // 18) % 2], 600, 10, 200
    frame, sdc_fn = ['OBJECT', 'SDC', 'GLOBAL'][(c.k // 18) % 3], bool((c.k // 18) % 2)
  P = 2 if (c.k // 6) % 2 else 0
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=R, L=2, P=P, N=5, full_prob=.4, sdc_full=bool(r.random() < .7)) for _ in range(n)]
  for s in scenes:
    # unique, large ids identify map points
    s['rg']['ids'] = (16777216 + 3 * r.permutation(R * 5)[:R] + r.integers(0, 2)).astype(np.int32)
    if r.random() < .3:
      s['rg']['valid'] &= r.random(R) < .3
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(k - 1, T))
  simt = gen.sim_mid_episode(r, sc, t)
  for f in ('length', 'width', 'height'):  # sizes may be stored per step
    simt[f] = (simt[f] * r.uniform(.8, 1.2, simt[f].shape)).astype(np.float32)
  own = bool(len(B) == 1 and c.k % 2)
  ts = r.integers(k - 1, t + 1, B) if own else t
  c.hit('event:own-timestep', own)
  c.hit('event:frame-' + frame)
  c.hit('event:whole-map', K == R)
  st = gen.make_state(sc, simt, ts)
  F = getattr(wc.CoordinateFrame, frame)
  fn = ob.sdc_observation_from_state if sdc_fn else ob.observation_from_state
  key = (sdc_fn, frame, k, K)
  if key not in c.cache:
    c.cache[key] = jax.jit(lambda s: fn(s, k, K, F))
  obs = (lambda s: fn(s, k, K, F))(st) if c.k % 18 == 0 else c.cache[key](st)
  c.describe(A=A, T=T, batch=str(B), t=str(ts), steps=k, topk=K, frame=frame, sdc_view=sdc_fn, routes=P)
  c.signature(sc['log']['x'], simt['x'], k, K, frame, sdc_fn, np.asarray(ts))
  o = gen.to_np(obs)
  O = 1 if sdc_fn else A
  if not c.check('shape', tuple(obs.shape) == B + (O,), 'observation shape', got=str(obs.shape)):
    return
  fl = lambda q: np.asarray(q).reshape((n,) + np.asarray(q).shape[len(B):])
  tt = np.broadcast_to(np.asarray(ts), B).reshape(n)
  any_bad = False
  for b in range(n):
    s, u = scenes[b], int(tt[b])
    sm = {f: fl(v)[b] for f, v in simt.items()}
    sl = slice(u - k + 1, u + 1)
    for i in range(O):
      me = s['sdc'] if sdc_fn else i
      ref = s['sdc'] if frame == 'SDC' or sdc_fn else i
      if frame == 'GLOBAL':
        px, py, th, pv = 0., 0., 0., True
      else:
        px, py, th, pv = [sm[f][ref, u] for f in ('x', 'y', 'yaw', 'valid')]
      px, py, th, pv = float(px), float(py), float(th), bool(pv)
      c.hit('event:invalid-observer', not pv)
      g = lambda part, f: fl(getattr(getattr(o, part), f))[b][i]
      w = f'observer {i} frame {frame}'
      # pose
      c.close('pose', fl(o.pose2d.original_xy)[b][i], [px, py], atol=0, msg=w)
      c.close('pose', fl(o.pose2d.original_yaw)[b][i], th, atol=0, msg=w)
      c.eq('pose', fl(o.pose2d.valid)[b][i], pv, msg=w)
      # histories
      hv = sm['valid'][:, sl] & pv
      c.eq('history-valid', g('trajectory', 'valid'), hv, msg=w)
      xy = np.stack([sm['x'][:, sl], sm['y'][:, sl]], -1)
      cm = max(1., float(np.abs(xy).max()), abs(px), abs(py))
      tol = 1e-4 + 4e-6 * cm
      got = np.stack([g('trajectory', 'x'), g('trajectory', 'y')], -1)
      c.close('history-position', got, se2(th, px, py, xy.astype(np.float64)), atol=tol, rtol=1e-6, where=hv[..., None], msg=w)
      vel = np.stack([sm['vel_x'][:, sl], sm['vel_y'][:, sl]], -1).astype(np.float64)
      c.close('history-velocity', np.stack([g('trajectory', 'vel_x'), g('trajectory', 'vel_y')], -1), se2(th, 0., 0., vel),
              atol=2e-4 + 2e-6 * np.abs(vel).max(), where=hv[..., None], msg=w)
      c.angle_close('history-heading', g('trajectory', 'yaw'), sm['yaw'][:, sl].astype(np.float64) - th, atol=3e-5 + 1e-6 * np.abs(sm['yaw']).max(), where=hv, msg=w)
      for f in ('z', 'length', 'width', 'height', 'timestamp_micros'):
        c.eq('history-other', g('trajectory', f), sm[f][:, sl], where=hv, msg=f'{f} {w}')
      # lights
      tl = {f: v[:, sl] for f, v in s['tl'].items()}
      lv = tl['valid'] & pv
      c.eq('lights', g('traffic_lights', 'valid'), lv, msg=w)
      lxy = np.stack([tl['x'], tl['y']], -1).astype(np.float64)
      c.close('lights', np.stack([g('traffic_lights', 'x'), g('traffic_lights', 'y')], -1), se2(th, px, py, lxy),
              atol=tol + 4e-6 * np.abs(lxy).max(), where=lv[..., None], msg=w)
      for f in ('z', 'state', 'lane_ids'):
        c.eq('lights', g('traffic_lights', f), tl[f], where=lv, msg=f'{f} {w}')
      # metadata and flags
      for f, v in s['meta'].items():
        c.eq('metadata', g('metadata', f), v, msg=f'{f} {w}')
      c.eq('is-ego', fl(o.is_ego)[b][i], np.arange(A) == me, msg=w)
      # map
      rg = s['rg']
      m = {f: g('roadgraph_static_points', f) for f in rg}
      if not c.check('map-fields', m['x'].shape == (K,), 'number of map points', got=m['x'].shape):
        continue
      where = {int(q): j for j, q in enumerate(rg['ids'])}
      rows = np.array([where.get(int(q), -1) for q in m['ids']])
      if not c.check('map-fields', (rows >= 0).all() and len(set(rows.tolist())) == K, f'unknown or repeated map point, {w}', ids=m['ids']):
        continue
      c.eq('map-valid', m['valid'], rg['valid'][rows] & pv, msg=w)
      for f in ('z', 'dir_z', 'types'):
        c.eq('map-fields', m[f], rg[f][rows], msg=f'{f} {w}')
      rxy = np.stack([rg['x'], rg['y']], -1).astype(np.float64)
      mv = m['valid']
      c.close('map-position', np.stack([m['x'], m['y']], -1), se2(th, px, py, rxy[rows]), atol=tol + 4e-6 * np.abs(rxy).max(), where=mv[:, None], msg=w)
      rd = np.stack([rg['dir_x'], rg['dir_y']], -1).astype(np.float64)
      c.close('map-position', np.stack([m['dir_x'], m['dir_y']], -1), se2(th, 0., 0., rd[rows]), atol=2e-5, where=mv[:, None], msg='direction ' + w)
      cx, cy, cv = float(sm['x'][me, u]), float(sm['y'][me, u]), bool(sm['valid'][me, u])
      if cv:
        dist = np.where(rg['valid'], np.hypot(rxy[:, 0] - cx, rxy[:, 1] - cy), np.inf)
        left = np.setdiff1d(np.arange(R), rows)
        far, near = dist[rows].max(), (dist[left].min() if len(left) else np.inf)
        c.hit('event:few-valid-points', int(rg['valid'].sum() < K))
        c.check('map-nearest', not near < far - 1e-3 - 1e-6 * cm, f'a closer map point was left out, {w}', kept=far, omitted=near)
      any_bad |= (not pv) or (~rg['valid']).any()
      if c.failed:
        return
  if sdc_fn and P:
    for f, v in sc['paths'].items():
      c.eq('routes', getattr(o.sdc_paths, f), np.expand_dims(v, len(B)), msg=f)
  # the future must not matter
  st2 = poison_future(st, tt.reshape(B), r)
  o2 = gen.to_np(c.cache[key](st2))
  base = gen.to_np(c.cache[key](st))
  c.tree_eq('future-blind', o2, base)
  # one observer's view on its own
  if c.k % 6 == 1 or O == 1 or A > 20:
    for i in {int(r.integers(O)), O - 1}:
      one = gen.to_np(obs.for_obj(i))
      c.tree_eq('single-observer-view', one, jax.tree_util.tree_map(lambda q: np.take(q, [i], axis=len(B)), o))
  if c.k % 12 == 2:
    c.raises('too-many-points-refused', NotImplementedError, lambda: fn(st, k, R + 1, F), 'more map points than exist')
    c.raises('unsupported-frame-refused', (ValueError, NotImplementedError), lambda: fn(st, k, K, 'nowhere'), 'unknown frame')
  c.nontrivial(bool(any_bad and (k > 1 or frame != 'GLOBAL')))


def poison_future(st, ts, r):
  """Overwrites everything that lies after the current step (and the log altogether)."""
  import jax, jax.numpy as jnp
  T = st.sim_trajectory.num_timesteps
  def junk(x, mask):
    x = np.array(x)
    g = r.integers(0, 2, x.shape).astype(bool) if x.dtype == bool else (r.normal(size=x.shape) * 500).astype(x.dtype)
    return jnp.asarray(np.where(mask, g, x))
  fut = np.arange(T) > np.asarray(ts)[..., None, None]
  tm = jax.tree_util.tree_map
  return st.replace(sim_trajectory=tm(lambda x: junk(x, fut), st.sim_trajectory),
                    log_trajectory=tm(lambda x: junk(x, fut), st.log_trajectory),
                    log_traffic_light=tm(lambda x: junk(x, fut), st.log_traffic_light))


PARTS = [Part('observe', observe, shards=8, quick=36, thorough=600)]
