"""C14: coordinate transforms are rigid motions."""
import numpy as np
from harness import gen, sim
from harness.core import Part

PROPERTY = 'C14'
RULE = ('random poses, points, directions, headings, box trajectories and observation parts of several leading shapes are '
        'transformed by the real helpers and compared with float64 rigid motions, inverted and composed; non-trivial: '
        'a pose that both turns and shifts')
REQUIRED = ['obs:rotate', 'obs:pose-matrix', 'obs:pose-to-origin', 'obs:points', 'obs:distances', 'obs:directions',
            'obs:inverse-restores', 'obs:trajectory-array', 'obs:bad-dof-refused', 'obs:corners', 'obs:corner-order',
            'obs:bbox-corners', 'obs:wrap', 'obs:pose2d', 'obs:trajectory', 'obs:roadgraph', 'obs:traffic-lights', 'obs:compose',
            'event:extra-dims', 'event:many-turns', 'obs:rotation-matrix']
ASSUMPTIONS = ['float32 rounding: tolerance grows with coordinate size and with the size of the wrapped heading']

PRE = [(), (3,), (2, 2)]


def se2(th, x, y, p):
  """World -> frame of pose (x, y, th)."""
  dx, dy = p[..., 0] - x, p[..., 1] - y
  c, s = np.cos(th), np.sin(th)
  return np.stack([c * dx + s * dy, -s * dx + c * dy], -1)


def ex(a, n):
  return a.reshape(a.shape + (1,) * n)


def helpers(c):
  import jax.numpy as jnp
  from waymax.utils import geometry as g
  r = c.rng
  P = PRE[(c.shard + c.k // 40) % 3]
  extra = [(5,), (2, 4), (6, 1)][c.k % 3]
  ne = len(extra)
  scale = float(r.choice([1., 60., 3000.]))
  tol = 3e-5 + 1.2e-6 * scale * 2
  th = r.uniform(-np.pi, np.pi, P) + 2 * np.pi * r.integers(-2, 3, P) * (r.random() < .2)
  xy = r.normal(size=P + (2,)) * scale
  th, xy = np.asarray(th, np.float32), xy.astype(np.float32)
  T64, X64 = th.astype(np.float64), xy.astype(np.float64)
  pts = (xy.reshape(P + (1,) * ne + (2,)) + r.normal(size=P + extra + (2,)) * r.choice([5., 80.])).astype(np.float32)
  p64 = pts.astype(np.float64)
  j = jnp.asarray
  c.signature(th, xy, pts)
  c.describe(prefix=str(P), extra=str(extra), scale=scale)
  c.hit('event:extra-dims', ne > 1)
  # rotation
  M = np.asarray(g.rotation_matrix_2d(j(th)))
  want = np.stack([np.cos(T64), -np.sin(T64), np.sin(T64), np.cos(T64)], -1).reshape(P + (2, 2))
  c.close('rotation-matrix', M, want, atol=3e-6)
  d = r.normal(size=P + extra + (2,)).astype(np.float32) * 9
  rp = np.asarray(g.rotate_points(j(M), j(d)))
  cs, sn = ex(np.cos(T64), ne), ex(np.sin(T64), ne)
  c.close('rotate', rp, np.stack([cs * d[..., 0] - sn * d[..., 1], sn * d[..., 0] + cs * d[..., 1]], -1), atol=2e-4)
  # pose
  pm, py = g.pose_from_xy_yaw(j(xy), j(th))
  pm_, py_ = np.asarray(pm), np.asarray(py)
  c.check('pose-matrix', pm_.shape == P + (3, 3) and py_.shape == P, 'shape')
  c.close('pose-matrix', py_, -T64, atol=1e-6)
  c.close('pose-matrix', pm_[..., :2, :2], np.swapaxes(want, -1, -2), atol=3e-6)
  c.close('pose-matrix', pm_[..., 2, :], np.broadcast_to([0., 0., 1.], P + (3,)), atol=0)
  at0 = np.asarray(g.transform_points(pm, j(xy)[..., None, :]))[..., 0, :]
  c.close('pose-to-origin', at0, np.zeros(P + (2,)), atol=tol)
  front = (X64 + np.stack([np.cos(T64), np.sin(T64)], -1)).astype(np.float32)
  c.close('pose-to-origin', np.asarray(g.transform_points(pm, j(front)[..., None, :]))[..., 0, :],
          np.broadcast_to([1., 0.], P + (2,)), atol=tol)
  # points, directions, headings
  tp = np.asarray(g.transform_points(pm, j(pts)))
  wp = se2(ex(T64, ne), ex(X64[..., 0], ne), ex(X64[..., 1], ne), p64)
  c.close('points', tp, wp, atol=tol, rtol=1e-6)
  flat = lambda q: q.reshape(P + (-1, 2)).astype(np.float64)
  dist = lambda q: np.linalg.norm(flat(q)[..., :, None, :] - flat(q)[..., None, :, :], axis=-1)
  c.close('distances', dist(tp), dist(p64), atol=2 * tol, rtol=1e-6)
  def cr(q):
    u = flat(q)[..., 1:, :] - flat(q)[..., :1, :]
    v = np.roll(u, 1, -2)
    return u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]
  c.close('distances', cr(tp), cr(p64), atol=2 * tol * (np.abs(dist(p64)).max() + 1) * 2, rtol=1e-5, msg='handedness')
  td = np.asarray(g.transform_direction(pm, j(d)))
  c.close('directions', td, np.stack([cs * d[..., 0] + sn * d[..., 1], -sn * d[..., 0] + cs * d[..., 1]], -1), atol=2e-4)
  yaw = r.uniform(-np.pi, np.pi, P).astype(np.float32)
  c.angle_close('directions', np.asarray(g.transform_yaw(py, j(yaw))), yaw.astype(np.float64) - T64, atol=1e-5, msg='heading')
  back = np.asarray(g.transform_points(jnp.linalg.inv(pm), j(tp)))
  c.close('inverse-restores', back, p64, atol=4 * tol, rtol=2e-6)
  # box trajectories
  for dof in (5, 7):
    box = np.concatenate([pts, r.uniform(1, 5, P + extra + (2,)), r.uniform(-3, 3, P + extra + (1,)),
                          r.normal(size=P + extra + (2,)) * 9], -1)[..., :dof].astype(np.float32)
    tb = np.asarray(g.transform_trajectories(j(box), pm, py))
    c.close('trajectory-array', tb[..., :2], wp, atol=tol, rtol=1e-6, msg='position')
    c.eq('trajectory-array', tb[..., 2:4], box[..., 2:4], msg='size')
    c.angle_close('trajectory-array', tb[..., 4], box[..., 4].astype(np.float64) - ex(T64, ne), atol=1e-5, msg='heading')
    if dof == 7:
      v = box[..., 5:].astype(np.float64)
      c.close('trajectory-array', tb[..., 5:], np.stack([cs * v[..., 0] + sn * v[..., 1], -sn * v[..., 0] + cs * v[..., 1]], -1),
              atol=2e-4 + 2 * tol, msg='velocity')
  if c.k % 8 == 0:
    for dof in (4, 6, 8):
      c.raises('bad-dof-refused', Exception, lambda: g.transform_trajectories(jnp.zeros(P + extra + (dof,)), pm, py), f'{dof} columns')
  # corners
  bx = np.concatenate([pts, r.uniform(.3, 15, P + extra + (2,)), r.uniform(-np.pi, np.pi, P + extra + (1,))], -1).astype(np.float32)
  cor = np.asarray(g.corners_from_bboxes(j(bx))).astype(np.float64)
  if c.check('corners', cor.shape == P + extra + (4, 2), 'shape', shape=cor.shape):
    b = bx.astype(np.float64)
    c.close('corners', cor.mean(-2), b[..., :2], atol=2e-5 + 3e-7 * scale * 3, msg='centre')
    # in box coordinates: front right, front left, rear left, rear right
    loc = se2(b[..., None, 4], b[..., None, 0], b[..., None, 1], cor)
    half = np.stack([np.stack([b[..., 2], -b[..., 3]], -1), np.stack([b[..., 2], b[..., 3]], -1),
                     np.stack([-b[..., 2], b[..., 3]], -1), np.stack([-b[..., 2], -b[..., 3]], -1)], -2) / 2
    c.close('corner-order', loc, half, atol=3e-5 + 6e-7 * scale * 3)
  # wrapping
  turns = r.integers(-20, 21, (40,))
  base = r.uniform(-np.pi + 1e-3, np.pi - 1e-3, (40,))
  base[:4] = [0., np.pi / 2, -np.pi / 2, 3.14]
  ang = (base + 2 * np.pi * turns).astype(np.float32)
  c.hit('event:many-turns', (np.abs(turns) > 3).sum())
  w = np.asarray(g.wrap_yaws(j(ang))).astype(np.float64)
  c.angle_close('wrap', w, ang.astype(np.float64), atol=2e-6 + 3e-7 * np.abs(ang).astype(np.float64))
  c.check('wrap', np.all((w >= -np.pi - 1e-6) & (w < np.pi + 1e-6)), 'outside [-pi, pi)')
  c.close('wrap', w, base, atol=3e-6 + 3e-7 * np.abs(ang).astype(np.float64), where=np.abs(base) < np.pi - 1e-2)
  c.nontrivial(bool(np.abs(np.sin(T64)).max() > 1e-3))


def typed(c):
  """Pose objects and the typed transforms used to build observations."""
  import jax.numpy as jnp
  from waymax import datatypes as dt
  from waymax.datatypes import observation as ob
  r = c.rng
  O, A, T = [(2, 3, 2), (1, 4, 1), (3, 3, 3)][c.shard % 3]
  B = PRE[c.k % 3]
  n = int(np.prod(B)) * O
  scenes = [gen.gen_scene(r, A=A, T=T, R=6, L=2, center=(30., -20.)) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B + (O,))
  st = gen.make_state(sc)
  xy = np.array([30., -20.]) + r.normal(size=B + (O, 2)) * 10
  th = r.uniform(-np.pi, np.pi, B + (O,))
  pv = r.random(B + (O,)) < .7
  xy, th = xy.astype(np.float32), th.astype(np.float32)
  j = jnp.asarray
  pose = ob.ObjectPose2D.from_center_and_yaw(j(xy), j(th), j(pv))
  c.signature(xy, th, sc['log']['x'])
  c.describe(batch=str(B), observers=O, A=A, T=T)
  p = gen.to_np(dict(pose))
  c.eq('pose2d', p['original_xy'], xy)
  c.eq('pose2d', p['original_yaw'], th)
  c.eq('pose2d', p['valid'], pv)
  c.close('pose2d', p['delta_yaw'], -th, atol=1e-6)
  c.check('pose2d', pose.shape == B + (O,) and pose.num_objects == O, 'shape')
  dflt = ob.ObjectPose2D.from_center_and_yaw(j(xy), j(th))
  c.check('pose2d', np.asarray(dflt.valid).all() and np.asarray(dflt.valid).shape == th.shape, 'default validity')
  again = ob.ObjectPose2D.from_transformation(pose.matrix, pose.delta_yaw, pose.valid)
  c.close('pose2d', np.asarray(again.original_xy), xy, atol=2e-4, msg='from_transformation position')
  c.angle_close('pose2d', np.asarray(again.original_yaw), th, atol=1e-5, msg='from_transformation heading')
  c.eq('pose2d', np.asarray(pose.rotation_matrix), p['matrix'][..., :2, :2])
  c.eq('pose2d', np.asarray(pose.translation_vector), p['matrix'][..., :2, 2])
  th64, X = th.astype(np.float64), xy.astype(np.float64)
  mot = lambda pts, k: se2(ex(th64, k), ex(X[..., 0], k), ex(X[..., 1], k), pts.astype(np.float64))
  rot0 = lambda pts, k: se2(ex(th64, k), np.zeros(()), np.zeros(()), pts.astype(np.float64))
  def moved(mon, before, after, k, pos=('x', 'y'), direction=None, yaw=None):
    b, a = gen.to_np(dict(before)), gen.to_np(dict(after))
    st2 = lambda q, f: np.stack([q[f[0]], q[f[1]]], -1)
    done = set(pos) | set(direction or ()) | ({yaw} if yaw else set()) | {'valid'}
    fin = 1e-4 + 3e-6 * np.abs(st2(b, pos)).max()
    c.close(mon, st2(a, pos), mot(st2(b, pos), k), atol=fin, rtol=2e-6, msg='position')
    if direction:
      c.close(mon, st2(a, direction), rot0(st2(b, direction), k), atol=3e-5 + 2e-6 * np.abs(st2(b, direction)).max(), rtol=1e-5, msg='direction')
    if yaw:
      c.angle_close(mon, a[yaw], b[yaw].astype(np.float64) - ex(th64, k), atol=2e-5 + 4e-7 * np.abs(b[yaw]), msg='heading')
    c.eq(mon, a['valid'], b['valid'] & ex(pv, k), msg='valid')
    for f in b:
      if f not in done:
        c.eq(mon, a[f], b[f], msg=f, dtype=True)
  moved('trajectory', st.log_trajectory, ob.transform_trajectory(st.log_trajectory, pose), 2, direction=('vel_x', 'vel_y'), yaw='yaw')
  moved('roadgraph', st.roadgraph_points, ob.transform_roadgraph_points(st.roadgraph_points, pose), 1, direction=('dir_x', 'dir_y'))
  moved('traffic-lights', st.log_traffic_light, ob.transform_traffic_lights(st.log_traffic_light, pose), 2)
  # composition: world in src frame -> dst frame
  sxy, sth = (np.array([20., -9.]) + r.normal(size=B + (O, 2)) * 9).astype(np.float32), r.uniform(-3, 3, B + (O,)).astype(np.float32)
  sv = r.random(B + (O,)) < .7
  src = ob.ObjectPose2D.from_center_and_yaw(j(sxy), j(sth), j(sv))
  comb = ob.combine_two_object_pose_2d(src_pose=src, dst_pose=pose)
  pts = (np.array([25., -15.]) + r.normal(size=B + (O, 7, 2)) * 20).astype(np.float32)
  in_src = se2(ex(sth.astype(np.float64), 1), ex(sxy[..., 0], 1), ex(sxy[..., 1], 1), pts.astype(np.float64)).astype(np.float32)
  from waymax.utils import geometry as g
  c.close('compose', np.asarray(g.transform_points(comb.matrix, j(in_src))), mot(pts, 1), atol=4e-4, rtol=1e-5)
  c.angle_close('compose', np.asarray(comb.delta_yaw), sth.astype(np.float64) - th64, atol=1e-5)
  c.eq('compose', np.asarray(comb.valid), sv & pv)
  # box corners of trajectories
  tr = st.log_trajectory
  q = {k: np.asarray(getattr(tr, k)).astype(np.float64) for k in ['x', 'y', 'yaw', 'length', 'width']}
  cor = np.asarray(tr.bbox_corners)
  half = np.array([[1, -1], [1, 1], [-1, 1], [-1, -1]]) / 2
  lx, ly = half[:, 0] * q['length'][..., None], half[:, 1] * q['width'][..., None]
  cs, sn = np.cos(q['yaw'])[..., None], np.sin(q['yaw'])[..., None]
  want = np.stack([q['x'][..., None] + cs * lx - sn * ly, q['y'][..., None] + sn * lx + cs * ly], -1)
  c.close('bbox-corners', cor, want, atol=5e-5 + 1e-6 * np.abs(want).max() + 2e-7 * np.abs(q['yaw']).max() * 8, rtol=1e-6)
  c.nontrivial(bool(np.abs(np.sin(th64)).max() > 1e-3))


def motions(c):
  [helpers, helpers, typed][c.k % 3](c)


PARTS = [Part('motions', motions, shards=6, quick=30, thorough=900)]
