"""C30: plots show every valid object once, in the right place."""
import contextlib
import numpy as np
from harness import gen
from harness.core import Part
from harness.checks.c13 import depth

PROPERTY = 'C30'
RULE = ('states, observations and wrapped time steps of generated mid-episode scenes (flickering, overlapping, late objects; '
        'batched and not; all view options, highlight kinds and frames) are rendered by the real code while a recorder hooked '
        'into the canvas reads back what was drawn (outlines, markers, texts, view limits, pixel buffer); these are matched '
        'one to one with marks derived from the data in float64; non-trivial: controlled and other boxes and history were all present')
REQUIRED = ['obs:boxes', 'obs:headings', 'obs:points', 'obs:labels', 'obs:view', 'obs:image', 'obs:state-unmodified',
            'obs:repeatable', 'obs:no-figure-left', 'obs:batch-refused', 'obs:rank-refused', 'obs:metric-text',
            'obs:colour-labels', 'obs:saved-image', 'obs:reset-state', 'obs:helpers',
            'event:image-state', 'event:image-observation', 'event:image-brax', 'event:direct', 'event:batched', 'event:overlap',
            'event:history', 'event:future', 'event:invalid-now', 'event:controlled', 'event:lights', 'event:map-points',
            'event:routes', 'event:no-routes', 'event:centre-agent', 'event:no-highlight', 'event:sim-trajectory', 'event:own-timestep']
ASSUMPTIONS = ['overlap highlighting is not judged for pairs within 1e-3 m of contact',
               'marks are read from the matplotlib artists (lines, scatter and patch collections) present when the canvas is drawn',
               'map classes without a display entry (lane lines, unknown) are not shown; a route is judged when its points are a valid prefix',
               'batch and object indices exist']

CTRL, CONTEXT, HIST, OVER = (0., .6, .8), (.6, .6, .6), (.8, .8, .8), (1., 0., 0.)
_g = lambda *q: tuple(v / 255. for v in q)
MAP = {1: _g(230, 230, 230), 2: _g(230, 230, 230), 3: _g(230, 230, 230), 15: _g(80, 80, 80), 16: _g(80, 80, 80),
       17: _g(255, 0, 0), 18: _g(200, 200, 200), 19: _g(200, 200, 200)}
_r, _y, _gr = (1., 0., 0.), (1., 1., 0.), (0., 1., 0.)
LIGHT = {0: (.75, .75, .75), 1: _r, 2: _y, 3: _gr, 4: _r, 5: _y, 6: _gr, 7: _y, 8: _y}
ON, OFF = (0., .75, .75), (0., .5, 0.)  # matplotlib 'c' and 'g'


def marks(fig_or_axes):
  """Polylines, points, texts drawn so far and view limits, independent of the artist types used."""
  from matplotlib import colors
  axes = fig_or_axes.axes if hasattr(fig_or_axes, 'add_subplot') else [fig_or_axes]
  rgb = lambda q: tuple(round(float(v), 6) for v in colors.to_rgb(q))
  lines, points, texts, labels = [], [], [], []
  lim = None
  for ax in axes:
    lim = ax.get_xlim() + ax.get_ylim()
    for a in ax.lines:
      if not a.get_visible():
        continue
      xy = np.asarray(a.get_xydata(), np.float64)
      if a.get_linestyle() not in ('None', '', ' ', 'none') and len(xy) > 1:
        lines.append((rgb(a.get_color()), xy))
      if a.get_marker() not in ('None', '', ' ', None):
        points += [(rgb(a.get_markerfacecolor()), tuple(p)) for p in xy]
      if not str(a.get_label()).startswith('_'):
        labels.append((str(a.get_label()), rgb(a.get_color())))
    for a in ax.collections:
      off = np.asarray(a.get_offsets(), np.float64)
      fc, ec = a.get_facecolor(), a.get_edgecolor()
      paths = a.get_paths()
      if type(a).__name__ == 'PathCollection':
        points += [(rgb(fc[i % len(fc)]), tuple(p)) for i, p in enumerate(off)]
      else:
        for i, p in enumerate(paths):
          c = ec if len(ec) else fc
          lines.append((rgb(c[i % len(c)]), np.asarray(p.vertices, np.float64)))
      if not str(a.get_label()).startswith('_'):
        labels.append((str(a.get_label()), rgb((ec if len(ec) else fc)[0])))
    for a in ax.patches:
      v = a.get_patch_transform().transform(a.get_path().vertices)
      lines.append((rgb(a.get_edgecolor()), np.asarray(v, np.float64)))
    texts += [(a.get_text(), tuple(float(q) for q in a.get_position())) for a in ax.texts]
  return dict(lines=lines, points=points, texts=texts, lim=lim, labels=labels)


@contextlib.contextmanager
def recorder():
  """Records the marks and pixels each time a canvas is drawn."""
  from matplotlib.backends.backend_agg import FigureCanvasAgg as C
  seen, orig = [], C.draw

  def draw(self, *a, **k):
    out = orig(self, *a, **k)
    m = marks(self.figure)
    m['pixels'] = np.array(self.buffer_rgba())
    seen.append(m)
    return out
  C.draw = draw
  try:
    yield seen
  finally:
    C.draw = orig


def corner_sets(b):
  """(N, 5) boxes -> corners (N, 4, 2), arrow (N, 3, 2)."""
  b = np.asarray(b, np.float64).reshape(-1, 5)
  u = np.stack([np.cos(b[:, 4]), np.sin(b[:, 4])], -1)
  n = np.stack([-u[:, 1], u[:, 0]], -1)
  p, l, w = b[:, :2], b[:, 2:3] / 2, b[:, 3:4] / 2
  return (np.stack([p + l * u + w * n, p + l * u - w * n, p - l * u - w * n, p - l * u + w * n], 1),
          np.stack([p + w * n, p - w * n, p + l * u], 1))


def match(c, mon, got, want, msg, tol=3e-3, optional=None):
  """One-to-one matching of vertex sets; `optional` wanted ones may be missing."""
  c.hit('obs:' + mon)
  got = list(got)
  for i, w in enumerate(want):
    for j, g in enumerate(got):
      if len(g) == len(w) and abs(g - w.mean(0)).max() < 200 and \
          np.abs(g[:, None] - w[None]).max(-1).min(0).max() <= tol and np.abs(g[:, None] - w[None]).max(-1).min(1).max() <= tol:
        del got[j]
        break
    else:
      if optional is None or not optional[i]:
        return c.fail(mon, f'{msg}: not drawn', want=w.tolist(), drawn=len(got))
  if got:
    c.fail(mon, f'{msg}: drawn without an object to show', extra=got[0].tolist(), count=len(got))


def expected(tr, t, ctrl):
  """Boxes by colour, history points, overlap boxes with an ambiguity flag."""
  tr = {k: np.asarray(v) for k, v in tr.items()}
  A, T = tr['x'].shape
  f5 = np.stack([tr[k] for k in ('x', 'y', 'length', 'width', 'yaw')], -1).astype(np.float64)
  ok = tr['valid']
  ctrl = np.broadcast_to(np.asarray(ctrl)[:, None], ok.shape)
  steps = np.broadcast_to(np.arange(T), ok.shape)
  small = f5.copy()
  small[..., 2:4] /= 10
  box = np.where((steps == t)[..., None], f5, small)
  now = ok & (steps >= (-1 if t is None else t))
  out = dict(ctrl=box[now & ctrl], context=box[now & ~ctrl], hist=np.zeros((0, 2)), over=np.zeros((0, 5)), maybe=np.zeros(0, bool))
  if t is not None:
    out['hist'] = f5[ok & (steps < t)][:, :2]
    cur, v = f5[:, t], ok[:, t]
    d = depth(cur[:, None], cur[None])
    d[np.arange(A), np.arange(A)] = -1.
    d = np.where(v[None] & v[:, None], d, -1.)
    m = d.max(1)
    idx = np.flatnonzero(m > -1e-3)
    out['over'], out['maybe'] = cur[idx], m[idx] < 1e-3
  return out


def judge(c, m, tr=None, t=None, ctrl=None, rg=None, tl=None, tl_t=None, paths=None, msg=''):
  """m: marks drawn; the rest: what should be visible."""
  lines = {}
  for col, xy in m['lines']:
    closed = len(xy) in (4, 5) and np.abs(xy[0] - xy[-1]).max() < 1e-6
    c.check('boxes', closed, f'{msg} an outline that is not closed', xy=xy)
    lines.setdefault((col, len(xy)), []).append(xy[:-1])
  want_pts = {}
  add = lambda col, p: want_pts.setdefault(tuple(round(float(v), 6) for v in col), []).extend(np.asarray(p, np.float64).reshape(-1, 2))
  used = set()
  if tr is not None:
    e = expected(tr, t, ctrl)
    for name, col in (('ctrl', CTRL), ('context', CONTEXT), ('over', OVER)):
      b, a = corner_sets(e[name])
      key = tuple(round(v, 6) for v in col)
      opt = e['maybe'] if name == 'over' else None
      match(c, 'boxes', lines.get((key, 5), []), b, f'{msg} {name} boxes', optional=opt)
      match(c, 'headings', lines.get((key, 4), []), a, f'{msg} {name} arrows', optional=opt)
      used |= {(key, 5), (key, 4)}
    add(HIST, e['hist'])
    c.hit('event:overlap', len(e['over']))
    c.hit('event:history', len(e['hist']))
    c.hit('event:controlled', len(e['ctrl']))
    if t is not None:
      c.hit('event:future', (np.asarray(tr['valid'])[:, t + 1:]).sum())
      c.hit('event:invalid-now', (~np.asarray(tr['valid'])[:, t]).sum())
    c.nontrivial(len(e['hist']) and len(e['ctrl']) and len(e['context']))
  c.check('boxes', set(lines) <= used, f'{msg} outlines in other colours', extra=str(sorted(set(lines) - used)[:3]))
  if rg is not None:
    v = np.asarray(rg['valid'])
    for k, col in MAP.items():
      sel = v & (np.asarray(rg['types']) == k)
      add(col, np.stack([rg['x'], rg['y']], -1)[sel])
      c.hit('event:map-points', sel.sum())
  if tl is not None:
    v = np.asarray(tl['valid'])[:, tl_t]
    for i in np.flatnonzero(v):
      add(LIGHT[int(tl['state'][i, tl_t])], [tl['x'][i, tl_t], tl['y'][i, tl_t]])
    c.hit('event:lights', v.sum())
  if paths is not None:
    v = np.asarray(paths['valid'])
    on = np.asarray(paths['on_route'])[:, 0]
    for i in range(len(v)):
      add(ON if on[i] else OFF, np.stack([paths['x'][i], paths['y'][i]], -1)[v[i]])
    c.hit('event:routes', v.any())
  got = {}
  for col, p in m['points']:
    got.setdefault(col, []).append(p)
  c.check('points', set(got) <= {k for k in want_pts if len(want_pts[k])}, f'{msg} markers of an unexpected colour',
          extra=str(sorted(set(got) - {k for k in want_pts if len(want_pts[k])})[:3]))
  for col, w in want_pts.items():
    g = np.asarray(got.get(col, np.zeros((0, 2)))).reshape(-1, 2)
    w = np.asarray(w).reshape(-1, 2)
    if c.check('points', g.shape == w.shape, f'{msg} {len(g)} markers of colour {col}, {len(w)} expected'):
      s = lambda q: q[np.lexsort(np.round(q, 3).T)]
      if len(w):
        dist = np.abs(g[:, None] - w[None]).max(-1)
        c.check('points', dist.min(0).max() < 1e-3 and dist.min(1).max() < 1e-3, f'{msg} a marker of colour {col} is misplaced')
        c.close('points', s(g).sum(0), s(w).sum(0), atol=1e-3 * (1 + len(w)), rtol=1e-6, msg=f'{msg} markers of colour {col}')


def judge_image(c, m, img, cfg, centre, ids=None, valid=None, pos=None):
  f = lambda k: cfg.get(k, 75.)
  px = cfg.get('px_per_meter', 4.)
  W, H = (f('front_x') + f('back_x')) * px, (f('front_y') + f('back_y')) * px
  c.check('image', img.dtype == np.uint8 and img.ndim == 3 and img.shape[2] == 3 and abs(img.shape[1] - W) <= 1 and abs(img.shape[0] - H) <= 1,
          f'image {img.dtype}{img.shape}', want=f'{H}x{W}x3')
  c.check('image', img.shape[:2] == m['pixels'].shape[:2] and np.array_equal(img, m['pixels'][..., :3]), 'image is not the drawn canvas in RGB order')
  c.close('view', m['lim'], [centre[0] - f('back_x'), centre[0] + f('front_x'), centre[1] - f('back_y'), centre[1] + f('front_y')],
          atol=1e-2, msg='view limits')
  if ids is not None:
    judge_ids(c, m['texts'], ids, valid, pos)


def judge_ids(c, texts, ids, valid, pos):
  got = {}
  for s, p in texts:
    if s.lstrip('-').isdigit():
      got.setdefault(s, []).append(p)
  want = {str(i) for i in np.asarray(ids)[valid]}
  c.check('labels', set(got) == want and all(len(v) == 1 for v in got.values()), 'agent labels', got=str(sorted(got)), want=str(sorted(want)))
  for i in np.flatnonzero(valid):
    p = got.get(str(np.asarray(ids)[i]), [(0, 0)])[0]
    c.check('labels', np.abs(np.asarray(p) - pos[i]).max() < 4., f'label of {i} is not at its object', got=p, at=pos[i])


def control(meta, kind):
  return {'SDC': meta['is_sdc'], 'MODELED': meta['is_modeled'], 'VALID': meta['is_valid']}[kind]


def view(r, A, batched=False):
  cfg = {}
  if r.random() < .7:
    cfg.update({k: float(r.choice([8., 12.5, 20., 31.])) for k in ('front_x', 'back_x', 'front_y', 'back_y')})
  if r.random() < .5:
    cfg['px_per_meter'] = float(r.choice([2., 5.5, 4.]))
  if r.random() < .3:
    cfg['show_agent_id'] = False
  if r.random() < .5:
    cfg['center_agent_idx'] = int(r.integers(A))
  return cfg


def scene(c, A, T, P, R=24, L=3):
  r = c.rng
  sc = gen.gen_scene(r, A=A, T=T, R=R, L=L, P=P, N=9, dense=bool(r.random() < .7))
  sc['rg']['types'] = np.where(r.random(R) < .75, r.choice(list(MAP), R), sc['rg']['types']).astype(np.int32)
  t = int(r.integers(0, T))
  simt = gen.sim_mid_episode(r, sc, t, noise=.5)
  if P:
    first = np.cumprod(sc['paths']['valid'], -1).astype(bool)
    sc['paths']['valid'] = first
  for tr in (sc['log'], simt):  # two cars in each other's way
    i, j = r.permutation(A)[:2]
    for k in ('x', 'y'):
      tr[k][i, t] = tr[k][j, t] + np.float32(r.uniform(-2, 2))
  return sc, simt, t


def figures():
  import matplotlib.pyplot as plt
  return len(plt.get_fignums())


def images(c):
  """Whole images of states, observations and wrapped time steps."""
  from waymax import config as wc
  from waymax.datatypes import observation as ob
  from waymax.env.wrappers import brax_wrapper as bw
  from waymax.metrics import abstract_metric as am
  from waymax.visualization import viz
  r = c.rng
  A, T, B = [(5, 8, 2), (3, 6, 3)][c.shard % 2]
  what = ['state', 'brax', 'obs'][c.k % 3]
  batched = bool(r.random() < .5)
  P = 3 if (what == 'brax' and r.random() < .7) else 0
  n = B if batched else 1
  many = [scene(c, A, T, P) for _ in range(n)]
  own = batched and r.random() < .5
  t = many[0][2]
  if batched:
    sc = gen.stack_scenes([m[0] for m in many], (B,))
    simt = {k: np.stack([m[1][k] for m in many]) for k in many[0][1]}
    ts = np.array([m[2] for m in many]) if own else t
    state = gen.make_state(sc, simt, ts)
    pick = int(r.integers(B))
    c.hit('event:own-timestep', own)
  else:
    sc, simt, _ = many[0]
    state = gen.make_state(sc, simt, t)
    pick = 0
  S, Q = many[pick][0], many[pick][1]
  tt = many[pick][2] if own else t
  meta = S['meta']
  cfg = view(r, A)
  kind = str(r.choice(['SDC', 'MODELED', 'VALID']))
  log = bool(r.random() < .5)
  c.describe(what=what, batched=batched, cfg=str(cfg), t=tt, kind=kind)
  c.hit('event:batched', batched)
  c.hit('event:centre-agent', 'center_agent_idx' in cfg)
  bi = dict(batch_idx=pick) if batched else {}
  if what in ('state', 'brax'):
    tr = S['log'] if log else Q
    c.hit('event:sim-trajectory', not log)
    c.hit('event:image-' + what)
    if what == 'state':
      ctrl = control(meta, kind)
      draw = lambda st, **k: viz.plot_simulator_state(st, use_log_traj=log, viz_config=cfg or None, highlight_obj=getattr(wc.ObjectType, kind), **k)
      subject, path = state, None
    else:
      ctrl = meta['is_sdc']
      path = S['paths']
      c.hit('event:no-routes', path is None)
      shape = (B,) if batched else ()
      vals = {k: (r.normal(size=shape).astype(np.float32) * 9, r.random(shape) < .6) for k in ('log_divergence', 'sdc_progression', 'overlap')}
      vals = {k: (np.where(r.random(shape) < .25, np.float32(0), v), o) for k, (v, o) in vals.items()}
      mets = {k: am.MetricResult.create_and_validate(_j(v), _j(o)) for k, (v, o) in vals.items()}
      subject = bw.TimeStep(state=state, observation=None, reward=np.zeros(shape), done=np.zeros(shape, bool), discount=np.ones(shape), metrics=mets)
      draw = lambda st, **k: viz.plot_single_agent_brax_timestep(st, use_log_traj=log, viz_config=cfg or None, **k)
    rg, tl, tlt, ids = S['rg'], S['tl'], tt, np.arange(A)
    nshow = tt
    if batched:
      c.raises('batch-refused', ValueError, lambda: draw(subject), 'batched input without batch index')
    else:
      c.raises('batch-refused', ValueError, lambda: draw(subject, batch_idx=0), 'batch index for an unbatched input')
  else:
    c.hit('event:image-observation')
    frame = str(r.choice(['SDC', 'OBJECT', 'GLOBAL']))
    sdc_only = bool(r.random() < .5)
    H, K = [(3, 12), (1, 8)][c.shard % 2]
    f = ob.sdc_observation_from_state if sdc_only else ob.observation_from_state
    key = ('obs', sdc_only, frame, batched, own)
    if own:
      state = state.replace(timestep=_j(np.full((B,), t, np.int32)))  # one common step; per-scenario steps are judged in C02
      tt = t
    o = f(state, H, K, getattr(wc.CoordinateFrame, frame))
    subject = o
    N = gen.to_np(o)
    who = 0 if sdc_only else int(r.integers(A))
    pk = (lambda q: q[pick][who]) if batched else (lambda q: q[who])
    D = lambda q: {k: pk(v) for k, v in dict(q).items()}
    tr, rg, tl = D(N.trajectory), D(N.roadgraph_static_points), D(N.traffic_lights)
    meta = D(N.metadata)
    ctrl = control(meta, kind)
    nshow = tlt = H - 1
    ids, path = np.arange(A), None
    draw = lambda x, **k: viz.plot_observation(x, who, viz_config=cfg or None, highlight_obj=getattr(wc.ObjectType, kind), **k)
    if batched:
      c.raises('batch-refused', ValueError, lambda: draw(subject), 'batched input without batch index')
    else:
      c.raises('batch-refused', ValueError, lambda: draw(subject, batch_idx=0), 'batch index for an unbatched input')
    c.describe(frame=frame, sdc_only=sdc_only)
  import matplotlib.pyplot as plt
  plt.close('all')
  before = gen.to_np(subject)
  with recorder() as seen:
    img = draw(subject, **bi)
  c.check('no-figure-left', figures() == 0, 'an open figure is left behind')
  c.tree_eq('state-unmodified', gen.to_np(subject), before)
  m = seen[-1]
  judge(c, m, tr, nshow, ctrl, rg, tl, tlt, path, msg=what)
  centre = np.stack([tr['x'], tr['y']], -1)[:, nshow][cfg['center_agent_idx'] if 'center_agent_idx' in cfg else np.flatnonzero(meta['is_sdc'])[0]]
  show = cfg.get('show_agent_id', True)
  judge_image(c, m, img, cfg, centre, ids if show else np.zeros(0, int), tr['valid'][:, nshow] if show else np.zeros(0, bool),
              np.stack([tr['x'], tr['y']], -1)[:, nshow])
  if what == 'brax':
    text = ' | '.join(s for s, _ in m['texts'] if not s.lstrip('-').isdigit())
    for k, (v, o) in vals.items():
      v, o = (v[pick], o[pick]) if batched else (v, o)
      c.check('metric-text', (k in text) == bool(o), f'{k} valid={bool(o)} but shown text is {text!r}')
      if o:
        c.check('metric-text', f'{float(v):.2f}' in text, f'{k} value {float(v):.2f} not in {text!r}')
  c.signature(tr['x'], tr['valid'], str(cfg))
  if c.k % 4 < 2:
    # independent of what was rendered before, and of its batch mates
    again = draw(subject, **bi)
    c.eq('repeatable', again, img, msg='second rendering')
    if batched and what == 'state':
      alone = gen.make_state(S, Q, tt)
      c.eq('repeatable', draw(alone), img, msg='rendered alone')
  if what == 'state' and batched and not own and c.k % 2 == 0:
    # a freshly reset batch has one common timestep
    T0 = 1
    st = state.replace(timestep=_j(np.int32(T0)))
    with recorder() as seen:
      draw(st, **bi)
    judge(c, seen[-1], S['log'] if log else Q, T0, ctrl, rg, tl, T0, None, msg='common timestep')
    c.hit('obs:reset-state')


def _j(q):
  import jax.numpy as jnp
  return jnp.asarray(q)


def direct(c):
  """The drawing functions on a user's axes, and the image helpers."""
  import os
  import shutil
  import tempfile
  import matplotlib.pyplot as plt
  from PIL import Image
  from waymax.visualization import utils, viz
  r = c.rng
  A, T, B = [(6, 7, 2), (2, 5, 3)][c.shard % 2]
  sc, simt, t = scene(c, A, T, 0)
  state = gen.make_state(sc, simt, t)
  c.hit('event:direct')
  ctrl = r.random(A) < .5
  tr = sc['log']
  shown = [t, -1, None, T - 1, 0][int(r.integers(5))]
  ids = r.permutation(900)[:A] if r.random() < .6 else None
  c.describe(shown=str(shown), t=t)
  plt.close('all')
  fig, ax = utils.init_fig_ax()
  lab = bool(r.random() < .6)
  viz.plot_trajectory(ax, state.log_trajectory, ctrl, time_idx=shown, indices=ids, add_label=lab)
  tt = T - 1 if shown == -1 else shown
  m = marks(ax)
  judge(c, m, tr, tt, ctrl, msg=f'time_idx={shown}')
  c.hit('event:no-highlight', shown is None)
  if tt is not None:
    ok = np.asarray(tr['valid'])[:, tt]
    judge_ids(c, m['texts'], ids if ids is not None else np.zeros(0, int), ok if ids is not None else np.zeros(0, bool),
              np.stack([tr['x'], tr['y']], -1)[:, tt])
  else:
    c.check('labels', not m['texts'], 'labels without a step to place them at')
  want = {'controlled': CTRL, 'context': CONTEXT, 'history': HIST, 'overlap': OVER} if lab else {}
  for name, col in m['labels']:
    c.check('colour-labels', name in want and np.allclose(col, want[name], atol=1e-5), f'label {name} on colour {col}')
  if lab:
    e = expected(tr, tt, ctrl)
    for name, k in (('controlled', 'ctrl'), ('context', 'context'), ('history', 'hist')):
      c.check('colour-labels', not len(e[k]) or any(n == name for n, _ in m['labels']), f'no label {name}')
  plt.close(fig)
  # map and lights alone
  fig, ax = utils.init_fig_ax()
  viz.plot_roadgraph_points(ax, state.roadgraph_points)
  judge(c, marks(ax), rg=sc['rg'], msg='map')
  plt.close(fig)
  k = int(r.integers(T))
  fig, ax = utils.init_fig_ax()
  viz.plot_traffic_light_signals_as_points(ax, state.log_traffic_light, k)
  judge(c, marks(ax), tl=sc['tl'], tl_t=k, msg='lights')
  plt.close(fig)
  # nothing to draw
  fig, ax = utils.init_fig_ax()
  off = lambda q: q.replace(valid=_j(np.zeros(q.valid.shape, bool)))
  viz.plot_roadgraph_points(ax, off(state.roadgraph_points))
  viz.plot_traffic_light_signals_as_points(ax, off(state.log_traffic_light), k)
  viz.plot_trajectory(ax, off(state.log_trajectory), ctrl, time_idx=t, indices=np.arange(A))
  m = marks(ax)
  c.check('points', not m['points'] and not m['lines'] and not m['texts'], 'something is drawn for invalid data')
  # wrong ranks and steps
  b = gen.make_state(gen.stack_scenes([sc, sc], (2,)), {q: np.stack([v, v]) for q, v in simt.items()}, t)
  c.raises('rank-refused', ValueError, lambda: viz.plot_trajectory(ax, b.log_trajectory, ctrl, time_idx=0), 'batched trajectory')
  c.raises('rank-refused', ValueError, lambda: viz.plot_roadgraph_points(ax, b.roadgraph_points), 'batched map')
  c.raises('rank-refused', ValueError, lambda: viz.plot_traffic_light_signals_as_points(ax, b.log_traffic_light), 'batched lights')
  c.raises('rank-refused', ValueError, lambda: viz.plot_trajectory(ax, state.log_trajectory, ctrl, time_idx=T), 'step after the last')
  plt.close(fig)
  # helpers
  cfg = utils.VizConfig(front_x=float(r.uniform(5, 40)), back_x=float(r.uniform(5, 40)), front_y=float(r.uniform(5, 40)),
                        back_y=float(r.uniform(5, 40)), px_per_meter=float(r.uniform(1, 5)))
  fig, ax = utils.init_fig_ax(cfg)
  W, H = fig.canvas.get_width_height()
  c.check('helpers', abs(W - (cfg.front_x + cfg.back_x) * cfg.px_per_meter) <= 1 and abs(H - (cfg.front_y + cfg.back_y) * cfg.px_per_meter) <= 1, 'figure size')
  p = r.normal(size=2) * 50
  utils.center_at_xy(ax, p, cfg)
  c.close('helpers', ax.get_xlim() + ax.get_ylim(), [p[0] - cfg.back_x, p[0] + cfg.front_x, p[1] - cfg.back_y, p[1] + cfg.front_y], atol=1e-3)
  bb = np.stack([tr[q][:, t] for q in ('x', 'y', 'length', 'width', 'yaw')], -1)
  col = np.round(r.random(3), 3)
  utils.plot_numpy_bounding_boxes(ax, bb, col)
  m = marks(ax)
  w, a = corner_sets(bb)
  key = tuple(round(float(v), 6) for v in col)
  match(c, 'boxes', [xy[:-1] for q, xy in m['lines'] if q == key and len(xy) == 5], w, 'boxes given')
  match(c, 'headings', [xy[:-1] for q, xy in m['lines'] if q == key and len(xy) == 4], a, 'arrows given')
  for bad in (bb[None], bb[:, :4]):
    c.raises('rank-refused', ValueError, lambda: utils.plot_numpy_bounding_boxes(ax, bad, col), 'box array')
  with recorder() as seen:
    img = utils.img_from_fig(fig)
  c.check('image', np.array_equal(img, seen[-1]['pixels'][..., :3]), 'image is not the canvas in RGB order')
  c.check('no-figure-left', figures() == 0, 'an open figure is left behind', n=figures())
  n = int(r.integers(1, 12))
  cols = utils.get_n_colors(n)
  c.check('helpers', np.shape(cols) == (n, 3) and cols.min() >= 0 and cols.max() <= 1 and len(np.unique(np.round(cols, 6), axis=0)) == n, 'n different colours')
  tmp, cwd = tempfile.mkdtemp(prefix='c30_'), os.getcwd()
  try:
    os.chdir(tmp)
    for name in ('plain.png', os.path.join(tmp, 'a', 'b', 'deep.png'), os.path.join('a', 'again.png')):
      utils.save_img_as_png(img, name)
      c.eq('saved-image', np.asarray(Image.open(name).convert('RGB')), img, msg=name)
  finally:
    os.chdir(cwd)
    shutil.rmtree(tmp)
  c.signature(tr['x'], str(shown))


def case(c):
  direct(c) if c.k % 4 == 3 else images_k(c)


def images_k(c):
  k = c.k
  c.k = k - k // 4  # position among the image cases
  try:
    images(c)
  finally:
    c.k = k


PARTS = [Part('case', case, shards=8, quick=12, thorough=200)]
