"""Synthetic WOMD records: plain arrays, serialised tf.Examples, files, and a parse oracle."""
import os
import numpy as np
from harness import gen

NP, NF, NOBJ, NTL = 10, 80, 128, 16
TIMES = dict(past=(0, 10), current=(10, 11), future=(11, 91))
STATE_KEYS = dict(x='x', y='y', z='z', velocity_x='vel_x', velocity_y='vel_y', bbox_yaw='yaw', length='length',
                  width='width', height='height', valid='valid', timestamp_micros='timestamp_micros')


def gen_record(rng, R=20, P=0, N=6, tag=0, live=12, unwrapped=True, varying=True, minus_valid=False, big_ids=False):
  """One recorded scenario as flat arrays over all 91 steps: dict of 'truth' arrays."""
  s = gen.gen_scene(rng, A=live, T=91, R=R, L=NTL, P=P, N=N, fill='keep', full_prob=.3, big_ids=big_ids)
  if big_ids:  # ids a float32 cannot hold
    off = 2**24 + 1 + 2 * int(rng.integers(0, 10**8))
    s['paths'] = s['paths'] and {**s['paths'], 'ids': s['paths']['ids'] + np.int32(off)}
  tr = {}
  for k, v in s['log'].items():
    full = np.zeros((NOBJ, 91), v.dtype)
    full[:live] = v
    tr[k] = full
  tr['valid'][live:] = False
  if varying:  # recorded sizes jitter over time
    for k in ('length', 'width', 'height'):
      tr[k] = (tr[k] * (1 + .05 * rng.normal(size=tr[k].shape))).astype(np.float32)
      if rng.random() < .2:  # unknown size recorded as zero
        tr[k][rng.random(tr[k].shape) < .2] = 0
  if unwrapped:
    tr['yaw'] = (tr['yaw'] + 2 * np.pi * rng.integers(-2, 3, tr['yaw'].shape)).astype(np.float32)
  tr['timestamp_micros'] = np.broadcast_to(100000 * np.arange(91)[None] + tag * 7, (NOBJ, 91)).astype(np.int64).copy()
  fill = rng.choice(['neg1', 'keep', 'zero'])
  bad = ~tr['valid']
  for k in tr:
    if k != 'valid' and fill != 'keep':
      tr[k][bad] = -1 if fill == 'neg1' else 0
  valid = tr['valid'].astype(np.int64)
  if minus_valid:
    valid[bad & (rng.random(bad.shape) < .5)] = -1
  tr['valid'] = valid
  tracks = np.full(NOBJ, -1, np.int64)
  tracks[:live] = rng.integers(0, 2, live)
  tracks[rng.integers(0, live)] = -1
  sdc = np.full(NOBJ, -1, np.int64)
  sdc[:live] = 0
  sdc[rng.integers(0, live)] = 1
  typ = np.full(NOBJ, -1., np.float32)
  typ[:live] = rng.integers(0, 5, live)
  ids = np.full(NOBJ, -1., np.float32)
  ids[:live] = tag * 1000 + rng.permutation(900)[:live]
  ooi = np.full(NOBJ, -1, np.int64)
  ooi[:live] = rng.random(live) < .2
  tl = {k: np.swapaxes(np.asarray(v), 0, 1) for k, v in gen.gen_lights(rng, NTL, 91).items()}
  tl['id'] = tl.pop('lane_ids').astype(np.int64) + (off if big_ids else 0)
  tl['state'] = tl['state'].astype(np.int64)
  tlv = tl['valid'].astype(np.int64)
  if minus_valid:
    tlv[(tlv == 0) & (rng.random(tlv.shape) < .5)] = -1
  tl['valid'] = tlv
  tl['timestamp_micros'] = (100000 * np.arange(91)).astype(np.int64)
  rg = s['rg']
  rec = dict(traj=tr, tl=tl, meta=dict(tracks_to_predict=tracks, is_sdc=sdc, type=typ, id=ids, objects_of_interest=ooi),
             rg=dict(xyz=np.stack([rg['x'], rg['y'], rg['z']], -1), dir=np.stack([rg['dir_x'], rg['dir_y'], rg['dir_z']], -1),
                     type=rg['types'][:, None].astype(np.int64), id=rg['ids'][:, None].astype(np.int64),
                     valid=rg['valid'][:, None].astype(np.int64)), paths=None, tag=tag)
  if P:
    p = s['paths']
    rec['paths'] = dict(xyz=np.stack([p['x'], p['y'], p['z']], -1), valid=p['valid'].astype(np.int64),
                        id=p['ids'].astype(np.int64), arc_length=p['arc_length'], on_route=p['on_route'].astype(np.int64))
  return rec


def features(rec):
  """name -> array as stored in the tf.Example."""
  f = {}
  tr = rec['traj']
  for time, (a, b) in TIMES.items():
    for key, src in STATE_KEYS.items():
      f[f'state/{time}/{key}'] = tr[src][:, a:b]
    f[f'state/{time}/speed'] = np.hypot(tr['vel_x'], tr['vel_y'])[:, a:b]
    f[f'state/{time}/vel_yaw'] = np.arctan2(tr['vel_y'], tr['vel_x'])[:, a:b]
    for key, v in rec['tl'].items():
      f[f'traffic_light_state/{time}/{key}'] = v[a:b]
  for k, v in rec['meta'].items():
    f['state/' + k] = v
  for k, v in rec['rg'].items():
    f['roadgraph_samples/' + k] = v
  if rec['paths']:
    for k, v in rec['paths'].items():
      f['path_samples/' + k] = v
  return f


def serialize(feats):
  import tensorflow as tf
  ex = tf.train.Example()
  for k, v in feats.items():
    v = np.asarray(v)
    if v.dtype.kind == 'f':
      ex.features.feature[k].float_list.value.extend(v.astype(np.float32).ravel().tolist())
    else:
      ex.features.feature[k].int64_list.value.extend(v.astype(np.int64).ravel().tolist())
  return ex.SerializeToString()


def write(path, payloads):
  import tensorflow as tf
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with tf.io.TFRecordWriter(path) as w:
    for p in payloads:
      w.write(p)


def expected(rec, max_objects=None, a=0, b=91):
  """What the parsed state must contain: (exact dict, dimension dict)."""
  n = max_objects or NOBJ
  tr = rec['traj']
  cut = lambda v: v[:n, a:b]
  valid = cut(tr['valid']) > 0
  log = {k: cut(tr[k]).astype(np.float32) for k in ('x', 'y', 'z', 'vel_x', 'vel_y')}
  log['valid'] = valid
  log['timestamp_micros'] = cut(tr['timestamp_micros']).astype(np.int32)
  yaw = cut(tr['yaw']).astype(np.float64)
  cnt = valid.sum(-1, keepdims=True)
  dims = {}
  for k in ('length', 'width', 'height'):
    s = np.where(valid, cut(tr[k]), 0).astype(np.float64).sum(-1, keepdims=True)
    dims[k] = np.broadcast_to(np.where(cnt > 0, s / np.maximum(cnt, 1), -1.), valid.shape)
  m = {k: v[:n] for k, v in rec['meta'].items()}
  meta = dict(ids=m['id'].astype(np.int32), object_types=m['type'].astype(np.int32),
              is_valid=m['tracks_to_predict'] != -1, is_modeled=m['tracks_to_predict'] == 1,
              is_sdc=m['is_sdc'] == 1, objects_of_interest=m['objects_of_interest'] == 1,
              is_controlled=np.zeros(n, bool))
  t = rec['tl']
  tl = {k: np.swapaxes(t[k][a:b], 0, 1).astype(np.float32) for k in ('x', 'y', 'z')}
  tl.update(state=t['state'][a:b].T.astype(np.int32), lane_ids=t['id'][a:b].T.astype(np.int32), valid=t['valid'][a:b].T > 0)
  g = rec['rg']
  rg = dict(x=g['xyz'][:, 0], y=g['xyz'][:, 1], z=g['xyz'][:, 2], dir_x=g['dir'][:, 0], dir_y=g['dir'][:, 1],
            dir_z=g['dir'][:, 2], types=g['type'][:, 0].astype(np.int32), ids=g['id'][:, 0].astype(np.int32),
            valid=g['valid'][:, 0] > 0)
  paths = None
  if rec['paths']:
    p = rec['paths']
    paths = dict(x=p['xyz'][..., 0], y=p['xyz'][..., 1], z=p['xyz'][..., 2], ids=p['id'].astype(np.int32),
                 valid=p['valid'] > 0, arc_length=p['arc_length'], on_route=p['on_route'] > 0)
  return dict(log=log, yaw=yaw, dims=dims, meta=meta, tl=tl, rg=rg, paths=paths)


def compare(c, state, want, pre='', wrapped=True):
  """Monitors one (unbatched, NumPy) parsed state against expected()."""
  T = dict(state.log_trajectory)
  for k, v in want['log'].items():
    c.eq('log-fields', T[k], v, msg=f'{pre}{k}', dtype=True)
  if wrapped:
    y = np.asarray(T['yaw'], np.float64)
    c.angle_close('heading-value', y, want['yaw'], atol=5e-6 + 2e-7 * float(np.abs(want['yaw']).max()), msg=pre)
    c.check('heading-range', (y >= -np.pi - 1e-6).all() and (y <= np.pi + 1e-6).all(), pre + 'heading out of range')
  else:
    c.eq('heading-value', T['yaw'], want['yaw'].astype(np.float32), msg=pre)
  for k, v in want['dims'].items():
    c.close('dimensions', T[k], v, atol=2e-5, rtol=1e-5, msg=pre + k)
    c.eq('dimensions-constant', T[k], np.repeat(T[k][..., :1], T[k].shape[-1], -1), msg=pre + k)
  for part, name in (('meta', 'object_metadata'), ('tl', 'log_traffic_light'), ('rg', 'roadgraph_points')):
    got = dict(getattr(state, name))
    c.check(f'{part}-fields', set(got) == set(want[part]), pre + 'field names', got=str(sorted(got)))
    for k, v in want[part].items():
      c.eq(f'{part}-fields', got[k], v, msg=f'{pre}{name}.{k}', dtype=True)
  if want['paths'] is None:
    c.check('route-fields', state.sdc_paths is None, pre + 'routes appeared from nowhere')
  else:
    for k, v in want['paths'].items():
      c.eq('route-fields', dict(state.sdc_paths)[k], v, msg=f'{pre}{k}', dtype=True)
