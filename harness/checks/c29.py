"""C29: exporting a state to a record and parsing it back is lossless."""
import functools
import numpy as np
from harness import gen, sim, womd
from harness.core import Part

PROPERTY = 'C29'
RULE = ('states in the middle of an episode (perturbed simulated history, late/gone/flickering objects) are exported at every '
        'admissible timestep for several history lengths and sizes, compared field by field with an independent record, '
        're-parsed (also after serialisation to a tf.Example) and compared with the state; non-trivial: some exported '
        'simulated value differs from the log')
REQUIRED = ['obs:exported-names', 'obs:exported-shape-type', 'obs:exported-values', 'obs:derived-values', 'obs:future-invalid',
            'obs:re-parsed-trajectory', 'obs:re-parsed-metadata', 'obs:re-parsed-map', 'obs:re-parsed-lights',
            'obs:re-parsed-future-invalid', 'obs:state-unmodified', 'obs:compiled-agrees', 'obs:tensorflow-variant',
            'obs:wrong-history-refused', 'obs:right-history-accepted', 'obs:only-requested-features',
            'event:later-than-warm-up', 'event:serialised', 'event:stepped-in-environment', 'event:invalid-metadata',
            'event:future-exists-in-log', 'event:minimal-history', 'event:long-history']
ASSUMPTIONS = ['unbatched states with at least as many past steps as the record format asks for',
               'the record carries the simulated history and no simulated future (documented); integer features are 32 bit '
               'because JAX runs without 64-bit types; attributes of objects without a track are -1',
               'derived speed 1e-4, angle 1e-4']

TRAJ = dict(bbox_yaw='yaw', height='height', length='length', timestamp_micros='timestamp_micros', valid='valid',
            velocity_x='vel_x', velocity_y='vel_y', width='width', x='x', y='y', z='z')


def description(A, R, L, H, F):
  """A feature description of the documented record format with chosen sizes."""
  import tensorflow as tf
  d = {}
  add = lambda n, s, t: d.__setitem__(n, tf.io.FixedLenFeature(list(s), t))
  for k in ('dir', 'xyz'):
    add('roadgraph_samples/' + k, (R, 3), tf.float32)
  for k in ('id', 'type', 'valid'):
    add('roadgraph_samples/' + k, (R, 1), tf.int64)
  for k, t in dict(id=tf.float32, type=tf.float32, is_sdc=tf.int64, tracks_to_predict=tf.int64, objects_of_interest=tf.int64).items():
    add('state/' + k, (A,), t)
  for time, n in dict(past=H, current=1, future=F).items():
    for k in list(TRAJ) + ['speed', 'vel_yaw']:
      add(f'state/{time}/{k}', (A, n), tf.int64 if k in ('valid', 'timestamp_micros') else tf.float32)
    for k in ('state', 'valid', 'id', 'x', 'y', 'z'):
      add(f'traffic_light_state/{time}/{k}', (n, L), tf.int64 if k in ('state', 'valid', 'id') else tf.float32)
    add(f'traffic_light_state/{time}/timestamp_micros', (n,), tf.int64)
  return d


def judge_export(c, out, desc, S, tl, meta, rg, t, H):
  """out: exported dict; S/tl/meta/rg: NumPy state parts; steps t-H..t are exported."""
  c.check('exported-names', set(out) == set(desc), 'exported names', diff=str(sorted(set(out) ^ set(desc))[:6]))
  for k, v in out.items():
    sp = desc[k]
    c.check('exported-shape-type', v.shape == tuple(sp.shape) and v.dtype.kind == ('f' if sp.dtype.is_floating else 'i'),
            f'{k}: {v.dtype}{v.shape}', want=str(sp.shape))
  for time, a, b in (('past', t - H, t), ('current', t, t + 1)):
    ok = S['valid'][:, a:b]
    for k, src in TRAJ.items():
      if f'state/{time}/{k}' in out:
        c.eq('exported-values', out[f'state/{time}/{k}'], S[src][:, a:b].astype(np.int32 if S[src].dtype == bool else S[src].dtype),
             msg=f'state/{time}/{k}')
    vx, vy = S['vel_x'][:, a:b].astype(np.float64), S['vel_y'][:, a:b].astype(np.float64)
    if f'state/{time}/speed' in out:
      c.close('derived-values', out[f'state/{time}/speed'], np.where(ok, np.hypot(vx, vy), -1.), atol=1e-4, rtol=1e-5, msg=f'{time} speed')
    if f'state/{time}/vel_yaw' in out:
      y = out[f'state/{time}/vel_yaw']
      c.angle_close('derived-values', y, np.arctan2(vy, vx), atol=1e-4, where=ok & (np.hypot(vx, vy) > 1e-2), msg=f'{time} vel_yaw')
      c.eq('derived-values', y, np.full_like(y, -1.), where=~ok, msg=f'{time} vel_yaw of invalid')
    for k, src in dict(state='state', valid='valid', id='lane_ids', x='x', y='y', z='z').items():
      n = f'traffic_light_state/{time}/{k}'
      if n in out:
        c.eq('exported-values', out[n], tl[src][:, a:b].T.astype(out[n].dtype), msg=n)
    n = f'traffic_light_state/{time}/timestamp_micros'
    if n in out:
      c.eq('exported-values', out[n], S['timestamp_micros'][0, a:b], msg=n)
  for k in out:
    if '/future/' in k:
      c.eq('future-invalid', out[k], np.full(out[k].shape, -1, out[k].dtype), msg=k)
  for k, src in dict(type='object_types', id='ids', objects_of_interest='objects_of_interest', is_sdc='is_sdc',
                     tracks_to_predict='is_modeled').items():
    if f'state/{k}' in out:
      want = np.where(meta['is_valid'], meta[src].astype(np.int32), -1)
      c.eq('exported-values', out[f'state/{k}'], want.astype(out[f'state/{k}'].dtype), msg='state/' + k)
  P = 'roadgraph_samples/'
  for k, v in {'xyz': np.stack([rg[q] for q in ('x', 'y', 'z')], -1), 'dir': np.stack([rg['dir_' + q] for q in 'xyz'], -1),
               'id': rg['ids'][:, None], 'type': rg['types'][:, None], 'valid': rg['valid'][:, None]}.items():
    if P + k in out:
      c.eq('exported-values', out[P + k], v.astype(out[P + k].dtype), msg=P + k)


def judge_parsed(c, st, S, tl, meta, rg, t, H, F, wrapped=False):
  """A state parsed from the exported record against the exported state."""
  L = dict(st.log_trajectory)
  ok = S['valid'][:, t - H:t + 1]
  for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'timestamp_micros', 'valid'):
    w = S[k][:, t - H:t + 1]
    if k == 'yaw' and wrapped:
      c.angle_close('re-parsed-trajectory', L[k][:, :H + 1], w, atol=5e-6, msg=k)
    else:
      c.eq('re-parsed-trajectory', L[k][:, :H + 1], w, msg=k, dtype=True)
  for k in ('length', 'width', 'height'):
    w = S[k][:, t - H:t + 1].astype(np.float64)
    n = ok.sum(-1, keepdims=True)
    mean = np.where(n > 0, np.where(ok, w, 0).sum(-1, keepdims=True) / np.maximum(n, 1), -1.)
    c.close('re-parsed-trajectory', L[k], np.broadcast_to(mean, L[k].shape), atol=1e-5, rtol=1e-5, msg=k)
  c.check('re-parsed-future-invalid', not L['valid'][:, H + 1:].any() and L['valid'].shape[1] == H + 1 + F, 'future objects valid')
  T = dict(st.log_traffic_light)
  for k, v in tl.items():
    c.eq('re-parsed-lights', T[k][:, :H + 1], v[:, t - H:t + 1], msg=k, dtype=True)
  c.check('re-parsed-future-invalid', not T['valid'][:, H + 1:].any(), 'future lights valid')
  M = dict(st.object_metadata)
  iv = meta['is_valid']
  for k in ('ids', 'object_types', 'is_valid', 'is_modeled', 'is_sdc', 'objects_of_interest'):
    c.eq('re-parsed-metadata', M[k], meta[k], where=iv | (k == 'is_valid'), msg=k, dtype=True)
  for k in ('is_modeled', 'is_sdc', 'objects_of_interest'):
    c.check('re-parsed-metadata', not (M[k] & ~iv).any(), k + ' set for an object without a track')
  G = dict(st.roadgraph_points)
  for k, v in rg.items():
    c.eq('re-parsed-map', G[k], v, msg=k, dtype=True)


def parts(state):
  return dict(state.sim_trajectory), dict(state.log_traffic_light), dict(state.object_metadata), dict(state.roadgraph_points)


def sized(c):
  import jax
  from waymax.dataloader import womd_factories as wf, womd_utils as wu
  r = c.rng
  A, T, R, L, H, F = [(4, 14, 10, 3, 3, 6), (1, 12, 7, 1, 10, 1), (7, 30, 25, 5, 10, 80), (3, 8, 5, 2, 1, 4)][c.shard % 4]
  T = 110 if c.shard == 6 else T
  c.hit('event:long-history', T > 100)
  desc = description(A, R, L, H, F)
  sc = gen.gen_scene(r, A=A, T=T, R=R, L=L, big_ids=bool(r.random() < .2))
  # objects without a recorded track keep arbitrary attributes; the record has no room for them
  sc['meta']['is_valid'] = sc['meta']['is_valid'] & (r.random(A) < .85)
  iv = sc['meta']['is_valid']
  t = [int(r.integers(H, T)), H, T - 1][c.k % 3]
  simt = gen.sim_mid_episode(r, sc, t)
  if r.random() < .3:  # sizes that vary over the simulated steps
    simt['length'] = (simt['length'] * (1 + .1 * r.normal(size=simt['length'].shape))).astype(np.float32)
  state = gen.make_state(sc, simt, t)
  before = gen.to_np(state)
  S, tl, meta, rg = parts(before)
  c.describe(A=A, T=T, H=H, F=F, t=t)
  c.signature(S['x'], S['valid'], t)
  c.hit('event:later-than-warm-up', t > H)
  c.hit('event:minimal-history', t == H)
  c.hit('event:invalid-metadata', (~iv).sum())
  c.hit('event:future-exists-in-log', sc['log']['valid'][:, t + 1:].any())
  out = gen.to_np(wu.simulator_state_to_womd_dict(state, desc))
  c.tree_eq('state-unmodified', gen.to_np(state), before)
  judge_export(c, out, desc, S, tl, meta, rg, t, H)
  if c.failed:
    return
  # only what is asked for
  names = sorted(desc)
  keep = {n: desc[n] for n in names if n.endswith('bbox_yaw') or '/future/' in n or r.random() < .5}
  some = gen.to_np(wu.simulator_state_to_womd_dict(state, keep))
  c.check('only-requested-features', set(some) == set(keep), 'names')
  for n in keep:
    c.eq('only-requested-features', some[n], out[n], msg=n, dtype=True)
  # compiled and TensorFlow variants
  if 'jit' not in c.cache:
    c.cache['jit'] = jax.jit(lambda s: wu.simulator_state_to_womd_dict(s, desc))
  comp = gen.to_np(c.cache['jit'](state))
  for n in names:
    if 'speed' in n or 'vel_yaw' in n:
      c.close('compiled-agrees', comp[n], out[n], atol=1e-5, msg=n)
    else:
      c.eq('compiled-agrees', comp[n], out[n], msg=n, dtype=True)
  if c.k % 3 == 0:
    tfd = wu.simulator_state_to_womd_dict_tensorflow(state, desc)
    for n in names:
      c.eq('tensorflow-variant', tfd[n].numpy(), out[n], msg=n, dtype=True)
  # documented refusal of a state with another amount of history
  if t == H:
    ok = gen.to_np(wu.simulator_state_to_womd_dict(state, desc, validate=True))
    c.tree_eq('right-history-accepted', ok, out)
  else:
    c.raises('wrong-history-refused', ValueError, lambda: wu.simulator_state_to_womd_dict(state, desc, validate=True), 'history')
  # parse back
  whole = dict(out)
  for k in list(TRAJ) + ['speed', 'vel_yaw']:
    whole[f'state/all/{k}'] = np.concatenate([out[f'state/{q}/{k}'] for q in ('past', 'current', 'future')], -1)
  for k in ('state', 'valid', 'id', 'x', 'y', 'z'):
    whole[f'traffic_light_state/all/{k}'] = np.concatenate([out[f'traffic_light_state/{q}/{k}'] for q in ('past', 'current', 'future')], 0)
  st = gen.to_np(wf.simulator_state_from_womd_dict(whole))
  judge_parsed(c, st, S, tl, meta, rg, t, H, F)
  cur = gen.to_np(wf.simulator_state_from_womd_dict(out, time_key='current'))
  for k in ('x', 'y', 'z', 'yaw', 'vel_x', 'vel_y', 'valid', 'timestamp_micros'):
    c.eq('re-parsed-trajectory', dict(cur.log_trajectory)[k], S[k][:, t:t + 1], msg='current ' + k, dtype=True)
  c.nontrivial(any((S[k][:, :t + 1] != sc['log'][k][:, :t + 1]).any() for k in ('x', 'yaw')))


def record(c):
  """Recorded scenario -> environment -> export -> serialise -> parse."""
  import jax.numpy as jnp
  from waymax import config as wc, env as we
  from waymax.dataloader import womd_dataloader as wd, womd_factories as wf, womd_utils as wu
  r = c.rng
  R = [12, 20][c.shard % 2]
  rec = womd.gen_record(r, R=R, tag=int(r.integers(0, 9)), live=int(r.integers(3, 20)), minus_valid=bool(r.random() < .5))
  cfg = wc.DatasetConfig(path='unused', max_num_rg_points=R)
  parse = lambda p: {k: v.numpy() for k, v in wd.preprocess_serialized_womd_data(p, cfg).items()}
  logged = wf.simulator_state_from_womd_dict(parse(womd.serialize(womd.features(rec))))
  kind = ['delta_global', 'bicycle'][c.shard % 2]
  if 'env' not in c.cache:
    c.cache['env'] = we.MultiAgentEnvironment(sim.make_dynamics(kind), sim.env_config(128, 11, 'VALID'))
  env = c.cache['env']
  state = env.reset(logged)
  n = [0, 1, 3, 12][c.k % 4]
  for _ in range(n):
    d, v = sim.gen_action(r, kind, (128,), valid_p=1.)
    state = env.step(state, sim.make_action(d, v))
  t = 10 + n
  c.hit('event:stepped-in-environment', n)
  c.describe(steps=n, kind=kind)
  before = gen.to_np(state)
  S, tl, meta, rg = parts(before)
  c.signature(S['x'], S['valid'], t)
  desc = wu.get_features_description(max_num_rg_points=R)
  out = gen.to_np(wu.simulator_state_to_womd_dict(state, desc))
  judge_export(c, out, desc, S, tl, meta, rg, t, 10)
  c.tree_eq('state-unmodified', gen.to_np(state), before)
  if c.failed:
    return
  c.hit('event:serialised')
  st = gen.to_np(wf.simulator_state_from_womd_dict(parse(womd.serialize(out))))
  judge_parsed(c, st, S, tl, meta, rg, t, 10, 80, wrapped=True)
  if n == 0:
    L = dict(before.log_trajectory)
    for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'valid'):
      c.eq('re-parsed-trajectory', dict(st.log_trajectory)[k][:, :11], L[k][:, :11], msg='log ' + k)
  c.nontrivial(n > 0)


def case(c):
  (record if c.k % 4 == 3 else sized)(_sub(c))


def _sub(c):
  c.k = c.k // 4 if c.k % 4 == 3 else c.k - c.k // 4
  return c


PARTS = [Part('export', case, shards=8, quick=12, thorough=160)]
