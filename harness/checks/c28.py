"""C28: recorded scenarios are parsed faithfully into simulator state."""
import numpy as np
from harness import gen, womd
from harness.core import Part

PROPERTY = 'C28'
RULE = ('synthetic scenarios (128 object slots, 91 steps, unwrapped headings, jittering sizes, invalid entries as 0/-1/'
        'leftovers, with and without routes) are serialised as tf.Examples, parsed and compared field by field; '
        'non-trivial: some recorded step is invalid')
REQUIRED = ['obs:log-fields', 'obs:heading-value', 'obs:heading-range', 'obs:dimensions', 'obs:dimensions-constant',
            'obs:meta-fields', 'obs:tl-fields', 'obs:rg-fields', 'obs:route-fields', 'obs:initial-simulated-state',
            'obs:other-features-untouched', 'obs:time-key-refused', 'obs:missing-route-size-refused', 'obs:which-time',
            'event:routes', 'event:limited-objects', 'event:never-valid-object', 'event:invalid-as-minus-one',
            'event:time-key-past', 'event:time-key-current', 'event:time-key-future', 'event:aggregated', 'event:batched',
            'event:heading-out-of-range', 'event:long-ids']
ASSUMPTIONS = ['records hold 128 object slots and 10+1+80 steps as the record format prescribes; object ids (stored as floats) below 2^24, others below 2^31',
               'headings to 5e-6 rad (float32 wrap)']


def case(c):
  import tensorflow as tf
  from waymax import config as wc
  from waymax.dataloader import womd_dataloader as wd, womd_factories as wf
  r = c.rng
  R = [20, 7, 33, 12][c.shard % 4]
  P, N = [(0, 0), (3, 5)][(c.shard // 2 + c.k) % 2]
  limit = [None, 8, 128, 1, 40][(c.shard + c.k) % 5]
  rec = womd.gen_record(r, R=R, P=P, N=N or 6, tag=int(r.integers(0, 16)), live=int(r.integers(4, 30)),
                        unwrapped=bool(r.random() < .7), minus_valid=bool(r.random() < .5), big_ids=bool(r.random() < .5))
  feats = womd.features(rec)
  payload = womd.serialize(feats)
  c.describe(R=R, routes=P, max_objects=str(limit))
  c.signature(rec['traj']['x'], rec['traj']['valid'], str(limit))
  agg = c.k % 4 != 3
  cfg = wc.DatasetConfig(path='unused', max_num_rg_points=R, max_num_objects=limit, include_sdc_paths=bool(P),
                         num_paths=P or None, num_points_per_path=N or None, aggregate_timesteps=agg)
  parsed = wd.preprocess_serialized_womd_data(payload, cfg)
  if P:
    c.hit('event:routes')
  if limit not in (None, 128):
    c.hit('event:limited-objects')
  c.hit('event:long-ids', (rec['rg']['id'] > 2**24).sum())
  c.hit('event:never-valid-object', (~(rec['traj']['valid'] > 0).any(-1)).sum())
  c.hit('event:invalid-as-minus-one', (rec['traj']['valid'] < 0).sum())
  c.hit('event:heading-out-of-range', (np.abs(rec['traj']['yaw']) > np.pi).sum())
  ex = {k: v.numpy() for k, v in parsed.items()}
  n = limit or womd.NOBJ
  # features that are not part of the state
  if agg:
    c.hit('event:aggregated')
    c.check('other-features-untouched', not any('/past/' in k or '/future/' in k or '/current/' in k for k in ex), 'left-over time keys')
    for k in ('speed', 'vel_yaw'):
      want = np.concatenate([feats[f'state/{t}/{k}'] for t in womd.TIMES], -1)[:n]
      c.eq('other-features-untouched', ex[f'state/all/{k}'], want.astype(np.float32), msg=k)
    c.eq('other-features-untouched', ex['traffic_light_state/all/timestamp_micros'], rec['tl']['timestamp_micros'], msg='tl time')
    c.eq('which-time', ex['state/which_time'], np.r_[-np.ones(10), 0., np.ones(80)].astype(np.float32))
    keys = [('all', 0, 91)]
  else:
    for k, v in feats.items():
      c.eq('other-features-untouched', ex[k], v[:n] if k.startswith('state/') else v, msg=k)
    keys = [(t, a, b) for t, (a, b) in womd.TIMES.items()]
  for tk, a, b in keys:
    want = womd.expected(rec, limit, a, b)
    state = gen.to_np(wf.simulator_state_from_womd_dict(ex, include_sdc_paths=bool(P), time_key=tk))
    womd.compare(c, state, want, f'{tk}: ', wrapped=agg)
    if not agg:
      c.hit('event:time-key-' + tk)
    L, S = dict(state.log_trajectory), dict(state.sim_trajectory)
    for k in L:
      c.eq('initial-simulated-state', S[k][:, :1], L[k][:, :1], msg=k, dtype=True)
      c.eq('initial-simulated-state', S[k][:, 1:], np.zeros_like(L[k][:, 1:]), msg=k, dtype=True)
    c.eq('initial-simulated-state', state.timestep, np.zeros((), np.int32), dtype=True)
    if c.failed:
      return
  if agg and c.k % 4 == 0:  # a batch of records parsed together
    recs = [rec] + [womd.gen_record(r, R=R, P=P, N=N or 6, tag=i + 1, live=6) for i in range(2)]
    exs = [ex] + [{k: v.numpy() for k, v in wd.preprocess_serialized_womd_data(womd.serialize(womd.features(q)), cfg).items()}
                  for q in recs[1:]]
    both = {k: np.stack([e[k] for e in exs]) for k in ex}
    state = gen.to_np(wf.simulator_state_from_womd_dict(both, include_sdc_paths=bool(P)))
    for i, q in enumerate(recs):
      womd.compare(c, gen.index_batch(state, i), womd.expected(q, limit), f'batch {i}: ')
    c.eq('initial-simulated-state', state.timestep, np.zeros(3, np.int32), dtype=True)
    c.hit('event:batched')
  c.raises('time-key-refused', ValueError, lambda: wf.simulator_state_from_womd_dict(ex, time_key='now'), 'time_key')
  c.raises('time-key-refused', ValueError, lambda: wf.traffic_lights_from_womd_dict(ex, time_key='later'), 'time_key')
  if c.k % 4 == 1:
    bad = wc.DatasetConfig(path='unused', max_num_rg_points=R, include_sdc_paths=True, num_paths=[None, 3][c.shard % 2],
                           num_points_per_path=[5, None][c.shard % 2])
    c.raises('missing-route-size-refused', ValueError, lambda: wd.preprocess_serialized_womd_data(payload, bad), 'route sizes')
  c.nontrivial(bool((rec['traj']['valid'] <= 0).any()))


PARTS = [Part('parse', case, shards=8, quick=16, thorough=300)]
