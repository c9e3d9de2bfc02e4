"""C27: the data pipeline delivers every scenario exactly as configured."""
import collections
import os
import shutil
import tempfile
import numpy as np
from harness import gen, womd
from harness.core import Part

PROPERTY = 'C27'
RULE = ('files of uniquely numbered records are delivered through the real parallel reader for random file layouts, shard counts, batch dimensions, '
        'repeats, shuffles and drop settings, with random delays injected into the parsing of single records; the delivered history is judged '
        'for exactly-once delivery, per-file order, reproducibility and record integrity; some files hold full scenarios; non-trivial: more than one file')
REQUIRED = ['obs:exactly-once', 'obs:per-file-order', 'obs:reproducible', 'obs:batch-shape', 'obs:record-intact', 'obs:only-a-remainder-dropped',
            'obs:shuffle-permutes', 'obs:filenames', 'obs:format-refused', 'obs:scenario-intact', 'obs:process-split', 'obs:endless', 'obs:shuffle-buffer', 'obs:unbatched-objects',
            'event:delayed-records', 'event:sharded-path', 'event:repeat', 'event:shuffled', 'event:non-deterministic', 'event:no-drop', 'event:several-shards',
            'event:nested-batch', 'event:postprocess', 'event:more-shards-than-files', 'event:distributed', 'event:partial-batch', 'event:object-limit',
            'event:routes', 'event:several-processes', 'event:at-sign-in-directory', 'event:shuffled-processes']
ASSUMPTIONS = ['every parallel shard batches its own records, so each may drop (or deliver) one incomplete batch',
               'with nested batch dimensions the record count of every shard is a multiple of the inner batch (or incomplete batches are dropped)',
               'no tf.data service and one device: remote services and several devices do not exist here']
LEVEL_NOTE = 'schedules of the parallel reader are sampled (real threads, injected parse delays), not enumerated.'


def payload(i, tag):
  return (np.arange(7) * 31 + i * 101 + tag).astype(np.int64)


def write_layout(r, tmp, sizes, tag, sharded, at_dir=''):
  """Writes files; returns (config path, list of record ids per file)."""
  base = os.path.join(tmp, at_dir or 'd', 'rec.tfrecord')
  n = len(sizes)
  names = [f'{base}-{i:05d}-of-{n:05d}' for i in range(n)] if sharded else [base]
  ids, nxt = [], 0
  for name, k in zip(names, sizes):
    own = list(range(nxt, nxt + k))
    nxt += k
    ids.append(own)
    womd.write(name, [womd.serialize(dict(id=np.array([i]), data=payload(i, tag), blob=np.full(5, i * .5, np.float32))) for i in own])
  return (f'{base}@{n}' if sharded else base), ids


def parser(delays=None):
  import tensorflow as tf
  desc = dict(id=tf.io.FixedLenFeature([], tf.int64), data=tf.io.FixedLenFeature([7], tf.int64), blob=tf.io.FixedLenFeature([5], tf.float32))

  def fn(s):
    ex = tf.io.parse_single_example(s, desc)
    if delays is not None:
      import time

      def wait(i):
        time.sleep(float(delays[int(i) % len(delays)]))
        return i
      ex['id'] = tf.ensure_shape(tf.numpy_function(wait, [ex['id']], tf.int64), [])
    return ex
  return fn


def flatten(c, elems, B, tag, drop, n_shards, what):
  """Judges every element and returns the delivered record ids in order."""
  full = int(np.prod(B)) if B else 1
  partial, ids = 0, []
  for e in elems:
    i = np.asarray(e['id'])
    if not B or drop:
      c.check('batch-shape', i.shape == tuple(B), f'{what}: batch dimensions', got=i.shape, want=B)
    else:
      c.check('batch-shape', i.ndim == len(B) and all(0 < a <= b for a, b in zip(i.shape, B)), f'{what}: batch dimensions', got=i.shape, want=B)
      partial += i.size < full
    flat = i.reshape(-1)
    d, b = np.asarray(e['data']), np.asarray(e['blob'])
    if c.check('record-intact', d.shape == i.shape + (7,) and b.shape == i.shape + (5,), f'{what}: feature shapes', got=str(d.shape)):
      c.eq('record-intact', d.reshape(-1, 7), np.stack([payload(k, tag) for k in flat]), msg=what)
      c.eq('record-intact', b.reshape(-1, 5), np.repeat((flat * .5).astype(np.float32)[:, None], 5, 1), msg=what)
    ids += flat.tolist()
  if B and not drop:
    c.check('only-a-remainder-dropped', partial <= n_shards * len(B), f'{what}: incomplete batches', got=partial, want=n_shards)
    c.hit('event:partial-batch', partial)
  return ids


def pipeline(c):
  import jax
  import tensorflow as tf
  from waymax import config as wc
  from waymax.dataloader import dataloader_utils as du
  r = c.rng
  tag = int(r.integers(1, 1000))
  sharded = bool(r.random() < .7)
  n_files = int(r.integers(1, 8)) if sharded else 1
  at_dir = str(r.choice(['a@b', 'a@5', 'u@12/v'])) if r.random() < .3 else ''
  sizes = [int(x) for x in r.integers(0 if n_files > 2 and r.random() < .2 else 1, 14, n_files)]
  B = [(), (), (1,), (2,), (3,), (5,), (2, 2), (2, 3)][int(r.integers(8))]
  drop = bool(r.random() < .5)
  if len(B) > 1 and not drop:
    sizes = [B[-1] * int(x) for x in r.integers(1, 6, n_files)]
  if sum(sizes) == 0:
    sizes[0] = 5
  shards = int(r.choice([1, 2, 3, 4, 9]))
  repeat = int(r.choice([1, 1, 2, 3]))
  seed = None if r.random() < .5 else int(r.integers(0, 1000))
  buf = int(r.choice([1, 4, 100]))
  det = bool(r.random() < .75)
  delays = r.choice([0, 0, 0, .001, .004], size=17) if r.random() < .5 else None
  tmp = tempfile.mkdtemp(prefix='c27_')
  try:
    path, per_file = write_layout(r, tmp, sizes, tag, sharded, at_dir)
    total = sum(sizes)
    c.describe(files=n_files, sizes=sizes, batch=str(B), drop=drop, shards=shards, repeat=repeat, seed=str(seed), buffer=buf, deterministic=det,
               delays=delays is not None, path=os.path.basename(path))
    c.signature(tuple(sizes), B, drop, shards, repeat, seed, buf, det)
    c.nontrivial(n_files > 1)
    via = r.choice(['dataset', 'generator', 'post', 'distributed'], p=[.3, .3, .3, .1])
    if via == 'distributed' and not drop:
      via = 'generator'
    cfg = wc.DatasetConfig(path=path, repeat=repeat, batch_dims=B, shuffle_seed=seed, shuffle_buffer_size=buf, num_shards=shards,
                           deterministic=det, drop_remainder=drop, distributed=via == 'distributed')

    def run(cfg, limit=None):
      fn = parser(delays)
      if via == 'dataset':
        it = du.tf_examples_dataset(path, cfg.data_format, fn, shuffle_seed=cfg.shuffle_seed, shuffle_buffer_size=buf, repeat=cfg.repeat,
                                    batch_dims=B, num_shards=shards, deterministic=det, drop_remainder=drop).as_numpy_iterator()
      elif via == 'generator':
        it = du.get_data_generator(cfg, fn, None)
      else:
        it = du.get_data_generator(cfg, fn, lambda e: {k: v + 0 for k, v in e.items()})
      out = []
      for e in it:
        out.append({k: np.asarray(v) for k, v in e.items()})
        if limit and len(out) >= limit:
          break
      if via == 'distributed':
        n = jax.local_device_count()
        for e in out:
          c.check('batch-shape', e['id'].shape == (n,) + tuple(B), 'leading device dimension', got=e['id'].shape)
        out = [{k: v[j] for k, v in e.items()} for e in out for j in range(n)]
      return out

    live_shards = min(shards, n_files)
    got = flatten(c, run(cfg), B, tag, drop, live_shards, 'pass 1')
    cnt = collections.Counter(got)
    per_shard = max(1, int(np.prod(B))) if B else 1
    c.check('exactly-once', all(0 <= i < total for i in cnt) and all(v <= repeat for v in cnt.values()), 'a record was delivered too often',
            got=str(dict(cnt))[:200], want=repeat)
    missing = repeat * total - len(got)
    if not B or not drop:
      c.check('exactly-once', missing == 0, 'records were lost', missing=missing, want=repeat * total)
    else:
      c.check('only-a-remainder-dropped', 0 <= missing <= live_shards * (per_shard - 1), 'more than incomplete batches were dropped', missing=missing,
              want=f'<= {live_shards * (per_shard - 1)}')
    if seed is None and det:
      pos = {i: f for f, own in enumerate(per_file) for i in own}
      for f, own in enumerate(per_file):
        seq = [i for i in got if pos[i] == f]
        want = own * repeat
        c.check('per-file-order', seq == want[:len(seq)], f'order of the records of file {f}', got=str(seq)[:150])
    if det:
      again = flatten(c, run(cfg), B, tag, drop, live_shards, 'pass 2')
      c.check('reproducible', again == got, 'a second pass over the same configuration differs', got=str(again)[:200], want=str(got)[:200])
    if seed is not None:
      c.hit('event:shuffled')
      if n_files == 1 and det and via != 'distributed':
        nth = collections.Counter()
        for at, i in enumerate(got):
          src = nth[i] * total + i
          nth[i] += 1
          if not c.check('shuffle-buffer', src <= at + buf - 1, 'a record moved ahead by more than the shuffle buffer', buffer=buf, position=at, record=i):
            break
      if buf == 100 and max(sizes) >= 12:
        big = int(np.argmax(sizes))
        orders = []
        for s in (seed, seed + 1, seed + 2):
          ids = flatten(c, run(wc.DatasetConfig(**{**{f: getattr(cfg, f) for f in cfg.__dataclass_fields__}, 'shuffle_seed': s})), B, tag, drop, live_shards, 'shuffled')
          first = [i for i in ids if i in set(per_file[big])]
          orders.append(first)
        plain = (per_file[big] * repeat)
        c.check('shuffle-permutes', any(o != plain[:len(o)] for o in orders), 'records of a file stay in order under a full shuffle')
        if det:
          c.check('shuffle-permutes', len({tuple(o) for o in orders}) > 1, 'three shuffle seeds give one order')
    # Endless delivery.
    if c.k % 4 == 0 and (not B or sum(sizes) >= 3 * per_shard * shards):
      lim = 3 * total // per_shard + 2
      fields = {f: getattr(cfg, f) for f in cfg.__dataclass_fields__}
      out = run(wc.DatasetConfig(**{**fields, 'repeat': None, 'distributed': via == 'distributed'}), lim)
      c.check('endless', len(out) == lim, 'repeat=None ended', got=len(out), want=lim)
    # Hosts partition the files.
    if c.k % 3 == 0 and n_files > 1 and not B:
      hosts = int(r.integers(2, 4))
      c.hit('event:several-processes')
      c.hit('event:shuffled-processes', int(seed is not None))
      old = jax.process_count, jax.process_index
      seen = []
      try:
        for h in range(hosts):
          jax.process_count, jax.process_index = (lambda *a, **k: hosts), (lambda *a, h=h, **k: h)
          seen.append(flatten(c, run(cfg), B, tag, drop, live_shards, f'host {h}'))
      finally:
        jax.process_count, jax.process_index = old
      allids = collections.Counter(i for s in seen for i in s)
      c.check('process-split', all(allids[i] == repeat for i in range(total)) and sum(allids.values()) == repeat * total,
              'hosts together do not deliver every record once', got=str(dict(allids))[:200])
    for cond, ev in ((delays is not None, 'delayed-records'), (sharded, 'sharded-path'), (repeat > 1, 'repeat'), (not det, 'non-deterministic'),
                     (not drop, 'no-drop'), (live_shards > 1, 'several-shards'), (len(B) > 1, 'nested-batch'), (via == 'post', 'postprocess'),
                     (shards > n_files, 'more-shards-than-files'), (via == 'distributed', 'distributed'), (at_dir, 'at-sign-in-directory')):
      if cond:
        c.hit('event:' + ev)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def names(c):
  from waymax import config as wc
  from waymax.dataloader import dataloader_utils as du
  r = c.rng
  for j in range(30):
    n = int(r.choice([99999, 100000, 100001]) if j == 0 else r.choice([1, 2, 9, 10, 99, 100, 101, 999, 1000, 1001, 9999, 10000, int(r.integers(1, 3000))]))
    base = str(r.choice(['f', '/data/x.tfrecord', 'gs://b/u@1/t.tfrecord', '/a@b@c/d', 'a-00001-of-00002', 'pct%d', 'x%05d']))
    got = list(du.generate_sharded_filenames(f'{base}@{n}')) if '%' not in base else None
    if got is None:
      continue
    c.check('filenames', got == [f'{base}-{i:0{max(5, len(str(n)))}d}-of-{n:05d}' for i in range(n)], f'{base}@{n}', got=str(got[:3]), count=len(got))
    c.signature(base, n)


def objects(c):
  """batch_by_scenario=False: single objects are the examples."""
  import tensorflow as tf
  from waymax import config as wc
  from waymax.dataloader import dataloader_utils as du
  r = c.rng
  tmp = tempfile.mkdtemp(prefix='c27_')
  try:
    tag = int(r.integers(1, 99))
    n = int(r.integers(2, 9))
    path, per_file = write_layout(r, tmp, [n], tag, False)
    K, b = int(r.integers(1, 5)), int(r.integers(1, 4))
    desc = dict(id=tf.io.FixedLenFeature([], tf.int64))

    def fn(s):
      i = tf.io.parse_single_example(s, desc)['id']
      return dict(obj=i * 100 + tf.range(K, dtype=tf.int64))
    cfg = wc.DatasetConfig(path=path, repeat=1, batch_dims=(b,), num_shards=1, drop_remainder=False, batch_by_scenario=False)
    out = [np.asarray(e['obj']) for e in du.get_data_generator(cfg, fn, None)]
    c.eq('unbatched-objects', np.concatenate(out), np.array([i * 100 + k for i in range(n) for k in range(K)]), msg='objects')
    c.check('unbatched-objects', all(o.shape == (b,) for o in out[:-1]) and 0 < out[-1].size <= b, 'object batches')
    c.signature(n, K, b)
    for fmt in ('SSTABLE', None, 'TFRECORD'):
      c.raises('format-refused', ValueError, lambda: du.tf_examples_dataset(path, fmt, fn), f'format {fmt}')
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def scenarios(c):
  """Full scenario records delivered as simulator states."""
  from waymax import config as wc, dataloader
  r = c.rng
  R, P, N = 8, *[(0, 0), (2, 4)][c.shard % 2]
  limit = [5, None, 9, 128][(c.shard // 2) % 4]
  n_files = int(r.integers(1, 4))
  counts = [int(x) for x in r.integers(1, 4, n_files)]
  B = [(), (2,)][int(r.integers(2))]
  tmp = tempfile.mkdtemp(prefix='c27_')
  try:
    base = os.path.join(tmp, 'd', 'rec.tfrecord')
    recs, k = [], 0
    for f, n in enumerate(counts):
      own = [womd.gen_record(r, R=R, P=P, N=N or 6, tag=k + j, live=int(r.integers(3, 9))) for j in range(n)]
      k += n
      recs += own
      womd.write(f'{base}-{f:05d}-of-{n_files:05d}', [womd.serialize(womd.features(q)) for q in own])
    cfg = wc.DatasetConfig(path=f'{base}@{n_files}', repeat=1, batch_dims=B, num_shards=int(r.integers(1, 4)), drop_remainder=False,
                           max_num_rg_points=R, max_num_objects=limit, include_sdc_paths=bool(P), num_paths=P or None, num_points_per_path=N or None,
                           shuffle_seed=None if r.random() < .6 else 3)
    c.describe(scenarios=len(recs), files=n_files, batch=str(B), objects=str(limit), routes=P)
    c.signature('scenario', len(recs), n_files, str(B), str(limit), str(recs[0]['traj']['x'][0, :5]))
    c.nontrivial(len(recs) > 1)
    c.hit('event:object-limit', int(bool(limit)))
    c.hit('event:routes', int(bool(P)))
    seen = []
    for st in dataloader.simulator_state_generator(cfg):
      st = gen.to_np(st)
      parts = [gen.index_batch(st, i) for i in range(st.timestep.shape[0])] if B else [st]
      for s in parts:
        hit = [q for q in recs if q['tag'] not in seen and _same(q, s, limit)]
        if c.check('scenario-intact', len(hit) >= 1, 'a delivered scenario matches no undelivered record'):
          seen.append(hit[0]['tag'])
          womd.compare(c, s, womd.expected(hit[0], limit), f'scenario {hit[0]["tag"]}: ')
    c.check('exactly-once', sorted(seen) == list(range(len(recs))), 'scenarios delivered', got=str(sorted(seen)), want=len(recs))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def _same(q, s, limit):
  n = limit or womd.NOBJ
  return s.log_trajectory.x.shape[0] == n and np.array_equal(np.asarray(s.log_trajectory.x), q['traj']['x'][:n].astype(np.float32))


def case(c):
  if c.k % 8 == 7:
    scenarios(c)
  elif c.k % 8 == 3:
    names(c)
    objects(c)
  else:
    pipeline(c)


PARTS = [Part('deliver', case, shards=8, quick=24, thorough=500)]
