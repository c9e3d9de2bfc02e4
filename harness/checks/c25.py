"""C25: array-tree primitives equal their elementwise definitions."""
import numpy as np
from harness import gen
from harness.core import Part

PROPERTY = 'C25'
RULE = ('random array trees (nested containers, simulator structures, mixed dtypes, non-finite contents) x operations x axes '
        'x shared and per-batch start indices; results are compared bit for bit with leaf-by-leaf, element-by-element NumPy '
        'loops; non-trivial: a batch with differing start indices, or a mask with both values')
REQUIRED = ['obs:slice', 'obs:index', 'obs:slice-update', 'obs:slice-update-default', 'obs:alias', 'obs:mask-update',
            'obs:onehot', 'obs:onehot-refused', 'obs:masked-mean', 'obs:masked-array', 'obs:invalid-data', 'obs:equal', 'obs:unequal',
            'obs:inputs-untouched', 'obs:tolerant-compare', 'obs:masked-array-refused', 'event:batched-start', 'event:two-batch-dims', 'event:structure', 'event:compiled',
            'event:non-finite', 'event:none-valid', 'event:long-axis', 'event:other-axis', 'event:structure-differs', 'event:subclass']
ASSUMPTIONS = ['start indices keep the slice inside the array (the code documents no boundary check)',
               'sums of masked means agree to float32 rounding']


def leaf(r, shape, kind=None):
  kind = kind or r.choice(['f', 'i', 'b', 'wild'])
  if kind == 'f':
    return r.normal(size=shape).astype(np.float32)
  if kind == 'i':
    return r.integers(-2**31, 2**31 - 1, shape).astype(np.int32)
  if kind == 'b':
    return r.random(shape) < .5
  v = r.normal(size=shape).astype(np.float32)
  return np.where(r.random(shape) < .3, r.choice(np.array([np.nan, np.inf, -np.inf, 3e38, -0.], np.float32), size=shape), v)


def tree(r, batch, body, c):
  """A tree of NumPy leaves: batch + body (+ trailing dims when allowed)."""
  n = r.integers(0, 4)
  mk = lambda kind=None: leaf(r, batch + body, kind)
  if n == 0:
    return mk()
  if n == 1:
    return {'a': mk(), 'b': {'c': [mk(), (mk(), mk('i'))]}}
  if n == 2:
    return (mk('wild'), [mk('b')], {'z': None, 'y': mk()})
  c.hit('event:structure')
  from waymax import datatypes as dt
  f = {k: mk('f') for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height')}
  return dt.Trajectory(valid=mk('b'), timestamp_micros=mk('i'), **f)


def loop(tree_, B, fn):
  """Applies fn(leaf, batch index) per batch element; restacks."""
  import jax
  def one(x):
    x = np.asarray(x)
    if not B:
      return fn(x, ())
    outs = [fn(x[i], i) for i in np.ndindex(*B)]
    return np.stack(outs).reshape(B + outs[0].shape)
  return jax.tree_util.tree_map(one, tree_)


def sl(x, s, n, axis):
  ix = [slice(None)] * x.ndim
  ix[axis] = slice(int(s), int(s) + n)
  return x[tuple(ix)]


def slices(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  from waymax.datatypes import operations as op
  r = c.rng
  if 'pool' not in c.cache:  # shapes are per shard, so compiled primitives are shared
    q = np.random.default_rng([c.ctx.seed, c.shard])
    pool = []
    for i in range(5 if c.tier == 'quick' else 60):
      B = [(), (3,), (2, 2), (1,), (2, 3)][(c.shard + i) % 5]
      body = tuple(int(v) for v in q.integers(2, 6, 1 + (i + c.shard) % 3))
      axis = int(q.integers(-len(body), len(body)))
      pool.append((B, body, axis, int(q.integers(1, body[axis] + 1))))
    c.cache['pool'] = pool
  B, body, axis, n = c.cache['pool'][r.integers(len(c.cache['pool']))]
  t = tree(r, B, body, c)
  before = gen.to_np(t)
  L = body[axis]
  s = r.integers(0, L - n + 1, B) if B else int(r.integers(0, L - n + 1))
  start = jnp.asarray(s, jnp.int32) if B or r.random() < .5 else s
  if r.random() < .3 and B:
    start = np.asarray(s)
  at = (lambda i: s[i]) if B else (lambda i: s)
  c.hit('event:batched-start', bool(B))
  c.hit('event:two-batch-dims', len(B) == 2)
  c.hit('event:non-finite', any((~np.isfinite(x)).any() for x in jax.tree_util.tree_leaves(before) if x.dtype.kind == 'f'))
  c.signature(str(B), str(body), axis, np.asarray(s), jax.tree_util.tree_leaves(before)[0])
  c.describe(batch=str(B), body=str(body), axis=axis, start=s, size=n)
  c.nontrivial(bool(B) and len(np.unique(s)) > 1)
  comp = c.k % 6 == 5
  c.hit('event:compiled', comp)
  j = (lambda f: jax.jit(f)) if comp else (lambda f: f)
  jt = jax.tree_util.tree_map(jnp.asarray, t)
  c.tree_eq('slice', gen.to_np(j(lambda a, b: dt.dynamic_slice(a, b, n, axis))(jt, start)),
            loop(before, B, lambda x, i: sl(x, at(i), n, axis)))
  if r.random() < .3:  # the same slice without batch interpretation: one shared start
    ax = int(r.integers(0, len(B + body)))
    s0 = int(r.integers(0, (B + body)[ax]))
    m = int(r.integers(1, (B + body)[ax] - s0 + 1))
    c.tree_eq('slice', gen.to_np(dt.dynamic_slice(jt, s0, m, ax)), loop(before, (), lambda x, i: sl(x, s0, m, ax)), 'shared start')
  q = r.integers(0, L, B) if B else int(r.integers(0, L))
  qa = (lambda i: q[i]) if B else (lambda i: q)
  keep = bool(r.random() < .5)
  want = loop(before, B, lambda x, i: np.take(x, [int(qa(i))], axis) if keep else np.take(x, int(qa(i)), axis))
  c.tree_eq('index', gen.to_np(j(lambda a, b: dt.dynamic_index(a, b, axis, keep))(jt, jnp.asarray(q) if B else q)), want)
  # slice update from another tree of the same structure
  full = tree_like(r, before)
  us = r.integers(0, L - n + 1, B) if B else int(r.integers(0, L - n + 1))
  mode = r.integers(3)
  ju = jax.tree_util.tree_map(jnp.asarray, full)
  if mode == 0:  # explicit update start, per batch or shared
    if B and r.random() < .4:
      us = int(r.integers(0, L - n + 1))
    ua = (lambda i: us[i]) if np.ndim(us) else (lambda i: us)
    got = j(lambda a, u, x, y: op.update_by_slice_in_dim(a, u, x, y, n, axis))(jt, ju, start, jnp.asarray(us))
  elif mode == 1:  # same position in both
    ua = at
    got = j(lambda a, u, x: op.update_by_slice_in_dim(a, u, x, slice_size=n, axis=axis))(jt, ju, start)
  if mode < 2:
    def put(pair, i):
      x, u = pair
      y = x.copy()
      ix = [slice(None)] * x.ndim
      ix[axis] = slice(int(at(i)), int(at(i)) + n)
      y[tuple(ix)] = sl(u, ua(i), n, axis)
      return y
  else:  # the whole (shorter) update is written
    part = loop(full, B, lambda x, i: sl(x, 0, n, axis))
    jp = jax.tree_util.tree_map(jnp.asarray, part)
    got = j(lambda a, u, x: op.update_by_slice_in_dim(a, u, x, axis=axis))(jt, jp, start)
    al = op.dynamic_update_slice_in_dim(jt, jp, start, axis)
    c.tree_eq('alias', gen.to_np(al), gen.to_np(got))
    full = part
    def put(pair, i):
      x, u = pair
      y = x.copy()
      ix = [slice(None)] * x.ndim
      ix[axis] = slice(int(at(i)), int(at(i)) + n)
      y[tuple(ix)] = u
      return y
  def both(x, u):
    x, u = np.asarray(x), np.asarray(u)
    if not B:
      return put((x, u), ())
    return np.stack([put((x[i], u[i]), i) for i in np.ndindex(*B)]).reshape(x.shape)
  c.tree_eq('slice-update' if mode < 2 else 'slice-update-default', gen.to_np(got), jax.tree_util.tree_map(both, before, full))
  c.tree_eq('inputs-untouched', gen.to_np(jt), before)


def tree_like(r, t):
  import jax
  def mk(x):
    return leaf(r, x.shape, {'f': 'wild', 'i': 'i', 'b': 'b'}[x.dtype.kind])
  return jax.tree_util.tree_map(mk, t)


def masks(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  from waymax.datatypes import operations as op
  r = c.rng
  B = [(), (3,), (2, 2), (1,)][(c.shard + c.k // 5) % 4]
  N = 1 + (c.shard + 3 * (c.k // 60)) % 7
  t = tree(r, B, (N,), c)
  up = tree_like(r, t)
  mask = r.random(B + (N,)) < r.choice([.1, .5, .9])
  if r.random() < .2:
    mask = mask[..., :1]
  c.nontrivial(bool(mask.any() and not mask.all()))
  comp = c.k % 6 == 5
  c.hit('event:compiled', comp)
  j = (lambda f: jax.jit(f)) if comp else (lambda f: f)
  ja = lambda q: jax.tree_util.tree_map(jnp.asarray, q)
  got = gen.to_np(j(dt.update_by_mask)(ja(t), ja(up), jnp.asarray(mask)))
  c.tree_eq('mask-update', got, jax.tree_util.tree_map(lambda x, y: np.where(mask, y, x), t, up))
  c.signature(mask, jax.tree_util.tree_leaves(t)[0])
  c.describe(batch=str(B), n=N, mask=mask)
  # one-hot selection with trailing dimensions
  trail = [(), (2,), (3, 2)][c.shard % 3]
  hot = r.integers(0, N, B)
  sel = np.arange(N) == np.asarray(hot)[..., None]
  data = {'p': leaf(r, B + (N,) + trail), 'q': [leaf(r, B + (N,), 'wild'), leaf(r, B + (N,) + (2,), 'i')], 'b': leaf(r, B + (N,), 'b')}
  bad = any((~np.isfinite(x)).any() for x in jax.tree_util.tree_leaves(data) if x.dtype.kind == 'f')
  c.hit('event:non-finite', bad)
  for keep in (False, True):
    got = gen.to_np(j(lambda a, s: dt.select_by_onehot(a, s, keepdims=keep))(ja(data), jnp.asarray(sel)))
    def pick(x):
      o = x[sel].reshape(B + x.shape[len(B) + 1:])
      return o.reshape(B + (1,) + o.shape[len(B):]) if keep else o
    want = jax.tree_util.tree_map(pick, data)
    gl, wl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
    for g, w in zip(gl, wl):
      c.eq('onehot', g, w, dtype=True)
  c.raises('onehot-refused', (AssertionError, ValueError, TypeError),
           lambda: dt.select_by_onehot(jnp.zeros(B + (N + 1,)), jnp.asarray(sel)), 'mismatching one-hot length')
  # filler
  inv = gen.to_np(jax.tree_util.tree_map(dt.make_invalid_data, ja(t)))
  c.tree_eq('invalid-data', inv, jax.tree_util.tree_map(lambda x: np.full(x.shape, False if x.dtype == bool else -1, x.dtype), t))
  # masked means over any axis, also long ones
  M = N if r.random() < .6 else int(r.integers(120, 700))
  c.hit('event:long-axis', M > 100)
  sh = B + (M,)
  x = (r.normal(size=sh) * 50).astype(np.float32)
  x = np.where(r.random(x.shape) < .15, np.float32(r.choice([np.nan, np.inf, 1e30])), x)
  valid = np.isfinite(x) & (np.abs(x) < 1e29) & (r.random(x.shape) < r.choice([.6, 1.]))
  fill = float(r.choice([-1., 0., 7.5]))
  n = len(sh)
  if c.k % 7 == 6:
    axis = [None, tuple(range(n)), (n - 1,)][(c.k // 7) % 3]
  else:
    axis = int(r.choice([-1, n - 1, -1, int(r.integers(-n, n))]))
  c.hit('event:other-axis', not isinstance(axis, int) or axis % n != n - 1)
  m = np.asarray(j(lambda a, v: op.masked_mean(a, v, axis=axis, invalid_value=fill))(jnp.asarray(x), jnp.asarray(valid)))
  def mean(ax, fill):
    cnt = valid.sum(ax, keepdims=True)
    w = np.where(cnt > 0, np.where(valid, x, 0).astype(np.float64).sum(ax, keepdims=True) / np.maximum(cnt, 1), fill)
    return cnt, np.broadcast_to(w, x.shape)
  cnt, want = mean(axis, fill)
  c.close('masked-mean', m, want, atol=1e-3, rtol=1e-5, msg=f'axis {axis} of {sh}')
  c.hit('event:none-valid', (cnt == 0).sum())
  m = np.asarray(op.masked_mean(jnp.asarray(x), jnp.asarray(valid)))
  c.close('masked-mean', m, mean(0, -1.)[1], atol=1e-3, rtol=1e-5, msg=f'defaults, {sh}')
  # masked arrays
  v = leaf(r, B + (N,), r.choice(['f', 'i', 'wild']))
  ok = r.random(B + (N,)) < .5
  ma = dt.MaskedArray.create_and_validate(jnp.asarray(v), jnp.asarray(ok))
  f = r.choice([0., -1., 9.])
  c.eq('masked-array', ma.masked_value(f), np.where(ok, v, np.array(f, v.dtype)), dtype=True)
  c.eq('masked-array', ma.masked_value(), np.where(ok, v, np.zeros((), v.dtype)), dtype=True)
  c.eq('masked-array', np.array(ma.shape), np.array(ok.shape))
  c.raises('masked-array-refused', (AssertionError, ValueError),
           lambda: dt.MaskedArray.create_and_validate(jnp.zeros(B + (N + 1,)), jnp.asarray(ok)), 'shapes differ')
  c.raises('masked-array-refused', (AssertionError, ValueError),
           lambda: dt.MaskedArray.create_and_validate(jnp.asarray(v), jnp.asarray(ok, jnp.float32)), 'validity is not boolean')


def equality(c):
  import jax
  import jax.numpy as jnp
  from waymax import datatypes as dt
  from waymax.datatypes import operations as op
  r = c.rng
  A, T = 1 + c.shard % 3, 2 + c.shard % 4
  s = gen.gen_scene(r, A=A, T=T, R=6, L=2, P=2, N=4)
  st = gen.make_state(s, timestep=1)
  objs = {'state': st, 'traj': st.sim_trajectory, 'lights': st.log_traffic_light, 'meta': st.object_metadata,
          'map': st.roadgraph_points, 'paths': st.sdc_paths,
          'action': dt.Action(data=jnp.asarray(leaf(r, (A, 2), 'f')), valid=jnp.asarray(leaf(r, (A, 1), 'b'))),
          'masked': dt.MaskedArray(value=jnp.asarray(leaf(r, (A,), 'f')), valid=jnp.asarray(leaf(r, (A,), 'b'))),
          'update': dt.TrajectoryUpdate(**{k: jnp.asarray(leaf(r, (A, 1), 'f')) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')},
                                        valid=jnp.asarray(leaf(r, (A, 1), 'b'))),
          'pose': dt.ObjectPose2D.from_center_and_yaw(jnp.asarray(leaf(r, (A, 2), 'f')), jnp.asarray(leaf(r, (A,), 'f')))}
  from waymax.env.wrappers import brax_wrapper as bw
  from waymax.datatypes import observation as ob
  from waymax.metrics import abstract_metric as am
  mv = am.MetricResult.create_and_validate(objs['masked'].value, objs['masked'].valid)
  objs['metric'] = mv
  from waymax.env import planning_agent_environment as pe
  objs['agent-state'] = pe.PlanningAgentSimulatorState(**{k: v for k, v in st.items() if k != 'sim_agent_actor_states'},
                                                       sim_agent_actor_states=[{'h': jnp.asarray(leaf(r, (A,), 'f'))}])
  objs['transition'] = bw.TimeStep(state=st, observation={'o': objs['pose']}, reward=jnp.asarray(leaf(r, (A,), 'f')), done=jnp.asarray(False),
                                   discount=jnp.asarray(1.), metrics={'m': mv})
  objs['observation'] = ob.observation_from_state(st, 1, 3)
  names = list(objs)
  nm = names[(c.k // 5 + c.shard) % len(names)]
  a = objs[nm]
  copy = jax.tree_util.tree_map(lambda x: jnp.array(x, copy=True), a)
  c.check('equal', bool(a == copy) and not bool(a != copy), f'{nm} differs from its copy')
  leaves, td = jax.tree_util.tree_flatten(a)
  i = int(r.integers(len(leaves)))
  x = np.array(leaves[i])
  k = tuple(int(r.integers(n)) for n in x.shape)
  x[k] = ~x[k] if x.dtype == bool else (np.nextafter(x[k], np.float32(np.inf)) if abs(x[k]) > 1e-3 else x[k] + 1) if x.dtype.kind == 'f' else x[k] + 1
  b = jax.tree_util.tree_unflatten(td, leaves[:i] + [jnp.asarray(x)] + leaves[i + 1:])
  c.check('unequal', not bool(a == b) and bool(a != b), f'{nm}: one changed entry goes unnoticed', leaf=i, at=k)
  c.check('unequal', not bool(b == a), f'{nm}: one changed entry goes unnoticed (reversed)', leaf=i, at=k)
  d = jax.tree_util.tree_unflatten(td, leaves[:i] + [jnp.stack([leaves[i]] * 2)] + leaves[i + 1:])
  c.check('unequal', not bool(a == d), f'{nm}: other shapes are equal')
  c.check('unequal', not bool(a == objs[names[(names.index(nm) + 1) % len(names)]]), f'{nm} equals another type')
  c.check('unequal', not bool(a == 3) and not bool(a == None), f'{nm} equals a number')  # pylint: disable=singleton-comparison
  c.check('tolerant-compare', bool(op.compare_all_leaf_nodes(a, b, lambda p, q: True)), 'custom comparison not used')
  c.check('tolerant-compare', not bool(op.compare_all_leaf_nodes(a, copy, lambda p, q: p.ndim > 9)), 'custom comparison not used')
  kin = {'masked': mv, 'metric': objs['masked'], 'agent-state': st, 'state': objs['agent-state']}.get(nm)
  if kin is not None:
    c.hit('event:subclass')
    c.check('unequal', not bool(a == kin) and not bool(kin == a), f'{nm} equals another kind of structure')
  if nm == 'state':
    c.hit('event:structure-differs')
    for q in (st.replace(sdc_paths=None), st.replace(roadgraph_points=None)):
      c.check('unequal', not bool(a == q), 'optional field missing on the right')
      c.check('unequal', not bool(q == a), 'optional field missing on the left')
      c.check('equal', bool(q == q.replace()), 'state without the optional field')
  c.signature(nm, i, str(k))
  c.nontrivial()


def case(c):
  [slices, masks, slices, masks, equality][c.k % 5](c)


PARTS = [Part('primitives', case, shards=8, quick=60, thorough=3000)]
