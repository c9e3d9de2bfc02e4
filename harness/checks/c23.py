"""C23: merged and expert actions control exactly whom they claim."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C23'
RULE = ('merges of one to five actor outputs with overlapping, disjoint and empty claims (also non-finite and discrete '
        'actions), and expert / constant-speed / user-made actors on random mid-episode states for every dynamics model; '
        'non-trivial: at least two actors compete for an object, or an actor has a valid action')
REQUIRED = ['event:long-log', 'obs:merge', 'obs:merge-unclaimed', 'obs:merge-empty', 'obs:merge-untouched', 'obs:claims', 'obs:actor-state',
            'obs:expert-action', 'obs:expert-reaches-log', 'obs:expert-valid', 'obs:constant-action', 'obs:constant-valid',
            'obs:constant-moves', 'obs:factory', 'obs:pytree', 'obs:state-untouched', 'obs:output-shape', 'event:competing', 'event:unclaimed',
            'event:own-timestep', 'event:given-speed', 'event:current-speed', 'event:standing', 'event:batched', 'event:off-log']
ASSUMPTIONS = ['for bicycle and discrete models the expected expert action is the model\'s own inverse of the two steps '
               '(judged separately by C07 and C08)']
KINDS = ['delta_global', 'state', 'bicycle', 'delta_local', 'disc_bicycle', 'bicycle_norm', 'disc_delta', 'state']
SHAPES = [(), (2,), (2, 2), (3,), (), (2,), (), (1,)]


def merges(c):
  import jax
  import jax.numpy as jnp
  from waymax import agents
  from waymax.agents import actor_core as ac
  r = c.rng
  B, A = SHAPES[(c.shard + c.k) % 8], [5, 3, 1, 8][c.k % 4]
  kind = KINDS[c.shard]
  n = int(r.integers(1, 6))
  outs, raw = [], []
  for q in range(n):
    data, valid = sim.gen_action(r, kind, B + (A,), valid_p=.6)
    if data.dtype.kind == 'f' and r.random() < .3:
      data = np.where(r.random(data.shape) < .2, r.choice([np.nan, np.inf, -np.inf]), data).astype(np.float32)
    own = r.random(B + (A,)) < [.5, .2, .0, 1.][r.integers(4)]
    outs.append(ac.WaymaxActorOutput(actor_state=None if q % 2 else {'k': q}, action=sim.make_action(data, valid),
                                     is_controlled=jnp.asarray(own)))
    raw.append((data, valid, own))
  before = gen.to_np([(o.action, o.is_controlled) for o in outs])
  fn = jax.jit(ac.merge_actions) if c.k % 4 == 3 else ac.merge_actions
  got = fn(outs)
  data, valid = np.asarray(got.data), np.asarray(got.valid)
  owners = np.stack([o for _, _, o in raw])
  c.signature(owners, raw[-1][0])
  c.describe(actors=n, batch=str(B), A=A, dyn=kind, owners=owners)
  anyone = owners.any(0)
  last = n - 1 - np.argmax(owners[::-1], 0)
  pick = lambda j: np.take_along_axis(np.stack([x[j] for x in raw]), last[None, ..., None], 0)[0]
  c.eq('merge', data, pick(0), where=anyone[..., None], dtype=True)
  c.eq('merge', valid, pick(1), where=anyone[..., None], dtype=True)
  # whatever an object nobody claims receives, it is one actor's whole action
  same = np.zeros(B + (A,), bool)
  for d, v, _ in raw:
    same |= ((d == data) | ((d != d) & (data != data))).all(-1) & (v == valid).all(-1)
  c.check('merge-unclaimed', same.all(), 'an action mixes several actors')
  c.hit('event:competing', (owners.sum(0) > 1).sum())
  c.hit('event:unclaimed', (~anyone).sum())
  c.tree_eq('merge-untouched', gen.to_np([(o.action, o.is_controlled) for o in outs]), before)
  c.raises('merge-empty', NotImplementedError, lambda: agents.merge_actions([]), 'merging nothing')
  for o in outs:
    o.validate()
  c.hit('obs:output-shape')
  c.nontrivial(bool((owners.sum(0) > 1).any()))


def factory(c):
  import jax
  import jax.numpy as jnp
  from waymax.agents import actor_core as ac
  r = c.rng
  log = []
  def init(rng, state):
    log.append('init')
    return {'n': jnp.asarray(3), 'rng': rng}
  def select(params, state, actor_state, rng):
    log.append('select')
    return ac.WaymaxActorOutput(actor_state={'n': actor_state['n'] + params['d'], 'rng': rng},
                                action=sim.make_action(np.zeros((2, 2), np.float32), np.ones((2, 1), bool)),
                                is_controlled=state)
  name = f'user{r.integers(100)}'
  a = ac.actor_core_factory(init, select, name) if c.k % 2 else ac.actor_core_factory(init=init, select_action=select)
  c.eq('factory', a.name, name if c.k % 2 else 'WaymaxActorCore')
  key = jax.random.PRNGKey(int(r.integers(1000)))
  st = a.init(key, None)
  c.eq('factory', st['rng'], key)
  own = jnp.asarray(r.random(2) < .5)
  o = a.select_action({'d': 4}, own, st, key + 1)
  c.eq('factory', o.actor_state['n'], 7)
  c.eq('factory', o.actor_state['rng'], np.asarray(key) + 1)
  c.eq('factory', o.is_controlled, own)
  c.check('factory', log == ['init', 'select'], 'calls', log=log)
  leaves, tree = jax.tree_util.tree_flatten(a)
  c.check('pytree', leaves == [], 'an actor has leaves')
  back = jax.tree_util.tree_unflatten(tree, leaves)
  c.check('pytree', back is a or back.name == a.name, 'actor changed')
  def g(act, s, k, own):
    return act.select_action({'d': 4}, own, s, k).actor_state['n']
  c.eq('pytree', jax.jit(g)(a, st, key, own), 7)


def pair(sim_cur, log_next):
  return {k: np.stack([sim_cur[k], log_next[k]], -1) for k in sim_cur}


def actors(c):
  import jax
  import jax.numpy as jnp
  from waymax import agents, datatypes as dt
  from waymax.agents import constant_speed, expert
  r = c.rng
  kind, B = KINDS[c.shard], SHAPES[c.shard]
  A, T = [(5, 9), (3, 6), (1, 5), (6, 7)][c.shard % 4]
  if c.k % 15 == 13:
    A, T = 20, 120
    c.hit('event:long-log')
  dyn = sim.make_dynamics(kind)
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1, full_prob=.5, sdc_full=False) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(T - 12 if T > 100 else 0, T - 1))
  off = bool(r.random() < .6)
  simt = gen.sim_mid_episode(r, sc, t, noise=float(r.choice([.05, 1.])) if off else 0.)
  if not off:
    simt['valid'] = sc['log']['valid'] & (np.arange(T) <= t)
  c.hit('event:off-log', off)
  ts = t
  own_ts = len(B) == 1 and bool((c.k // 2) % 2)
  if own_ts:
    ts = r.integers(0, t + 1, B)
    c.hit('event:own-timestep')
  c.hit('event:batched', bool(B))
  state = gen.make_state(sc, simt, ts)
  before = gen.to_np(state)
  cur = {k: world.at_step(v, ts, B) for k, v in simt.items()}
  nxt = {k: world.at_step(v, np.asarray(ts) + 1, B) for k, v in sc['log'].items()}
  preds = {'default': None, 'all': lambda s: jnp.ones_like(s.object_metadata.is_sdc), 'modeled': lambda s: s.object_metadata.is_modeled,
           'odd': lambda s: s.object_metadata.ids % 2 == 1}
  pn = ['default', 'all', 'modeled', 'odd'][(c.k // 4 + c.shard) % 4]
  want_own = {'default': sc['meta']['is_sdc'], 'all': np.ones(B + (A,), bool), 'modeled': sc['meta']['is_modeled'],
              'odd': sc['meta']['ids'] % 2 == 1}[pn]
  key = jax.random.PRNGKey(c.k)
  ck = (pn, own_ts)
  speed = float(r.choice([0., 4.5, 13.]))
  give = c.k % 3 != 0
  if ck not in c.cache:
    ex = agents.create_expert_actor(dyn) if pn == 'default' else agents.create_expert_actor(dyn, preds[pn])
    def f(s, x):
      p = preds[pn] or (lambda s: s.object_metadata.is_sdc)
      c1 = agents.create_constant_speed_actor(dyn, p)
      c2 = agents.create_constant_speed_actor(dyn, p, x)
      e = ex.select_action({}, s, ex.init(key, s), key)
      return (e, c1.select_action({}, s, c1.init(key, s), key), c2.select_action({}, s, c2.init(key, s), key),
              expert.infer_expert_action(s, dyn))
    c.cache[ck] = (jax.jit(f), f, jax.jit(lambda tr, md: dyn.inverse(tr, md, 0)),
                   jax.jit(lambda a, tr: dyn.compute_update(a, tr)))
  jf, f, inv, upd = c.cache[ck]
  if c.k % 20 == 19:
    e, c_cur, c_giv, raw = f(state, speed)
  else:
    e, c_cur, c_giv, raw = jf(state, speed)
  c.tree_eq('state-untouched', gen.to_np(state), before)
  c.signature(simt['x'], sc['log']['x'])
  c.describe(dyn=kind, batch=str(B), A=A, T=T, t=str(ts), predicate=pn, off_log=off, speed=speed if give else 'current')
  mk = lambda d: dt.Trajectory(**{k: jnp.asarray(v) for k, v in d.items()})
  md = state.object_metadata
  for nm, o in (('expert', e), ('constant', c_cur), ('constant given', c_giv)):
    c.eq('claims', o.is_controlled, want_own, msg=nm)
    c.check('actor-state', o.actor_state is None, nm)
    o.validate()
    c.eq('output-shape', np.array(o.action.data.shape), np.array(B + (A, sim.action_dim(kind))))
  # expert
  want = inv(mk(pair(cur, nxt)), md)
  bv = cur['valid'] & nxt['valid']
  wv = nxt['valid'] if kind == 'state' else bv
  c.tree_close('expert-action', gen.to_np(e.action), gen.to_np(want), atol=2e-3, rtol=1e-4)
  c.tree_eq('expert-action', gen.to_np(raw), gen.to_np(e.action), msg='infer_expert_action')
  c.eq('expert-valid', np.asarray(e.action.valid)[..., 0], wv)
  if kind in ('state', 'delta_global', 'delta_local'):  # closed form, independent of the code
    got = np.asarray(e.action.data, np.float64)
    d = {k: nxt[k].astype(np.float64) - cur[k] for k in ('x', 'y', 'yaw')}
    scale = 1e-4 + 1e-6 * np.abs(cur['x']).max() + 1e-6 * np.abs(nxt['x']).max()
    if kind == 'state':
      for q, k in enumerate(['x', 'y', 'yaw', 'vel_x', 'vel_y']):
        c.eq('expert-action', np.asarray(e.action.data)[..., q], nxt[k], where=wv)
    else:
      far = np.hypot(d['x'], d['y']) > 4.
      if kind == 'delta_local':
        cs, sn = np.cos(cur['yaw'].astype(np.float64)), np.sin(cur['yaw'].astype(np.float64))
        d['x'], d['y'] = cs * d['x'] + sn * d['y'], cs * d['y'] - sn * d['x']
      for q, k in enumerate(['x', 'y']):
        c.close('expert-action', got[..., q], d[k], where=bv & ~far, atol=scale * 3)
      c.angle_close('expert-action', got[..., 2], d['yaw'], where=bv, atol=1e-4)
    # and it takes the object there
    nx = upd(e.action, mk({k: v[..., None] for k, v in cur.items()}))
    near = bv if kind == 'state' else bv & (np.hypot(nxt['x'] - cur['x'], nxt['y'] - cur['y']) <= 4.)
    for k in ('x', 'y'):
      c.close('expert-reaches-log', np.asarray(getattr(nx, k))[..., 0], nxt[k], where=near, atol=5 * scale)
    c.angle_close('expert-reaches-log', np.asarray(nx.yaw)[..., 0], nxt['yaw'], where=near, atol=1e-4)
  # constant speed
  for given, o in ((False, c_cur), (True, c_giv)):
    c.hit('event:given-speed' if given else 'event:current-speed')
    yaw = cur['yaw'].astype(np.float64)
    vx = speed * np.cos(yaw) if given else cur['vel_x'].astype(np.float64)
    vy = speed * np.sin(yaw) if given else cur['vel_y'].astype(np.float64)
    tgt = {k: v.copy() for k, v in cur.items()}
    tgt['x'] = (cur['x'] + .1 * vx).astype(np.float32)
    tgt['y'] = (cur['y'] + .1 * vy).astype(np.float32)
    tgt['vel_x'], tgt['vel_y'] = vx.astype(np.float32), vy.astype(np.float32)
    tgt['valid'] = want_own & cur['valid']
    c.eq('constant-valid', np.asarray(o.action.valid)[..., 0], tgt['valid'])
    c.hit('event:standing', (np.hypot(vx, vy) < 1e-3).any())
    m = tgt['valid']
    if kind.startswith('disc'):
      w = inv(mk(pair(cur, tgt)), md)
      differs = (np.asarray(w.data) != np.asarray(o.action.data))[..., 0] & m
      c.check('constant-action', differs.mean() < .5 or differs.sum() < 2, 'discrete action differs from the inverse of the motion')
    else:
      w = inv(mk(pair(cur, tgt)), md)
      lim = 4e-3 + 4e-6 * np.abs(cur['x']).max() / .01 * (kind.startswith('bicycle'))
      c.close('constant-action', o.action.data, w.data, where=m[..., None], atol=lim, rtol=1e-3)
      if kind in ('state', 'delta_global', 'delta_local'):
        nx = upd(o.action, mk({k: v[..., None] for k, v in cur.items()}))
        slow = m & (np.hypot(vx, vy) * .1 < 4.)
        for k in ('x', 'y'):
          c.close('constant-moves', np.asarray(getattr(nx, k))[..., 0], tgt[k], where=slow, atol=1e-3 + 2e-6 * np.abs(tgt[k]).max())
        c.angle_close('constant-moves', np.asarray(nx.yaw)[..., 0], cur['yaw'], where=slow, atol=1e-4, msg='heading changed')
    c.nontrivial(bool(m.any()))


def case(c):
  [actors, merges, actors, factory][c.k % 4](c)


PARTS = [Part('actors', case, shards=8, quick=60, thorough=1500)]
