"""C03: controlled objects follow their actions, all others replay the log."""
import numpy as np
from harness import gen, sim
from harness.core import Part

PROPERTY = 'C03'
RULE = ('episodes of random scenes with late/vanishing/flickering objects x control mode x injection setting x '
        'dynamics; each step compared per object with a float64 motion/validity oracle; non-trivial: the scene has '
        'both an invalid (object, step) after warm-up and a non-controlled object or A == 1')
REQUIRED = ['event:recorded-size', 'obs:controlled-pose', 'obs:log-pose', 'obs:validity', 'obs:timestamps', 'obs:carry-over',
            'event:ctrl-SDC', 'event:ctrl-MODELED', 'event:ctrl-VALID', 'event:appear', 'event:vanish',
            'event:controlled-absent', 'event:controlled-appears', 'event:blocked-appearance', 'obs:unsupported-mode-refused', 'obs:fallback-pose']
ASSUMPTIONS = ['float32 results compared with a float64 oracle (tolerance grows with coordinate size)',
               'the pose of an object that is neither controlled nor replaying is not constrained']

SHAPES = [(), (3,), (2, 2), ()]
POSE = ['x', 'y', 'yaw', 'vel_x', 'vel_y']


def cmp_pose(c, mon, got, want, mask, scale, msg):
  """Per-object tolerances: float32 rounding grows with coordinates, turns and speed."""
  atol_yaw = 2e-5 + 1e-6 * np.abs(want['yaw'])
  speed = np.hypot(want['vel_x'], want['vel_y'])
  for f in POSE:
    if f == 'yaw':
      c.angle_close(mon, got[f], want[f], atol=atol_yaw, where=mask, msg=f'{f} {msg}')
    elif f in ('x', 'y'):
      c.close(mon, got[f], want[f], atol=2e-5 + 4e-7 * scale, rtol=3e-7, where=mask, msg=f'{f} {msg}')
    else:
      c.close(mon, got[f], want[f], atol=3e-4 + 2 * speed * atol_yaw, rtol=1e-5, where=mask, msg=f'{f} {msg}')


def next_valid(ctrl, cur_valid, log_next_valid, allow):
  keep = ctrl & cur_valid
  other = log_next_valid if allow else (cur_valid & log_next_valid)
  return np.where(keep, True, other)


def episodes(c):
  import jax
  from waymax import env as _env
  r = c.rng
  blk = c.k // 6
  kind = sim.DYN_KINDS[(c.shard + blk) % len(sim.DYN_KINDS)]
  A = [6, 4, 1, 9][(c.shard + blk) % 4]
  T = [12, 9, 16, 7][(c.shard // 2 + blk) % 4]
  B = SHAPES[(c.shard + blk) % 4]
  big = c.recorded_size(10)
  if big:
    A, T, B = 48, 91, ()
  ctrl = ['SDC', 'MODELED', 'VALID', 'VALID'][(c.shard + c.k // 2) % 4]
  allow = bool((c.k + c.shard // 4) % 2)
  init = 1 + (blk * 5 + c.shard) % (T - 2)
  if big:
    init = 11
    ctrl, allow = [('VALID', False), ('MODELED', True), ('SDC', False), ('VALID', True)][(c.k // 10) % 4]
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=8, L=1, sdc_full=bool(r.random() < .7), full_prob=.2) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  c.describe(dyn=kind, A=A, T=T, batch=str(B), control=ctrl, allow_new=allow, init_steps=init)
  c.signature(sc['log']['x'], sc['log']['valid'], kind, ctrl, allow, init)
  key = (kind, A, T, B, ctrl, allow, init)
  if key not in c.cache:
    env = _env.MultiAgentEnvironment(sim.make_dynamics(kind), sim.env_config(A, init, ctrl, allow))
    c.cache[key] = (env, jax.jit(env.step))
  env, step = c.cache[key]
  log = sc['log']
  meta = sc['meta']
  mask = {'SDC': meta['is_sdc'], 'MODELED': meta['is_modeled'], 'VALID': meta['is_valid']}[ctrl]
  if ctrl == 'VALID' and not allow:
    mask = log['valid'][..., init - 1]
  state = env.reset(gen.make_state(sc))
  scale = max(1., float(np.abs(log['x']).max()), float(np.abs(log['y']).max()))
  cur = {k: np.array(v) for k, v in gen.to_np(dict(state.sim_trajectory)).items()}
  c.hit('event:ctrl-' + ctrl)
  shadow_valid = log['valid'][..., init - 1]
  use_eager = r.random() < .15
  for t in range(init - 1, T - 1):
    data, valid = sim.gen_action(r, kind, B + (A,), scenes[0]['center'])
    new = (env.step if use_eager else step)(state, sim.make_action(data, valid))
    o = {k: np.array(v) for k, v in gen.to_np(dict(new.sim_trajectory)).items()}
    at = lambda d, s: {k: v[..., s] for k, v in d.items()}
    now, nxt, lg = at(cur, t), at(o, t + 1), at(log, t + 1)
    want = sim.ref_update(kind, data, now)
    cmp_pose(c, 'controlled-pose', nxt, want, mask & shadow_valid, scale * 1.0 + np.abs(now['x']).max(), f'step {t}')
    # a controlled object that is absent appears, if at all, where the log has it
    replay = ~mask | ~shadow_valid if allow else ~mask
    c.hit('event:controlled-appears', allow * (mask & ~shadow_valid & lg['valid']).sum())
    for f in POSE:
      c.eq('log-pose', nxt[f], lg[f], where=replay, msg=f'{f} step {t}')
    c.eq('timestamps', nxt['timestamp_micros'], lg['timestamp_micros'], msg=f'step {t}')
    for f in ['length', 'width', 'height']:
      c.eq('carry-over', nxt[f], now[f], msg=f'{f} step {t}')
    c.eq('carry-over', nxt['z'], np.where(shadow_valid, now['z'], lg['z']) if allow else now['z'], msg=f'z step {t}')
    wv = next_valid(mask, shadow_valid, lg['valid'], allow)
    c.eq('validity', nxt['valid'], wv, msg=f'step {t} ctrl={ctrl} allow={allow}')
    c.hit('event:appear', (wv & ~shadow_valid).sum())
    c.hit('event:vanish', (~wv & shadow_valid).sum())
    c.hit('event:controlled-absent', (mask & ~shadow_valid).sum())
    c.hit('event:blocked-appearance', 0 if allow else (~wv & lg['valid'] & ~mask).sum())
    if c.failed:
      return
    state, cur, shadow_valid = new, o, wv
  late = ~log['valid'][..., init - 1:]
  c.nontrivial(bool(late.any() and ((~mask).any() or A == 1)))


def apply_update(c):
  """The shared step primitive, including the documented constant-speed fallback."""
  import jax, jax.numpy as jnp
  from waymax import datatypes as dt
  from waymax.dynamics import abstract_dynamics as ad
  r = c.rng
  A, T = [(5, 8), (1, 4), (7, 12)][c.shard % 3]
  B = SHAPES[(c.shard + c.k // 20) % 4]
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=0, L=1, sdc_full=False, full_prob=.2) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(0, T - 1))
  simt = gen.sim_mid_episode(r, sc, t)
  upd = {f: r.normal(size=B + (A, 1)).astype(np.float32) * 10 for f in POSE}
  uval = r.random(B + (A, 1)) < .5
  mask = r.random(B + (A,)) < .5
  allow, fb = bool(r.random() < .5), bool(c.k % 2)
  c.describe(A=A, T=T, batch=str(B), t=t, allow=allow, fallback=fb)
  c.signature(upd['x'], uval, mask, t, allow, fb)
  tr = dt.Trajectory(**{k: jnp.asarray(v) for k, v in simt.items()})
  ref = dt.Trajectory(**{k: jnp.asarray(v) for k, v in sc['log'].items()})
  u = dt.TrajectoryUpdate(valid=jnp.asarray(uval), **{k: jnp.asarray(v) for k, v in upd.items()})
  o = gen.to_np(dict(ad.apply_trajectory_update_to_state(
      u, tr, ref, jnp.asarray(mask), t, allow_object_injection=allow, use_fallback=fb)))
  now = {k: v[..., t] for k, v in simt.items()}
  lg = {k: v[..., t + 1] for k, v in sc['log'].items()}
  nxt = {k: v[..., t + 1] for k, v in o.items()}
  u1 = {f: upd[f][..., 0] for f in POSE}
  follow = mask & now['valid']
  use_u = follow & (uval[..., 0] if fb else True)
  for f in POSE:
    c.eq('update-pose', nxt[f], u1[f], where=use_u, msg=f)
    c.eq('log-pose', nxt[f], lg[f], where=~mask | (allow & ~follow), msg=f)
  if fb:
    m = follow & ~uval[..., 0]
    c.close('fallback-pose', nxt['x'], now['x'].astype(np.float64) + .1 * now['vel_x'], atol=2e-3, where=m, msg='x')
    c.close('fallback-pose', nxt['y'], now['y'].astype(np.float64) + .1 * now['vel_y'], atol=2e-3, where=m, msg='y')
    c.eq('fallback-pose', nxt['vel_x'], now['vel_x'], where=m, msg='vel_x')
    c.eq('fallback-pose', nxt['vel_y'], now['vel_y'], where=m, msg='vel_y')
    mv = m & (np.hypot(now['vel_x'], now['vel_y']) > 1e-3)
    c.angle_close('fallback-pose', nxt['yaw'], np.arctan2(now['vel_y'], now['vel_x']), where=mv, msg='yaw')
  c.eq('validity', nxt['valid'], next_valid(mask, now['valid'], lg['valid'], allow))
  c.eq('timestamps', nxt['timestamp_micros'], lg['timestamp_micros'])
  for f in ['length', 'width', 'height']:
    c.eq('carry-over', nxt[f], now[f], msg=f)
  c.eq('carry-over', nxt['z'], np.where(now['valid'], now['z'], lg['z']) if allow else now['z'], msg='z')
  for f in o:
    c.eq('frame', np.delete(o[f], t + 1, -1), np.delete(simt[f], t + 1, -1), msg=f)
  c.nontrivial(bool(mask.any() and (~mask).any()) or A == 1)


def modes(c):
  """Control-mask lookups and refusal of unsupported modes."""
  import jax.numpy as jnp
  from waymax import datatypes as dt, config as wc, env as _env
  r = c.rng
  A = int(r.integers(1, 9))
  B = [(), (2,)][c.k % 2]
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=5, R=4, L=1) for _ in range(n)]
  for s in scenes:  # the three selections are independent of one another
    for f in ('is_modeled', 'is_valid'):
      s['meta'][f] = r.random(A) < .5
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  st = gen.make_state(sc)
  c.signature(sc['meta']['is_modeled'], sc['meta']['is_valid'])
  for m, f in [('SDC', 'is_sdc'), ('MODELED', 'is_modeled'), ('VALID', 'is_valid')]:
    c.eq('mode-mask', dt.get_control_mask(st.object_metadata, getattr(wc.ObjectType, m)), sc['meta'][f], msg=m)
  c.raises('unsupported-mode-refused', ValueError,
           lambda: dt.get_control_mask(st.object_metadata, wc.ObjectType.NON_SDC), 'NON_SDC control')
  env = _env.MultiAgentEnvironment(sim.make_dynamics('state'), sim.env_config(A, 2, 'NON_SDC', bool((c.k // 2) % 2)))
  s0 = env.reset(st)
  c.raises('unsupported-mode-refused', ValueError,
           lambda: env.step(s0, sim.make_action(*sim.gen_action(r, 'state', B + (A,)))), 'NON_SDC step')
  c.nontrivial()


PARTS = [
    Part('episodes', episodes, shards=8, quick=24, thorough=300),
    Part('apply_update', apply_update, shards=3, quick=40, thorough=500),
    Part('modes', modes, shards=1, quick=6, thorough=60),
]
