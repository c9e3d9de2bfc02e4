"""C32: episodes end on time with consistent end-of-episode signals."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part
from harness.checks import c12

PROPERTY = 'C32'
RULE = ('whole episodes for all horizons T and warm-up lengths w (including w = T and w = 1), environments (multi-agent, planning, '
        'user subclasses with their own termination), adapters and batch shapes, counted and read at every step; plus states at '
        'arbitrary shared or per-scenario timesteps; non-trivial: at least two steps')
REQUIRED = ['event:recorded-size', 'obs:steps-taken', 'obs:remaining', 'obs:done', 'obs:truncation', 'obs:termination', 'obs:shape-and-type', 'obs:brax-signals',
            'obs:dm-signals', 'obs:arbitrary-timestep', 'obs:compiled-agrees', 'event:multi', 'event:planning', 'event:terminating', 'event:batched',
            'event:no-steps-left', 'event:own-timestep', 'event:single-step-episode', 'event:terminated-before-end']
ASSUMPTIONS = ['a batch shares one clock; a flag of a shared clock may be a scalar or have the batch shape']

CONFIGS = [('delta_local', False, 'SDC'), ('delta_local', True, 'SDC'), ('state', False, 'VALID'), ('disc_delta', True, 'SDC'),
           ('bicycle', False, 'MODELED'), ('bicycle', True, 'SDC'), ('delta_global', False, 'SDC'), ('state', True, 'SDC')]
SHAPES = [(), (2,), (2, 2), (), (1,), (3,), (), (1, 2)]


def full(x, B):
  return np.broadcast_to(np.asarray(x), B)


def flags(c, env, s, t, T, B, own=False, compiled=None, msg=''):
  """Judges every signal of one state; t scalar or (B)."""
  t = np.asarray(t)
  rem, done = np.asarray(s.remaining_timesteps), np.asarray(s.is_done)
  allowed = [B] if own else [B, ()]
  c.check('shape-and-type', rem.dtype.kind == 'i' and done.dtype == bool and rem.shape in allowed and done.shape in allowed, msg + 'remaining/done',
          got=f'{rem.dtype}{rem.shape} {done.dtype}{done.shape}')
  c.eq('remaining', full(rem, B), full(T - 1 - t, B), msg=msg)
  c.eq('done', full(done, B), full(t >= T - 1, B), msg=msg)
  tr, te = np.asarray(env.truncation(s)), np.asarray(env.termination(s))
  c.check('shape-and-type', tr.dtype == bool and tr.shape == B and te.dtype == bool and te.shape == B, msg + 'truncation/termination',
          got=f'{tr.dtype}{tr.shape} {te.dtype}{te.shape}')
  c.eq('truncation', full(tr, B), full(t >= T - 1, B), msg=msg)
  return te


def declared(scene_ids, T, t, B):
  end = (np.asarray(scene_ids).astype(np.int64).sum(-1) % (T + 2))
  return np.broadcast_to(np.asarray(t), B) >= end


def case(c):
  import jax
  import dm_env
  from waymax import env as _env, datatypes as dt
  from waymax.env.wrappers import brax_wrapper as bw, dm_env_wrapper as dw
  r = c.rng
  kind, planning, ctrl = CONFIGS[c.shard % 8]
  B = SHAPES[(c.shard + 5 * (c.k // 8)) % 8]
  T = [9, 4, 6, 12][(c.shard + c.k // 4) % 4]
  A = 3
  if c.recorded_size(7):
    T = [91, 120][(c.k // 7) % 2]
  w = int(r.choice([1, T, T - 1, int(r.integers(1, T + 1)), int(r.integers(1, T + 1))]))
  variant = 'terminating' if c.k % 3 == 1 else 'plain'
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, R=3, L=1, full_prob=.7) for _ in range(n)]
  if n > 1 and r.random() < .6:
    for s in scenes:
      s['meta']['ids'] = scenes[0]['meta']['ids']
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  scen = gen.make_state(sc)
  c.describe(dyn=kind, planning=planning, control=ctrl, variant=variant, T=T, warmup=w, batch=str(B))
  c.signature(T, w, str(B), variant, kind, sc['meta']['ids'])
  c.hit('event:planning' if planning else 'event:multi')
  if B:
    c.hit('event:batched')
  if variant == 'terminating':
    c.hit('event:terminating')
  env, dyn, cfg = c12.build(kind, planning, ctrl, False, variant, A, w, metrics=('log_divergence',), rewards={'log_divergence': -1.})
  mode = c.k % 3 if c.k % 6 < 3 else (c.k + 1) % 3  # plain loop, Brax, dm_env
  lead = B + (() if planning else (A,))
  jkey = ('step', kind, planning, ctrl, B, T, w if not planning and ctrl == 'VALID' else 0)

  def act():
    return sim.make_action(*sim.gen_action(r, kind, lead, scenes[0]['center']))

  want_term = lambda t: declared(sc['meta']['ids'], T, t, B) if variant == 'terminating' else np.zeros(B, bool)
  s = env.reset(scen)
  te = flags(c, env, s, w - 1, T, B, msg='after reset ')
  c.eq('termination', te, want_term(w - 1), msg='after reset')
  if w == T:
    c.hit('event:no-steps-left')
  if mode == 0:  # plain loop
    if jkey not in c.cache:
      c.cache[jkey] = jax.jit(env.step)
    step = c.cache[jkey]
    taken = 0
    while not full(s.is_done, B).all() and taken < T + 3:
      s = step(s, act())
      taken += 1
      te = flags(c, env, s, w - 1 + taken, T, B, msg=f'step {taken} ')
      c.eq('termination', te, want_term(w - 1 + taken), msg=f'step {taken}')
      c.eq('done', full(s.is_done, B), full(taken >= T - w, B), msg=f'steps {taken}')
      if c.failed:
        return
    c.check('steps-taken', taken == T - w, 'number of steps to the end', got=taken, want=T - w)
    c.eq('remaining', full(s.remaining_timesteps, B), np.zeros(B, int), msg='at the end')
    c.hit('event:single-step-episode', int(taken == 1))
    c.nontrivial(taken >= 2)
  elif mode == 1:
    brax = bw.BraxWrapper(env, dyn, cfg)
    step = jax.jit(brax.step)
    ts = brax.reset(scen)
    c.eq('brax-signals', ts.discount, np.ones(B, np.float32), msg='reset discount')
    taken = 0
    for taken in range(1, T - w + 1):
      ts = step(ts, act())
      te = flags(c, env, ts.state, w - 1 + taken, T, B, msg=f'Brax step {taken} ')
      wt = want_term(w - 1 + taken)
      c.eq('termination', te, wt, msg=f'Brax step {taken}')
      c.eq('brax-signals', ts.done, wt | (taken >= T - w), msg=f'done {taken}', dtype=True)
      c.eq('brax-signals', ts.discount, (~wt).astype(np.float32), msg=f'discount {taken}', dtype=True)
      c.hit('event:terminated-before-end', int(wt.any() and taken < T - w))
      if c.failed:
        return
    c.nontrivial(T - w >= 2)
  elif w < T:
    adapter = dw.DMEnvWrapper(iter([scen, scen]), env, squeeze_scalar_actions=False)
    ts = adapter.reset()
    taken = 0
    while not ts.last() and taken < T + 3:
      wt = want_term(w + taken)
      ended = wt | (w + taken >= T - 1)
      if ended.any() and not ended.all():
        c.raises('dm-signals', NotImplementedError, lambda: adapter.step(act().data), 'mixed step types')
        return
      ts = adapter.step(act().data)
      taken += 1
      te = flags(c, env, adapter.simulation_state, w - 1 + taken, T, B, msg=f'dm step {taken} ')
      c.eq('termination', te, wt, msg=f'dm step {taken}')
      c.check('dm-signals', (ts.step_type == dm_env.StepType.LAST) == bool(ended.all()), f'step type at {taken}', got=str(ts.step_type))
      c.eq('dm-signals', full(np.asarray(ts.discount, np.float32), B), np.where(ended, ~wt, True).astype(np.float32), msg=f'discount {taken}')
      if c.failed:
        return
    if variant == 'plain':
      c.check('steps-taken', taken == T - w, 'dm episode length', got=taken, want=T - w)
    else:
      c.check('steps-taken', taken <= T - w, 'dm episode length', got=taken, want=T - w)
      c.hit('event:terminated-before-end', int(taken < T - w))
    c.nontrivial(taken >= 2)
  # Arbitrary timesteps, shared or one per scenario.
  own = len(B) >= 1 and r.random() < .7
  jf = c.cache.setdefault(('jf', planning, variant), jax.jit(
      lambda s: (s.remaining_timesteps, s.is_done, env.truncation(s), env.termination(s))) if variant == 'plain' else None)
  for _ in range(3):
    t = r.integers(0, T, B) if own else int(r.integers(0, T))
    st = gen.make_state(sc, timestep=t)
    if planning:
      st = _env.PlanningAgentSimulatorState(**dict(st))
    c.hit('event:own-timestep', int(own))
    c.hit('obs:arbitrary-timestep')
    te = flags(c, env, st, t, T, B, own=own, msg='arbitrary timestep ')
    c.eq('termination', te, want_term(t), msg='arbitrary timestep')
    if jf is not None:
      a, d, u, v = [np.asarray(x) for x in jf(st)]
      c.eq('compiled-agrees', full(a, B), full(T - 1 - np.asarray(t), B), msg='remaining')
      c.eq('compiled-agrees', full(d, B), full(np.asarray(t) >= T - 1, B), msg='done')
      c.eq('compiled-agrees', full(u, B), full(np.asarray(t) >= T - 1, B), msg='truncation')
      c.eq('compiled-agrees', full(v, B), np.zeros(B, bool), msg='termination')


PARTS = [Part('episodes', case, shards=8, quick=14, thorough=240)]
