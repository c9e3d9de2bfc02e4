"""C10: planning-environment metrics and reward describe the ego only."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C10'
RULE = ('mid-episode states (arbitrary simulated histories, ego at any index, routes, batches, per-scenario timesteps): '
        'every reported metric is compared with the ego row of the separately computed per-object metric, the reward '
        'with the weighted sum of those rows; then the data of other objects is replaced and the results compared; '
        'non-trivial: at least two objects')
REQUIRED = ['event:recorded-size', 'obs:ego-metric', 'obs:scenario-metric', 'obs:shape-per-scenario', 'obs:ego-reward', 'obs:reward-disabled',
            'obs:first-state-comfort', 'obs:independent-of-others', 'obs:object-order', 'obs:reported-names',
            'event:own-timestep', 'event:ego-not-first', 'event:at-reset-state', 'event:after-steps', 'event:ego-overlaps']
ASSUMPTIONS = ['the per-object metrics themselves are judged by C13 and C17-C20']

SHAPES = [(5, 9, ()), (3, 7, (2,)), (6, 8, (3,)), (4, 9, (2, 2)), (1, 6, ()), (7, 8, (2,)), (2, 9, ()), (5, 8, (4,))]
R, P, N = 24, 3, 10
INDEPENDENT = ('log_divergence', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway', 'sdc_progression', 'sdc_off_route')


def reference(metric_cls):
  def f(state):
    return {k: m.compute(state) for k, m in metric_cls.items()}
  return f


def case(c):
  import jax
  from waymax import env as _env, metrics as m
  from waymax.metrics import comfort
  r = c.rng
  scenes, sc, simt, ts, B, A, T = world.metric_state(
      c, SHAPES, own=(c.k % 3 == 1), t_min=1, R=R, P=P, N=N, spread=float(r.choice([4., 12., 30.])), full_prob=.6,
      sdc_full=bool(r.random() < .8))
  if r.random() < .5:  # somebody near the ego
    for i in range(A):
      if r.random() < .4:
        ego = np.asarray(sc['meta']['is_sdc'])
        for f in ('x', 'y'):
          e = (simt[f] * ego[..., None]).sum(-2)
          simt[f][..., i, :] = e + np.float32(r.normal() * 2)
  init = 1 + (c.shard + c.k // 16) % 3
  key = ('env', init, A)
  if key not in c.cache:
    names = list(world.ALL_METRICS)
    wts = world.weights(c.shard_rng)
    cfg = world.config(A, init, 'SDC', metrics=names, rewards=wts)
    dyn = sim.make_dynamics('delta_local')
    env = _env.PlanningAgentEnvironment(dyn, cfg)
    off = _env.PlanningAgentEnvironment(dyn, world.config(A, init, 'SDC', metrics=names, compute_reward=False))
    ref = reference(dict(
        log_divergence=m.LogDivergenceMetric(), overlap=m.OverlapMetric(), offroad=m.OffroadMetric(),
        kinematic_infeasibility=comfort.KinematicsInfeasibilityMetric(), sdc_wrongway=m.WrongWayMetric(),
        sdc_progression=m.ProgressionMetric(), sdc_off_route=m.OffRouteMetric()))
    f = lambda s, a: dict(metrics=env.metrics(s), reward=env.reward(s, a))
    c.cache[key] = (env, off, wts, jax.jit(f), jax.jit(ref))
  env, off, wts, f, ref = c.cache[key]
  state = gen.make_state(sc, simt, ts)
  act = sim.make_action(*sim.gen_action(r, 'delta_local', B))
  out, want = gen.to_np(f(state, act)), gen.to_np(ref(state))
  ego = np.asarray(sc['meta']['is_sdc'])
  pick = lambda q: q[ego].reshape(B)
  c.describe(A=A, T=T, batch=str(B), timestep=np.asarray(ts), init_steps=init)
  c.signature(simt['x'], ts, init)
  if A > 1 and not ego[..., 0].all():
    c.hit('event:ego-not-first')
  c.check('reported-names', set(out['metrics']) == set(world.ALL_METRICS), 'metric names', got=str(list(out['metrics'])))
  first = np.broadcast_to(np.asarray(ts) <= init - 1, B)
  total = np.zeros(B)
  for name in world.ALL_METRICS:
    g, w = out['metrics'][name], want[name]
    c.eq('shape-per-scenario', np.array(g.value.shape), np.array(B, int).reshape(-1), msg=name)
    c.eq('shape-per-scenario', np.array(g.valid.shape), np.array(B, int).reshape(-1), msg=name + ' valid')
    if c.failed:
      return
    if name.startswith('sdc'):
      wv, wm = np.broadcast_to(w.value, B), np.broadcast_to(w.valid, B)
      c.close('scenario-metric', g.value, wv, atol=1e-5, rtol=1e-6, msg=name)
      c.eq('scenario-metric', g.valid, wm, msg=name + ' valid')
    else:
      wv, wm = pick(w.value), pick(w.valid)
      if name == 'kinematic_infeasibility':
        c.eq('first-state-comfort', g.valid, np.zeros_like(wm), where=first, msg='valid')
        c.eq('first-state-comfort', g.value, np.zeros_like(wv), where=first, msg='value')
        c.hit('event:at-reset-state', first.sum())
        c.hit('event:after-steps', (~first).sum())
        c.close('ego-metric', g.value, wv, atol=1e-5, rtol=1e-6, where=~first, msg=name)
        c.eq('ego-metric', g.valid, wm, where=~first, msg=name + ' valid')
      else:
        c.close('ego-metric', g.value, wv, atol=1e-5, rtol=1e-6, msg=name)
        c.eq('ego-metric', g.valid, wm, msg=name + ' valid')
    if name == 'overlap':
      c.hit('event:ego-overlaps', (wv > 0).sum())
    total += wts[name] * np.where(wm, wv.astype(np.float64), 0.)
  c.close('ego-reward', out['reward'], total, atol=1e-3, rtol=1e-5)
  z = np.asarray(off.reward(state, act))
  c.eq('reward-disabled', z, np.zeros(B, np.float32), dtype=True)
  c.nontrivial(A > 1)
  if A == 1:
    c.hit('obs:independent-of-others')
    c.hit('obs:object-order')
    return
  # other objects' data
  sim2 = {k: v.copy() for k, v in simt.items()}
  log2 = {k: v.copy() for k, v in sc['log'].items()}
  oth = np.broadcast_to(~ego[..., None], sim2['x'].shape)
  for d in (sim2, log2):
    for k in ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height'):
      d[k] = np.where(oth, np.abs(r.normal(size=oth.shape)) * 30, d[k]).astype(np.float32)
    d['valid'] = np.where(oth, r.random(oth.shape) < .5, d['valid'])
  sc2 = dict(sc, log=log2, meta=dict(sc['meta'], object_types=np.where(ego, sc['meta']['object_types'], r.integers(0, 5, ego.shape)).astype(np.int32),
                                     is_valid=log2['valid'].any(-1)))
  out2 = gen.to_np(f(gen.make_state(sc2, sim2, ts), act))
  for name in INDEPENDENT:
    c.close('independent-of-others', out2['metrics'][name].value, out['metrics'][name].value, atol=1e-4, rtol=1e-5, msg=name)
    c.eq('independent-of-others', out2['metrics'][name].valid, out['metrics'][name].valid, msg=name + ' valid')
  # another order of the objects
  perm = r.permutation(A)
  rowm = lambda d: {k: v[..., perm] for k, v in d.items()}
  rowt = lambda d: {k: v[..., perm, :] for k, v in d.items()}
  sc3 = dict(sc, log=rowt(sc['log']), meta=rowm(sc['meta']))
  out3 = gen.to_np(f(gen.make_state(sc3, rowt(simt), ts), act))
  c.tree_close('object-order', out3, out, atol=1e-3, rtol=1e-5)


PARTS = [Part('ego', case, shards=8, quick=48, thorough=500)]
