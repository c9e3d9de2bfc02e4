"""C21: metrics run as configured and rewards combine them linearly."""
import numpy as np
from harness import gen, sim, world
from harness.core import Part

PROPERTY = 'C21'
RULE = ('random subsets of built-in and user-registered metrics with random weight sets x control modes x batches on '
        'arbitrary mid-episode states; results compared with each metric evaluated alone and a float64 weighted sum; '
        'non-trivial: some metric entry is invalid or some object is not controlled')
REQUIRED = ['event:recorded-size', 'obs:exactly-configured-names', 'obs:equals-metric-alone', 'obs:unknown-name-refused',
            'obs:duplicate-registration-refused', 'obs:unknown-reward-refused', 'obs:weighted-sum', 'obs:uncontrolled-zero',
            'obs:scaling', 'obs:additivity', 'obs:disabled-zero', 'obs:no-terms', 'obs:action-irrelevant', 'obs:registry-listing',
            'event:user-metric', 'event:scenario-metric-in-reward', 'event:invalid-entries', 'event:nan-behind-invalid',
            'event:ctrl-SDC', 'event:ctrl-MODELED', 'event:ctrl-VALID', 'event:own-timestep', 'event:invalid-scenario-value', 'event:same-class-metrics']
ASSUMPTIONS = ['user metrics return finite values wherever they are valid']

SHAPES = [(5, 8, ()), (3, 7, (2,)), (4, 7, ()), (3, 6, (2, 2)), (1, 6, (2,)), (6, 8, ()), (4, 9, (3,)), (2, 7, ())]
R, P, N = 16, 2, 8


def user_metrics():
  """Four user metrics: object-level, scenario-level, NaN where invalid, constant."""
  import jax.numpy as jnp
  from waymax.metrics import abstract_metric as am

  class Speed(am.AbstractMetric):
    def compute(self, s):
      t = s.current_sim_trajectory
      return am.MetricResult.create_and_validate(value=jnp.hypot(t.vel_x, t.vel_y)[..., 0], valid=t.valid[..., 0])

  class Count(am.AbstractMetric):
    def compute(self, s):
      v = s.current_sim_trajectory.valid[..., 0]
      return am.MetricResult.create_and_validate(value=v.sum(-1).astype(jnp.float32), valid=v.any(-1))

  class NanInvalid(am.AbstractMetric):
    def compute(self, s):
      t = s.current_sim_trajectory
      ok = t.valid[..., 0] & (t.x[..., 0] > t.x[..., 0].mean(-1, keepdims=True))
      return am.MetricResult.create_and_validate(value=jnp.where(ok, t.x[..., 0], jnp.nan), valid=ok)

  class Never(am.AbstractMetric):
    def compute(self, s):
      v = s.current_sim_trajectory.valid[..., 0]
      return am.MetricResult.create_and_validate(value=jnp.full(v.shape, 7., jnp.float32), valid=jnp.zeros_like(v))

  class Above(am.AbstractMetric):
    def __init__(self, limit):
      self.limit = limit

    def compute(self, s):
      t = s.current_sim_trajectory
      return am.MetricResult.create_and_validate(value=(jnp.hypot(t.vel_x, t.vel_y)[..., 0] - self.limit), valid=t.valid[..., 0])

  class Crowded(am.AbstractMetric):
    def compute(self, s):
      v = s.current_sim_trajectory.valid[..., 0]
      return am.MetricResult.create_and_validate(value=3.5 + v.sum(-1).astype(jnp.float32), valid=2 * v.sum(-1) > v.shape[-1])
  return dict(user_speed=Speed(), user_count=Count(), user_nan=NanInvalid(), user_never=Never(), user_above2=Above(2.), user_above7=Above(7.),
              user_crowded=Crowded())


def setup(c):
  if 'metrics' in c.cache:
    return c.cache['metrics']
  import jax
  from waymax import metrics as m
  from waymax.metrics import comfort, metric_factory as mf
  own = user_metrics()
  before = set(mf.get_metric_names())
  c.check('registry-listing', set(world.ALL_METRICS) <= before, 'built-in metrics not listed')
  for k, v in own.items():
    m.register_metric(k, v)
  c.check('registry-listing', set(mf.get_metric_names()) == before | set(own), 'listing after registration')
  alone = dict(log_divergence=m.LogDivergenceMetric(), overlap=m.OverlapMetric(), offroad=m.OffroadMetric(),
               kinematic_infeasibility=comfort.KinematicsInfeasibilityMetric(), sdc_wrongway=m.WrongWayMetric(),
               sdc_progression=m.ProgressionMetric(), sdc_off_route=m.OffRouteMetric(), **own)
  ref = jax.jit(lambda s: {k: x.compute(s) for k, x in alone.items()})
  c.cache['metrics'] = (alone, ref)
  return c.cache['metrics']


def case(c):
  import jax
  from waymax import env as _env, metrics as m, config as wc, rewards as rw
  from waymax.metrics import metric_factory as mf
  r = c.rng
  alone, ref = setup(c)
  scenes, sc, simt, ts, B, A, T = world.metric_state(c, SHAPES, own=(c.k % 3 == 1), t_min=1, R=R, P=P, N=N,
                                                     spread=float(r.choice([4., 15.])))
  state = gen.make_state(sc, simt, ts)
  want = gen.to_np(ref(state))
  # metric subsets: eager evaluation would dominate, so a few subsets are compiled per shard
  q = (c.k // 8) % 6
  sub = np.random.default_rng(c.shard * 100 + q)
  names = list(sub.permutation(list(alone))[:sub.integers(1, 6) if q < 5 or c.shard % 3 else len(alone)])
  if q in (0, 2):
    names += [n for n in ('user_above2', 'user_above7', 'user_crowded') if n not in names]
  ctrl = ['SDC', 'MODELED', 'VALID'][(c.shard + q) % 3]
  wts = {str(n): float(np.float32(sub.normal() * 2)) for n in names}
  wts2 = {str(n): float(np.float32(sub.normal() * 2)) for n in names}
  key = ('rw', q, A)
  if key not in c.cache:
    dyn = sim.make_dynamics('state')
    mk = lambda w, **kw: _env.MultiAgentEnvironment(dyn, world.config(A, 1, ctrl, metrics=names, rewards=w, allow=bool((q + c.shard // 2) % 2), **kw))
    e1, e2 = mk(wts), mk(wts2)
    e3, e4 = mk({k: -2.5 * v for k, v in wts.items()}), mk({k: wts[k] + wts2[k] for k in wts})
    f = lambda s, a: dict(m=e1.metrics(s), r1=e1.reward(s, a), r2=e2.reward(s, a), r3=e3.reward(s, a), r4=e4.reward(s, a))
    c.cache[key] = (jax.jit(f), mk(wts, compute_reward=False), mk({}))
  f, off, none = c.cache[key]
  c.hit('event:ctrl-' + ctrl)
  c.hit('event:user-metric', sum(n.startswith('user') for n in names))
  c.hit('event:same-class-metrics', int({'user_above2', 'user_above7'} <= set(names)))
  c.hit('event:scenario-metric-in-reward', sum(n.startswith('sdc') or n in ('user_count', 'user_crowded') for n in names))
  act = sim.make_action(*sim.gen_action(r, 'state', B + (A,)))
  out = gen.to_np(f(state, act))
  c.signature(simt['x'], str(names), ctrl, ts)
  c.describe(metrics=str(names), control=ctrl, A=A, batch=str(B))
  c.check('exactly-configured-names', set(out['m']) == set(names), 'reported names', got=str(list(out['m'])), want=str(names))
  if c.failed:
    return
  mask = {'SDC': sc['meta']['is_sdc'], 'MODELED': sc['meta']['is_modeled'], 'VALID': sc['meta']['is_valid']}[ctrl]
  tot = {k: np.zeros(B + (A,)) for k in ('r1', 'r2')}
  some_invalid = False
  for n in names:
    c.close('equals-metric-alone', out['m'][n].value, want[n].value, atol=1e-5, rtol=1e-6, msg=n)
    c.eq('equals-metric-alone', out['m'][n].valid, want[n].valid, msg=n + ' valid')
    v, ok = want[n].value.astype(np.float64), want[n].valid
    c.hit('event:invalid-entries', (~ok).sum())
    c.hit('event:invalid-scenario-value', int(n == 'user_crowded' and not ok.all()))
    some_invalid |= bool((~ok).any())
    if n == 'user_nan':
      c.hit('event:nan-behind-invalid', (~ok).sum())
    v = np.where(ok, v, 0.)
    if v.ndim == len(B):
      v = v[..., None]
    tot['r1'] += wts[n] * v
    tot['r2'] += wts2[n] * v
  for k in ('r1', 'r2'):
    c.close('weighted-sum', out[k], tot[k], atol=2e-3, rtol=1e-5, where=mask, msg=ctrl)
  for k in ('r1', 'r2', 'r3', 'r4'):
    c.eq('uncontrolled-zero', out[k], np.zeros(B + (A,), np.float32), where=~mask, msg=ctrl, dtype=True)
  c.close('scaling', out['r3'], -2.5 * out['r1'].astype(np.float64), atol=5e-3, rtol=1e-4)
  c.close('additivity', out['r4'], out['r1'].astype(np.float64) + out['r2'], atol=5e-3, rtol=1e-4)
  act2 = sim.make_action(*sim.gen_action(r, 'state', B + (A,)))
  if c.k % 4 == 0:
    c.eq('action-irrelevant', np.asarray(f(state, act2)['r1']), out['r1'])
    c.eq('disabled-zero', np.asarray(off.reward(state, act)), np.zeros(B + (A,), np.float32), dtype=True)
    c.eq('no-terms', np.asarray(none.reward(state, act)), np.zeros(B + (A,), np.float32), dtype=True)
    # refusals
    bad = 'no_such_metric_%d' % r.integers(1000)
    mixed = [str(n) for n in names] + [bad]
    r.shuffle(mixed)
    c.raises('unknown-name-refused', ValueError, lambda: m.run_metrics(state, wc.MetricsConfig(tuple([bad]))), bad)
    if c.k % 16 == 0:
      c.raises('unknown-name-refused', ValueError, lambda: m.run_metrics(state, wc.MetricsConfig(tuple(mixed))), str(mixed))
    c.raises('unknown-reward-refused', ValueError,
             lambda: rw.LinearCombinationReward(wc.LinearCombinationRewardConfig({**wts, bad: 1.})), bad)
    for dup in (str(r.choice(list(world.ALL_METRICS))), 'user_speed'):
      c.raises('duplicate-registration-refused', ValueError, lambda: m.register_metric(dup, alone['user_never']), dup)
    listed = set(mf.get_metric_names())
    c.check('registry-listing', listed == set(alone), 'listing changed by refused registrations', got=str(listed))
    res = m.run_metrics(state, wc.MetricsConfig(('log_divergence', 'user_speed')))
    c.tree_close('equals-metric-alone', gen.to_np(res), {k: want[k] for k in ('log_divergence', 'user_speed')}, atol=1e-5,
                 msg='after refused registrations')
    c.check('exactly-configured-names', m.run_metrics(state, wc.MetricsConfig(())) == {}, 'no metrics configured')
  c.nontrivial(some_invalid or bool((~mask).any()))


PARTS = [Part('reward', case, shards=8, quick=48, thorough=480)]
