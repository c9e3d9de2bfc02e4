"""Whole-environment helpers shared by the relational checks."""
import numpy as np
from harness import sim

ALL_METRICS = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
               'sdc_wrongway', 'sdc_progression', 'sdc_off_route')
OBJ_METRICS = ALL_METRICS[:4]


def weights(rng=None, names=ALL_METRICS):
  if rng is None:
    return {n: w for n, w in zip(names, [-.5, -2., -1., -.25, -.125, 1.5, -.75])}
  return {n: float(np.float32(rng.normal() * 2)) for n in names}


def config(A, init, ctrl='SDC', allow=True, metrics=ALL_METRICS, rewards=None, **kw):
  from waymax import config as wc
  return sim.env_config(
      A, init, ctrl, allow, metrics=wc.MetricsConfig(tuple(metrics)),
      rewards=wc.LinearCombinationRewardConfig(weights() if rewards is None else rewards), **kw)


def make_env(kind, cfg, planning, agents=False, **dyn_kw):
  from waymax import env as _env
  from waymax.agents import agent_builder
  from waymax import config as wc
  dyn = sim.make_dynamics(kind, **dyn_kw)
  if not planning:
    return _env.MultiAgentEnvironment(dyn, cfg)
  kw = {}
  if agents:
    acts = [agent_builder.create_sim_agents_from_config(
        wc.SimAgentConfig(wc.SimAgentType.IDM, wc.ObjectType.NON_SDC))]
    kw = dict(sim_agent_actors=acts, sim_agent_params=[{}] * len(acts))
  return _env.PlanningAgentEnvironment(dyn, cfg, **kw)


def everything(env, obs_steps=1, topk=5, frames=('OBJECT',), sdc_frames=('SDC',)):
  """state, action -> dict of all results a user can ask for at this state."""
  from waymax import config as wc
  from waymax.datatypes import observation as ob

  def f(state, action):
    out = dict(metrics=env.metrics(state), reward=env.reward(state, action),
               next=env.step(state, action), term=env.termination(state),
               trunc=env.truncation(state), done=state.is_done,
               remaining=state.remaining_timesteps)
    for fr in frames:
      out['obs_' + fr] = ob.observation_from_state(state, obs_steps, topk, getattr(wc.CoordinateFrame, fr))
    for fr in sdc_frames:
      out['sdc_obs_' + fr] = ob.sdc_observation_from_state(state, obs_steps, topk, getattr(wc.CoordinateFrame, fr))
    return out
  return f


def metric_state(c, shapes, own=False, t_min=0, noise=1.0, **scene_kw):
  """A mid-episode state: (scenes, stacked scene, sim dict, timestep(s), state, batch)."""
  from harness import gen
  r = c.rng
  A, T, B = shapes[c.shard % len(shapes)]
  if c.recorded_size(25):
    A, T, B, own = 64, [120, 91][(c.k // 25) % 2], (), False
    if scene_kw.get('R'):
      scene_kw['R'] = 1500
  n = int(np.prod(B))
  scenes = [gen.gen_scene(r, A=A, T=T, **scene_kw) for _ in range(n)]
  sc = gen.stack_scenes(scenes, B) if B else scenes[0]
  t = int(r.integers(t_min, T))
  simt = gen.sim_mid_episode(r, sc, t, noise=noise)
  own = bool(own and len(B) == 1)
  ts = r.integers(t_min, t + 1, B) if own else t
  if own:
    c.hit('event:own-timestep')
  return scenes, sc, simt, ts, B, A, T


def at_step(q, ts, B):
  """q (B.., A, T) at the per-batch step -> (B.., A)."""
  idx = np.broadcast_to(np.asarray(ts)[..., None, None], q.shape[:-1] + (1,))
  return np.take_along_axis(q, idx, -1)[..., 0]
