BASE_GAP = ('The repository ships no recorded scenario, so every test that drives this path '
            'through a loaded scenario fails before reaching it; ')

prop('C01', 'Reset replays exactly the warm-up log and hides the future',
  'After an environment is reset on any scenario, the current timestep is the configured number of warm-up steps minus one, and the simulated trajectory equals the logged trajectory bit for bit on every warm-up step. Every later simulated step of every object is marked invalid and carries the invalid filler (-1 for numbers, False for flags), whatever the incoming simulated trajectory or timestep was. The log, map, traffic lights, routes and object metadata are returned unchanged, the input state is not modified, a scenario whose object count differs from the configured one is refused, and resetting a reset state changes nothing.',
  ['inputs', 'configurations', 'histories'],
  'All scenarios (object counts, horizons, validity patterns, batch shapes), all warm-up lengths from 1 to the horizon, all prior episode histories.',
  BASE_GAP + 'and any test fixes one warm-up length and one scenario, while the frame condition ranges over all of them.',
  ['waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py', 'waymax/datatypes/simulator_state.py', 'waymax/datatypes/object_state.py'],
  [('reset', 'waymax/env/base_environment.py:reset'), ('update_state_by_log', 'waymax/datatypes/simulator_state.py'), ('fill_invalid_trajectory', 'waymax/datatypes/object_state.py')],
  [('timestep', 'last executed step', 'SimulatorState.timestep'), ('sim_trajectory', 'simulated history', 'SimulatorState.sim_trajectory')],
  ['env.reset return value'])

prop('C02', 'A step appends one simulated step and changes nothing else',
  'Stepping an unfinished episode advances the timestep by exactly one and writes only the simulated step at the new timestep. All earlier simulated steps, all later simulated steps, the log, map, traffic lights, routes and metadata of the returned state equal those of the input state bit for bit, and the input state and action objects themselves are left intact. This holds at every step of an episode of any length, for every dynamics model, whatever the action values are, and for both the multi-agent and the planning-agent environment.',
  ['inputs', 'histories', 'configurations'],
  'All scenarios, all action sequences (in range, out of range, non-finite or flagged invalid), every step of every episode, every dynamics model.',
  BASE_GAP + 'unit tests look at the newly written step only and never at the rest of the state over a whole episode.',
  ['waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py', 'waymax/dynamics/abstract_dynamics.py', 'waymax/datatypes/operations.py'],
  [('step', 'waymax/env/base_environment.py:step'), ('apply_trajectory_update_to_state', 'waymax/dynamics/abstract_dynamics.py'), ('update_by_slice_in_dim', 'waymax/datatypes/operations.py')],
  [('sim_trajectory', 'simulated history', 'SimulatorState.sim_trajectory')],
  ['env.step return value and arguments'])

prop('C03', 'Controlled objects follow actions, all others replay the log',
  'At each multi-agent step, every currently existing object selected by the configured control mode (self-driving car, modeled objects, or valid objects) takes the pose and velocity its dynamics model computes from its action, while every other object takes pose and velocity from the log at the new timestep. Timestamps come from the log; elevation and dimensions carry over from the object\'s current simulated step, except that an object that only now appears takes its elevation from the log. A controlled object that currently exists stays valid; any other object is valid next if and only if it is valid in the log at the new step and, unless new objects may appear after warm-up, also currently valid. When all valid objects are controlled and new objects may not appear, the controlled set is the set of objects valid at the end of warm-up; an unsupported control mode is refused with an error.',
  ['inputs', 'histories', 'configurations'],
  'All control modes, both injection settings, all validity patterns (late appearing, disappearing, flickering objects), all dynamics models, all steps.',
  BASE_GAP + 'the surviving unit tests cover one hand-written validity table with one dynamics model.',
  ['waymax/env/base_environment.py', 'waymax/dynamics/abstract_dynamics.py', 'waymax/datatypes/simulator_state.py'],
  [('control mask', 'waymax/env/base_environment.py:_get_control_mask'), ('apply_trajectory_update_to_state', 'waymax/dynamics/abstract_dynamics.py'), ('get_control_mask', 'waymax/datatypes/simulator_state.py')],
  [], ['env.step return value', 'DynamicsModel.forward return value'])

prop('C04', 'Batched, compiled and repeated simulation agree with single runs',
  'Resetting, stepping, observing, scoring and rewarding a batch of scenarios (any number of batch dimensions) gives, for each scenario, the result of processing that scenario alone. Compiled execution gives the same result as uncompiled execution, and repeating a call with equal inputs gives equal outputs regardless of what was simulated in between. Results agree up to float32 rounding, flags and integers exactly.',
  ['inputs', 'histories', 'configurations'],
  'All batch shapes, scenarios, actions, metrics, reward weights and environments; all interleavings of calls on shared environment objects.',
  BASE_GAP + 'tests use a single batch shape and never compare batched against unbatched results.',
  ['waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py', 'waymax/metrics', 'waymax/rewards/linear_combination_reward.py', 'waymax/datatypes/observation.py'],
  [('pure functional state', 'waymax/datatypes/simulator_state.py'), ('batch handling', 'waymax/datatypes/operations.py:_vmap_over_batch_dims')],
  [], ['outputs of env.reset/step/metrics/reward and observation functions'])

prop('C05', 'A rollout is exactly the iterated step loop',
  'Rolling out an actor for n steps yields n+1 records equal to resetting and then alternating select-action and step by hand: record i holds the i-th state, its observation, metrics and the reward of the action leaving it, and the final record repeats the final state with a zero, invalid padding action. The actor state is threaded through every call in order, the episode starts from the reset state, and equal seeds give equal rollouts. An expert rollout of the self-driving car reproduces its logged trajectory.',
  ['inputs', 'histories', 'configurations'],
  'All actors (stateless, stateful, randomised), all horizons from 1 to the remaining steps, all environments and scenarios.',
  BASE_GAP + 'alignment of action, reward and state across the scan is only visible when a whole trace is compared with an independent loop.',
  ['waymax/env/rollout.py', 'waymax/agents/actor_core.py'],
  [('rollout scan', 'waymax/env/rollout.py:rollout'), ('rollout_log_by_expert_sdc', 'waymax/env/rollout.py')],
  [], ['RolloutOutput'])

prop('C06', 'Delta and state dynamics compute the documented motion',
  'Displacement dynamics move an object by the commanded displacement (expressed in the world frame or in the object\'s own heading frame), add the commanded turn to its heading, and set velocity to displacement over the 0.1 s step; absolute-state dynamics set pose and velocity to the commanded values. A displacement update is valid exactly when both the object and its action are valid, an absolute update exactly when its action is. Inverting two consecutive valid logged steps yields an action within the action range, flagged valid only if the step it leads to is valid (and, for displacements, also the one it starts from), and applying that action to the first step reproduces the second whenever the required motion is within the action limits.',
  ['inputs'],
  'All poses, headings (including wrap-around), velocities, actions, validity combinations and timesteps.',
  'Tests evaluate a couple of fixed points; the formulas and the round trip must hold on the whole domain, in particular at heading wrap-around and for large world coordinates.',
  ['waymax/dynamics/delta.py', 'waymax/dynamics/state_dynamics.py', 'waymax/dynamics/abstract_dynamics.py'],
  [('compute_update/inverse', 'waymax/dynamics/delta.py'), ('compute_update/inverse', 'waymax/dynamics/state_dynamics.py')],
  [], ['compute_update, forward and inverse results'])

prop('C07', 'Bicycle dynamics obey limits and the kinematic update',
  'With bicycle dynamics the applied acceleration and curvature never exceed the configured limits whatever action is supplied (normalised actions in [-1, 1] map linearly onto those limits), and the next pose follows the constant-acceleration update: position advances by velocity*t plus a*t^2/2 along the current heading, heading by curvature times the arc length v*t + a*t^2/2, and the new speed v + a*t is directed along the new heading. The update is valid exactly when object and action are valid. The inverse of two consecutive steps is always within the action range, is zero and invalid when either step is invalid, and re-applying the inverse of a motion generated by in-range actions at driving speed reproduces that motion.',
  ['inputs', 'configurations'],
  'All object states, actions (in and out of range), limits, normalisation settings, speeds above and below the inverse cut-off.',
  'Tests check a few hand-picked actions; saturation, wrap-around and round-trip consistency quantify over the whole action and state space.',
  ['waymax/dynamics/bicycle_model.py', 'waymax/utils/geometry.py'],
  [('compute_update', 'waymax/dynamics/bicycle_model.py'), ('compute_inverse', 'waymax/dynamics/bicycle_model.py')],
  [], ['compute_update, forward and inverse results'])

prop('C08', 'Discrete actions form a lossless, nearest-bin grid code',
  'A discretiser with given bounds and bin counts numbers every grid point exactly once: decoding then encoding returns the same index for every index, decoded values lie within the bounds and include both end points, and encoding any in-range value picks a nearest grid point in each dimension (out-of-range values saturate). Stepping with a discrete action equals stepping the wrapped continuous dynamics with the decoded action, with validity preserved. The discrete inverse is the encoding of the continuous inverse or, in search mode, a grid action whose resulting corner displacement is minimal for each object.',
  ['inputs', 'configurations'],
  'All bin counts, bounds and dimensions; all indices; all continuous values; all wrapped dynamics; all objects.',
  'Tests use one grid; index arithmetic errors show only for unequal bin counts or three dimensions, and the search inverse is only tested for one object.',
  ['waymax/dynamics/discretizer.py'],
  [('Discretizer', 'waymax/dynamics/discretizer.py'), ('DiscreteActionSpaceWrapper', 'waymax/dynamics/discretizer.py')],
  [], ['discretize/make_continuous results', 'wrapper compute_update and inverse results'])

prop('C09', 'Planning env: ego obeys the user, agents obey their policies',
  'In the planning-agent environment the self-driving car\'s next state is determined by the user\'s single action (unless a configured sim agent explicitly claims that car) and every object steered by a configured sim agent moves as that agent\'s action dictates; all remaining objects replay the log. When several sim agents claim an object the last configured one wins, and objects that overlap another object at the start of the log are never steered by sim agents. Mismatched numbers of sim agents and parameters, or a control mode other than the self-driving car, are refused.',
  ['inputs', 'histories', 'configurations'],
  'All scenarios, user actions, numbers and orders of sim agents, overlapping claims and initial overlaps.',
  BASE_GAP + 'priority among overlapping claims depends on configurations no test builds.',
  ['waymax/env/planning_agent_environment.py', 'waymax/agents/actor_core.py'],
  [('step', 'waymax/env/planning_agent_environment.py:step'), ('PlanningAgentDynamics', 'waymax/env/planning_agent_environment.py'), ('merge_actions', 'waymax/agents/actor_core.py')],
  [], ['env.step return value'])

prop('C10', 'Planning env metrics and reward describe the ego only',
  'Every metric reported by the planning-agent environment has one value and one validity flag per scenario, equal to the self-driving car\'s entry of the corresponding per-object metric wherever that car sits in the object list, or to the scenario-level metric itself. The reward is the self-driving car\'s entry of the configured linear combination, and zero when rewards are disabled. Data of other objects that the metric does not depend on never changes either.',
  ['inputs', 'configurations'],
  'All positions of the self-driving car in the object list, all metric sets and weights, all batch shapes, all steps including the first after reset.',
  BASE_GAP + 'the car is almost always at one index in tests, so index mistakes are invisible.',
  ['waymax/env/planning_agent_environment.py', 'waymax/datatypes/operations.py', 'waymax/rewards/linear_combination_reward.py'],
  [('metrics/reward', 'waymax/env/planning_agent_environment.py'), ('select_by_onehot', 'waymax/datatypes/operations.py')],
  [], ['env.metrics, env.reward return values'])

prop('C11', 'The dm_env adapter follows the dm_env episode protocol',
  'Every episode seen through the dm_env adapter is one FIRST step, then MID steps, then exactly one LAST step at the moment the wrapped episode ends; stepping before the first reset or after the LAST step raises the documented error and does not advance the simulation. Rewards and observations returned by a step equal those of an independently stepped environment, the discount is zero on a LAST step that terminates the episode and one elsewhere, and every reset starts a fresh episode on the next scenario of the data source. Returned observations, rewards and accepted actions conform to the advertised specs.',
  ['histories', 'inputs', 'configurations'],
  'All call sequences of reset and step, all episode lengths and scenarios.',
  BASE_GAP + 'the protocol is a property of call histories, and tests exercise one fixed sequence.',
  ['waymax/env/wrappers/dm_env_wrapper.py', 'waymax/env/errors.py'],
  [('DMEnvWrapper', 'waymax/env/wrappers/dm_env_wrapper.py')],
  [], ['TimeStep objects returned by the adapter'])

prop('C12', 'The Brax adapter reports consistent transitions',
  'Through the Brax adapter, reset returns the reset state with its observation, zero reward, not done and discount one; each step returns the wrapped environment\'s next state, its observation, and the reward and metrics of the wrapped environment for the transition just taken. Done is set exactly when the wrapped episode has ended, the discount is zero exactly when the environment declares a termination and one otherwise, and the input transition is left unmodified.',
  ['histories', 'inputs', 'configurations'],
  'All scenarios, action sequences, batch shapes and episode lengths.',
  BASE_GAP + 'off-by-one alignment of reward, metrics and done flags needs a whole episode compared with the wrapped environment.',
  ['waymax/env/wrappers/brax_wrapper.py', 'waymax/env/abstract_environment.py'],
  [('BraxWrapper', 'waymax/env/wrappers/brax_wrapper.py')],
  [], ['TimeStep returned by the adapter'])

prop('C13', 'Box overlap decisions match exact rectangle geometry',
  'Two oriented boxes are reported as overlapping if and only if the rectangles they describe intersect with positive area, for every position, size and heading; the answer is symmetric, unchanged by moving or rotating both boxes together, and pairwise results never pair a box with itself. The overlap metric of an object at the current simulated step is 1 exactly when it overlaps at least one other valid object and 0 otherwise, and it is valid exactly when the object is valid.',
  ['inputs'],
  'All pairs and sets of boxes up to float32 resolution of contact; all validity patterns; all simulation steps.',
  'Tests check a handful of box pairs; separating-axis mistakes show only for particular relative headings and aspect ratios.',
  ['waymax/utils/geometry.py', 'waymax/metrics/overlap.py'],
  [('has_overlap', 'waymax/utils/geometry.py'), ('compute_pairwise_overlaps', 'waymax/utils/geometry.py'), ('OverlapMetric', 'waymax/metrics/overlap.py')],
  [], ['geometry and metric results'])

prop('C14', 'Coordinate transforms are rigid motions',
  'Rotating points, transforming points, directions, headings and box trajectories by a pose preserves distances, angles, sizes and handedness; transforming by a pose maps that pose to the origin facing along +x, and transforming back with the inverse pose returns the original values. Box corners start at the front right corner and run counter-clockwise, with side lengths equal to length and width, centred on the box. Wrapped headings always lie in [-pi, pi) (up to float32 rounding at the seam) and differ from the input by a whole number of turns.',
  ['inputs'],
  'All poses, points, trajectories of either encoding, headings of any magnitude, any batch shape.',
  'Tests check single poses; sign, broadcast and wrap mistakes need many headings and batch shapes.',
  ['waymax/utils/geometry.py', 'waymax/datatypes/observation.py', 'waymax/datatypes/object_state.py'],
  [('geometry helpers', 'waymax/utils/geometry.py')],
  [], ['geometry helper results'])

prop('C15', 'Observations contain exactly the recent past in the chosen frame',
  'A built-in observation holds, for each observed trajectory, exactly the requested number of most recent simulated steps ending at the current one, the traffic-light states of the same steps, the requested number of nearest valid map points and the object metadata, and for each observer a flag marking its own entry. Values equal the global simulator values expressed in the requested frame (world, self-driving car, or each object), and the world pose of that frame is reported with the observation. Nothing about future simulated steps or the future log influences it, and invalid entries stay invalid.',
  ['inputs', 'histories', 'configurations'],
  'All scenarios, history lengths, map sizes, coordinate frames, timesteps and batch shapes.',
  BASE_GAP + 'so frame, history and ego-flag handling is effectively unexercised.',
  ['waymax/datatypes/observation.py', 'waymax/datatypes/roadgraph.py', 'waymax/config.py'],
  [('observation_from_state', 'waymax/datatypes/observation.py'), ('sdc_observation_from_state', 'waymax/datatypes/observation.py'), ('transform_observation', 'waymax/datatypes/observation.py')],
  [], ['Observation objects'])

prop('C16', 'Ego-frame views do not depend on the world frame',
  'If an entire scenario (all trajectories, map, traffic lights, routes and world-frame actions) is moved by one planar rigid motion, object-frame and car-frame observations, all built-in metrics, rewards and inverse actions expressed in an object\'s own frame are unchanged, and simulating yields the moved trajectories.',
  ['inputs', 'histories'],
  'All scenarios and all planar rigid motions (up to float32 rounding away from decision thresholds).',
  'Metamorphic relation over pairs of runs; no test compares two placements of the same scene.',
  ['waymax/datatypes/observation.py', 'waymax/metrics', 'waymax/dynamics', 'waymax/utils/geometry.py'],
  [('transform_* helpers', 'waymax/datatypes/observation.py'), ('metrics', 'waymax/metrics')],
  [], ['observations, metrics and steps on a scene and its moved copy'])

prop('C17', 'Log divergence is the current distance to the log',
  'The log-divergence metric of an object is the planar distance between its simulated and logged positions at the current timestep. It is valid exactly when the object is valid in both trajectories at that step, and it is zero for every valid object while the simulation replays the log.',
  ['inputs', 'histories'],
  'All scenarios, steps, validity patterns and batch shapes.',
  'The tests evaluate one small constructed example.',
  ['waymax/metrics/imitation.py'],
  [('LogDivergenceMetric', 'waymax/metrics/imitation.py')], [], ['metric results'])

prop('C18', 'Off-road means a box corner crosses the nearest road edge',
  'The off-road metric of a valid object at the current step is 1 exactly when at least one corner of its box lies on the off-road side of its nearest road-edge point (positive signed distance; the side follows from the direction of the edge there, continued from the preceding point of the same edge at its ends), and 0 otherwise; without valid edges it is 0. Only valid road-edge points matter (lane, line, crosswalk and invalid points never influence it), elevation differences count double when choosing the nearest edge, and each object is judged independently of all other objects.',
  ['inputs'],
  'All maps (any mix of element types, ids and validity), all boxes, elevations and batch shapes, away from ties and zero distance.',
  'Tests place one box next to one repeated edge point, so nearest-edge selection, curve continuity and filtering are never exercised.',
  ['waymax/metrics/roadgraph.py', 'waymax/datatypes/roadgraph.py'],
  [('compute_signed_distance_to_nearest_road_edge_point', 'waymax/metrics/roadgraph.py'), ('is_offroad', 'waymax/metrics/roadgraph.py'), ('OffroadMetric', 'waymax/metrics/roadgraph.py')], [], ['metric results'])

prop('C19', 'Infeasibility flags exactly motions beyond the vehicle limits',
  'The kinematic-infeasibility metric of an object at the current step is 1 exactly when the acceleration or curvature needed to get from its previous to its current simulated step exceeds the vehicle limits, and 0 otherwise; it is valid exactly when both steps are valid. Trajectories produced by in-limit bicycle actions are never flagged.',
  ['inputs', 'histories'],
  'All simulated motions away from the limit itself, all steps and validity patterns.',
  BASE_GAP + 'the decision threshold and step alignment need many motions on both sides.',
  ['waymax/metrics/comfort.py', 'waymax/dynamics/bicycle_model.py'],
  [('KinematicsInfeasibilityMetric', 'waymax/metrics/comfort.py')], [], ['metric results'])

prop('C20', 'Route metrics measure the ego against its legal paths',
  'For a valid self-driving car, wrong-way reports its distance to the nearest valid path point when that distance exceeds 3.5 m and zero otherwise; off-route reports its distance to the nearest on-route path point when that exceeds 5 m or the car is more than 2 m closer to an off-route path than to the on-route ones, and zero otherwise. Progression reports how far along the closest on-route path the car has moved, 0 at the logged start and 1 at the logged end of the segment. Invalid path points never matter, and a scenario without any usable path yields an invalid result.',
  ['inputs', 'histories'],
  'All path sets (numbers of paths, validity, on-route flags), all car positions, all steps and batch shapes.',
  'Tests use a few regular grids of paths; selection among several partially valid paths ranges over far more.',
  ['waymax/metrics/route.py', 'waymax/datatypes/route.py'],
  [('WrongWayMetric', 'waymax/metrics/route.py'), ('OffRouteMetric', 'waymax/metrics/route.py'), ('ProgressionMetric', 'waymax/metrics/route.py')], [], ['metric results'])

prop('C21', 'Metrics run as configured and rewards combine them linearly',
  'Running metrics evaluates exactly the configured names, including user-registered ones, each equal to evaluating that metric alone; unknown names are refused and duplicate registrations rejected. The linear reward of each object is the weighted sum of its metric values with invalid values counted as zero, and zero for objects outside the configured control mode. Scaling or adding weight sets scales or adds rewards, and disabling rewards yields zeros of the advertised shape.',
  ['inputs', 'configurations'],
  'All metric subsets and orders, all weights, control masks, validity patterns and batch shapes.',
  'Tests use a fixed configuration with mocked metrics.',
  ['waymax/metrics/metric_factory.py', 'waymax/rewards/linear_combination_reward.py', 'waymax/env/base_environment.py'],
  [('run_metrics/register_metric', 'waymax/metrics/metric_factory.py'), ('LinearCombinationReward', 'waymax/rewards/linear_combination_reward.py')], [], ['metric dictionaries, rewards'])

prop('C22', 'Route-following agents obey the IDM law on their logged path',
  'A route-following agent accelerates according to the intelligent-driver formula from its own speed, the gap to and speed of the nearest leading object on its path, and its parameters: it never commands a negative speed, settles at its desired speed when free, slows for an object ahead, and ignores invalid objects, objects off its path, and itself. Its next position lies on the heading line of its nearest logged waypoint with that waypoint\'s heading, and its action is valid exactly for the objects it controls that are currently valid (and, when so configured, invalid once its path is exhausted). Fixed-speed and constant-speed agents keep their speed and heading or path.',
  ['inputs', 'histories', 'configurations'],
  'All scenarios, agent parameters, lead placements and timesteps.',
  BASE_GAP + 'tests check single straight-line set-ups with mocked sub-results.',
  ['waymax/agents/waypoint_following_agent.py', 'waymax/agents/constant_speed.py'],
  [('IDMRoutePolicy', 'waymax/agents/waypoint_following_agent.py'), ('WaypointFollowingPolicy', 'waymax/agents/waypoint_following_agent.py'), ('constant speed actor', 'waymax/agents/constant_speed.py')], [], ['actions returned by agents'])

prop('C23', 'Merged and expert actions control exactly whom they claim',
  'Merging actor outputs gives each object the whole action (every component and its validity) of the actor that claims it - the last one in the sequence if several do - and never mixes components of different actors. Every actor\'s output claims exactly the objects selected by its control predicate and passes its state through unchanged unless it defines one; the expert actor\'s action moves an object from its simulated pose to the next logged pose under the given dynamics. The constant-speed actor keeps the current heading and the given (or current) speed.',
  ['inputs', 'configurations', 'histories'],
  'All numbers and orders of actors, overlapping claims, dynamics models, scenarios and timesteps.',
  'Merge tests use two actors and one control mask; the expert tests need a recorded scenario that is missing.',
  ['waymax/agents/actor_core.py', 'waymax/agents/expert.py', 'waymax/agents/constant_speed.py', 'waymax/agents/sim_agent.py'],
  [('merge_actions', 'waymax/agents/actor_core.py'), ('create_expert_actor', 'waymax/agents/expert.py'), ('create_constant_speed_actor', 'waymax/agents/constant_speed.py')], [], ['WaymaxActorOutput'])

prop('C24', 'Nearest-map-point filtering is exact and lossless',
  'Filtering a map to its k nearest points returns k points that are all points of the input with every field intact (positions, directions, type, id, validity), no point twice, and no omitted valid point is strictly closer than a kept one; invalid points are kept only when fewer than k valid points exist. Asking for all points returns the map itself and asking for more than exist is refused.',
  ['inputs'],
  'All maps (any ids, types, validity), reference points, k and batch shapes.',
  'Tests use small ids and a few points; precision loss on large ids and per-field mix-ups are invisible there.',
  ['waymax/datatypes/roadgraph.py'],
  [('filter_topk_roadgraph_points', 'waymax/datatypes/roadgraph.py')], [], ['filtered RoadgraphPoints'])

prop('C25', 'Array-tree primitives equal their elementwise definitions',
  'Slicing, indexing and slice-updating an array tree along an axis at one shared or one per-batch start index equals doing so on each leaf and batch element separately; mask updates replace exactly the masked entries; one-hot selection returns exactly the selected entry whatever the other entries contain; masked means ignore invalid entries and report the filler when none is valid; masked arrays replace exactly the invalid entries. Equality of data structures holds exactly when all leaves are equal.',
  ['inputs'],
  'All tree structures, dtypes, axes, shapes, start indices, masks and contents including non-finite values.',
  'Tests check one axis and scalar or small batched indices with finite data.',
  ['waymax/datatypes/operations.py', 'waymax/datatypes/array.py'],
  [('operations', 'waymax/datatypes/operations.py')], [], ['operation results'])

prop('C26', 'Derived object quantities follow from the stored fields',
  'Speed, velocity heading, stacked positions, box corners and field stacks of a trajectory, and the stacked views of maps, routes and traffic lights, equal their definitions from the stored fields; speed and velocity heading are -1 exactly where the object is invalid. Validation accepts exactly the structures whose fields have matching shapes and documented types. The number of remaining steps, the done flag and the current simulated and logged steps agree with the timestep at every step and for every batch.',
  ['inputs', 'histories'],
  'All trajectories, maps, routes and timesteps including per-scenario timesteps.',
  'Tests cover single examples of some of these views.',
  ['waymax/datatypes/object_state.py', 'waymax/datatypes/roadgraph.py', 'waymax/datatypes/route.py', 'waymax/datatypes/traffic_lights.py', 'waymax/datatypes/simulator_state.py', 'waymax/datatypes/action.py'],
  [('properties', 'waymax/datatypes/object_state.py')], [], ['property values'])

prop('C27', 'The data pipeline delivers every scenario exactly as configured',
  'For any number of files, shards and parallel settings, one pass over the dataset delivers every record exactly once (only the final incomplete batch of each parallel shard may be dropped, and only when dropping is enabled), and r repeats deliver every record r times. Without shuffling the order is the same on every run; with a shuffle seed it is a permutation of the same records that is reproducible for the same seed, in which no record moves ahead by more than the shuffle buffer. Batches have the configured leading dimensions, each element of a batch is one intact record, hosts partition the files, and sharded path patterns expand to exactly the named files.',
  ['inputs', 'configurations', 'schedules'],
  'All file layouts, shard counts, batch dimensions, repeat, shuffle and drop settings, under the real parallel reader.',
  'No data file is available to the tests, so nothing reads a dataset; exactly-once delivery under parallel interleave is a property of schedules.',
  ['waymax/dataloader/dataloader_utils.py', 'waymax/dataloader/womd_dataloader.py'],
  [('tf_examples_dataset', 'waymax/dataloader/dataloader_utils.py'), ('get_data_generator', 'waymax/dataloader/dataloader_utils.py'), ('generate_sharded_filenames', 'waymax/dataloader/dataloader_utils.py')], [], ['elements delivered by the generator'])

prop('C28', 'Recorded scenarios are parsed faithfully into simulator state',
  'Parsing a serialized scenario yields a simulator state whose log contains, for every object and for past, current and future steps in temporal order, exactly the recorded positions, velocities, validity and timestamps, with headings wrapped into [-pi, pi); map points, traffic lights, routes and object attributes equal the recorded ones. Object dimensions are constant over time, the mean of the recorded values at valid steps (-1 if never valid). Limiting the number of objects keeps exactly the first ones in every object field and touches nothing else; all results have the documented types and shapes.',
  ['inputs', 'configurations'],
  'All record contents (validity patterns, angles, ids), object limits, map sizes, with and without routes.',
  'The recorded test scenario is absent, so the parse path is only run on synthetic dictionaries of zeros or random values without an oracle.',
  ['waymax/dataloader/womd_dataloader.py', 'waymax/dataloader/womd_utils.py', 'waymax/dataloader/womd_factories.py'],
  [('preprocess_serialized_womd_data', 'waymax/dataloader/womd_dataloader.py'), ('simulator_state_from_womd_dict', 'waymax/dataloader/womd_factories.py'), ('aggregate_time_tensors', 'waymax/dataloader/womd_utils.py')], [], ['SimulatorState fields'])

prop('C29', 'Exporting a state to a record and parsing it back is lossless',
  'Converting a simulator state to the record dictionary and building a state from that dictionary again reproduces the simulated trajectories and traffic lights of the exported history (the export timestep and the steps before it), their validity, the attributes of objects that have a track, and the map; everything after the export timestep is exported as invalid. Every exported field has the name, shape and kind of type the record format prescribes, only requested fields are exported, a state with the wrong amount of history is refused when validation is asked for, and the state exported is not modified.',
  ['inputs', 'histories'],
  'All scenarios, export timesteps and batch shapes.',
  'No test converts a state to a record.',
  ['waymax/dataloader/womd_utils.py', 'waymax/dataloader/womd_factories.py'],
  [('simulator_state_to_womd_dict', 'waymax/dataloader/womd_utils.py')], [], ['exported dictionary and re-parsed state'])

prop('C30', 'Plots show every valid object once, in the right place',
  'Rendering a simulator state or observation draws a box for every valid object at the shown step at its true position, size and heading, colours controlled and overlapping objects as documented, shows other steps as small boxes (later) or centre points (earlier), draws only valid map points of the displayed classes and traffic lights of the shown step in their class colours, and draws nothing for invalid ones. The image has the requested pixel size and colour layout and is centred on the self-driving car or the chosen agent; batched input is rendered for the requested batch element or refused, and rendering neither modifies the state nor depends on earlier rendering.',
  ['inputs', 'configurations'],
  'All scenarios, steps, view configurations and batch elements.',
  BASE_GAP + 'the surviving tests only check that some image is produced.',
  ['waymax/visualization/viz.py', 'waymax/visualization/utils.py', 'waymax/visualization/color.py'],
  [('plot_simulator_state', 'waymax/visualization/viz.py'), ('plot_trajectory', 'waymax/visualization/viz.py'), ('img_from_fig', 'waymax/visualization/utils.py')], [], ['drawn artists and image arrays'])

prop('C31', 'Invalid objects never influence valid ones',
  'Replacing the stored values of invalid objects, invalid map points, invalid route points and invalid simulated or logged steps by arbitrary finite garbage changes no metric, reward, observation entry, sim-agent action or next state of any valid object. In particular the result is the same whether an absent object is stored as zeros, -1 or leftovers.',
  ['inputs', 'histories', 'configurations'],
  'All scenarios with invalid entries, all garbage values, all metrics, observations, dynamics and agents.',
  'Non-interference is a relation between pairs of runs that differ only in invalid data; no test compares such a pair.',
  ['waymax/metrics', 'waymax/datatypes/observation.py', 'waymax/dynamics', 'waymax/agents/waypoint_following_agent.py'],
  [('validity masks', 'waymax/datatypes')], [], ['outputs on a scene and its poisoned copy'])

prop('C32', 'Episodes end on time with consistent end-of-episode signals',
  'An episode over a log of T steps that starts after w warm-up steps can be stepped exactly T-w times: the remaining-step count falls by one per step, reaches zero exactly at the last step, and the done flag is set exactly then. Termination and truncation flags and discounts reported at every step are consistent with that: truncation exactly at the end, termination only if the environment declares it, for every batch shape and environment.',
  ['histories', 'configurations', 'inputs'],
  'All horizons, warm-up lengths, batch shapes and environments.',
  BASE_GAP + 'tests check the flags at single timesteps.',
  ['waymax/datatypes/simulator_state.py', 'waymax/env/abstract_environment.py', 'waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py'],
  [('is_done/remaining_timesteps', 'waymax/datatypes/simulator_state.py'), ('termination/truncation', 'waymax/env/abstract_environment.py')], [], ['flags at each step'])

prop('C33', 'Advertised specs describe what environments accept and return',
  'For every environment and dynamics model, the advertised action, reward and discount specs have the shape, type and bounds of what the environment actually accepts and returns: any action within the action spec is accepted, expert actions inferred from logs lie within it, and every produced reward, discount and (for adapters that advertise one) observation conforms. Configurations that contradict each other (observation history longer than warm-up, route metrics without routes) are refused when constructed, and consistent ones are accepted.',
  ['configurations', 'inputs'],
  'All configurations of environments, dynamics, discretisation, observations and metrics.',
  BASE_GAP + 'spec tests cover single configurations.',
  ['waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py', 'waymax/dynamics', 'waymax/config.py', 'waymax/env/wrappers/dm_env_wrapper.py'],
  [('*_spec', 'waymax/env'), ('__post_init__', 'waymax/config.py')], [], ['specs against produced values'])
