"""Per-property design notes (the hand-written part of DESIGN.md)."""
# id -> (what is monitored and against what oracle, why this reaches beyond the tests)
NOTES = {
'C01': ('The state returned by `env.reset` for random scenes, warm-ups and prior histories (never reset, garbage '
        'simulated data, a state left over from an earlier episode). Oracle: the log itself, bit for bit, on warm-up steps; '
        'exact filler elsewhere; whole-tree equality for everything else and for the input before/after.',
        'Tests use one recorded scenario that was never reset before; they cannot see state leaking from a previous episode, '
        'validity-dependent fillers, or other batch ranks.'),
'C02': ('Every step of whole episodes is frame-checked: which leaves and which time columns of the returned tree changed. '
        'Oracle: bitwise equality outside the single column that may change, and of the inputs with a copy taken before. '
        'One step per episode runs uncompiled. Part `recorded` steps 91-step, 32- and 128-object scenes to their last step.',
        'A frame violation in a far column, on the very last step, for non-finite actions or through aliasing is invisible to '
        'tests that compare a few values of the written step.'),
'C03': ('Per object and step: pose, velocity, validity, timestamps, elevation, sizes of the next step. Oracle: a float64 '
        'motion model per dynamics class plus a validity automaton (controlled / replaying / absent / appearing, injection on or off).',
        'The branch taken depends on control mode x validity now x validity next x injection: the generator forces late, vanishing '
        'and flickering objects so that all branches are seen (REQUIRED counters).'),
'C04': ('Everything a user can ask for (state, metrics, reward, observations, flags) of a batch against the single-scenario run, '
        'of compiled against uncompiled code, of a repeated call after unrelated work, and of an environment shared between '
        'scenarios (also with interleaved resets/steps of two episodes) against a new one. Oracle: the other execution.',
        'Cross-talk between batch elements, broadcasts that only line up for batch size 1, caches or Python state kept in '
        'environment objects need differential executions, not single examples.'),
'C05': ('The trace returned by `rollout` / `rollout_expert`-style calls: all n+1 records are replayed one by one by calling '
        '`env.step`, `metrics`, `reward`, `observe` and the actor by hand; actor-state threading is watched by a counting actor.',
        'Off-by-one between record, action and reward, the padding record, or actor state dropped for one step only.'),
'C06': ('Updates and inverses of delta and state dynamics on random trajectories and actions (also NaN/inf, invalid). Oracle: '
        'float64 formulas; inverse judged by range, validity table and by re-applying it.',
        'Clipping limits, frame mix-ups and validity conjunctions only show for particular headings, signs and sizes.'),
'C07': ('Bicycle update and inverse over saturating, reversing, standing and wrapping cases; normalised variant. Oracle: float64 '
        'kinematics, closed form of the inverse, limits, round trips.', 'Same as C06, with speed cut-offs and heading wrap.'),
'C08': ('Discretiser grids are enumerated completely per case (all indices); continuous values incl. boundaries and far outside; '
        'discrete dynamics stepped beside the wrapped model; search-mode inverse compared with a brute-force minimum over all '
        'actions (computed from box corners).', 'Unequal bin counts per dimension, 3 and 4 dimensions, several objects in one search.'),
'C09': ('Each planning-environment step with 0-3 scripted sim agents claiming arbitrary objects (including the ego, conflicts, '
        'non-existing objects). Oracle: who-controls-whom table, then the C03 motion oracle; overlap at log start by the C13 '
        'oracle; actor keys and states recorded by the scripted actors.',
        'Precedence and masking errors show only for particular claim patterns.'),
'C10': ('Planning metrics and reward against per-object metrics recomputed separately and gathered at the ego, then again after the '
        'data of other objects was replaced and objects were permuted.', 'The ego is at a random index, clocks differ per scenario.'),
'C11': ('A protocol automaton over call histories on the dm_env adapter (resets, steps, early steps, late steps, refused resets, '
        'property reads), with an independently stepped environment as reference for contents.', 'Histories, not single calls, decide.'),
'C12': ('Episodes through the Brax adapter beside the wrapped environment; every field of every transition compared.',
        'Which state the reward/metrics belong to is ambiguous in a one-step test with constant metrics.'),
'C13': ('Box pairs by a float64 separating-axis oracle, itself cross-checked by polygon clipping on every case; overlap metric '
        'per object and step.', 'Geometry errors live in crossings and containment without a corner inside, near-contact, and '
        'with invalid neighbours stored at valid-looking positions.'),
'C14': ('All transform helpers against float64 SE(2); inverse, composition, orientation, corner order.', 'Leading shapes, many turns, large offsets.'),
'C15': ('Observations field by field against a float64 reconstruction from the state; map points matched by unique ids to the '
        'input rows; recomputed after the future was overwritten (bitwise equal required).', 'Frames x history x map size x batch x observer validity.'),
'C16': ('Metamorphic: scene beside a rigidly moved copy through metrics, rewards, observations, inverses, steps and episodes; '
        'jittered copies identify decisions too close to a threshold to be judged.', 'No reference model needed; catches '
        'world-axis dependence anywhere, including combined code paths.'),
'C17': ('Log divergence against float64 distances and the validity conjunction; whole log-replay episodes must give zero.', 'Per-scenario clocks, '
        'one-sided validity.'),
'C18': ('Off-road metric against a float64 implementation of the documented rule (nearest edge point with stretched elevation, '
        'signed distance by neighbouring edge segments); ambiguity bands are not judged; then irrelevant data is replaced.',
        'Elevation-decided, prior-point-decided and direction-decided cases are each required to occur.'),
'C19': ('Infeasibility flags against float64 kinematics with motions placed on both sides of the limits; whole episodes with '
        'in-limit bicycle actions must never be flagged.', 'The limits are only visible within a few percent; the heading seam, slow '
        'motion and per-scenario clocks are required events.'),
'C20': ('Route metrics against float64 oracles over random path sets (invalid, closed, off-route, garbage near the car).',
        'Invalid path points near the car and mixed on/off-route sets are absent from the test data.'),
'C21': ('`run_metrics`, registry and linear reward over random subsets/weights incl. user metrics registered at run time; each '
        'metric evaluated alone; float64 weighted sum; scaling and additivity.', 'NaN behind invalid entries, scenario-level '
        'metrics in batches, empty combinations.'),
'C22': ('Every returned IDM / frozen / constant-speed-policy action against a float64 recomputation; where a quantity is within '
        'rounding of a threshold all admissible branches are enumerated and any may be followed.', 'Leaders, gaps, end of log, '
        'strayed agents, log look-ahead.'),
'C23': ('`merge_actions`, actor factory, expert and constant-speed actors against element-wise tables; the expert action is '
        'applied and must reach the logged pose.', 'Conflicting, empty and overlapping claims; non-finite actions.'),
'C24': ('Output map points matched to input rows bit for bit through an identifying field; float64 ranking.', 'ids above 2^24, '
        'ties, few or no valid points, 20 000-point maps.'),
'C25': ('Array-tree helpers against leaf-by-leaf NumPy loops, bit for bit, including the uint32 views of NaN payload-free floats.',
        'Per-batch start indices, mixed dtypes, non-finite unselected entries.'),
'C26': ('Derived views of every data structure against NumPy definitions; validation fed with single-field corruptions; clocks '
        'along episodes.', 'Corruption is enumerated over all fields.'),
'C27': ('Real datasets on disk (TFRecord shards written per case) read by the real pipeline over shards x batch x repeat x shuffle '
        'x hosts x threads; oracle: multiset and order of unique record ids (conservation, exactly-once, determinism), '
        'each field tied to its record id (no torn batch element).', 'Thread interleavings and shard arithmetic.'),
'C28': ('Serialized tf.Examples produced by an independent writer from random records; parsed by the real code; oracle: the record.',
        'Time order past/current/future, wrap, dimension averaging, object limits.'),
'C29': ('Exported dictionaries against an independent export, then re-parsed (also through serialisation).', 'Every admissible '
        'timestep and history length instead of one.'),
'C30': ('Recorder hooked into the matplotlib canvas reads back artists, texts, limits and pixels drawn by the real code; matched '
        'one to one with marks derived from data in float64.', 'Tests only check that an image comes out.'),
'C31': ('Non-interference: scene beside copies whose invalid entries hold other finite values; bitwise comparison of everything '
        'valid, over episodes and for every API result.', 'Two-execution property, out of reach for examples.'),
'C32': ('Episodes for many (T, w) counted step by step; all signals read at every step and at arbitrary clocks.', 'Horizon '
        'boundaries: w = T, w = 1, one step left.'),
'C33': ('Specs read from environments/models; actions drawn from them incl. bounds are stepped; outputs validated against specs; '
        'configuration table enumerated completely.', 'Every model x environment x batch combination instead of one.'),
}
