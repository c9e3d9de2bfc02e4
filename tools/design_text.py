HEAD = '''# Runtime monitoring of waymax

waymax is a pure-Python/JAX library: no C/C++ of its own, no threads of its own (only TensorFlow's input pipeline runs
in parallel). Compiler sanitizers therefore have nothing of waymax to instrument; the deciding technique is *monitors over
executions of the real code*. Every check runs the code from `/repo` (no copies, no build artefacts) under generated
workloads, and an oracle observes every call's inputs and outputs. No hook in `/repo` was needed: all observation points
are public functions, recorded actors, subclassed environments, or the matplotlib canvas.

## Machinery

- `check.sh CXX` -> `harness/run.py` -> `harness/core.py`: splits each *part* of a check into worker processes (shards),
  derives every case from (seed, property, part, index), collects counters, violations, distinct signatures and samples,
  writes `evidence/CXX.json` and, on violation, `replays/CXX-*.json` (`check.sh CXX --replay FILE` repeats it).
- Verdict `held` needs: no violation, no worker lost, and every counter in the check's `REQUIRED` list non-zero (each
  monitor fired, each situation was seen). If a required counter is missing because the soft time limit was hit on a slow
  machine, a NOTE is printed, the evidence says so, and the run is not failed.
- Oracles are written independently of waymax, in NumPy float64 (or bitwise, where no arithmetic is involved), and judge
  observable results only: names, values, shapes, types, errors. They never read source text or private helpers, so
  behaviour-preserving refactorings do not matter. Comparison bands grow with float32 resolution; decisions inside the band
  of a threshold, tie or seam are either not judged or may follow any admissible branch.
- `harness/gen.py` generates scenes (flickering, late, vanishing, never-valid objects; fillers 0 / -1 / garbage / leftovers;
  far-away coordinates; maps, routes, lights); `sim.py` dynamics, actions and environments; `world.py` whole-world states and
  environments with every metric; `womd.py` an independent record writer. A few cases per check use scenes the size of
  recorded ones (`event:recorded-size`: 91 steps, up to 128 objects, 20 000 map points) because thresholds on size or on
  time are otherwise out of reach.
- An exception thrown by the code under test in a situation the property covers is a violation (`no-unexpected-exception`).
- `tools/make_properties.py`, `make_manifest.py`, `make_design.py` write properties.jsonl, MANIFEST.json and this file;
  `tools/mkseed.py` builds planted bugs, `tools/runseeds.py` runs checks against them in scratch copies (`VERIF_REPO`).

What "held" means: on the executions of that run. It is exploration, not proof; evidence files list evaluations, distinct
non-trivial cases and per-monitor observation counts. WOMD recordings cannot be downloaded; the one recorded scenario in
the test data and synthetic scenes stand in for them.

No property is listed as not applicable: all 33 are statements about observable behaviour of executions.
'''
MID = '''## Genuine defects found and repaired (`fix:` commits in /repo)
'''
NOTFIXED = '''
## Behaviour seen, not claimed and not changed

Documented, intended, or outside every property's statement; the properties are worded so that these are not judged.

- After a batched reset the timestep is scalar, so `SimulatorState.validate()` refuses such a state.
- Routes (`sdc_paths`) are not moved into the observation frame; WrongWay does not check the ego's own validity; the off-road metric
  is flagged valid for every object; progression can be negative and uses logged end points even when invalid there.
- The reward mask comes from the control mode's metadata also for VALID objects which injection forbids to appear.
- Exported 64-bit record integers are 32-bit (JAX default types); exporting with route features in the description raises KeyError.
- `shuffle_seed=0` does not shuffle the file order; drop_remainder applies per shard; nested batch dims with
  `drop_remainder=False` and a remainder raise.
- Ids/types of objects without a track are exported as -1; sizes of an appearing object carry over.
- IDM look-ahead along logs shorter than the look-ahead raises; an IDM agent for an object never valid in the log follows garbage.
- Configuration checks demand routes for route *metrics*, not for rewards over them.
- `merge_actions` gives an object nobody claims the first actor's action (C23 is worded accordingly).
- Visualisation: out-of-range batch/object indices clamp, metric texts of the Brax plot may overlap, a route whose first point is
  invalid is skipped, `get_control_mask` refuses NON_SDC, map types outside 1,2,3,15-19 are not drawn.

## False alarms corrected on the way

- C23 first demanded "no action" for unclaimed objects; the code documents nothing, statement and check now only forbid mixing.
- C03/C09 first demanded action-driven poses from controlled objects that only now appear; the repaired code (and the statement)
  place them at their logged pose.
- Decisions at thresholds and ties (C13, C16, C18, C19, C20, C22, C24) are ambiguous in float32; the oracles mark them as not judged or
  allow every admissible branch rather than use one tolerance for all.
- C06's forward-step monitor demanded displacement-exact poses of objects that only now appear (stale after fix 5e3c373; found by
  vcheck); it now judges objects valid before the step or left to the log.
- C12 first demanded discount 1 on every non-final step; an environment that declares another termination is right to return 0 there,
  so statement and check tie the discount to the declared termination.
- A missing situation on an overloaded machine used to fail a check; it is now a NOTE.
'''
SEEDS = '''Each is a small change to waymax that breaks one property, builds and passes the 146 stable tests; `tools/runseeds.py` ran the
property's own quick check against each.
'''
