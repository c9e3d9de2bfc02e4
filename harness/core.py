"""Runtime-monitoring harness: case runner, monitors' verdicts, evidence.

A check module (harness/checks/cXX.py) defines

  PROPERTY = 'C01'
  RULE     = how cases are made / what makes one non-trivial
  PARTS    = [Part(name, fn, shards=.., quick=.., thorough=..), ...]
  REQUIRED = counters which must be non-zero for the verdict "held"

Every part is a workload + oracle.  A part runs in `shards` worker processes;
shard s runs cases s, s+shards, s+2*shards, ...  Each case draws everything from
an rng seeded by (VERIF_SEED, property, part, case index), so a (part, index)
pair replays it.  Verdicts: held (0), violated (1), inconclusive/error (2).
"""
import dataclasses
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from typing import Any, Callable

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'


@dataclasses.dataclass
class Part:
  name: str
  fn: Callable[['Case'], None]
  shards: int = 1
  quick: int = 10  # cases per shard
  thorough: int = 100
  soft_quick: float = 150.0  # a shard stops starting cases after this many s
  soft_thorough: float = 1500.0


class CaseAbort(Exception):
  """Raised to leave a case early after a violation makes the rest meaningless."""


def _short(x, n=12):
  try:
    a = np.asarray(x)
    if a.size <= n:
      return a.tolist()
    return {'shape': list(a.shape), 'dtype': str(a.dtype),
            'head': a.ravel()[:n].tolist()}
  except Exception:  # pylint: disable=broad-except
    return repr(x)[:400]


class Case:
  """One execution under observation."""

  def __init__(self, shard_ctx, part, idx, shard, nshards):
    self.ctx = shard_ctx
    self.part = part
    self.idx = idx
    self.shard = shard
    self.k = idx // nshards  # ordinal within the shard
    self.tier = shard_ctx.tier
    self.cache = shard_ctx.cache
    h = hashlib.sha256(
        f'{shard_ctx.seed}/{shard_ctx.prop}/{part}/{idx}'.encode()).digest()
    self.rng = np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))
    hs = hashlib.sha256(
        f'{shard_ctx.seed}/{shard_ctx.prop}/{part}/shard{shard}'.encode()).digest()
    self.shard_rng = np.random.default_rng(np.frombuffer(hs[:16], dtype=np.uint32))
    self.failed = 0
    self.desc = {}
    self._sigs = []

  # -- recording -------------------------------------------------------------
  def recorded_size(self, every=24):
    """A few cases (fixed by shard and index) use scenes the size of recorded ones."""
    big = self.shard == 0 and self.k % every == every - 1
    if big:
      self.hit('event:recorded-size')
    return big

  def hit(self, key, n=1):
    self.ctx.counters[key] = self.ctx.counters.get(key, 0) + int(n)

  def describe(self, **kw):
    self.desc.update({k: _short(v) if not isinstance(v, (str, int, float, bool, type(None))) else v
                      for k, v in kw.items()})

  def signature(self, *objs):
    """Adds the content of objs to this case's identity (for distinctness)."""
    for o in objs:
      if isinstance(o, (str, int, float, bool, tuple, type(None))):
        self._sigs.append(repr(o).encode())
      else:
        a = np.ascontiguousarray(np.asarray(o))
        self._sigs.append(str(a.shape).encode() + a.tobytes())

  def nontrivial(self, flag=True):
    if flag:
      self.desc['nontrivial'] = True

  # -- verdicts --------------------------------------------------------------
  def fail(self, monitor, msg, **witness):
    self.failed += 1
    self.ctx.add_violation(self, monitor, msg, witness)

  def check(self, monitor, cond, msg='', **witness):
    self.hit('obs:' + monitor)
    if not bool(cond):
      self.fail(monitor, msg, **witness)
      return False
    return True

  def _shapes(self, monitor, got, want, exact_dtype=False):
    if got.shape != want.shape:
      self.fail(monitor, f'shape {got.shape} != expected {want.shape}')
      return False
    if exact_dtype and got.dtype != want.dtype:
      self.fail(monitor, f'dtype {got.dtype} != expected {want.dtype}')
      return False
    return True

  def eq(self, monitor, got, want, where=None, msg='', dtype=False):
    """Bitwise equality (NaN equals NaN) wherever `where`."""
    got, want = np.asarray(got), np.asarray(want)
    self.hit('obs:' + monitor)
    if not self._shapes(monitor, got, want, dtype):
      return False
    bad = got != want
    if got.dtype.kind == 'f' and want.dtype.kind == 'f':
      bad &= ~(np.isnan(got) & np.isnan(want))
    if where is not None:
      bad &= np.broadcast_to(np.asarray(where), bad.shape)
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      self.fail(monitor, (msg + ' ' if msg else '') + f'differs at {i} ({int(bad.sum())} entries)',
                got=got[i], want=want[i])
      return False
    return True

  def close(self, monitor, got, want, atol=1e-5, rtol=1e-5, where=None, msg=''):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    self.hit('obs:' + monitor)
    if not self._shapes(monitor, got, want):
      return False
    with np.errstate(all='ignore'):
      err = np.abs(got - want)
      bad = ~(err <= atol + rtol * np.abs(want))
      bad &= ~(np.isnan(got) & np.isnan(want))
      bad &= ~((got == want))
    if where is not None:
      bad &= np.broadcast_to(np.asarray(where), bad.shape)
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      self.fail(monitor, (msg + ' ' if msg else '') + f'differs at {i} ({int(bad.sum())} entries)',
                got=float(got[i]), want=float(want[i]))
      return False
    return True

  def angle_close(self, monitor, got, want, atol=1e-4, where=None, msg=''):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    self.hit('obs:' + monitor)
    if not self._shapes(monitor, got, want):
      return False
    with np.errstate(all='ignore'):
      d = np.abs((got - want + np.pi) % (2 * np.pi) - np.pi)
      bad = ~(d <= atol)
    if where is not None:
      bad &= np.broadcast_to(np.asarray(where), bad.shape)
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      self.fail(monitor, (msg + ' ' if msg else '') + f'angle differs at {i} ({int(bad.sum())} entries)',
                got=float(got[i]), want=float(want[i]))
      return False
    return True

  def tree_eq(self, monitor, got, want, msg=''):
    """Bitwise equality of two pytrees, including structure, shape and dtype."""
    import jax
    gl, gt = jax.tree_util.tree_flatten_with_path(got)
    wl, wt = jax.tree_util.tree_flatten_with_path(want)
    self.hit('obs:' + monitor)
    if gt != wt:
      self.fail(monitor, f'{msg} tree structure differs')
      return False
    ok = True
    for (p, g), (_, w) in zip(gl, wl):
      g, w = np.asarray(g), np.asarray(w)
      if g.shape != w.shape or g.dtype != w.dtype:
        self.fail(monitor, f'{msg} leaf {jax.tree_util.keystr(p)}: '
                  f'{g.dtype}{g.shape} != {w.dtype}{w.shape}')
        return False
      same = g == w
      if g.dtype.kind == 'f':
        same |= np.isnan(g) & np.isnan(w)
      if not same.all():
        i = tuple(int(v) for v in np.argwhere(~same)[0])
        self.fail(monitor, f'{msg} leaf {jax.tree_util.keystr(p)} differs at {i}',
                  got=g[i], want=w[i])
        ok = False
    return ok

  def tree_close(self, monitor, got, want, atol=1e-4, rtol=1e-5, msg=''):
    """Floats close, everything else equal."""
    import jax
    gl, gt = jax.tree_util.tree_flatten_with_path(got)
    wl, wt = jax.tree_util.tree_flatten_with_path(want)
    self.hit('obs:' + monitor)
    if gt != wt:
      self.fail(monitor, f'{msg} tree structure differs')
      return False
    ok = True
    for (p, g), (_, w) in zip(gl, wl):
      g, w = np.asarray(g), np.asarray(w)
      if g.shape != w.shape or g.dtype != w.dtype:
        self.fail(monitor, f'{msg} leaf {jax.tree_util.keystr(p)}: '
                  f'{g.dtype}{g.shape} != {w.dtype}{w.shape}')
        return False
      if g.dtype.kind == 'f':
        with np.errstate(all='ignore'):
          g64, w64 = g.astype(np.float64), w.astype(np.float64)
          bad = ~(np.abs(g64 - w64) <= atol + rtol * np.abs(w64))
          bad &= ~(np.isnan(g) & np.isnan(w)) & ~(g == w)
      else:
        bad = g != w
      if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        self.fail(monitor, f'{msg} leaf {jax.tree_util.keystr(p)} differs at {i}',
                  got=g[i], want=w[i])
        ok = False
    return ok

  def raises(self, monitor, exc, fn, msg=''):
    """fn must raise exc (a type or tuple of types)."""
    self.hit('obs:' + monitor)
    try:
      fn()
    except exc:
      return True
    except Exception as e:  # pylint: disable=broad-except
      self.fail(monitor, f'{msg}: raised {type(e).__name__} instead of the documented error: {e}'[:500])
      return False
    self.fail(monitor, f'{msg}: was accepted, an error is required')
    return False


class ShardCtx:

  def __init__(self, prop, seed, tier):
    self.prop, self.seed, self.tier = prop, seed, tier
    self.counters = {}
    self.violations = []
    self.known = []
    self.cache = {}
    self.evaluations = 0
    self.sigs = set()
    self.samples = []
    self.known_keys = load_known(prop)

  def add_violation(self, case, monitor, msg, witness):
    rec = dict(part=case.part, index=case.idx, monitor=monitor, message=msg,
               witness={k: _short(v) for k, v in witness.items()},
               desc=dict(case.desc))
    key = witness.get('finding_key')
    if key is not None and key in self.known_keys:
      self.known.append(dict(key=key, what=self.known_keys[key]))
      return
    if len(self.violations) < 40:
      self.violations.append(rec)
    self.counters['violations'] = self.counters.get('violations', 0) + 1


def load_known(prop):
  path = os.path.join(VERIF, 'known_findings.json')
  out = {}
  if os.path.exists(path):
    for e in json.load(open(path)).get('findings', []):
      if e['property'] == prop:
        out[e['key']] = e['what']
  return out


def load_module(prop):
  return importlib.import_module(f'harness.checks.{prop.lower()}')


def run_shard(prop, part_name, shard, nshards, seed, tier, only_idx=None):
  mod = load_module(prop)
  part = next(p for p in mod.PARTS if p.name == part_name)
  ctx = ShardCtx(prop, seed, tier)
  n = part.quick if tier == 'quick' else part.thorough
  soft = part.soft_quick if tier == 'quick' else part.soft_thorough
  t0 = time.time()
  idxs = [only_idx] if only_idx is not None else [shard + i * nshards for i in range(n)]
  for idx in idxs:
    if time.time() - t0 > soft and only_idx is None:
      ctx.counters['soft_time_limit'] = 1
      break
    case = Case(ctx, part_name, idx, shard if only_idx is None else idx % nshards, nshards)
    t1 = time.time()
    try:
      part.fn(case)
    except CaseAbort:
      pass
    except (MemoryError, ImportError, KeyboardInterrupt):
      raise
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.format_exc()
      where = 'code under test' if (REPO + '/waymax') in tb else 'oracle applied to its outputs'
      case.fail('no-unexpected-exception',
                f'{type(e).__name__} from {where}: {str(e)[:300]}', traceback=tb[-3500:])
    if os.environ.get('VERIF_TIMING'):
      print(f'{part_name}#{idx} {time.time() - t1:.2f}s', file=sys.stderr, flush=True)
    ctx.evaluations += 1
    sig = hashlib.sha256(b'|'.join(case._sigs) or str((part_name, idx)).encode()).hexdigest()[:16]
    if case.desc.get('nontrivial'):
      ctx.sigs.add(part_name + sig)
    if len(ctx.samples) < 2:
      ctx.samples.append(dict(part=part_name, index=idx, **case.desc))
    if ctx.counters.get('violations', 0) >= 25:
      break
  return dict(part=part_name, shard=shard, evaluations=ctx.evaluations,
              counters=ctx.counters, violations=ctx.violations, known=ctx.known,
              sigs=sorted(ctx.sigs), samples=ctx.samples, wall=time.time() - t0)


def worker_env():
  env = dict(os.environ)
  env.pop('PYTEST_ADDOPTS', None)
  env.update(
      PYTHONPATH=f'{REPO}:{VERIF}', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
      JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg',
      OMP_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='2', TF_NUM_INTEROP_THREADS='2',
      GRPC_VERBOSITY='ERROR', TF_ENABLE_ONEDNN_OPTS='0',
      XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
      JAX_TRACEBACK_FILTERING='off')
  return env


def main(argv):
  import argparse
  import tempfile
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
  ap.add_argument('--part')
  ap.add_argument('--index', type=int)
  ap.add_argument('--replay')
  ap.add_argument('--worker', nargs=4, help='part shard nshards out')
  args = ap.parse_args(argv)
  tier = 'thorough' if args.tier == 'thorough' else 'quick'

  if args.worker:
    part, shard, nshards, out = args.worker
    idx = args.index
    res = run_shard(args.prop, part, int(shard), int(nshards), args.seed, tier, idx)
    with open(out, 'w') as f:
      json.dump(res, f)
    return 0

  if args.replay:
    r = json.load(open(args.replay))
    args.part, args.index, args.seed = r['part'], r['index'], r['seed']
    tier = r['tier']

  t0 = time.time()
  # The parent only needs the part list; read it in a light-weight way.
  sys.path[:0] = [REPO, VERIF]
  parts = list_parts(args.prop)
  tasks = []
  for name, shards in parts:
    if args.part and name != args.part:
      continue
    if args.index is not None:
      tasks.append((name, args.index % shards, shards))
    else:
      tasks += [(name, s, shards) for s in range(shards)]
  hard = 780 if tier == 'quick' else 7200
  results, errors = [], []
  with tempfile.TemporaryDirectory(prefix='verif_') as tmp:
    env = worker_env()
    env['TMPDIR'] = env['MPLCONFIGDIR'] = env['HOME'] = tmp
    pending = list(tasks)
    running = []
    while pending or running:
      while pending and len(running) < args.jobs:
        name, s, n = pending.pop(0)
        out = os.path.join(tmp, f'{name}-{s}.json')
        log = open(os.path.join(tmp, f'{name}-{s}.log'), 'w')
        cmd = [PYTHON, '-m', 'harness.run', args.prop, '--tier', tier, '--seed', str(args.seed)]
        if args.index is not None:
          cmd += ['--index', str(args.index)]
        cmd += ['--worker', name, str(s), str(n), out]
        p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT)
        running.append((p, name, s, out, log))
      time.sleep(0.1)
      still = []
      for p, name, s, out, log in running:
        if p.poll() is None:
          if time.time() - t0 > hard:
            p.kill()
            p.wait()
            errors.append(f'{name}/{s}: hard time limit')
          else:
            still.append((p, name, s, out, log))
          continue
        log.close()
        if os.path.exists(out):
          results.append(json.load(open(out)))
        else:
          errors.append(f'{name}/{s}: worker ended with {p.returncode}\n' +
                        open(log.name).read()[-3000:])
      running = still
  return report(args, tier, results, errors, time.time() - t0,
                full=not args.part and args.index is None)


def list_parts(prop):
  """Part names without importing jax in the parent (PART_LIST literal)."""
  import ast
  path = os.path.join(VERIF, 'harness', 'checks', prop.lower() + '.py')
  tree = ast.parse(open(path).read())
  out = []
  for node in ast.walk(tree):
    if isinstance(node, ast.Call) and getattr(node.func, 'attr', getattr(node.func, 'id', '')) == 'Part':
      name = node.args[0].value
      shards = 1
      for kw in node.keywords:
        if kw.arg == 'shards':
          shards = kw.value.value
      out.append((name, shards))
  return out


def module_literal(prop, var):
  import ast
  path = os.path.join(VERIF, 'harness', 'checks', prop.lower() + '.py')
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == var:
      return ast.literal_eval(node.value)
  return None


def report(args, tier, results, errors, wall, full):
  prop = args.prop
  counters, sigs, samples, violations, known = {}, set(), [], [], {}
  per_part = {}
  for r in results:
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
    sigs |= set(r['sigs'])
    samples += r['samples'][:1]
    violations += r['violations']
    for k in r['known']:
      known[k['key']] = k['what']
    pp = per_part.setdefault(r['part'], dict(cases=0, wall_s=0.0))
    pp['cases'] += r['evaluations']
    pp['wall_s'] = round(max(pp['wall_s'], r['wall']), 1)
  evaluations = sum(r['evaluations'] for r in results)
  required = module_literal(prop, 'REQUIRED') or []
  missing = [k for k in required if not counters.get(k)] if full else []
  obs = {k[4:]: v for k, v in sorted(counters.items()) if k.startswith('obs:')}
  events = {k: v for k, v in sorted(counters.items()) if not k.startswith('obs:')}
  ev = dict(
      property=prop, tier=tier, seed=args.seed, level='exploration',
      coverage=dict(
          evaluations=evaluations, distinct_nontrivial=len(sigs),
          rule=module_literal(prop, 'RULE') or '',
          samples=samples[:6], monitor_observations=obs, events=events,
          parts=per_part, inconclusive=missing, errors=[e[:300] for e in errors]),
      assumptions=module_literal(prop, 'ASSUMPTIONS') or [],
      wall_s=round(wall, 2), violations=len(violations))
  if full:
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
  print(f'{prop} tier={tier} seed={args.seed}: {evaluations} cases, '
        f'{len(sigs)} distinct non-trivial, {sum(obs.values())} monitor observations, '
        f'{wall:.1f}s', flush=True)
  if not full:
    print(json.dumps(obs), json.dumps(events))
  for k, what in sorted(known.items()):
    print(f'KNOWN-FINDING: property={prop} {what}')
  if violations:
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    v = violations[0]
    path = os.path.join(VERIF, 'replays', f'{prop}-{v["part"]}-{v["index"]}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=prop, part=v['part'], index=v['index'], seed=args.seed,
                     tier=tier, violations=violations[:20],
                     how=f'python3 -m harness.run {prop} --replay {path}'), f, indent=1, default=str)
    for v in violations[:8]:
      print(f'  [{v["part"]}#{v["index"]}] {v["monitor"]}: {v["message"]} '
            f'{json.dumps({k: x for k, x in v["witness"].items() if k != "traceback"}, default=str)[:300]}')
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1
  if errors:
    print('ERROR (inconclusive):\n' + '\n'.join(errors))
    return 2
  if missing and counters.get('soft_time_limit'):
    print('NOTE: soft time limit reached before these were observed: ' + ', '.join(missing))
    return 0
  if missing:
    print('INCONCLUSIVE: never observed: ' + ', '.join(missing))
    return 2
  return 0
