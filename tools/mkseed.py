"""Builds /verif/seeded/<id> from the specs in a Python file given on the command line.

Each spec: dict(id, property, file, edits=[(old, new)], needs, breaks, demo).
Confirms: patch changes lines of the original tree, clean demo exits 0, mutated
demo exits non-zero, the mutated tree passes every stable test.
usage: mkseed.py SPECS.py [id ...]
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf

BASE = subprocess.run('git -C /repo log --format=%H --reverse | head -1', shell=True, capture_output=True,
                      text=True).stdout.strip()
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the input shown; non-zero: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec timeout 280 "$PY" "$here/demo.py"
'''


def sh(cmd, **k):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(spec, skip_tests=False):
  d = f'/tmp/seed/{spec["id"]}'
  shutil.rmtree(d, ignore_errors=True)
  sh(f'mkdir -p /tmp/seed && cp -a /repo {d}')
  out = f'/verif/seeded/{spec["id"]}'
  try:
    edits = spec['edits']
    files = set()
    for e in edits:
      f, old, new = e if len(e) == 3 else (spec['file'],) + tuple(e)
      p = os.path.join(d, f)
      s = open(p).read()
      if s.count(old) != 1:
        return spec['id'], f'edit matches {s.count(old)} times: {old[:80]!r}'
      base = sh(f'git -C /repo show {BASE}:{f}').stdout
      if old not in base:
        # at least the lines actually removed must be original
        rem = [l for l in old.splitlines() if l not in new.splitlines()]
        for l in rem:
          if l.strip() and l not in base.splitlines():
            return spec['id'], f'not an original line: {l!r}'
      open(p, 'w').write(s.replace(old, new))
      files.add(f)
    diff = sh(f'git -C {d} diff').stdout
    tmp = f'/tmp/seed/{spec["id"]}.out'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f'{tmp}/patch.diff', 'w').write(diff)
    open(f'{tmp}/demo.sh', 'w').write(DEMO_SH)
    os.chmod(f'{tmp}/demo.sh', 0o755)
    open(f'{tmp}/demo.py', 'w').write(spec['demo'].lstrip('\n'))
    for extra in spec.get('extra', ['gen.py']):
      shutil.copy(f'/verif/harness/{extra}', f'{tmp}/{ {"gen.py": "scene.py"}.get(extra, extra)}')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(f'{tmp}/meta.json', 'w'), indent=1)
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    r0 = sh(f'bash {tmp}/demo.sh', cwd='/repo', env=env)
    if r0.returncode:
      return spec['id'], f'clean demo fails: {r0.stdout[-600:]} {r0.stderr[-1500:]}'
    r1 = sh(f'bash {tmp}/demo.sh', cwd=d, env=env)
    if not r1.returncode:
      return spec['id'], f'mutated demo passes: {r1.stdout[-800:]}'
    if 'Traceback' in r1.stderr and 'SystemExit' not in r1.stderr and 'AssertionError' not in r1.stderr and not spec.get('raises'):
      return spec['id'], f'mutated demo crashes: {r1.stderr[-1500:]}'
    if not skip_tests:
      x = f'/tmp/seed/{spec["id"]}.xml'
      sh(f'{PY} -m pytest -q --tb=short -n 4 -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
         f"-o python_files='*_test.py' -o junit_family=xunit2 --junitxml={x} waymax", cwd=d, env=env)
      sh(f'python3 /opt/vp/results.py {x}.json junit:{x}')
      res = json.load(open(f'{x}.json'))
      passed = set(res.get('passed', []))
      bad = STABLE - passed
      os.remove(x); os.remove(f'{x}.json')
      if bad:
        return spec['id'], f'breaks tests: {sorted(bad)[:4]}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs('/verif/seeded', exist_ok=True)
    shutil.move(tmp, out)
    return spec['id'], 'OK ' + (r1.stdout.strip().splitlines() or [''])[-1][:150]
  finally:
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(f'/tmp/seed/{spec["id"]}.out', ignore_errors=True)


if __name__ == '__main__':
  sp = importlib.util.spec_from_file_location('specs', sys.argv[1])
  m = importlib.util.module_from_spec(sp)
  sp.loader.exec_module(m)
  want = sys.argv[2:]
  skip = '--notest' in want
  want = [w for w in want if not w.startswith('--')]
  specs = [s for s in m.SPECS if not want or s['id'] in want]
  with cf.ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(lambda s: build(s, skip), specs):
      print(i, '->', r, flush=True)
