"""Runs each planted bug's check (or all listed checks) against a scratch copy with the bug applied.
usage: runseeds.py [--all-checks] [id-prefix ...]; appends results to /tmp/seedres.json"""
import json, os, shutil, subprocess, sys, time
args = [a for a in sys.argv[1:] if not a.startswith('--')]
RES = '/tmp/seedres.json'
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in sorted(os.listdir('/verif/seeded')):
  if args and not any(i.startswith(a) for a in args):
    continue
  d = f'/tmp/seed/run-{i}'
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs('/tmp/seed', exist_ok=True)
  subprocess.run(['cp', '-a', '/repo', d], check=True)
  r = subprocess.run(['git', '-C', d, 'apply', f'/verif/seeded/{i}/patch.diff'])
  if r.returncode:
    print(i, 'DOES NOT APPLY'); continue
  prop = json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
  t = time.time()
  r = subprocess.run(['/verif/check.sh', prop], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'),
                     capture_output=True, text=True)
  v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
  ok = r.returncode == 1 and any(f'property={prop} ' in l for l in v)
  first = next((l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')), '')
  res[i] = {'caught': ok, 'rc': r.returncode, 's': round(time.time() - t), 'tail': r.stdout[-400:]}
  print(i, 'CAUGHT' if ok else f'MISSED rc={r.returncode}', f'{time.time() - t:.0f}s', r.stdout.strip()[-260:].replace('\n', ' | '), flush=True)
  json.dump(res, open(RES, 'w'), indent=1)
  shutil.rmtree(d, ignore_errors=True)
