#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]

def lit(pid, var, default=None):
  for node in ast.parse(open(f'{V}/harness/checks/{pid.lower()}.py').read()).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == var:
      return ast.literal_eval(node.value)
  return default

checks, na = [], []
for p in props:
  pid = p['id']
  if os.path.exists(f'{V}/harness/checks/{pid.lower()}.py'):
    checks.append(dict(
        property=pid,
        quick_cmd=f'VERIF_TIER=quick ./check.sh {pid}',
        thorough_cmd=f'VERIF_TIER=thorough ./check.sh {pid}',
        technique=lit(pid, 'TECHNIQUE', 'runtime monitoring: executions of the real code judged by an independent NumPy reference oracle'),
        level='exploration',
        level_note=('Held on the executions of this run only (counts in the evidence file); ' +
                    lit(pid, 'LEVEL_NOTE', 'trusts NumPy float64 oracles and the synthetic scenario generators.') +
                    ' ' + '; '.join(lit(pid, 'ASSUMPTIONS', [])))))
  else:
    na.append(dict(property=pid, reason='the monitor for this property is not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, jax, tensorflow" && bash -n check.sh',
         checks=checks, not_applicable=na,
         notes='All checks drive /repo/waymax as an import (no hooks in /repo). Replays: ./check.sh CXX --replay FILE.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
