"""Writes DESIGN.md from design_src.py, the check modules, known_findings.json and seed results."""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from design_src import NOTES
import design_text as t
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
fixed = json.load(open(V + '/known_findings.json'))['fixed']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
costs = json.load(open(V + '/tools/costs.json')) if os.path.exists(V + '/tools/costs.json') else {}
o = [t.HEAD]
o.append('## Properties\n')
for p in props:
  i = p['id']
  m = importlib.import_module('harness.checks.' + i.lower())
  mon, why = NOTES[i]
  parts = ', '.join(f'`{q.name}` {q.shards} shards x {q.quick} (thorough {q.thorough})' for q in m.PARTS)
  ev = ', '.join(x.split(':', 1)[1] for x in m.REQUIRED if x.startswith('event:'))
  ob = ', '.join(x.split(':', 1)[1] for x in m.REQUIRED if x.startswith('obs:'))
  o.append(f"### {i} {p['title']}\n")
  o.append(f'- **Monitored / oracle**: {mon}')
  o.append(f'- **Workload**: {m.RULE}.')
  o.append(f'- **Monitors that must fire**: {ob}.')
  if ev:
    o.append(f'- **Situations that must be seen**: {ev}.')
  o.append(f'- **Beyond the tests**: {why}')
  o.append(f"- **Assumptions / not judged**: {'; '.join(m.ASSUMPTIONS)}.")
  o.append(f'- **Size**: {parts}' + (f'; about {costs[i]} s for quick on 8 cores' if i in costs else '') + '.\n')
o.append(t.MID)
for k, f in enumerate(fixed, 1):
  o.append(f'{k}. {f}')
o.append(t.NOTFIXED)
o.append('## Planted bugs and what catches them\n')
o.append(t.SEEDS)
o.append('| planted bug | what it needs | caught by (first monitor) |\n|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
  n = os.path.basename(os.path.dirname(d)); j = json.load(open(d))
  o.append(f"| {n} | {j['needs']} | {res.get(n, 'not run yet')} |")
o.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
