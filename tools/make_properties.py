#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=list(files),
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=list(observe), hook_needed=None)))

exec(open(os.path.join(os.path.dirname(__file__), 'properties_src.py')).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
  assert len(p['title']) <= 80, p['title']
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
  for p in P:
    f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
