"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists('%s/harness/checks/%s.py' % (V, i.lower())):
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'TLA+ spec + TLC, trace validation of recorded executions',
        'level': 'model_checking', 'level_note': NOTES.get(i, 'Bounded model checking of the specification plus trace validation of the implementation on exhaustive small scopes and seeded random inputs; not a proof for unbounded inputs.')})
  else:
    na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'TLA+/TLC. Every check rebuilds its observations from /repo by importing it; nothing is cached.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
