#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes and os.path.exists(os.path.join(here, 'mc', i.lower(), 'main.go')):
        t, n = notes[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'./check.sh {i}',
          'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
  open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
