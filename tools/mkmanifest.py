#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that areas.py covers."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import areas
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in areas.CHECKS:
        tech, note = areas.NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='not built yet'))
HOOKS = json.load(open(os.path.join(here, 'hooks.json')))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='verif', enable="check.py builds the harness with 'go build -tags verif'", source_commits=HOOKS),
         checks=checks, not_applicable=na,
         notes='Specifications in spec/ (TLA+, TLC), harness in harness/ (Go), driver check.py; see DESIGN.md. Repairs are listed in known-findings.json.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
