#!/usr/bin/env python3
"""Rewrites the "fixed" list of known-findings.json from the fix: commits of /repo.

FIXES maps the start of a commit's subject to the property it repairs; a commit without an
entry is reported, so that none is forgotten."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = json.load(open(os.path.join(ROOT, 'tools', 'fixes.json')))
log = subprocess.run(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
path = os.path.join(ROOT, 'known-findings.json')
k = json.load(open(path))
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for f, v in FIXES.items() if s.startswith(f)]
    if not p:
        print('no property for:', s)
        continue
    out.append('fixed: property=%s %s %s' % (p[0], h, s))
k['fixed'] = out
json.dump(k, open(path, 'w'), indent=1)
print(len(out), 'fixes')
