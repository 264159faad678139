#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: repaired defects and planted changes."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()

def put(name, body):
    global text
    pat = re.compile(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (name, name), re.S)
    assert pat.search(text), name
    text = pat.sub(lambda m: m.group(1) + body + m.group(2), text)

fixed = json.load(open(os.path.join(here, 'known-findings.json')))['fixed']
rows = ['| property | commit | what failed |\n|---|---|---|\n']
for f in fixed:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    rows.append('| %s | %s | %s |\n' % m.groups())
put('fixes', ''.join(rows))

rows = ['| planted change | needs | breaks | caught by |\n|---|---|---|---|\n']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['needs'].replace('|', '\\|'),
                m['what_it_breaks'].replace('|', '\\|'), m.get('caught_by', m['property'])))
put('seeds', ''.join(rows))
open(path, 'w').write(text)
