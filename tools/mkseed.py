#!/usr/bin/env python3
"""mkseed.py [--detect] FILE.py ... : makes seeded/<id>/ from definitions.

A definition file holds SEEDS, a list of dicts: id, property, pkg, edits
[(file, old, new)...], demo (Go test source with TestZZDemo), needs, breaks.
Each is confirmed in a scratch copy of /repo: it builds, the stable tests pass,
the demo passes without it and fails with it. --detect also runs the property's
check against that copy."""
import json, os, subprocess, sys, shutil, runpy, tempfile
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository
. /opt/vp/env.sh >/dev/null 2>&1
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD/%s" "$D" > "$T/o.json"
HOME="$T" GO_TOKENIZER="$T/cache" go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s %s-run '^TestZZDemo$' ./%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def main():
    args = sys.argv[1:]
    detect = '--detect' in args
    only = [a[5:] for a in args if a.startswith('only=')]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    stable = set(stable if isinstance(stable, list) else stable.keys())
    for fn in [a for a in args if a.endswith('.py')]:
        for s in runpy.run_path(fn)['SEEDS']:
            if only and s['id'] not in only: continue
            w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
            try:
                sh(['cp', '-a', REPO, w + '/repo'], '/')
                r = w + '/repo'
                d = os.path.join(ROOT, 'seeded', s['id'])
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                open(d + '/demo.go.txt', 'w').write(s['demo'])
                open(d + '/demo.sh', 'w').write(DEMO % (s['pkg'], '-race ' if s.get('race') else s.get('flags', ''), s['pkg']))
                os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
                a = sh(['bash', d + '/demo.sh'], r)
                bad = None
                if a.returncode != 0: bad = 'demo fails on the clean tree: ' + a.stdout[-1500:] + a.stderr[-800:]
                for f, old, new in s['edits']:
                    t = open(os.path.join(r, f)).read()
                    if t.count(old) != 1: bad = bad or 'edit does not match once (%d) in %s: %s' % (t.count(old), f, old[:80])
                    open(os.path.join(r, f), 'w').write(t.replace(old, new, 1))
                p = sh(['git', 'diff'], r).stdout
                open(d + '/patch.diff', 'w').write(p)
                if not bad:
                    b = sh('. /opt/vp/env.sh; go build ./... 2>&1 && go vet ./... >/dev/null 2>&1; go build ./...', r, executable='/bin/bash')
                    if b.returncode != 0: bad = 'does not build ' + b.stdout[-800:]
                if not bad:
                    a = sh(['bash', d + '/demo.sh'], r)
                    if a.returncode == 0: bad = 'demo passes with the change'
                    elif 'FAIL' not in a.stdout: bad = 'demo broken: ' + a.stdout[-500:] + a.stderr[-500:]
                if not bad:
                    # changed lines must be original ones
                    names = sh(['git', 'diff', '--name-only'], r).stdout.split()
                    os.makedirs(w + '/t')
                    sh('. /opt/vp/env.sh; python3 /opt/vp/run_tests.py %s/t; python3 /opt/vp/results.py %s/o.json gojson:%s/t/log.json' % (w, w, w), r, executable='/bin/bash')
                    passed = set(json.load(open(w + '/o.json'))['passed'])
                    miss = stable - passed
                    if miss: bad = 'stable tests fail: %s' % sorted(miss)[:5]
                if bad:
                    print(s['id'], 'REJECTED', bad); shutil.rmtree(d); continue
                print(s['id'], s['property'], 'confirmed', end=' ', flush=True)
                if detect:
                    c = sh([sys.executable, 'check.py', s['property'], '--tier', 'quick'], ROOT, env=dict(os.environ, VERIF_REPO=r))
                    why = [l for l in c.stdout.splitlines() if l.startswith('why')]
                    print('CAUGHT' if c.returncode == 1 else 'MISSED (exit %d)' % c.returncode, why[0][:160] if why else c.stdout[-600:] + c.stderr[-600:])
                else: print()
            finally:
                shutil.rmtree(w, ignore_errors=True)
main()
