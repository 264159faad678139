#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --setup

Decides one property of sugarme/tokenizer with its TLA+ specification:
 1. builds the harness against /repo's working tree,
 2. lets TLC explore the specification exhaustively in a small scope (checking
    the property on the specification) and replays every behaviour it emits on
    the real code,
 3. generates random, larger cases from VERIF_SEED, runs them on the real code
    and lets TLC validate the recorded traces against the same specification.
Exit 0: held. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib, tempfile, concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import areas

class Broken(Exception):
    pass

def goenv():
    env = dict(os.environ)
    if os.path.exists('/opt/vp/env.sh'):
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True, env=env)
        for kv in out.stdout.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                env[k.decode()] = v.decode()
    env.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', CGO_ENABLED='1')
    env.setdefault('GOCACHE', os.path.join(BUILD, 'gocache'))
    return env

def build(race=False, env=None):
    """Builds the harness from /repo's current tree and returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'harness-race' if race else 'harness') + '-%d' % os.getpid()
    # a scratch copy of the module files: the go command may rewrite them
    src = tempfile.mkdtemp(prefix='h', dir=BUILD)
    try:
        for f in os.listdir(HARNESS):
            if f.endswith('.go') or f in ('go.mod', 'go.sum'):
                shutil.copy(os.path.join(HARNESS, f), src)
        if os.environ.get('VERIF_REPO'):   # development only: another copy of the repository
            subprocess.run(['go', 'mod', 'edit', '-replace', 'github.com/sugarme/tokenizer=' + os.environ['VERIF_REPO']], cwd=src, env=env, check=True)
        # with the hooks of /repo, or without them if they do not build: what
        # the checks decide does not depend on them
        for tags in (['-tags', 'verif'], []):
            cmd = ['go', 'build', '-trimpath', '-o', out] + tags + (['-race'] if race else []) + ['.']
            p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            raise Broken('harness does not build:\n' + p.stderr[-4000:])
    finally:
        shutil.rmtree(src, ignore_errors=True)
    return out

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.big = tier == 'thorough'
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
        self.env = goenv()
        self.states = self.transitions = self.traces = 0
        self.samples, self.detail, self.assumptions = [], {}, []
        self.mismatches = []          # dicts: case, expected, observed, why
        self.bins = {}
        self.t0 = time.time()
        self.known = []

    def left(self):
        return (3300 if self.big else 780) - (time.time() - self.t0)

    def harness(self, race=False):
        if race not in self.bins:
            self.bins[race] = build(race, self.env)
        return self.bins[race]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, env, cfg=None, timeout=None, heap='8g', simulate=None, workers='8'):
        e = dict(os.environ); e.update(env); e.setdefault('PROP', self.prop); e['TIER'] = self.tier
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss512m -Djava.io.tmpdir=%s' % (heap, self.dir)
        e['JDK_JAVA_OPTIONS'] = '-Xss512m'     # of the main thread
        meta = tempfile.mkdtemp(prefix='md', dir=self.dir)
        out = os.path.join(self.dir, '%s-%d.out' % (module, len(os.listdir(self.dir))))
        cmd = ['tlc', '-workers', workers, '-deadlock', '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg or module + '.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed)]
        cmd.append(module + '.tla')
        # TLC reads the modules from its directory: run in a copy so that nothing is written to spec/
        with open(out, 'w') as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout or max(60, self.left()))
            except subprocess.TimeoutExpired:
                raise Broken('TLC timed out on ' + module)
        shutil.rmtree(meta, ignore_errors=True)
        ok, gen, dist, err = False, 0, 0, []
        recs = []
        with open(out) as f:
            for line in f:
                if line.startswith('"') and line[1:5].isupper():
                    s = json.loads(line)
                    m = re.match(r'([A-Z]+)(.*)', s, re.S)
                    recs.append((m.group(1), json.loads(m.group(2))))
                    continue
                m = re.match(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    gen = dist = int(m.group(1))
                if 'No error has been found' in line or 'Finished in' in line:
                    ok = True
                if re.match(r'(Error|Invariant|\*\*\*)', line) or 'violated' in line or 'is not' in line or 'Attempted' in line:
                    err.append(line.strip())
        if p.returncode != 0 or err or not ok:
            tail = subprocess.run(['grep', '-v', '^"', out], capture_output=True, text=True).stdout[-2500:]
            raise Broken('TLC failed on %s (exit %d): %s\n%s' % (module, p.returncode, ' | '.join(err[:6]), tail))
        self.states += dist
        self.transitions += gen
        os.remove(out)
        return recs, dist, gen

    # -------------------------------------------------------------- harness
    def gen(self, name, n, salt=0, far=(12, 25)):
        """n cases, and for far[1] of them one that is far[0] times as large."""
        cases = []
        for stretch, k, s in ((1, n, salt), (far[0], n // far[1], salt + 500)):
            out = os.path.join(self.dir, 'gen-%s-%d.ndjson' % (name, s))
            p = subprocess.run([self.harness(), 'gen', name, str(self.seed * 1000 + s), str(k), out], env=dict(self.env, STRETCH=str(stretch)), capture_output=True, text=True, timeout=300)
            if p.returncode != 0:
                raise Broken('generator %s failed: %s' % (name, p.stderr[-2000:]))
            with open(out) as f:
                cases += [json.loads(l) for l in f]
        return cases

    def run_shard(self, k, cases, race, limit):
        base = os.path.join(self.dir, 'shard-%s-%d' % (k, time.time_ns()))
        cin, cout = base + '.in', base + '.out'
        with open(cin, 'w') as f:
            for c in cases:
                f.write(json.dumps({x: y for x, y in c.items() if x != 'exp'}, ensure_ascii=True) + '\n')
        obs = []
        while len(obs) < len(cases):
            env = dict(self.env)
            env['CASE_TIMEOUT'] = str(limit)
            env['VERIF_SCRATCH'] = self.dir
            env['GO_TOKENIZER'] = os.path.join(self.dir, 'cache')
            env['HOME'] = self.dir
            env['TMPDIR'] = self.dir
            env['GORACE'] = 'halt_on_error=0 exitcode=0 log_path=%s.race' % base
            err_f = base + '.err'
            with open(err_f, 'w') as ef:
                try:
                    p = subprocess.run([self.harness(race), 'run', cin, cout, str(len(obs))], env=env, stdout=subprocess.DEVNULL, stderr=ef, timeout=max(120, self.left()))
                except subprocess.TimeoutExpired:
                    raise Broken('harness timed out')
            with open(cout) as f:
                obs = [json.loads(l) for l in f]
            if len(obs) < len(cases):
                with open(err_f) as ef:
                    err = ef.read()
                if p.returncode == 3:
                    raise Broken('harness failed: ' + err[-2000:])
                if p.returncode == 0:
                    raise Broken('harness stopped early')
                # the library ended the process (log.Fatal, fatal runtime error, ...)
                head = [l for l in err.splitlines() if l.strip()][:3]
                obs.append({'fatal': ' / '.join(head)[:300]})
                with open(cout, 'a') as f:
                    f.write(json.dumps(obs[-1]) + '\n')
        races = []
        for fn in os.listdir(self.dir):
            if fn.startswith(os.path.basename(base) + '.race'):
                with open(os.path.join(self.dir, fn)) as f:
                    races.append(f.read())
        return obs, races

    def execute(self, cases, race=False, limit=20, shards=8):
        """Runs the cases on the real code; returns the observations in order."""
        self.harness(race)
        n = max(1, min(shards, len(cases)))
        parts = [cases[i::n] for i in range(n)]
        out = [None] * len(cases)
        self.races = []
        with cf.ThreadPoolExecutor(n) as ex:
            for i, (obs, races) in enumerate(ex.map(lambda a: self.run_shard(a[0], a[1], race, limit), list(enumerate(parts)))):
                out[i::n] = obs
                self.races += races
        return out

    # ------------------------------------------------------------- verdicts
    def mismatch(self, case, expected, observed, why, race=False):
        self.mismatches.append(dict(case={k: v for k, v in case.items() if k != 'exp'}, expected=expected, observed=observed, why=why, race=race))

    def compare(self, cases, obs, attribute=None):
        """Spec-emitted cases carry the expected outcome."""
        for c, o in zip(cases, obs):
            if o != c['exp']:
                why = areas.first_difference(c['exp'], o)
                if attribute is None or attribute(c, c['exp'], o, self.prop):
                    self.mismatch(c, c['exp'], o, why)
        self.traces += len(cases)

    def replay_mc(self, module, env=None, attribute=None, cfg=None, simulate=None, race=False, limit=20, keep=None, workers='8'):
        recs, dist, gen = self.tlc(module, env or {}, cfg=cfg, simulate=simulate, workers=workers)
        cases = [r for k, r in recs if k == 'CASE']
        if simulate:
            seen = {}
            for c in cases:
                seen.setdefault(json.dumps(c, sort_keys=True), c)
            cases = list(seen.values())
        if not cases:
            raise Broken(module + ' emitted no case')
        if keep:
            cases = keep(cases)
        obs = self.execute(cases, race=race, limit=limit)
        self.compare(cases, obs, attribute)
        self.detail['%s%s' % (module, ':' + json.dumps(env) if env else '')] = dict(states=dist, transitions=gen, cases_replayed=len(cases))
        self.sample(cases)
        return cases, obs

    def sample(self, cases):
        for c in cases[len(cases) // 2:len(cases) // 2 + 1]:
            self.samples.append(json.loads(json.dumps(c)[:200000]))

    def validate(self, module, cases, env=None, attribute=None, race=False, chunk=None, limit=20, name=None):
        """Runs the cases on the real code and lets TLC check what happened."""
        if not cases:
            return
        obs = self.execute(cases, race=race, limit=limit)
        for r in self.races[:5]:
            self.mismatch(cases[0], 'no data race', {'race': r[:3000]}, 'the race detector reports: ' + ' '.join(r.split())[:600], race=True)
        chunk = chunk or len(cases)
        total = gen_total = 0
        for s in range(0, len(cases), chunk):
            path = os.path.join(self.dir, 'trace-%d.ndjson' % s)
            with open(path, 'w') as f:
                for c, o in zip(cases[s:s + chunk], obs[s:s + chunk]):
                    f.write(json.dumps({'c': c, 'o': o}) + '\n')
            e = dict(env or {}); e['TRACE'] = path
            recs, dist, gen = self.tlc(module, e)
            total += dist; gen_total += gen
            for k, r in recs:
                if k == 'MISMATCH':
                    c, o = cases[s + r['t'] - 1], obs[s + r['t'] - 1]
                    if attribute is None or attribute(c, r, o, self.prop):
                        seen = o
                        if 'step' in r and isinstance(o, dict) and 'obs' in o:
                            seen = o['obs'][r['step'] - 1] if r['step'] <= len(o['obs']) else None
                        why = areas.first_difference(r.get('exp'), seen) if 'exp' in r else json.dumps(r)[:500]
                        self.mismatch(c, r, o, 'not a behaviour of %s (%s, step %s): %s' % (module, r.get('what', ''), r.get('step', ''), why), race)
            os.remove(path)
        self.traces += len(cases)
        self.detail[name or module] = dict(states=total, transitions=gen_total, traces=len(cases))
        self.sample(cases)
        return obs

    def concurrent(self, module, cases, env=None, chunk=None, limit=60):
        """Runs cases that record concurrent histories, under the race detector;
        TLC looks for a sequential order of each and prints DONE where it found one."""
        obs = self.execute(cases, race=True, limit=limit)
        for r in self.races[:5]:
            self.mismatch(cases[0], 'no data race', {'race': r[:3000]}, 'the race detector reports: ' + ' '.join(r.split())[:600], race=True)
        flat = []
        for c, o in zip(cases, obs):
            if not isinstance(o, dict) or 'rounds' not in o:
                self.mismatch(c, 'rounds', o, 'the run ended: ' + json.dumps(o)[:300], race=True)
                continue
            flat += [(c, h) for h in o['rounds']]
        chunk = chunk or len(flat)
        total = gen_total = 0
        for s in range(0, len(flat), chunk):
            path = os.path.join(self.dir, 'conc-%d.ndjson' % s)
            with open(path, 'w') as f:
                for c, h in flat[s:s + chunk]:
                    f.write(json.dumps({'c': c, 'h': h}) + '\n')
            e = dict(env or {}); e['TRACE'] = path
            recs, dist, gen = self.tlc(module, e)
            total += dist; gen_total += gen
            found = {r['t'] for k, r in recs if k == 'DONE'}
            for i, (c, h) in enumerate(flat[s:s + chunk]):
                if i + 1 not in found:
                    self.mismatch(c, 'a sequential order of the operations', h, 'no sequential order of the operations explains what they returned: ' + json.dumps(h)[:300], race=True)
            os.remove(path)
        self.traces += len(flat)
        self.detail[module] = dict(states=total, transitions=gen_total, histories=len(flat))
        self.sample([dict(c, history=h) for c, h in flat])

    def finish(self):
        known_file = os.path.join(ROOT, 'known-findings.json')
        findings = json.load(open(known_file)).get('findings', []) if os.path.exists(known_file) else []
        mine = [f for f in findings if f['property'] == self.prop]
        key = lambda c: json.dumps(c, sort_keys=True)
        known = {key(f['case']): f for f in mine}
        # known findings are always exercised, and reported while they last
        if mine:
            obs = self.execute([f['case'] for f in mine])
            for f, o in zip(mine, obs):
                if o != f['expected']:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        fresh = [m for m in self.mismatches if key(m['case']) not in known]
        # a case that only hung is run again, alone, before it counts
        real = []
        for m in fresh:
            if isinstance(m['observed'], dict) and m['observed'].get('timeout') and len(real) < 20:
                o = self.execute([m['case']], race=m['race'], limit=120)[0]
                if not (isinstance(o, dict) and o.get('timeout')):
                    raise Broken('a case timed out once and then did not')
            real.append(m)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples[:4], parts=self.detail),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d states, %d transitions, %d traces against the implementation, %.1f s' % (self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        if real:
            rd = os.path.join(BUILD, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s.json' % (self.prop, hashlib.sha1(json.dumps(real[0]['case'], sort_keys=True).encode()).hexdigest()[:10]))
            # prefer the smallest failing case
            real.sort(key=lambda m: len(json.dumps(m['case'])))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, failures=len(real), first=real[0], others=[m['case'] for m in real[1:20]]), f, indent=1)
            print('why: ' + str(real[0]['why'])[:600])
            print('case: ' + json.dumps(real[0]['case'])[:800])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        for b in self.bins.values():
            if os.path.exists(b):
                os.remove(b)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        env = goenv()
        for race in (False, True):
            os.remove(build(race, env))
        print('setup done')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if '--seed' in a:
        i = a.index('--seed'); seed = int(a[i + 1]); del a[i:i + 2]
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        run = Run(r['property'], tier, seed)
        try:
            o = run.execute([r['first']['case']], race=r['first'].get('race', False))[0]
            print('expected:', json.dumps(r['first']['expected'])[:3000])
            print('observed:', json.dumps(o)[:3000])
            return 0
        finally:
            run.cleanup()
    prop = a[0]
    run = Run(prop, tier, seed)
    try:
        areas.CHECKS[prop](run)
        return run.finish()
    except Broken as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        return 2
    finally:
        if not os.environ.get('KEEP'):
            run.cleanup()

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)
