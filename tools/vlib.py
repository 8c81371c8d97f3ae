"""Running the simulated program and TLC, and reporting."""
import atexit, glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mesh as M

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CMJ = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def fhex(x):
    return struct.pack('>d', float(x)).hex()


def unhex(s):
    return struct.unpack('>d', bytes.fromhex(s))[0]


DECK = dict(snOrder=2, iterMax=3, errMax='1e-10', maxCellsPerStep=100, intraAngleP=3,
            interAngleP=1, nGroups=1, sigmaT1='0.10', sigmaS1='0.05', sigmaT2='0.2', sigmaS2='0.03',
            OutputFile='false', OutputFilename='psi.bin', SourceIteration='true',
            MPIType='TychoTwoSided', DD_IterMax=100, DD_ErrMax='1e-10',
            SweepType='TraverseGraph', GaussElim='NoPivot')


def deck_text(**kw):
    d = dict(DECK)
    for k, v in kw.items():
        assert k in d, k
        d[k] = v
    return ''.join('%s %s\n' % (k, v) for k, v in d.items())


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.budget = None
        self.dir = os.path.join(V, 'build', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.violations = []       # (kind, text, files)
        self.known = load_known(prop)
        self.known_hit = []
        self.cov = {'states': 0, 'transitions': 0, 'tlc_runs': 0,
                    'traces_validated_against_impl': 0, 'events_validated': 0, 'sim_runs': 0}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.built = set()
        self.lock = threading.Lock()

    def rng(self, *key):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, '/'.join(map(str, key))))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ------------------------------------------------------------ building
    def build(self, what='sweep'):
        if what in self.built:
            return
        r = subprocess.run(['bash', os.path.join(V, 'tools', 'build_sim.sh'), self.path('bin'), what],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('building the code under test failed:\n' + r.stdout[-3000:])
        self.built.add(what)

    def classes(self):
        d = self.path('classes')
        if not os.path.isdir(d):
            os.makedirs(d)
            r = subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', d, os.path.join(V, 'spec', 'Fp.java')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError('javac: ' + r.stdout)
        return d

    # ------------------------------------------------------------- running
    def run_jobs(self, jobs, procs=NCPU):
        """jobs: dictionaries with id, mesh, deck and simulator settings.
        Returns {id: (end event, trace path)}."""
        self.build('sweep')
        d = self.path('runs')
        os.makedirs(d, exist_ok=True)
        buckets = [[] for _ in range(procs)]
        for i, j in enumerate(jobs):
            buckets[i % procs].append(j)
        files = []
        with self.lock:
            n = self.cov['sim_runs']
            self.cov['sim_runs'] += len(jobs)
        for b, js in enumerate(buckets):
            if not js: continue
            fn = os.path.join(d, 'jobs%d-%d' % (b, n))
            with open(fn, 'w') as f:
                for j in js:
                    f.write(job_line(j, d) + '\n')
            files.append(fn)

        def go(fn):
            return subprocess.run([self.path('bin', 'simsweep'), fn], cwd=d, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(go, files))
        out = {}
        for r in rs:
            for line in r.stdout.splitlines():
                i = line.find(' {')
                if i > 0 and line.startswith(tuple('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')):
                    try:
                        out[line[:i]] = json.loads(line[i + 1:])
                    except ValueError:
                        pass
        for j in jobs:
            if j['id'] not in out:
                raise CheckError('no result of run %s: %s' % (j['id'], [r.stdout[-500:] for r in rs if r.returncode]))
        return {j['id']: (out[j['id']], os.path.join(d, j['id'] + '.tr')) for j in jobs}

    # ----------------------------------------------------------------- TLC
    def tlc(self, spec, cfg=None, cases=None, env=None, workers=2, timeout=600, expect=None, extra=(),
            heap='6g', ok_errors=False):
        """Runs TLC on spec/<spec>.tla.  Returns a dictionary with the verdict."""
        cls = self.classes()
        with self.lock:
            n = self.cov['tlc_runs']
            self.cov['tlc_runs'] += 1
        md = self.path('tlc%d' % n)
        os.makedirs(md)
        e = dict(os.environ)
        if cases is not None:
            cf = self.path('cases%d.json' % n)
            with open(cf, 'w') as f:
                json.dump(cases, f, separators=(',', ':'))
            e['CASES'] = cf
        e.update(env or {})
        cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', '%s:%s:%s' % (cls, JAR, CMJ), 'tlc2.TLC',
               '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', (cfg or spec) + '.cfg'] + list(extra) + [spec + '.tla']
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, 'spec'), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s took more than %d s' % (spec, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = '\n'.join(l for l in r.stdout.splitlines() if not l.startswith('Loading '))
        res = {'rc': r.returncode, 'out': out, 'ok': 'Model checking completed. No error has been found.' in out,
               'bad': re.findall(r'^<<\s*"BAD",(.*?)>>$', out, re.M | re.S)}
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            res['states'], res['distinct'] = int(m.group(1)), int(m.group(2))
            with self.lock:
                self.cov['states'] += res['distinct']
                self.cov['transitions'] += res['states']
        m = re.search(r'Error: Invariant (\w+) is violated', out)
        res['violated'] = m.group(1) if m else None
        if not res['violated']:
            m = re.search(r'Error: (Temporal properties were violated|Deadlock reached|Action property \w+|The postcondition .*|Property \w+)', out)
            if m: res['violated'] = m.group(1)
        if not res['ok'] and not res['violated'] and not ok_errors:
            raise CheckError('TLC failed on %s:\n%s' % (spec, out[-3000:]))
        if res['ok'] and expect is not None and res['distinct'] != expect:
            raise CheckError('TLC on %s visited %d distinct states, expected %d' % (spec, res['distinct'], expect))
        if cases is not None: res['casefile'] = cf
        return res

    def tlc_many(self, spec, parts, procs=6, **kw):
        """Runs TLC on several sets of cases at once.  parts: [(cases, expected states)]."""
        self.classes()
        with ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(self.tlc, spec, cases=c, expect=n, workers=1, heap='3g', **kw) for c, n in parts]
            return [f.result() for f in fs]

    # ----------------------------------------------------------- reporting
    def violation(self, text, files=(), key=None):
        """Reports a violation (or a known finding, when listed by key)."""
        if key is not None and key in self.known:
            if key not in self.known_hit: self.known_hit.append(key)
            return
        self.violations.append((text, list(files)))

    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)


def job_line(j, d):
    j = dict(j)
    m, k = j.pop('mesh'), j.pop('deck')
    w = ['id=' + j['id'], 'out=' + os.path.join(d, j['id'] + '.tr'), 'stdout=' + os.path.join(d, j['id'] + '.out')]
    for key in ('ranks', 'threads', 'seed', 'policy', 'mode', 'delay', 'full', 'logmpi', 'logsolve', 'logvec', 'probe',
                'logmesh', 'maxsteps', 'timeout', 'perturb', 'script', 'alts', 'logio', 'iorank', 'ioop', 'iokind'):
        if key in j: w.append('%s=%s' % (key, j[key]))
    return ' '.join(w) + ' -- ' + m + ' ' + k


def events(path):
    with open(path) as f:
        for line in f:
            yield json.loads(line)


def load_known(prop):
    r = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r


def finish(ctx, level, coverage_extra=None):
    wall = time.time() - ctx.t0
    cov = dict(ctx.cov)
    cov.update(coverage_extra or {})
    cov['samples'] = ctx.samples or ['none']
    if ctx.notes: cov['notes'] = ctx.notes
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(wall, 2), 'violations': len(ctx.violations)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known_hit:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, ctx.known[k]))
    if ctx.violations:
        rd = os.path.join(V, 'build', 'replay', '%s-%s-%d' % (ctx.prop, ctx.tier, ctx.seed))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, 'report.txt'), 'w') as f:
            for t, files in ctx.violations:
                f.write(t + '\n')
                for fn in files:
                    if os.path.exists(fn):
                        shutil.copy(fn, rd)
                        f.write('   file: ' + os.path.basename(fn) + '\n')
        for t, files in ctx.violations[:5]:
            print(t[:2000])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rd))
        return 1
    print('%s %s: held on everything explored (%d TLC states, %d runs, %.0f s)'
          % (ctx.prop, ctx.tier, ctx.cov['states'], ctx.cov['sim_runs'], wall))
    return 0
