"""C20: the figures a run prints."""
import math, os, re
import runs, suites, vlib, c10
LEVEL = 'model_checking'
F = r'(\S+)'
LINES = [(k, re.compile(p + r'\s*$')) for k, p in [
    ('sigma1', r'sigmaT1: %s +sigmaS1: %s' % (F, F)), ('sigma2', r'sigmaT2: %s +sigmaS2: %s' % (F, F)), ('threads', r'Num angle groups: (\d+)'),
    ('steps', r' *Number of sweep steps: (\d+)'), ('eff', r' *Step efficiency: ' + F), ('iter', r' *iteration: (\d+) +error: %s +time: \S+' % F),
    ('over', r' *Total source iteration time: \S+'), ('krylov', r' *Krylov iterations: (\d+) with Rnorm: ' + F), ('pbj', r' *PBJ Iters: (\d+)'),
    ('list', r' *Num source iterations:((?: \d+)*)'), ('local', r' *Num source iters: (\d+)'), ('rel', r' *Relative error: ' + F),
    ('schurIts', r' *Schur: Krylov iterations: (\d+)'), ('schurNorm', r' *Schur: Residual norm: ' + F), ('schurSweeps', r' *Schur: Num local sweeps: (\d+)'),
    ('outerIts', r' *SchurOuter: Krylov iterations: (\d+)'), ('outerNorm', r' *SchurOuter: Residual Norm: ' + F), ('outerQ', r' *SchurOuter: Num sweeps Q: (\d+)'),
    ('outerKSP', r' *SchurOuter: Num sweeps KSP:((?: \d+)*)'), ('outerEnd', r' *SchurOuter: Num sweeps END: (\d+)'),
    ('skIts', r' *SchurKrylov: Krylov iterations: (\d+)'), ('skNorm', r' *SchurKrylov: Residual Norm: ' + F),
    ('l2', r' *L2 Relative Error: ' + F), ('diff', r' *Diff between groups: ' + F)]]
NUMBERS = {'threads', 'steps', 'iter', 'krylov', 'pbj', 'local', 'schurIts', 'schurSweeps', 'outerIts', 'outerQ', 'outerEnd', 'skIts'}


def real(s):
    try: x = float(s)
    except ValueError: return 'bad'
    return s if math.isfinite(x) else 'bad'


def parse(text):
    """Lines of a run as events."""
    out, sig = [], []
    for l in text.split('\n'):
        for k, r in LINES:
            m = r.match(l)
            if not m: continue
            g = m.groups()
            if k == 'sigma1': sig = list(g)
            elif k == 'sigma2': out.append({'k': 'sigma', 'l': sig + list(g)})
            elif k in ('list', 'outerKSP'): out.append({'k': k, 'l': [int(x) for x in g[0].split()]})
            else:
                e = {'k': k}
                if k in NUMBERS: e['n'] = min(int(g[0]), 10**9)
                if k in ('iter', 'krylov'): e['x'] = real(g[1])
                elif g and k not in NUMBERS: e['x'] = real(g[0])
                out.append(e)
            break
    return out


def cases(ctx, b, ids):
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        path = b.res[i][1]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            meshes.append(runs.mesh_case(p.m))
        es = list(vlib.events(path))
        q = [e for e in es if e['e'] == 'quad'][0]['d']
        sol, swp, ok = c10.solves(path, p.m.nc, len(q), p.nr)
        if not ok:
            ctx.violation('a sweep is not complete: ' + b.describe(i), b.files(i))
            continue
        out = path[:-3] + '.out'
        with open(out, 'rb') as f: text = f.read()
        ev, at, sched = [], 0, [[] for _ in range(p.nr)]
        for e in es:
            if e['e'] == 'sched': sched[e['r']].append([len(s['w']) for s in e['steps']])
            if e.get('r') != 0 or e['e'] not in ('se', 'xc', 'kbegin', 'kend'): continue
            ev += parse(text[at:e['o']].decode('latin1'))
            at = e['o']
            ev.append({'se': {'k': 'sweep'}, 'xc': {'k': 'exchange'}, 'kbegin': {'k': 'begin'},
                       'kend': {'k': 'end', 'its': e.get('its'), 'rnorm': e.get('rnorm'), 'applies': e.get('applies')}}[e['e']])
        ev += parse(text[at:].decode('latin1'))
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'omega': [a['o'] for a in q], 'wt': [a['w'] for a in q], 'ng': d['nGroups'], 'algo': d['SweepType'],
                   'si': d['SourceIteration'] == 'true', 'ddIterMax': d['DD_IterMax'], 'ranks': p.nr, 'threads': j['threads'],
                   'sig': ['%f' % float(d[k]) for k in ('sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2')],
                   'fl': [[[a['p'] for a in c] for c in s] for s in sol],
                   'sched': [[[r[g][s] if s < len(r[g]) else 0 for r in sched] for s in range(max(len(r[g]) for r in sched))] for g in range(len(sched[0]))],
                   'ev': ev, 'others': sum(os.path.getsize('%s.%d' % (out, r)) for r in range(1, p.nr))})
        n += len(ev) + 2
    return {'meshes': meshes, 'cases': cs}, n


def run(ctx):
    def deck(rng, sw):
        return dict(c10.sigmas(rng), iterMax=rng.choice([0, 1, 2, 3, 5]), errMax=rng.choice(['1e-1', '1e-2', '1e-4', '1e-9', '0']),
                    DD_IterMax=rng.choice([1, 2, 3, 4, 6]), DD_ErrMax=rng.choice(['1e-1', '1e-2', '1e-4', '1e-9', '0']), nGroups=rng.choice([1, 1, 2, 3]),
                    SourceIteration=rng.choice(['true', 'true', 'false']))
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = suites.sweep_batch(ctx, rng, 108 if ctx.quick else 162, big=not ctx.quick, sn=(2,), deck=deck, full=1,
                               mesh_kinds=['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'centre', 'tilt', 'cube12'])
        suites.add_large(ctx, rng, b, 6, deck=lambda rng, sw: dict(c10.sigmas(rng), iterMax=rng.choice([2, 12]), DD_IterMax=rng.choice([3, 12]), errMax='1e-6', DD_ErrMax='1e-6',
                                                                   SourceIteration=rng.choice(['true', 'false'])), kinds=('ranks', 'groups', 'cells'), far=('ranks', 'groups'), full=1)
        ids = suites.verify_cases(ctx, b, 'ReportTrace', lambda ids: cases(ctx, b, ids), 'printed figures')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
    ctx.assumptions = ['times are not judged', 'the wording of the lines is that of the program as it is']
