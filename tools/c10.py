"""C10: source iteration."""
import re
import runs, suites, vlib
LEVEL = 'model_checking'


def solves(path, nc, na, nr):
    """sweep -> cell -> angle -> solve, and sweeps of every rank; None when a sweep is not complete."""
    swp, sol = [0] * nr, []
    for e in vlib.events(path):
        if e['e'] == 'sb':
            swp[e['r']] += 1
            while len(sol) < swp[e['r']]: sol.append([[None] * na for _ in range(nc)])
        elif e['e'] == 'sv' and swp[e['r']]:
            sol[swp[e['r']] - 1][e['c']][e['a']] = {'t': e['sg'], 'q': e['q'], 'p': e['p']}
    ok = all(x is not None for s in sol for c in s for x in c)
    return sol, swp, ok


def cases(ctx, b, ids):
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            m = runs.mesh_case(p.m)
            m['mat'] = [int(x) for x in p.m.mats]
            meshes.append(m)
        q = [e for e in vlib.events(b.res[i][1]) if e['e'] == 'quad'][0]['d']
        sol, swp, ok = solves(b.res[i][1], p.m.nc, len(q), p.nr)
        if not ok:
            ctx.violation('a sweep is not complete: ' + b.describe(i), b.files(i))
            continue
        said = re.findall(r'iteration: \d+ +error: (\S+)', open(b.res[i][1][:-3] + '.out').read())
        if any('nan' in s for s in said): said = [s if 'nan' not in s else '0' for s in said]   # 0/0: no flux at all
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'omega': [a['o'] for a in q], 'wt': [a['w'] for a in q], 'ng': d['nGroups'],
                   'sig': [{'t': str(d['sigmaT1']), 's': str(d['sigmaS1'])}, {'t': str(d['sigmaT2']), 's': str(d['sigmaS2'])}],
                   'iterMax': d['iterMax'], 'errMax': str(d['errMax']), 'ranks': swp, 'sol': sol, 'said': said})
        n += len(sol) + 2
    return {'meshes': meshes, 'cases': cs}, n


def sigmas(rng):
    """Cross sections of the two materials."""
    t1, t2 = rng.choice([(0.1, 0.2), (1.0, 2.0), (0.0, 0.4), (5.0, 0.05), (0.3, 0.3)])
    return dict(sigmaT1=t1, sigmaT2=t2, sigmaS1=round(t1 * rng.choice([0, 0.3, 0.9, 1.0]), 4), sigmaS2=round(t2 * rng.choice([0, 0.5, 0.95]), 4))


def batch(ctx, rng, n, big, sweeps=runs.FULL):
    def deck(rng, sw):
        return dict(sigmas(rng), iterMax=rng.choice([0, 1, 2, 3, 5, 8, 12]), errMax=rng.choice(['1e-1', '0.5', '1e-2', '1e-3', '1e-5', '1e-12', '0']),
                    nGroups=rng.choice([1, 1, 1, 2, 2, 3, 4, 7]))
    b = suites.sweep_batch(ctx, rng, n, sweeps=sweeps, big=big, deck=deck, full=1,
                           mesh_kinds=['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'centre', 'tilt', 'cube12'])
    suites.add_large(ctx, rng, b, 4 if not big else 8, sweeps=sweeps, deck=lambda rng, sw: dict(sigmas(rng), iterMax=rng.choice([2, 3]), errMax='1e-9'), far=('ranks', 'groups'), full=1)
    for _ in range(3 if not big else 6):
        # hardly any absorption: a long way to go
        p = runs.Problem(ctx, rng, runs.small_mesh(rng, 2, kind=rng.choice(['single', 'tiny', 'kuhn1'])), rng.choice([1, 2]))
        d = runs.random_deck(rng, sweeps, sigmaT1=9.0, sigmaS1=9.0, sigmaT2=7.0, sigmaS2=6.9, iterMax=rng.choice([40, 101, 150]), errMax=rng.choice(['0', '1e-13']), nGroups=1)
        b.add(p, d, dict(runs.random_sim(rng), threads=rng.choice([1, 2])), full=1)
    return b


def nested_cases(ctx, b, ids):
    """Source iterations inside PBJOuter and SchurOuter."""
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            m = runs.mesh_case(p.m)
            m['mat'] = [int(x) for x in p.m.mats]
            meshes.append(m)
        q = [e for e in vlib.events(b.res[i][1]) if e['e'] == 'quad'][0]['d']
        sol, swp, ok = solves(b.res[i][1], p.m.nc, len(q), p.nr)
        if not ok:
            ctx.violation('a sweep is not complete: ' + b.describe(i), b.files(i))
            continue
        ev = [[] for _ in range(p.nr)]
        for e in vlib.events(b.res[i][1]):
            if e['e'] in NAMES: ev[e['r']].append(NAMES[e['e']])
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'omega': [a['o'] for a in q], 'wt': [a['w'] for a in q], 'ng': d['nGroups'],
                   'sig': [{'t': str(d['sigmaT1']), 's': str(d['sigmaS1'])}, {'t': str(d['sigmaT2']), 's': str(d['sigmaS2'])}],
                   'iterMax': d['iterMax'], 'errMax': str(d['errMax']), 'algo': d['SweepType'], 'ev': ev,
                   'sol': [[[{'q': a['q'], 'p': a['p']} for a in c] for c in s] for s in sol]})
        n += len(ev[0]) + 2
    return {'meshes': meshes, 'cases': cs}, n


NAMES = {'sb': 'sweep', 'xc': 'exchange', 'kbegin': 'krylov', 'kend': 'solved'}


def nested(ctx, rng, n, big):
    def deck(rng, sw):
        return dict(sigmas(rng), iterMax=rng.choice([1, 2, 3, 5, 30]), errMax=rng.choice(['0.5', '1e-1', '1e-2', '1e-3', '1e-6', '0']),
                    DD_IterMax=rng.choice([2, 3, 4, 6]), DD_ErrMax=rng.choice(['1e-1', '1e-2', '1e-4', '0']), nGroups=rng.choice([1, 1, 1, 2, 3, 5]), SourceIteration='true')
    b = suites.sweep_batch(ctx, rng, n, sweeps=['PBJOuter', 'SchurOuter'], big=big, deck=deck, sn=(2,), full=1, ranks=(1, 2, 2, 3, 3, 4),
                           mesh_kinds=['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'islands', 'centre', 'tilt', 'cube12'])
    return suites.verify_cases(ctx, b, 'NestedTrace', lambda ids: nested_cases(ctx, b, ids), 'nested source iteration')


def run(ctx):
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = batch(ctx, rng, 60 if ctx.quick else 108, not ctx.quick)
        ids = suites.verify_cases(ctx, b, 'SITrace', lambda ids: cases(ctx, b, ids), 'source iteration')
        for i in ids[:3]: ctx.sample(b.describe(i))
        nested(ctx, ctx.rng('nested', k), 32 if ctx.quick else 60, not ctx.quick)
        if ctx.violations: break
    ctx.assumptions = ['a change within 1e-6 (relative) of the tolerance may be judged either way']
