"""C08: block-Jacobi iterations."""
import models, runs, suites, vlib, c06, c10
LEVEL = 'model_checking'
TOL = ['1e-1', '0.5', '1e-2', '1e-3', '1e-5', '1e-9', '0']


def history(path, nc, na, nr):
    """Events of every rank, and sweep -> cell -> angle -> source and flux."""
    ev, swp, flux = [[] for _ in range(nr)], [0] * nr, []
    for e in vlib.events(path):
        if e['e'] == 'sb':
            ev[e['r']].append('sweep')
            swp[e['r']] += 1
            while len(flux) < swp[e['r']]: flux.append([[None] * na for _ in range(nc)])
        elif e['e'] == 'xc': ev[e['r']].append('exchange')
        elif e['e'] == 'sv' and swp[e['r']]: flux[swp[e['r']] - 1][e['c']][e['a']] = {'q': e['q'], 'p': e['p']}
    return ev, flux, all(x is not None for s in flux for c in s for x in c)


def cases(ctx, b, ids):
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            m = runs.mesh_case(p.m)
            m['mat'] = [int(x) for x in p.m.mats]
            meshes.append(m)
        q = [e for e in vlib.events(b.res[i][1]) if e['e'] == 'quad'][0]['d']
        ev, flux, ok = history(b.res[i][1], p.m.nc, len(q), p.nr)
        if not ok:
            ctx.violation('a sweep is not complete: ' + b.describe(i), b.files(i))
            continue
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'omega': [a['o'] for a in q], 'wt': [a['w'] for a in q], 'ng': d['nGroups'],
                   'sig': [{'t': str(d['sigmaT1']), 's': str(d['sigmaS1'])}, {'t': str(d['sigmaT2']), 's': str(d['sigmaS2'])}],
                   'iterMax': d['iterMax'], 'errMax': str(d['errMax']), 'ddIterMax': d['DD_IterMax'], 'ddErrMax': str(d['DD_ErrMax']),
                   'algo': d['SweepType'], 'si': d['SourceIteration'] == 'true', 'ev': ev, 'sol': flux})
        n += len(ev[0]) + 2
    return {'meshes': meshes, 'cases': cs}, n


def control(ctx, rng, n, big):
    """Runs that stop at all sorts of moments."""
    def deck(rng, sw):
        return dict(c10.sigmas(rng), iterMax=rng.choice([1, 2, 3, 5]), errMax=rng.choice(TOL), DD_IterMax=rng.choice([2, 3, 4, 7, 12]),
                    DD_ErrMax=rng.choice(TOL), nGroups=rng.choice([1, 1, 2]), SourceIteration=rng.choice(['true', 'true', 'true', 'false']))
    b = suites.sweep_batch(ctx, rng, n, sweeps=runs.LAG, big=big, deck=deck, sn=(2,), full=1,
                           mesh_kinds=['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'centre', 'tilt', 'cube12'])
    suites.add_large(ctx, rng, b, 6, sweeps=runs.LAG, kinds=('ranks', 'groups'), far=('ranks', 'groups'), full=1,
                     deck=lambda rng, sw: dict(deck(rng, sw), iterMax=rng.choice([1, 2, 3]), DD_IterMax=rng.choice([3, 5])))
    return b


def fixed_points(ctx, rng, n, big):
    """Converged block-Jacobi runs, and the converged full sweep."""
    b, pairs = runs.Batch(ctx), []
    for _ in range(n):
        sn = rng.choice([2, 2, 4])
        m = runs.small_mesh(rng, sn, big)
        t1, t2 = rng.choice([(0.1, 0.2), (1.0, 2.0), (0.0, 0.4), (5.0, 0.05)])
        phys = dict(snOrder=sn, nGroups=rng.choice([1, 2]), sigmaT1=t1, sigmaT2=t2, sigmaS1=round(t1 * rng.choice([0, 0.3, 0.5]), 4),
                    sigmaS2=round(t2 * rng.choice([0, 0.5]), 4), iterMax=300, errMax='1e-13', DD_IterMax=500, DD_ErrMax='1e-13', OutputFile='true')
        p = runs.Problem(ctx, rng, m, 1)
        ref = b.add(p, runs.random_deck(rng, ['TraverseGraph'], **phys), dict(threads=1, seed=1, timeout=60), logsolve=0)
        for sw in runs.LAG:
            p = runs.Problem(ctx, rng, m, min(rng.choice([2, 3, 4]), m.nc))
            pairs.append((ref, b.add(p, runs.random_deck(rng, [sw], **phys), dict(runs.random_sim(rng), policy=4), logsolve=0)))
    b.run()
    c06.compare(ctx, b, pairs, 'fixed point of block Jacobi', rel='1e-7', abs_='1e-12')


def big_exchange(ctx, rng, n):
    """More than 65536 packets between two ranks, both ways."""
    b, pairs = runs.Batch(ctx), []
    for sw in rng.sample(runs.LAG, n):
        m = runs.small_mesh(rng, 2, kind='kuhn72')
        phys = dict(snOrder=30, nGroups=1, sigmaT1=8.0, sigmaT2=20.0, sigmaS1=0, sigmaS2=0, iterMax=1, errMax='1e-13', DD_IterMax=30, DD_ErrMax='1e-14',
                    SourceIteration='true', OutputFile='true')
        p = runs.Problem(ctx, rng, m, 1)
        ref = b.add(p, runs.random_deck(rng, ['TraverseGraph'], **phys), dict(threads=1, seed=1, timeout=200), logsolve=0)
        p = runs.Problem(ctx, rng, m, 2, 'twocolour')
        pairs.append((ref, b.add(p, runs.random_deck(rng, [sw], **phys), dict(runs.random_sim(rng), threads=1, policy=4, timeout=200), logsolve=0)))
    b.run()
    c06.compare(ctx, b, pairs, 'large exchange', rel='1e-7', abs_='1e-12')


def run(ctx):
    models.check(ctx, models.LAGGED + ([] if ctx.quick else models.DEEP_LAGGED))
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = control(ctx, rng, 45 if ctx.quick else 90, not ctx.quick)
        ids = suites.verify_cases(ctx, b, 'BJTrace', lambda ids: cases(ctx, b, ids), 'block Jacobi')
        for i in ids[:3]: ctx.sample(b.describe(i))
        def deck(rng, sw): return dict(c10.sigmas(rng), SourceIteration=rng.choice(['true', 'true', 'false']), iterMax=rng.choice([1, 2, 3]),
                                       DD_ErrMax=rng.choice(['0', '1e-3']))
        suites.verify_sweeps(ctx, suites.sweep_batch(ctx, rng, 36 if ctx.quick else 72, sweeps=runs.LAG, big=not ctx.quick, deck=deck, ranks=(2, 3, 3, 4, 5)),
                             'flow', 'lagged boundary data')
        fixed_points(ctx, rng, 6 if ctx.quick else 16, not ctx.quick)
        if k == 0: big_exchange(ctx, rng, 1 if ctx.quick else 3)
        if ctx.violations: break
    ctx.assumptions = ['a change within 1e-6 (relative) of the tolerance may be judged either way', 'fixed points are compared to a relative 1e-7']
