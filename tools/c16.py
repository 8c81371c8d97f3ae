"""C16: local solves."""
import runs, suites, vlib, c06
import mesh as M
LEVEL = 'model_checking'


def problem(ctx, rng, big):
    """A mesh of any size and place, random cross sections."""
    sn = rng.choice([2, 2, 4, 6])
    while True:
        m = runs.small_mesh(rng, sn, big)
        if rng.random() < 0.5:
            s = rng.choice([1e-3, 0.1, 20.])
            m.nodes = (m.nodes - 50) * s + (50 if s < 20 else 40)
        if M.sweepable(m, sn): break
    t1, t2 = rng.choice([(0.1, 0.2), (1.0, 2.0), (0.0, 0.4), (50., 0.05), (1000., 0.0), (0.3, 1e-6)])
    return m, dict(snOrder=sn, nGroups=rng.choice([1, 2, 3]), sigmaT1=t1, sigmaT2=t2, sigmaS1=round(t1 * rng.choice([0, 0.5, 0.9]), 8),
                   sigmaS2=round(t2 * rng.choice([0, 0.5]), 8), iterMax=rng.choice([1, 2, 3]), errMax='1e-14')


def cases(ctx, b, ids, rng, most):
    cs, n = [], 0
    for i in ids:
        p, d, j = b.meta[i]
        omega, sv = None, []
        for e in vlib.events(b.res[i][1]):
            if e['e'] == 'quad': omega = [a['o'] for a in e['d']]
            elif e['e'] == 'sv': sv.append({'c': e['c'] + 1, 'a': e['a'] + 1, 't': e['sg'], 'q': e['q'], 'p': e['p'], 'b': e['b']})
        if len(sv) > most: sv = rng.sample(sv, most)
        m = runs.mesh_case(p.m)
        cs.append({'id': i, 'x': m['x'], 'v': m['v'], 'omega': omega, 'solves': sv})
        n += len(sv) + 1
        ctx.cov['events_validated'] += len(sv)
    return cs, n


def run(ctx):
    most = 150 if ctx.quick else 1000
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b, pairs = runs.Batch(ctx), []
        for _ in range(12 if ctx.quick else 24):
            m, phys = problem(ctx, rng, not ctx.quick)
            p, ref = runs.Problem(ctx, rng, m, min(rng.choice([1, 2, 3]), m.nc)), None
            for ge in ['Original', 'NoPivot', 'CramerGlu', 'CramerIntel']:
                d = runs.random_deck(rng, runs.FULL, **dict(phys, GaussElim=ge, OutputFile='true'))
                i = b.add(p, d, runs.random_sim(rng), full=2)
                if ref: pairs.append((ref, i))
                else: ref = i
        for _ in range(16 if ctx.quick else 24):
            m, phys = problem(ctx, rng, not ctx.quick)
            p = runs.Problem(ctx, rng, m, min(rng.choice([1, 2, 3]), m.nc))
            b.add(p, runs.random_deck(rng, runs.LAG + runs.FREE, **dict(phys, SourceIteration=rng.choice(['true', 'false']), errMax='1e-6')), runs.random_sim(rng), full=2)
        suites.add_large(ctx, rng, b, 4, far=('ranks', 'groups'), full=2)
        ids = suites.verify_cases(ctx, b, 'SolveCheck', lambda ids: cases(ctx, b, ids, rng, most), 'local solve')
        c06.compare(ctx, b, pairs, 'another elimination method', rel='1e-9', abs_='1e-13')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
    ctx.assumptions = ['residuals up to 1e-9 of the terms that are added up, and differences of 1e-9 between elimination methods, count as rounding']
