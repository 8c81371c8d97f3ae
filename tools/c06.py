"""C06: the result does not depend on how the sweep is executed."""
import itertools
import models, runs, suites, vlib
LEVEL = 'model_checking'


def problem(rng, big):
    """What fixes the result: mesh, quadrature, cross sections, iterations."""
    sn = rng.choice([2, 2, 2, 4])
    m = runs.small_mesh(rng, sn, big)
    st1, st2 = rng.choice([(1.0, 2.0), (0.1, 5.0), (0.0, 0.4), (10.0, 0.5)])
    phys = dict(snOrder=sn, iterMax=rng.choice([1, 2, 3, 4]), errMax='1e-14', nGroups=rng.choice([1, 2, 3]),
                sigmaT1=st1, sigmaT2=st2, sigmaS1=round(st1 * rng.choice([0, 0.5, 0.9]), 3), sigmaS2=round(st2 * rng.choice([0, 0.5, 0.9]), 3),
                GaussElim=rng.choice(['Original', 'NoPivot', 'CramerGlu', 'CramerIntel']), OutputFile='true')
    return m, phys, rng.choice([0, 1])


def compare(ctx, b, pairs, what, rel='1e-10', abs_='1e-12'):
    """pairs: (reference run, other run); both outputs must be the same."""
    bad = set(b.failed())
    out, cs = {}, []
    for a, c in pairs:
        if a in bad or c in bad: continue
        for i in (a, c):
            if i not in out:
                out[i] = runs.read_psi(b.output(i))
                if out[i] is None: ctx.violation('no readable output file: ' + b.describe(i), b.files(i))
        if not out[a] or not out[c]: continue
        cs.append({'id': c, 'note': 'compared with ' + b.describe(a), 'ref': out[a][3], 'got': out[c][3], 'rel': rel, 'abs': abs_})
    parts = [(cs[k::6], sum(len(x['ref']) + 1 for x in cs[k::6])) for k in range(6) if cs[k::6]]
    for (p, n), r in zip(parts, ctx.tlc_many('FluxCheck', parts)):
        ctx.cov['traces_validated_against_impl'] += len(p)
        suites.report_bad(ctx, b, r, what)


def run(ctx):
    models.check(ctx, models.CONFLUENCE + ([] if ctx.quick else models.DEEP_CONFLUENCE))
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b, pairs = runs.Batch(ctx), []
        for sw, _ in suites.strata(rng, 18 if ctx.quick else 36, runs.FULL, [0, 1]):
            m, phys, pert = problem(rng, not ctx.quick)
            p = runs.Problem(ctx, rng, m, 1)
            ref = b.add(p, runs.random_deck(rng, [sw], **phys), dict(threads=1, seed=1, timeout=60), perturb=pert, logsolve=0)
            for q in range(6):
                p = runs.Problem(ctx, rng, m, min(rng.choice([1, 2, 3, 4, 5]), 6)) if q % 2 == 0 else p
                pairs.append((ref, b.add(p, runs.random_deck(rng, [runs.FULL[q % 3]], **phys), runs.random_sim(rng), perturb=pert, logsolve=0)))
        for kind, far in itertools.product(('angles', 'cells', 'ranks', 'groups'), (False, True)):
            # the same with much of something
            p, sn, ng = suites.large(ctx, rng, kind, far)
            _, phys, pert = problem(rng, False)
            phys.update(snOrder=sn, nGroups=ng, iterMax=1 if far else rng.choice([1, 2]))
            ref = b.add(runs.Problem(ctx, rng, p.m, 1), runs.random_deck(rng, ['TraverseGraph'], **phys), dict(threads=1, seed=1, timeout=120), perturb=pert, logsolve=0)
            for sw in runs.FULL:
                d = runs.random_deck(rng, [sw], **phys)
                d['maxCellsPerStep'] = rng.choice([3, 100, 300, 100000])
                pairs.append((ref, b.add(p, d, dict(runs.random_sim(rng), threads=rng.choice([1, 2, 3]), timeout=120), perturb=pert, logsolve=0)))
        b.run()
        compare(ctx, b, pairs, 'result of another execution')
        for a, c in pairs[:3]: ctx.sample(b.describe(c))
        if ctx.violations: break
    ctx.assumptions = ['message passing and threads are simulated', 'results are compared to a relative 1e-10']
