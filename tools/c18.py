"""C18: energy groups."""
import re
import runs, suites, vlib
LEVEL = 'model_checking'


def run(ctx):
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b, trials = runs.Batch(ctx), []
        for sw, mpi, si in suites.strata(rng, 36 if ctx.quick else 72, runs.FULL + runs.LAG + runs.FREE, ['TychoTwoSided', 'CapsaicinTwoSided'], ['true', 'true', 'false']):
            sn = rng.choice([2, 2, 2, 4])
            m = runs.small_mesh(rng, sn, not ctx.quick)
            p = runs.Problem(ctx, rng, m, rng.choice([1, 2, 3, 4]))
            krylov = sw in runs.FREE or si == 'false'
            ng = rng.choice([2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 9, 9, 17])
            pert = 0 if krylov else 1
            phys = dict(MPIType=mpi, SourceIteration=si, errMax='1e-12', DD_ErrMax='1e-12', iterMax=40 if krylov else rng.choice([1, 2, 3]),
                        DD_IterMax=40 if krylov else rng.choice([2, 3, 4]), OutputFile='true')
            d = runs.random_deck(rng, [sw], sn, **phys)
            d['nGroups'] = ng
            g = b.add(p, d, runs.random_sim(rng), perturb=pert, logsolve=0)
            ones = []
            for q in range(ng):
                if krylov and q: ones.append(ones[0]); continue
                d1 = dict(d, nGroups=1)
                d1.pop('OutputFilename', None)
                ones.append(b.add(p, d1, runs.random_sim(rng), perturb=pert + q if pert else 0, logsolve=0))
            trials.append((g, ones, krylov))
        for q, (kind, sw) in enumerate(suites.strata(rng, 7, ('angles', 'cells', 'ranks'), runs.FULL + runs.LAG)):
            p, sn, _ = suites.large(ctx, rng, kind, q % 2 == 1)
            d = runs.random_deck(rng, [sw], sn, iterMax=1, DD_IterMax=2, OutputFile='true', maxCellsPerStep=rng.choice([3, 100, 100000]))
            d['nGroups'] = rng.choice([2, 3, 5])
            g = b.add(p, d, dict(runs.random_sim(rng), threads=rng.choice([1, 2, 3]), timeout=120), perturb=1, logsolve=0)
            d1 = dict(d, nGroups=1)
            d1.pop('OutputFilename', None)
            trials.append((g, [b.add(p, d1, dict(runs.random_sim(rng), threads=1, timeout=120), perturb=1 + q, logsolve=0) for q in range(d['nGroups'])], False))
        b.run()
        bad = set(b.failed())
        cs = []
        for g, ones, krylov in trials:
            if bad & set([g] + ones): continue
            out = {i: runs.read_psi(b.output(i)) for i in [g] + ones}
            for i in out:
                if out[i] is None: ctx.violation('no readable output file: ' + b.describe(i), b.files(i))
            if None in out.values(): continue
            t = re.findall(r'Diff between groups: (\S+)', open(b.res[g][1][:-3] + '.out').read())
            if len(t) != 1: ctx.violation('no difference between groups reported: ' + b.describe(g), b.files(g)); continue
            cs.append({'id': g, 'ng': b.meta[g][1]['nGroups'], 'got': out[g][3], 'ones': [out[i][3] for i in ones],
                       'spread': '' if krylov or 'nan' in t[0] else t[0], 'rel': '1e-6' if krylov else '1e-10', 'abs': '1e-8' if krylov else '1e-12'})
        parts = [(c, sum(x['ng'] * (len(x['got']) + 1) for x in c)) for c in (cs[i::6] for i in range(6)) if c]
        for (p, n), r in zip(parts, ctx.tlc_many('GroupCheck', parts)):
            ctx.cov['traces_validated_against_impl'] += len(p)
            suites.report_bad(ctx, b, r, 'energy groups')
        for g, ones, krylov in trials[:3]: ctx.sample(b.describe(g))
        if ctx.violations: break
    ctx.assumptions = ['message passing, threads and the Krylov solver are simulated',
                       'in runs without Krylov solver each group gets values of its own by a small addition to every local solve']
