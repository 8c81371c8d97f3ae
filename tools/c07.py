"""C07: priorities."""
import runs, suites, vlib
LEVEL = 'model_checking'


def cases(ctx, b, ids):
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            meshes.append(runs.mesh_case(p.m))
        prio = [None] * p.m.nc
        ev = [[] for _ in range(p.nr)]
        thr = None
        for e in vlib.events(b.res[i][1]):
            k = e['e']
            if k == 'quad':
                omega = [a['o'] for a in e['d']]
                thr = [[None] * len(omega) for _ in range(p.nr)]
            elif k == 'prio':
                for c in e['p']: prio[c['c']] = c['a']
            elif k == 'se': ev[e['r']].append({'k': 'se'})
            elif k == 'sv':
                ev[e['r']].append({'k': 'sv', 'c': e['c'] + 1, 'a': e['a'] + 1})
                t = thr[e['r']]
                if t[e['a']] is None: t[e['a']] = e['t']
                elif t[e['a']] != e['t']: t[e['a']] = -1
        if any(x is None for x in prio):
            ctx.violation('no priorities for some cells: ' + b.describe(i), b.files(i))
            continue
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'nr': p.nr, 'own': [r + 1 for r in p.part], 'omega': omega, 'intra': d['intraAngleP'],
                   'inter': d['interAngleP'], 'prio': prio, 'ev': ev, 'thr': [[-1 if x is None else x for x in t] for t in thr]})
        n += sum(len(e) + 1 for e in ev)
    return {'meshes': meshes, 'cases': cs}, n


def list_cases(b, ids):
    """The schedules of the runs ids."""
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            meshes.append(runs.mesh_case(p.m))
        sched = [[] for _ in range(p.nr)]
        for e in vlib.events(b.res[i][1]):
            if e['e'] == 'quad': omega = [a['o'] for a in e['d']]
            elif e['e'] == 'sched': sched[e['r']].append([s['w'] for s in e['steps']])
        groups = []
        for g in range(len(sched[0])):
            ang = sorted({a for r in sched for w in r[g] for c, a in w})
            if not ang: continue
            at = {a: k + 1 for k, a in enumerate(ang)}
            ns = max(len(r[g]) for r in sched)
            groups.append({'ang': [a + 1 for a in ang],
                           'steps': [[[[c + 1, at[a]] for c, a in r[g][s]] if s < len(r[g]) else [] for r in sched] for s in range(ns)]})
            n += 1 + ns
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'nr': p.nr, 'own': [r + 1 for r in p.part], 'limit': d['maxCellsPerStep'], 'omega': omega,
                   'intra': d['intraAngleP'], 'inter': d['interAngleP'], 'groups': groups})
    return {'meshes': meshes, 'cases': cs}, n


def run(ctx):
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = runs.Batch(ctx)
        for q, (ia, ie, mpi) in enumerate(suites.strata(rng, 90 if ctx.quick else 150, range(5), range(3), ['TychoTwoSided', 'CapsaicinTwoSided'])):
            sn = rng.choice([2, 2, 2, 4])
            m = runs.small_mesh(rng, sn, not ctx.quick or q % 4 == 0)
            p = runs.Problem(ctx, rng, m, rng.choice([1, 2, 2, 3, 4, 5]))
            d = runs.random_deck(rng, ['TraverseGraph'], sn, MPIType=mpi, intraAngleP=ia, interAngleP=ie, iterMax=rng.choice([1, 1, 2]), nGroups=1)
            b.add(p, d, runs.random_sim(rng))
        suites.add_large(ctx, rng, b, 3 if ctx.quick else 9, sweeps=['TraverseGraph'], kinds=('angles', 'cells', 'ranks'),
                         deck=lambda rng, sw: dict(iterMax=1, nGroups=1, intraAngleP=rng.choice([0, 1, 2, 3, 4])), far=('angles', 'ranks'))
        ids = suites.verify_cases(ctx, b, 'PrioCheck', lambda ids: cases(ctx, b, ids), 'priorities')
        b = runs.Batch(ctx)
        for q, (ia, ie, sw) in enumerate(suites.strata(rng, 48 if ctx.quick else 120, range(1, 5), range(3), ['OriginalTycho1', 'OriginalTycho2'])):
            sn = rng.choice([2, 2, 2, 4])
            p = runs.Problem(ctx, rng, runs.small_mesh(rng, sn, not ctx.quick or q % 6 == 0), rng.choice([1, 2, 2, 3, 4, 5]))
            d = runs.random_deck(rng, [sw], sn, intraAngleP=ia, interAngleP=ie, iterMax=1, nGroups=1, maxCellsPerStep=rng.choice([1, 2, 3, 5, 8, 20, 1000]))
            b.add(p, d, dict(runs.random_sim(rng), threads=rng.choice([1, 1, 2, 3])), logsolve=0)
        suites.add_large(ctx, rng, b, 2 if ctx.quick else 9, sweeps=['OriginalTycho1', 'OriginalTycho2'], kinds=('angles', 'ranks'),
                         deck=lambda rng, sw: dict(iterMax=1, nGroups=1, intraAngleP=rng.choice([1, 2, 3, 4]), maxCellsPerStep=rng.choice([100, 300, 1000])), far=('angles', 'ranks'), logsolve=0)
        ids += suites.verify_cases(ctx, b, 'ListCheck', lambda ids: list_cases(b, ids), 'schedule by priority')
        for i in ids[:2] + ids[-2:]: ctx.sample(b.describe(i)) if i in b.meta else None
        if ctx.violations: break
    ctx.assumptions = ['values of random priorities are not specified', 'a pair counts as ready when all its upwind neighbours are on the same rank and solved']
