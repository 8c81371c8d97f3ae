"""C05: precomputed schedules."""
import runs, suites, vlib
LEVEL = 'model_checking'


def cases(b, ids):
    meshes, mi, cs, n = [], {}, [], 0
    for i in ids:
        p, d, j = b.meta[i]
        if id(p.m) not in mi:
            mi[id(p.m)] = len(meshes) + 1
            meshes.append(runs.mesh_case(p.m))
        sched = [[] for _ in range(p.nr)]
        for e in vlib.events(b.res[i][1]):
            if e['e'] == 'quad': omega = [a['o'] for a in e['d']]
            elif e['e'] == 'sched':
                assert e['g'] == len(sched[e['r']])
                sched[e['r']].append([{'w': [[c + 1, a + 1] for c, a in s['w']], 's': [x + 1 for x in s['s']],
                                       'v': [x + 1 for x in s['v']]} for s in e['steps']])
        cs.append({'id': i, 'mesh': mi[id(p.m)], 'nr': p.nr, 'own': [r + 1 for r in p.part],
                   'limit': d['maxCellsPerStep'], 'omega': omega, 'sched': sched})
        n += 2 + max(len(g) for g in sched[0])
    return {'meshes': meshes, 'cases': cs}, n


def run(ctx):
    for k in range(1 if ctx.quick else 10):
        rng = ctx.rng('runs', k)
        b = suites.sweep_batch(ctx, rng, 84 if ctx.quick else 240, sweeps=['OriginalTycho1', 'OriginalTycho2'],
                               big=True, sn=(2, 2, 4, 4, 6), ranks=(1, 2, 3, 4, 5, 6),
                               deck=lambda rng, sw: dict(iterMax=1, nGroups=1), sim=lambda rng, sw: dict(threads=rng.choice([1, 2, 3, 5, 7, 9, 11])),
                               logsolve=0)
        suites.add_large(ctx, rng, b, 8, sweeps=['OriginalTycho1', 'OriginalTycho2'], kinds=('angles', 'angles', 'cells', 'ranks'),
                         deck=lambda rng, sw: dict(iterMax=1, nGroups=1), far=('angles', 'cells', 'ranks'), logsolve=0)
        ids = suites.verify_cases(ctx, b, 'ScheduleCheck', lambda ids: cases(b, ids), 'sweep schedule')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
    ctx.assumptions = ['the mesh is acyclic for every angle']
