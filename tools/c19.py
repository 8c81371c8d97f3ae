"""C19: loaded mesh."""
import suites, runs, mesh as M
LEVEL = 'model_checking'


def run(ctx):
    for k in range(1 if ctx.quick else 10):
        rng = ctx.rng('runs', k)
        b = runs.Batch(ctx)
        for n in range(72 if ctx.quick else 120):
            sn = rng.choice([2, 2, 4, 6]) if n else 2
            m = runs.small_mesh(rng, sn, big=not ctx.quick or n % 8 == 0, kind='kuhn288' if n == 0 else None)
            s = rng.choice([1, 1, 1e-3, 0.3, 40.0])
            m.nodes = m.nodes * s
            if not M.sweepable(m, sn): continue
            p = runs.Problem(ctx, rng, m, 2 if n == 0 else 12 if n == 1 else rng.choice([1, 2, 3, 4, 5]), 'checker' if n == 0 else None)
            d = runs.random_deck(rng, ['PBJ'], sn, iterMax=1, DD_IterMax=2, nGroups=1)
            b.add(p, d, dict(threads=1, seed=rng.randrange(1 << 30), policy=rng.randrange(5), mode=rng.choice([0, 1, 2]), delay=rng.choice([0, 20]),
                             timeout=60), logmesh=1, logsolve=0)
        suites.verify_cases(ctx, b, 'MeshCheck', b.mesh_cases, 'loaded mesh')
        for i in list(b.meta)[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
