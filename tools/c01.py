"""C01: order and completeness of sweeps."""
import models, suites
LEVEL = 'model_checking'


def run(ctx):
    models.check(ctx, models.ORDERS)
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = suites.sweep_batch(ctx, rng, 108 if ctx.quick else 162, big=not ctx.quick, perturb=1)
        suites.add_large(ctx, rng, b, 8 if ctx.quick else 24, far=('angles', 'cells', 'ranks', 'groups'), perturb=1)
        ids = suites.verify_sweeps(ctx, b, 'order', 'sweep order')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
        b = suites.deviations(ctx, rng, *((1200, 300) if ctx.quick else (8000, 4000)), perturb=1)
        suites.verify_sweeps(ctx, b, 'order', 'sweep order')
        if ctx.violations: break
    ctx.assumptions = ['message passing, threads and the Krylov solver are simulated; the mesh is acyclic for every angle']
