"""C03: no deadlock."""
import models, runs, suites
from runs import FULL, LAG, FREE
LEVEL = 'model_checking'


def batch(ctx, rng, n, big):
    """Runs under unfriendly message passing: sends that wait for their
    receive, late messages, starved ranks, ranks without neighbours."""
    b = suites.sweep_batch(ctx, rng, n, big=big, ranks=(1, 2, 3, 3, 4, 5, 6, 6), sn=(2,),
                           deck=lambda rng, sw: dict(SourceIteration=rng.choice(['true', 'true', 'false']), iterMax=rng.choice([1, 2, 3]),
                                                     nGroups=rng.choice([1, 1, 4])),
                           sim=lambda rng, sw: dict(mode=rng.choice([1, 1, 1, 0, 2, 3]), delay=rng.choice([0, 0, 5, 60]),
                                                    threads=rng.choice([1, 1, 2, 3, 5, 9])),
                           logsolve=0)
    suites.add_large(ctx, rng, b, 12, sim=lambda rng, sw: dict(mode=rng.choice([1, 1, 2])), far=('angles', 'cells', 'ranks', 'groups'), logsolve=0)
    return b


def run(ctx):
    models.check(ctx, models.NO_DEADLOCK + ([] if ctx.quick else models.DEEP_DEADLOCK))
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = batch(ctx, rng, 216 if ctx.quick else 432, k % 2 == 1)
        ids = suites.verify_end(ctx, b, 'termination')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
        b = suites.deviations(ctx, rng, *((4000, 500) if ctx.quick else (20000, 10000)), logsolve=0)
        suites.verify_end(ctx, b, 'termination')
        if ctx.violations: break
    ctx.assumptions = ['message passing, threads and the Krylov solver are simulated; the mesh is acyclic for every angle']
