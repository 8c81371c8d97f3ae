"""C04: messages."""
import models, suites
LEVEL = 'model_checking'


def run(ctx):
    models.check(ctx, models.MESSAGES + ([] if ctx.quick else models.DEEP_MESSAGES))
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = suites.sweep_batch(ctx, rng, 108 if ctx.quick else 216, big=not ctx.quick, ranks=(2, 2, 3, 3, 4, 5, 6), sn=(2,), logmpi=1, logsolve=0)
        suites.add_large(ctx, rng, b, 8 if ctx.quick else 24, far=('angles', 'cells', 'ranks', 'groups'), logmpi=1, logsolve=0)
        ids = suites.verify_net(ctx, b, 'messages')
        for i in ids[:3]: ctx.sample(b.describe(i))
        if ctx.violations: break
        b = suites.deviations(ctx, rng, *((1200, 300) if ctx.quick else (8000, 4000)), logmpi=1, logsolve=0)
        suites.verify_net(ctx, b, 'messages')
        if ctx.violations: break
    ctx.assumptions = ['the message-passing layer is simulated: buffers of pending sends are compared with their content at every later call of the same rank']
