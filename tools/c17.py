"""C17: quadrature."""
import runs, suites, vlib, mesh as M
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng('runs')
    b = runs.Batch(ctx)
    m = M.single(rng)
    m.kind = 'single'
    p1 = runs.Problem(ctx, rng, m, 1)
    m2 = M.kuhn(rng, 1, 1, 1)
    p2 = runs.Problem(ctx, rng, m2, 2, 'random')
    for n in range(2, 32, 2):
        b.add(p1, runs.random_deck(rng, ['TraverseGraph'], n, iterMax=1), dict(threads=1, seed=1, timeout=60), logsolve=0)
    for _ in range(24):
        # the set does not depend on anything else
        n = rng.choice([2, 2, 4, 4, 6, 8, 10])
        b.add(runs.Problem(ctx, rng, m2, rng.choice([1, 2, 3, 4])), runs.random_deck(rng, runs.FULL + runs.LAG + runs.FREE, n, iterMax=1, nGroups=rng.choice([1, 2, 3, 5])),
              dict(runs.random_sim(rng), timeout=60), logsolve=0)
    wrong = [b.add(p1, runs.random_deck(rng, ['TraverseGraph'], n, iterMax=1), dict(threads=1, seed=1, timeout=60))
             for n in (0, 1, 3, 5, 7, 15, 29, 31, 32, 34, 64, 1000)]
    b.run()
    for i in wrong:
        e, tr = b.res[i]
        solved = any(x['e'] == 'sv' for x in vlib.events(tr))
        if solved or (e['verdict'] == 'done' and not any(e['rc'])):
            ctx.violation('unsupported order %s is not refused: %s' % (b.meta[i][1]['snOrder'], e), b.files(i))
    good = [i for i in b.meta if i not in wrong]

    def cases(ids):
        cs = []
        for i in ids:
            q = [e for e in vlib.events(b.res[i][1]) if e['e'] == 'quad']
            cs += [{'id': i, 'n': b.meta[i][1]['snOrder'], 'd': x['d']} for k, x in enumerate(q) if x['d'] not in [y['d'] for y in q[:k]]]
        return cs, sum(1 + len(c['d']) for c in cs)
    for i in good:
        if b.res[i][0]['verdict'] != 'done' or any(b.res[i][0]['rc']):
            ctx.violation('order %s: run does not end normally: %s' % (b.meta[i][1]['snOrder'], b.res[i][0]), b.files(i))
    good = [i for i in good if any(e['e'] == 'quad' for e in vlib.events(b.res[i][1]))]
    parts = [cases(p) for p in suites.chunks(b, good, 6)]
    for (c, n), r in zip(parts, ctx.tlc_many('QuadCheck', parts)):
        ctx.cov['traces_validated_against_impl'] += len(c)
        suites.report_bad(ctx, b, r, 'quadrature')
    ctx.sample('orders 2 to 30 (all directions), refused orders: ' + ', '.join(str(b.meta[i][1]['snOrder']) for i in wrong))
