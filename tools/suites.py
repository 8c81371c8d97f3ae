"""Sets of runs shared by several checks."""
import itertools, os
import runs, mesh as M
from runs import FULL, LAG, FREE


def strata(rng, n, *dims):
    """n tuples of the product of dims, every tuple about equally often."""
    all_ = list(itertools.product(*dims))
    out = []
    while len(out) < n:
        rng.shuffle(all_)
        out += all_
    return out[:n]


def sweep_batch(ctx, rng, n, sweeps=FULL + LAG + FREE, big=False, sn=(2, 2, 2, 4), ranks=(1, 2, 2, 3, 3, 4, 5), deck=None, sim=None,
                mesh_kinds=None, **extra):
    """n runs over random meshes, partitions and settings, balanced over sweep
    algorithm x communication mode x send completion mode."""
    b = runs.Batch(ctx)
    probs = []
    for sw, mpi, mode in strata(rng, n, sweeps, ['TychoTwoSided', 'CapsaicinTwoSided'], [0, 1, 2]):
        s = rng.choice(sn)
        m = runs.small_mesh(rng, s, big, rng.choice(mesh_kinds) if mesh_kinds else None)
        nr = min(rng.choice(ranks), 6)
        p = runs.Problem(ctx, rng, m, nr)
        d = runs.random_deck(rng, [sw], s, MPIType=mpi, **(deck(rng, sw) if deck else {}))
        x = runs.random_sim(rng)
        x['mode'] = mode
        if sim: x.update(sim(rng, sw))
        b.add(p, d, x, **extra)
    return b


def large(ctx, rng, kind, far=False):
    """A problem that is large in one respect (far: very large): (problem, order, groups)."""
    sn, nr, ng, part = 2, rng.choice([2, 3]), 1, None
    if kind == 'angles':
        sn, m = rng.choice([12, 14, 16]), runs.small_mesh(rng, 12, kind=rng.choice(['delaunay', 'delaunay', 'kuhn1', 'tiny', 'single']))
        if not M.sweepable(m, sn): sn = 12
        if far:
            sn, m, nr = rng.choice([24, 26, 28, 30, 30]), M.delaunay(rng, 5), 2
            while m.nc > 3 or not M.sweepable(m, sn): m = M.delaunay(rng, 5)
            m.kind, part = 'delaunay', 'checker'
    elif kind == 'cells': m, nr, part = runs.small_mesh(rng, 2, kind='kuhn1296' if far else 'kuhn288'), 2, rng.choice(['checker', 'random'])
    elif kind == 'ranks':
        m, nr, part = runs.small_mesh(rng, 2, kind=rng.choice(['kuhn48', 'kuhn', 'delaunay'])), rng.choice([9, 11, 12]), rng.choice(['random', 'checker', 'blocks'])
        if far: m, nr = runs.small_mesh(rng, 2, kind='kuhn48'), rng.choice([18, 24, 31])
    else:
        m, ng = runs.small_mesh(rng, 2), rng.choice([17, 33])
        if far: ng = rng.choice([65, 130, 260])
    return runs.Problem(ctx, rng, m, nr, part), sn, ng


def add_large(ctx, rng, b, n, sweeps=FULL + LAG + FREE, kinds=('angles', 'cells', 'ranks', 'groups'), deck=None, sim=None, far=(), **extra):
    """n runs that are large in one respect each: more than 256 directions, more
    than 256 cells and faces between ranks, many ranks, many groups; and one
    that is very large for each of far, and for more than a thousand directions one
    of each algorithm."""
    k1 = [('angles', sw, True) for sw in sweeps if 'angles' in far] + [(k, rng.choice(sweeps), True) for k in far if k != 'angles']
    k2 = [(k[0], sw[0], False) for k, sw in zip(strata(rng, n, kinds), strata(rng, n, sweeps))]
    for k, sw, f in k1 + k2:
        p, sn, ng = large(ctx, rng, k, f)
        d = runs.random_deck(rng, [sw], sn, **dict(dict(iterMax=rng.choice([1, 2]) if k in ('ranks', 'groups') and not f else 1, DD_IterMax=2, nGroups=ng,
                                                        maxCellsPerStep=rng.choice([3, 100, 300, 100000])), **(deck(rng, sw) if deck else {})))
        if k == 'groups': d['nGroups'] = ng
        if f and k in ('angles', 'cells'): d['maxCellsPerStep'] = rng.choice([100, 300, 100000])
        x = runs.random_sim(rng)
        x['threads'] = rng.choice([1, 1, 1, x['threads']]) if k == 'angles' else min(x['threads'], 3)
        if f: x.update(threads=min(x['threads'], 2), delay=min(x['delay'], 3), timeout=120)
        if sim: x.update(sim(rng, sw))
        b.add(p, d, x, **extra)


def verify_sweeps(ctx, b, checks, what):
    """Runs batch b and checks every trace against SweepTrace."""
    b.run()
    bad = b.failed()
    ids = [j['id'] for j in b.jobs if j['id'] not in bad]
    parts = [b.sweep_cases(p) for p in chunks(b, ids, 6)]
    for (c, n), r in zip(parts, ctx.tlc_many('SweepTrace', parts, env={'CHECKS': checks})):
        ctx.cov['traces_validated_against_impl'] += sum(len(x['ev']) for x in c['cases'])
        ctx.cov['events_validated'] += n
        report_bad(ctx, b, r, what)
    return ids


def chunks(b, ids, n):
    """ids in n parts with about the same amount of trace."""
    out = [[0, []] for _ in range(n)]
    for i in sorted(ids, key=lambda i: -os.path.getsize(b.res[i][1])):
        o = min(out)
        o[0] += os.path.getsize(b.res[i][1])
        o[1].append(i)
    return [o[1] for o in out if o[1]]


def report_bad(ctx, b, r, what):
    if r['ok']: return
    seen = set()
    for t in r['bad']:
        i = t.split('"')[1]
        if i in seen: continue
        seen.add(i)
        ctx.violation('%s: %s\n   %s' % (what, ' '.join(t.split()), b.describe(i)), b.files(i))
    if not r['bad']:
        ctx.violation('%s: %s violated\n%s' % (what, r['violated'], r['out'][-3000:]))


def verify_net(ctx, b, what):
    """Runs batch b (with logmpi) and checks the messages of every run against NetTrace."""
    b.run()
    bad = b.failed()
    ids = [j['id'] for j in b.jobs if j['id'] not in bad]
    parts = [b.net_cases(p) for p in chunks(b, ids, 6)]
    for (c, n), r in zip(parts, ctx.tlc_many('NetTrace', parts, env={'CHECKS': 'all'})):
        ctx.cov['traces_validated_against_impl'] += len(c)
        ctx.cov['events_validated'] += n
        report_bad(ctx, b, r, what)
    return ids


def verify_cases(ctx, b, spec, project, what, run=True, **kw):
    """Runs batch b and checks what project(ids) -> (cases, expected states) says of it against spec."""
    if run: b.run()
    bad = b.failed()
    ids = [j['id'] for j in b.jobs if j['id'] not in bad]
    parts = [project(p) for p in chunks(b, ids, 6)]
    for (c, n), r in zip(parts, ctx.tlc_many(spec, parts, **kw)):
        ctx.cov['traces_validated_against_impl'] += len(c)
        report_bad(ctx, b, r, what)
    return ids


def verify_end(ctx, b, what):
    """Runs batch b: every rank must end normally (NetTrace, "end")."""
    b.run()
    ids = [j['id'] for j in b.jobs if b.res[j['id']][0]['verdict'] != 'skipped']
    c, n = b.net_cases(ids, light=True)
    r = ctx.tlc('NetTrace', cases=c, expect=n, env={'CHECKS': 'end'}, workers=2)
    ctx.cov['traces_validated_against_impl'] += len(c)
    report_bad(ctx, b, r, what)
    return ids


def deviations(ctx, rng, runs1, runs2, threads=(1, 2), sweeps=FULL + LAG + FREE, **extra):
    """A batch, already run, over small problems (2 to 4 cells) of all runs that depart
    from a fixed schedule (go on with the same task while it can, then the next one)
    in at most one place, at most runs1 of them, and of runs2 runs that depart from
    it in two places or three.  Of runs with equal traces one is kept."""
    b = runs.Batch(ctx, 'x')
    def again(i, alts):
        p, d, j = b.meta[i]
        k = dict(j, id='x%d' % len(b.jobs), alts=','.join('%d:%d' % a for a in alts))
        b.jobs.append(k)
        b.meta[k['id']] = (p, d, k)
        return k['id']
    def go(js):
        b.res = dict(getattr(b, 'res', {}), **ctx.run_jobs(js))
    base = []
    for sw in sweeps:
        for mode, t in itertools.product((0, 1), threads):
            m = M.delaunay(rng, 5)
            while not M.sweepable(m, 2): m = M.delaunay(rng, 5)
            m.kind = 'delaunay'
            nr = rng.choice([2, 2, 2, 3]) if t == 1 else 2
            part = [i % nr for i in range(m.nc)]
            rng.shuffle(part)
            p = runs.Problem(ctx, rng, m, nr, 'alternating', part)
            d = runs.random_deck(rng, [sw], 2, nGroups=1, iterMax=1, DD_IterMax=2, maxCellsPerStep=rng.choice([1, 4, 100]))
            base.append(b.add(p, d, dict(threads=t, seed=1, policy=6, mode=mode, delay=0, timeout=60), **extra))
    go(b.jobs)
    one = [(i, [(k, a)]) for i in base for k, n in enumerate(b.res[i][0].get('choices', '')) for a in range(1, int(n))]
    ctx.cov['deviations'] = ctx.cov.get('deviations', 0) + len(one)
    if len(one) > runs1: one = rng.sample(one, runs1)
    ids = {again(i, a): (i, a) for i, a in one}
    go([b.meta[i][2] for i in ids])
    ctx.cov['deviating_runs'] = ctx.cov.get('deviating_runs', 0) + len(one)
    if runs2:
        two, l = [], list(ids)
        for _ in range(runs2):
            q = rng.choice(l)
            (i, alts), c = ids[q], b.res[q][0].get('choices', '')
            alts = list(alts)
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(c))
                alts.append((k, rng.randrange(1, int(c[k]))))
            two.append(again(i, alts))
        go([b.meta[i][2] for i in two])
        ctx.cov['deviating_runs'] += len(two)
    seen, jobs = set(), []
    for j in b.jobs:
        h = (b.meta[j['id']][0].file, j['deck'], trace_hash(b.res[j['id']][1]))
        if h in seen: os.remove(b.res[j['id']][1])
        else: jobs.append(j)
        seen.add(h)
    b.jobs = jobs
    b.run = lambda: b.res
    return b


def trace_hash(path):
    import hashlib
    if not os.path.exists(path): return None
    with open(path, 'rb') as f: return hashlib.md5(f.read()).digest()
