"""C11: partitioning."""
import itertools, json, os
import files, runs, suites, vlib, mesh as M
LEVEL = 'model_checking'


def any_mesh(rng, big):
    """A mesh, sweepable or not."""
    t = rng.choice(['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'pair', 'tilt'])
    if t == 'delaunay': m = M.delaunay(rng, rng.choice([5, 6, 8, 10] + ([14, 20] if big else [])))
    elif t == 'kuhn': m = M.kuhn(rng, *rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1)] + ([(2, 2, 2)] if big else [])))
    elif t == 'tilt': m = M.tilt(rng, rng.choice([(1, 1, 1), (2, 1, 1)]))
    elif t == 'kuhnj': m = M.kuhn(rng, *rng.choice([(1, 1, 1), (1, 2, 1)]), jitter=0.2)
    elif t == 'single': m = M.single(rng)
    elif t == 'islands': m = M.islands(rng, [M.single(rng), M.delaunay(rng, 5), M.delaunay(rng, 6)])
    elif t == 'pair':
        m = M.delaunay(rng, 5)
    m = m.shuffled(rng)
    m.kind = t
    m.mats = [rng.choice([1, 2, 0, 7, M.INVALID]) for _ in m.mats]
    return m


def many(rng, size):
    """A mesh of more cells than is usual here."""
    m = M.kuhn(rng, *rng.choice([(size, size, size), (size * size, size, 1), (size, size * 2, 2)]), jitter=rng.choice([0., 0.1]))
    m = m.shuffled(rng)
    m.kind = 'many'
    return m


def run(ctx):
    ctx.build('utils')
    for k in range(1 if ctx.quick else 25):
        rng = ctx.rng('meshes', k)
        cs, jobs = [], []

        def case(i, m, np_, own, nx=0, ny=0, how=None):
            s, o = ctx.path(i + '.smesh'), ctx.path(i + '.pmesh')
            M.write_smesh(m, s)
            c = {'id': i, 'mesh': files.split(files.read(s))['words'], 'np': np_, 'own': own, 'nx': nx, 'ny': ny, 'graph': [], 'name': [], 'words': []}
            cs.append((c, s, o))

            def go():
                if how == 'split':
                    with open(s + '.part', 'w') as f: f.write(' '.join(map(str, own)))
                    rc, t = files.tool(ctx, 'meshtool', 'split', s, s + '.part', np_, o)
                elif how == 'columns': rc, t = files.tool(ctx, 'PartitionColumns', nx, ny, s, o)
                else:
                    g = o + '.graph'
                    rc, t = files.tool(ctx, 'PartitionMetis', np_, s, o, env=dict({'METIS_LOG': g}, **({'METIS_RANDOM': str(how)} if how != 'metis' else {})))
                    d = files.read(g)
                    if d:
                        d = json.loads(d)
                        c['graph'] = [{'n': d['n'], 'parts': d['parts'], 'adj': [d['adj'][a:b] for a, b in zip(d['xadj'], d['xadj'][1:])], 'part': d['part']}]
                        ctx.cov['graphs'] = ctx.cov.get('graphs', 0) + 1
                d = files.read(o)
                if rc or d is None: ctx.violation('partitioning %s fails: %s %s' % (i, rc, t[-300:]), [s]); return
                f = files.split(d)
                c['name'], c['words'] = f['name'], f['words'] if f['rest'] == 0 else []
            jobs.append(go)
        # every assignment of the cells of small meshes to up to three parts
        for t in range(2 if ctx.quick else 4):
            while True:
                m = any_mesh(rng, False)
                if 2 <= m.nc <= (3 if ctx.quick else 5): break
            for n in (2, 3):
                for own in itertools.product(range(n), repeat=m.nc):
                    case('all%d-%d-%d-%s' % (k, t, n, ''.join(map(str, own))), m, n, list(own), how='split')
        for t in range(30 if ctx.quick else 60):
            m = any_mesh(rng, not ctx.quick or t % 10 == 0)
            n = rng.choice([1, 2, 3, 4, 6, 9])
            case('split%d-%d' % (k, t), m, n, M.partition(rng, m, n, rng.choice(['random', 'random', 'slabs', 'checker', 'blocks', 'one'])), how='split')
        for t in range(30 if ctx.quick else 60):
            m = any_mesh(rng, not ctx.quick or t % 10 == 0)
            nx, ny = rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 3, 5])
            case('columns%d-%d' % (k, t), m, nx * ny, [], nx, ny, how='columns')
        for t in range(20 if ctx.quick else 40):
            m = any_mesh(rng, not ctx.quick or t % 10 == 0)
            n = rng.randrange(1, max(2, min(6, m.nc // 2)))
            case('metis%d-%d' % (k, t), m, n, [], how='metis')
        for t in range(10 if ctx.quick else 20):      # whatever METIS answers
            m = any_mesh(rng, not ctx.quick or t % 10 == 0)
            case('answer%d-%d' % (k, t), m, rng.choice([2, 3, 5, 8, 13]), [], how=rng.randrange(1 << 30))
        # many parts, more than cells or about a hundred or more
        for t in range(1 if ctx.quick else 4):
            m = many(rng, 2)
            nx, ny = rng.choice([(10, 11), (3, 41), (60, 2), (1, 130), (127, 1), (12, 12), (101, 1)])
            case('manycolumns%d-%d' % (k, t), m, nx * ny, [], nx, ny, how='columns')
            m = many(rng, 2)
            n = rng.choice([70, 101, 130, 300])
            case('manysplit%d-%d' % (k, t), m, n, M.partition(rng, m, n, rng.choice(['random', 'slabs', 'checker'])), how='split')
            m = many(rng, 3)
            case('manymetis%d-%d' % (k, t), m, rng.choice([11, 16, 24, 40]), [], how='metis')
            case('manyanswer%d-%d' % (k, t), many(rng, 2), rng.choice([101, 120, 200]), [], how=rng.randrange(1 << 30))
        files.many(jobs)
        cs = [x for x in cs if x[0]['words'] or not ctx.violations]
        path = {c['id']: [s, s + '.part', o, o + '.graph'] for c, s, o in cs}
        parts = [([c for c, s, o in cs[i::7]], sum(c['np'] + 1 for c, s, o in cs[i::7])) for i in range(7)]
        for (c, n), r in zip(parts, ctx.tlc_many('PartitionCheck', [p for p in parts if p[0]])):
            ctx.cov['traces_validated_against_impl'] += len(c)
            if r['ok']: continue
            for t in r['bad']: ctx.violation('partitioning: %s' % ' '.join(t.split()), path[t.split('"')[1]])
            if not r['bad']: ctx.violation('partitioning: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
        ctx.cov['partitionings'] = ctx.cov.get('partitionings', 0) + len(cs)
        for c, s, o in cs[::25]: ctx.sample('%s: %s cells, %d parts' % (c['id'], int(c['mesh'][1], 16), c['np']))
        if ctx.violations: break
        for c, s, o in cs:
            for f in path[c['id']]:
                if os.path.exists(f): os.remove(f)
