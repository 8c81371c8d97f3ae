"""C12: mesh files."""
import json, os
import files, runs, suites, vlib, mesh as M
LEVEL = 'model_checking'


def run(ctx):
    ctx.build('all')
    for k in range(1 if ctx.quick else 25):
        rng = ctx.rng('files', k)
        cs, jobs, N = [], [], 1 if ctx.quick else 2

        def case(i, kind, took, data, ranks=0):
            p = ctx.path(i + '.in')
            with open(p, 'wb') as f: f.write(data)
            s = files.split(data)
            c = {'id': i, 'kind': kind, 'took': took, 'name': s['name'], 'words': s['words'], 'ranks': ranks, 'refused': False, 'got': 0, 'out': 0, 'full': rng.random() < 0.7}
            cs.append((c, p))
            return c, p

        def sequential(i, kind, took, data):
            c, p = case(i, kind, took, data)

            def go():
                o = ctx.path(i + '.o')
                if took in ('sinfo',):
                    rc, t = files.tool(ctx, 'SerialMeshInfo', p, *(['verbose'] if c['full'] else []))
                    if rc == 0: c['got'] = files.parse_serial(t)
                else:
                    rc, t = files.tool(ctx, 'meshtool', took, p, o)
                    d = files.read(o)
                    if rc == 0 and d is not None:
                        if took.endswith('dump'): c['got'] = json.loads(d)
                        else: c['out'] = files.split(d)
                c['refused'] = rc != 0
                if rc == 0 and c['got'] == 0 and c['out'] == 0: ctx.violation('no output written: %s of %s' % (took, p), [p])
            jobs.append(go)

        def mesh_data(kind):
            """A real mesh, as the writers of this checker write it."""
            m = runs.small_mesh(rng, 2)
            p = ctx.path('tmp.mesh')
            if kind == 'serial': M.write_smesh(m, p)
            else:
                n = rng.choice([1, 2, 3, 5])
                M.write_pmesh(m, M.partition(rng, m, n, rng.choice(['random', 'one', 'blocks'])), n, p, rng)
            return files.read(p)
        # sequential readers and writers
        for n in range(30 * N):
            for kind, tooks, rnd, other in (('serial', ('scopy', 'sdump', 'sinfo'), files.random_serial, M.PNAME),
                                            ('parallel', ('pcopy', 'pdump'), lambda r, plain: files.random_parallel(r, r.choice([1, 2, 3, 4, 7, 13, 40, 130]), plain), M.SNAME)):
                took = tooks[n % len(tooks)]
                data = mesh_data(kind) if n % 5 == 4 else rnd(rng, plain=took == 'sinfo')
                if n % 10 < 3: data = files.corrupted(rng, data, other)
                sequential('%s%d-%d' % (took, k, n), kind, took, data)
        files.many(jobs)
        # collective reading: bit for bit, and printed
        col, info, swp = [], [], []
        for n in range(40 * N):
            parts = rng.choice([1, 2, 2, 3, 4, 5, 8, 11, 17, 31])
            data = files.random_parallel(rng, parts, plain=True) if n % 5 else mesh_data('parallel')
            parts = int.from_bytes(data[40:48], 'little')
            ranks = parts if n % 4 else rng.choice([x for x in (parts - 1, parts + 1, 2 * parts, 1) if 0 < x <= 32])
            if n % 8 == 1: data = files.corrupted(rng, data, M.SNAME)
            for l, took in ((col, 'collective'), (info, 'info')):
                if took == 'info' and n % 2: continue
                i = '%s%d-%d' % (took, k, n)
                c, p = case(i, 'parallel', took, data, ranks)
                l.append((c, p, rng.randrange(1 << 30)))
        res = files.sim_tool(ctx, 'cmeshtool', [(c['id'], c['ranks'], s, ['cdump', p, p + '.got']) for c, p, s in col])
        for c, p, s in col:
            end, txt = res[c['id']]
            c['refused'] = not files.ok(end)
            if c['refused']: continue
            g = [files.read(p + '.got.%d' % r) for r in range(c['ranks'])]
            if None in g: ctx.violation('nothing read: ' + p, [p])
            else: c['got'] = [json.loads(x) for x in g]
        res = files.sim_tool(ctx, 'ParallelMeshInfo', [(c['id'], c['ranks'], s, [p] + ['verbose'] * c['full']) for c, p, s in info])
        for c, p, s in info:
            end, txt = res[c['id']]
            c['refused'] = not files.ok(end)
            if c['refused']: continue
            first = txt[0].split('read in parallel')
            c['got'] = {'seq': files.parse_parallel(first[0]), 'col': [q for t in [first[-1]] + txt[1:] for q in files.parse_parts(t)]}
        # parts so large that no 32-bit number counts their bytes
        for n in range(1 if ctx.quick else 2):
            words, size = files.large_parallel(rng, 33 if not ctx.quick and n else 31)
            for took in ('clarge', 'plarge'):
                i = '%s%d-%d' % (took, k, n)
                c = {'id': i, 'kind': 'parallel', 'took': took, 'name': [], 'words': [[q, files.h(w)] for q, w in words], 'ranks': 2, 'refused': False, 'got': 0, 'out': 0, 'full': True}
                p = ctx.path(i + '.in')
                files.write_sparse(p, words, size)
                if took == 'plarge':
                    rc, t = files.tool(ctx, 'meshtool', 'plarge', p, p + '.got')
                    c['refused'] = rc != 0
                    if rc == 0: c['got'] = json.loads(files.read(p + '.got'))
                else:
                    res = files.sim_tool(ctx, 'cmeshtool', [(i, 2, 3 + n, ['clarge', p, p + '.got'])])
                    c['refused'] = not files.ok(res[i][0])
                    if not c['refused']: c['got'] = [json.loads(files.read(p + '.got.%d' % r)) for r in range(2)]
                os.truncate(p, min(size, 4096))
                cs.append((c, p))
        # the sweep program itself
        b = runs.Batch(ctx)
        for n in range(12 * N):
            m = runs.small_mesh(rng, 2)
            p = runs.Problem(ctx, rng, m, rng.choice([1, 2, 3, 4]))
            x = dict(threads=1, seed=n, timeout=60)
            data = files.read(p.file)
            if n % 4 == 0: data = files.corrupted(rng, data[:], M.SNAME)
            if n % 4 == 1: p.nr = rng.choice([r for r in (p.nr - 1, p.nr + 1, 1, 6) if r > 0 and r != p.nr])
            i = b.add(p, runs.random_deck(rng, runs.FULL + runs.LAG, 2, iterMax=1, DD_IterMax=2), x)
            c, f = case('sweep%d-%d' % (k, n), 'parallel', 'sweep', data, p.nr)
            with open(p.file, 'wb') as o: o.write(data)
            swp.append((c, i))
        b.run()
        for c, i in swp:
            c['refused'] = not files.ok(b.res[i][0])
            if c['refused'] and any(e['e'] == 'sv' for e in vlib.events(b.res[i][1])): ctx.violation('a bad mesh file is refused only after sweeping: ' + b.describe(i), b.files(i))
        path = {c['id']: p for c, p in cs}
        parts = [([c for c, p in cs[i::6]], len(cs[i::6])) for i in range(6)]
        for (c, n), r in zip(parts, ctx.tlc_many('MeshFileCheck', parts)):
            ctx.cov['traces_validated_against_impl'] += len(c)
            if r['ok']: continue
            for t in r['bad']:
                i = t.split('"')[1]
                ctx.violation('mesh file: %s' % ' '.join(t.split()), [path[i], path[i][:-3] + '.o'])
            if not r['bad']: ctx.violation('mesh file: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
        ctx.cov['refused'] = ctx.cov.get('refused', 0) + sum(c['refused'] for c, p in cs)
        ctx.cov['cases'] = ctx.cov.get('cases', 0) + len(cs)
        for c, p in cs[::60]: ctx.sample('%s: %d words, %s' % (c['id'], len(c['words']), 'refused' if c['refused'] else 'read'))
        for c, p in cs:
            for f in (p, p[:-3] + '.o'):
                if os.path.exists(f) and not ctx.violations: os.remove(f)
        if ctx.violations: break
    ctx.assumptions = ['parallel file access is simulated on a local file']
