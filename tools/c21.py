"""C21: files that fail."""
import os, resource, subprocess
import files, models, runs, vlib, mesh as M
LEVEL = 'model_checking'
CHECKS = ['open', 'read', 'short', 'close', 'write', 'brief', 'finish', 'delete', 'recreate']
AGAIN = ['read', 'short', 'write', 'brief']


def model(ctx):
    ctx.classes()
    def cfg(name, checks, again, invs, ranks=3, parts=3, faults=2):
        f = ctx.path(name)
        with open(f + '.cfg', 'w') as h:
            h.write('CONSTANTS\n  Ranks = %d\n  Parts = %d\n  MostFaults = %d\n  Checks = {%s}\n  Again = {%s}\nINIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK TRUE\n'
                    % (ranks, parts, faults, *(', '.join('"%s"' % c for c in x) for x in (checks, again)), invs))
        return f
    jobs = [('all', CHECKS, [], 'Criterion Sound', True, 1962), ('again', [c for c in CHECKS if c not in AGAIN], AGAIN, 'Criterion Sound', True, 6897), ('none', [], [], 'Sound', True, None)]
    jobs += [('no-' + x, [c for c in CHECKS if c != x], [], 'Criterion Sound', x in ('close', 'delete'), None) for x in CHECKS]
    # trying again reads and writes makes up for not looking at errors, unless not all kinds are tried
    jobs += [('only-' + x, [c for c in CHECKS if c not in AGAIN], [c for c in AGAIN if c != x], 'Criterion Sound', False, None) for x in AGAIN]

    def go(a):
        name, checks, again, invs, good, n = a
        r = ctx.tlc('FaultsMC', cfg=cfg('faults-' + name, checks, again, invs, *((2, 2) if name == 'none' else ())), expect=n)
        if r['ok'] != good: raise vlib.CheckError('the model of failing files, %s: %s\n%s' % (name, r['violated'], r['out'][-2000:]))
    files.many([lambda a=a: go(a) for a in jobs], 4)


def limited(cmd, cwd, limit):
    """Runs a tool on a disk on which files cannot be longer than limit."""
    def pre():
        if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, restore_signals=False, preexec_fn=pre, timeout=120)
    except subprocess.TimeoutExpired:
        return 'timeout', b''
    return r.returncode, r.stdout


def lengths(rng, size, n):
    """Lengths shorter than size: all of them, or the ends of words and of blocks, and others."""
    if n >= size: return list(range(size))
    l = {0, 1, 31, 32, 39, 40, size - 1, size - 7, size - 8, size - 9, size - 24, size - 32} | {x for x in (4095, 4096, 4097, 8192) if x < size}
    l = {x for x in l if 0 <= x < size}
    while len(l) < n: l.add(rng.choice([rng.randrange(size), rng.randrange(size // 8) * 8]))
    return sorted(l)


def run_tools(ctx, rng, k):
    cs, jobs = [], []
    IN = [('serial', 'meshtool', lambda i, o: ['scopy', i, o]), ('serial', 'SerialMeshInfo', lambda i, o: [i, 'verbose']),
          ('serial', 'RefineSerialMesh', lambda i, o: [i, o]), ('serial', 'PartitionColumns', lambda i, o: [1, 2, i, o]),
          ('serial', 'PartitionMetis', lambda i, o: [2, i, o]), ('parallel', 'meshtool', lambda i, o: ['pcopy', i, o])]
    for n, (kind, tool, args) in enumerate(IN):
        for big in (False, True):
            m = runs.small_mesh(rng, 2, kind='kuhn48' if big else 'cube12' if 'Partition' in tool else 'single')
            src = ctx.path('t%d-%d-%d.mesh' % (k, n, big))
            if kind == 'serial': M.write_smesh(m, src)
            else: M.write_pmesh(m, M.partition(rng, m, 3, 'random'), 3, src, rng)
            data = files.read(src)
            out = src + '.out'
            rc, txt = limited([ctx.path('bin', tool)] + [str(x) for x in args(src, out)], ctx.dir, None)
            whole = files.read(out)
            if rc: ctx.violation('%s fails: %s' % (tool, txt[-300:]), [src]); continue

            def case(i, size, given, p, o, limit, tool=tool, args=args, txt=txt, whole=whole, src=src):
                c = {'id': i, 'size': size, 'given': given, 'ok': False, 'same': True}
                cs.append((c, src, '%s, %s' % (tool, i)))

                def go():
                    rc, t = limited([ctx.path('bin', tool)] + [str(x) for x in args(p, o)], ctx.dir, limit)
                    c['ok'] = rc == 0
                    if rc == 'timeout': ctx.violation('%s does not end, %s' % (tool, i), [p])
                    if c['ok']: c['same'] = files.read(o) == whole if whole is not None else t.replace(p.encode(), b'') == txt.replace(src.encode(), b'')
                    for f in (p, o):
                        if f != src and os.path.exists(f): os.remove(f)
                jobs.append(go)
            few = ctx.quick and (big or tool != 'meshtool')
            for L in lengths(rng, len(data), (24 if big else 60) if few else 400) + [len(data)]:
                i = 'cut%d-%d-%d-%d' % (k, n, big, L)
                p = ctx.path(i)
                with open(p, 'wb') as f: f.write(data[:L])
                case(i, len(data), L, p, p + '.o', None)
            case('missing%d-%d-%d' % (k, n, big), 1, -1, src + '.none', src + '.none.o', None)
            if whole is None: continue
            for L in lengths(rng, len(whole), (24 if big else 60) if few else 400) + [len(whole)]:
                i = 'full%d-%d-%d-%d' % (k, n, big, L)
                case(i, len(whole), L, src, ctx.path(i + '.o'), L)
            case('nowhere%d-%d-%d' % (k, n, big), 1, -1, src, os.path.join(src + '.dir', 'x'), None)
    files.many(jobs)
    return cs


def solved(es):
    """Operations, and where a rank first solves after them."""
    ev, seen = [], set()
    for e in es:
        if e['e'] == 'io':
            ev.append({x: e[x] for x in ('r', 'op', 'file', 'wr', 'off', 'n', 'ok')})
            ev[-1]['got'] = max(e['got'], 0)
            seen.discard(e['r'])
        elif e['e'] == 'sv' and e['r'] not in seen:
            seen.add(e['r'])
            ev.append({'r': e['r'], 'op': 'solve'})
    return ev


def run_sweeps(ctx, rng, k):
    # first without failures
    b = runs.Batch(ctx)
    base = []
    for n in range(5 if ctx.quick else 16):
        m = runs.small_mesh(rng, 2, kind=['single', 'tiny', 'delaunay', 'kuhn1', 'islands', 'cube12'][n % 6])
        p = runs.Problem(ctx, rng, m, [1, 3, 2, 4, 1, 2][n % 6])
        d = runs.random_deck(rng, runs.FULL + runs.LAG, 2, iterMax=1, DD_IterMax=2, OutputFile='true' if n % 5 != 4 else 'false')
        x = dict(threads=rng.choice([1, 2]), seed=rng.randrange(1 << 30), policy=rng.randrange(5), mode=rng.randrange(4), timeout=60, logio=1)
        base.append(b.add(p, d, x))
        p.there = rng.random() < 0.6
        if p.there and d['OutputFile'] == 'true':
            os.makedirs(ctx.path('runs'), exist_ok=True)
            with open(ctx.path('runs', b.meta[base[-1]][1]['OutputFilename']), 'wb') as f: f.write(b'x' * 5000)
    b.run()
    if b.failed(): return []
    # then with every operation of every rank failing in its turn; and with the mesh cut short
    f = runs.Batch(ctx)
    f.jobs, f.meta = [], {}
    of, cuts = {}, []
    for i in base:
        p, d, j = b.meta[i]
        ops = [[] for _ in range(p.nr)]
        for e in vlib.events(b.res[i][1]):
            if e['e'] == 'io': ops[e['r']].append(e['op'])
        ctx.cov['operations'] = ctx.cov.get('operations', 0) + sum(map(len, ops))
        ref = files.read(b.output(i)) if d['OutputFile'] == 'true' else None

        def again(mesh=None, **extra):
            q = 'f%d-%d' % (k, len(f.jobs))
            dd = dict(d, OutputFilename='psi-%s.bin' % q)
            df = runs.write_deck(ctx, q, **dd)
            jj = dict(j, id=q, deck=df, mesh=mesh or p.file, **extra)
            f.jobs.append(jj)
            f.meta[q] = (p, dd, jj)
            of[q] = ref
            if p.there and d['OutputFile'] == 'true':
                with open(ctx.path('runs', dd['OutputFilename']), 'wb') as h: h.write(b'x' * 5000)
            return q
        for r in range(p.nr):
            for o, op in enumerate(ops[r]):
                for kind in (1, 2, 3, 4) if op in ('read', 'write') else (1, 3):
                    if op == 'open' and r: continue        # an open is collective
                    again(iorank=r, ioop=o + 1, iokind=kind)
        data = files.read(p.file)
        for L in lengths(rng, len(data), 16 if ctx.quick else 200) + [len(data)]:
            c = ctx.path('cut-%s-%d.pmesh' % (i, L))
            with open(c, 'wb') as h: h.write(data[:L])
            cuts.append((again(mesh=c), len(data), L))
        cuts.append((again(mesh=ctx.path('none.pmesh')), 1, -1))
        q = again()
        f.jobs[-1]['deck'] = ctx.path('none.deck')
        cuts.append((q, 1, -1))
        if d['OutputFile'] == 'true':
            q = again()
            o = ctx.path('runs', f.meta[q][1]['OutputFilename'])
            if os.path.exists(o): os.remove(o)
            os.makedirs(os.path.join(o, 'x'))
            cuts.append((q, 1, -1))
    f.run()
    cs, n, ts = [], 0, []
    cut = {q: (size, L) for q, size, L in cuts}
    for j in f.jobs:
        q = j['id']
        end, tr = f.res[q]
        if end['verdict'] == 'skipped': continue
        same = of[q] is None or (os.path.isfile(f.output(q)) and files.read(f.output(q)) == of[q])
        if q in cut:
            ts.append(({'id': q, 'size': cut[q][0], 'given': cut[q][1], 'ok': files.ok(end), 'same': same}, j['mesh'], f.describe(q)))
        ev = solved(vlib.events(tr))
        if j['deck'] == ctx.path('none.deck'): continue
        c = {'id': q, 'ev': ev, 'well': files.ok(end), 'hung': end['verdict'] in ('deadlock', 'livelock', 'timeout'), 'same': same}
        n += len(ev) + 2
        cs.append(c)
    ctx.cov['failing_runs'] = ctx.cov.get('failing_runs', 0) + len(cs)
    parts = [(c, sum(len(x['ev']) + 2 for x in c)) for c in (cs[i::4] for i in range(4)) if c]
    for (c, n), r in zip(parts, ctx.tlc_many('FaultTrace', parts)):
        ctx.cov['traces_validated_against_impl'] += len(c)
        ctx.cov['events_validated'] += sum(len(x['ev']) for x in c)
        if r['ok']: continue
        for t in r['bad']:
            q = t.split('"')[1]
            j = f.meta[q][2]
            ctx.violation('failing files: %s (rank %s, operation %s, %s): %s' % (' '.join(t.split())[:300], j.get('iorank', '-'), j.get('ioop', '-'),
                          {1: 'error', 2: 'short', 3: 'errors from then on', 4: 'short, and nothing from then on'}.get(j.get('iokind'), 'cut mesh'), f.describe(q)), f.files(q))
        if not r['bad']: ctx.violation('failing files: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
    for i in base: ctx.sample(b.describe(i) + ', every operation on a file failing in its turn')
    return ts


def run_info(ctx, rng, k):
    """ParallelMeshInfo: the collective and the sequential reader."""
    cs, jobs = [], []
    for n in range(2 if ctx.quick else 6):
        ranks = rng.choice([1, 2, 3])
        data = files.random_parallel(rng, ranks, plain=True)
        for L in lengths(rng, len(data), 20 if ctx.quick else 100) + [len(data)]:
            for tool, args in (('ParallelMeshInfo', lambda p: [p, 'verbose']), ('cmeshtool', lambda p: ['cdump', p, p + '.got'])):
                i = '%s%d-%d-%d' % (tool, k, n, L)
                p = ctx.path(i + '.in')
                with open(p, 'wb') as h: h.write(data[:L])
                c = {'id': i, 'size': len(data), 'given': L, 'ok': False, 'same': True}
                jobs.append((tool, c, (i, ranks, rng.randrange(1 << 30), args(p)), p))
    for tool in ('ParallelMeshInfo', 'cmeshtool'):
        js = [x for x in jobs if x[0] == tool]
        res = files.sim_tool(ctx, tool, [x[2] for x in js])
        for t, c, x, p in js:
            c['ok'] = files.ok(res[c['id']][0])
            if res[c['id']][0]['verdict'] in ('deadlock', 'livelock', 'timeout'): ctx.violation('%s does not end on a mesh cut short: %s' % (tool, p), [p])
            cs.append((c, p, tool))
    return cs


def run(ctx):
    ctx.build('all')
    model(ctx)
    for k in range(1 if ctx.quick else 6):
        rng = ctx.rng('faults', k)
        cs = run_tools(ctx, rng, k) + run_sweeps(ctx, rng, k) + run_info(ctx, rng, k)
        where = {c['id']: (p, t) for c, p, t in cs}
        r = ctx.tlc('FaultTools', cases=[c for c, p, t in cs], expect=2 * len(cs), workers=4)
        ctx.cov['cases'] = ctx.cov.get('cases', 0) + len(cs)
        if not r['ok']:
            for t in r['bad']:
                p, what = where[t.split('"')[1]]
                ctx.violation('files cut short or that do not fit: %s: %s' % (' '.join(t.split()), what), [p])
            if not r['bad']: ctx.violation('files: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
        for c, p, t in cs[::150]: ctx.sample('%s: %d of %d bytes, %s' % (t, c['given'], c['size'], 'done' if c['ok'] else 'refused'))
        if ctx.violations: break
    ctx.assumptions = ['failures of parallel file access are those of the simulated layer: an error, or a read that finds less',
                       'the system reports a failure of a write at the latest when the file is closed']
