"""C09: the Krylov algorithms."""
import bisect, math
import runs, suites, vlib, c06
from vlib import unhex
LEVEL = 'model_checking'


class Unknowns(Exception):
    pass


def infer(own, adj, rank, x, s, sigs):
    """Which unknown each entry of x is, from the sweep s made with it."""
    vals, phi = {}, []
    for c, o in enumerate(own):
        if o != rank: continue
        for f in range(4):
            if adj[c][f] and own[adj[c][f] - 1] != rank:
                for a in range(len(s[c])):
                    for v in range(4):
                        if v != f:
                            for g, z in enumerate(s[c][a]['b'][f][v]): vals[z] = ['b', c + 1, a + 1, f + 1, v + 1, g + 1]
        for v in range(4):
            for g, z in enumerate(s[c][0]['q'][v]): phi.append((unhex(z) * 4 * math.pi / sigs[c], ['s', c + 1, 0, 0, v + 1, g + 1]))
    phi.sort(key=lambda t: t[0])
    keys = [t[0] for t in phi]
    out = []
    for z in x:
        if z in vals: out.append(vals[z]); continue
        w = unhex(z)
        i = bisect.bisect_left(keys, w)
        near = [j for j in (i - 1, i) if 0 <= j < len(keys) and abs(keys[j] - w) < 1e-9 * abs(w)]
        if len(near) != 1: raise Unknowns('entry %d of the vector of rank %d goes nowhere (%r)' % (len(out), rank, w))
        out.append(phi[near[0]][1])
    return out


def project(ctx, b, i, mesh, most):
    """Run i as a case, or None (nothing to check)."""
    p, d, j = b.meta[i]
    nr, nc = p.nr, p.m.nc
    own = list(p.part)
    sig = [{'t': str(d['sigmaT1']), 's': str(d['sigmaS1'])}, {'t': str(d['sigmaT2']), 's': str(d['sigmaS2'])}]
    sigs = [float(sig[int(p.m.mats[c]) - 1]['s']) for c in range(nc)]
    quad, sweeps, nsw = None, [], [0] * nr
    tok = [[] for _ in range(nr)]
    for e in vlib.events(b.res[i][1]):
        k = e['e']
        if k == 'quad': quad = e['d']
        elif k == 'sb':
            nsw[e['r']] += 1
            while len(sweeps) < nsw[e['r']]: sweeps.append([[None] * len(quad) for _ in range(nc)])
            tok[e['r']].append(('sweep', nsw[e['r']] - 1))
        elif k == 'sv': sweeps[nsw[e['r']] - 1][e['c']][e['a']] = e
        elif k in ('kbegin', 'kend'):
            if not e['deep']: tok[e['r']].append((k, e))
        elif k in ('kb', 'kmult', 'kapply', 'kx'): tok[e['r']].append((k, e))
    if any([t[0] for t in l] != [t[0] for t in tok[0]] for l in tok): raise Unknowns('ranks make different calls')
    for l in tok:
        assert [t[1] for t in l if t[0] == 'sweep'] == list(range(len(sweeps)))
    used, ev, maps = {}, [], {'boundary': [], 'scalar': [], 'both': []}

    def use(n):
        if n not in used: used[n] = len(used) + 1
        return used[n]
    last = len(sweeps) - 1
    n, cur, T = 0, -1, tok[0]
    while n < len(T):
        k = T[n][0]
        if k == 'sweep': cur = T[n][1]; n += 1; continue
        if k != 'kbegin': raise Unknowns('unexpected call ' + k)
        # one solve: up to its kend
        e = next(q for q in range(n, len(T)) if T[q][0] == 'kend')
        at = lambda q: [tok[r][q][1] for r in range(nr)]
        rhs = cur
        begin, kb, kx = at(n), at(n + 1), at(e - 1)
        ap = []
        for q in range(n + 2, e - 1):
            if T[q][0] == 'sweep': cur = T[q][1]
            elif T[q][0] == 'kmult': first = cur
            elif T[q][0] == 'kapply': ap.append((at(q), cur, cur - first))
        if not ap: raise Unknowns('the operator is never applied')
        m = [infer(own, mesh['adj'], r, ap[0][0][r]['x'], sweeps[ap[0][1]], sigs) for r in range(nr)]
        kinds = {u[0] for l in m for u in l}
        kind = 'both' if d['SweepType'] == 'SchurKrylov' else 'scalar' if 's' in kinds else 'boundary'
        if maps[kind] and maps[kind] != m: raise Unknowns('the order of the unknowns changes')
        maps[kind] = m
        ev.append({'k': 'begin', 'knd': kind, 'b': [x['x'] for x in kb], 'x0': [x['y'] for x in kb], 'nz': bool(begin[0]['nz']),
                   'rtol': begin[0]['rtol'], 'maxit': begin[0]['maxit'], 's': use(rhs)})
        for x, s, c in ap[:2] + ap[2:][:most]:
            ev.append({'k': 'apply', 'x': [z['x'] for z in x], 'y': [z['y'] for z in x], 's': use(s), 'n': c})
        fin = cur + 1
        if kind == 'boundary' and d['SweepType'] == 'SchurOuter': fin = last
        if fin > last: raise Unknowns('no sweep follows the solve')
        ev.append({'k': 'end', 'x': [x['x'] for x in kx], 's': use(fin), 'converged': at(e)[0]['reason'] > 0})
        n = e + 1
    if not ev: return None, 0
    out = []
    for q in sorted(used, key=used.get):
        s = sweeps[q]
        if any(x is None for c in s for x in c): raise Unknowns('a sweep is not complete')
        out.append([[{'q': s[c][a]['q'], 'p': s[c][a]['p'], 'b': [s[c][a]['b'][f] if mesh['adj'][c][f] and own[mesh['adj'][c][f] - 1] != own[c] else []
                                                                 for f in range(4)]} for a in range(len(quad))] for c in range(nc)])
    return {'id': i, 'own': [o + 1 for o in own], 'nr': nr, 'omega': [a['o'] for a in quad], 'wt': [a['w'] for a in quad], 'sig': sig,
            'ng': d['nGroups'], 'algo': d['SweepType'], 'si': d['SourceIteration'] == 'true', 'iterMax': d['iterMax'], 'errMax': str(d['errMax']),
            'ddIterMax': d['DD_IterMax'], 'ddErrMax': str(d['DD_ErrMax']), 'maps': maps, 'sweeps': out, 'ev': ev}, len(ev)


def cases(ctx, b, ids, most):
    meshes, cs, n = [], [], 0
    for i in ids:
        p = b.meta[i][0]
        m = runs.mesh_case(p.m)
        m['mat'] = [int(x) for x in p.m.mats]
        try:
            c, k = project(ctx, b, i, m, most)
        except Unknowns as e:
            ctx.violation('Krylov interface: %s: %s' % (e, b.describe(i)), b.files(i))
            continue
        if c is None:
            d = b.meta[i][1]
            if d['SourceIteration'] == 'false' or d['SweepType'] == 'SchurKrylov':
                ctx.violation('Krylov interface: nothing is solved by a Krylov method: %s' % b.describe(i), b.files(i))
            continue
        meshes.append(m)
        c['mesh'] = len(meshes)
        cs.append(c)
        n += k + 1
    return {'meshes': meshes, 'cases': cs}, n


def sigmas(rng):
    t1, t2 = rng.choice([(0.1, 0.2), (1.0, 2.0), (0.05, 0.4), (5.0, 0.05)])
    return dict(sigmaT1=t1, sigmaT2=t2, sigmaS1=round(t1 * rng.choice([0.2, 0.5, 0.8]), 5), sigmaS2=round(t2 * rng.choice([0.1, 0.5]), 5))


def interface(ctx, rng, n, big):
    def deck(rng, sw):
        si = 'true' if sw in ('Schur', 'SchurOuter') and rng.random() < 0.6 else 'false'
        return dict(sigmas(rng), iterMax=rng.choice([1, 2, 3, 8]) if si == 'true' else rng.choice([2, 5, 60]), errMax=rng.choice(['1e-2', '1e-4', '1e-7']), DD_IterMax=rng.choice([2, 3, 40, 40]),
                    DD_ErrMax=rng.choice(['1e-1', '1e-2', '1e-4', '1e-7']), nGroups=rng.choice([1, 1, 2]), SourceIteration=si)
    b = suites.sweep_batch(ctx, rng, n, sweeps=runs.FREE * 3 + ['PBJ', 'PBJOuter'] + runs.FULL, big=big, deck=deck, sn=(2,), full=2, logvec=1, probe=1,
                           ranks=(1, 2, 2, 3, 3, 4), mesh_kinds=['delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'centre', 'tilt'])
    return b


def same_result(ctx, rng, n, big):
    """Krylov algorithms with tight tolerances, and the converged full sweep."""
    b, pairs = runs.Batch(ctx), []
    for _ in range(n):
        sn = rng.choice([2, 2, 4])
        m = runs.small_mesh(rng, sn, big)
        phys = dict(sigmas(rng), snOrder=sn, nGroups=rng.choice([1, 2]), iterMax=300, errMax='1e-12', DD_IterMax=300, DD_ErrMax='1e-12', OutputFile='true')
        p = runs.Problem(ctx, rng, m, 1)
        ref = b.add(p, runs.random_deck(rng, ['TraverseGraph'], **phys), dict(threads=1, seed=1, timeout=60), logsolve=0)
        for sw, si in [('Schur', 'true'), ('Schur', 'false'), ('SchurOuter', 'true'), ('SchurOuter', 'false'), ('SchurKrylov', 'true'),
                       (rng.choice(runs.FULL), 'false'), ('PBJOuter', 'false')]:
            p = runs.Problem(ctx, rng, m, min(rng.choice([2, 3, 4]), m.nc))
            pairs.append((ref, b.add(p, runs.random_deck(rng, [sw], **dict(phys, SourceIteration=si)), dict(runs.random_sim(rng), policy=4), logsolve=0)))
    for kind, far in (('ranks', False), ('groups', False), ('angles', False), ('ranks', True), ('groups', True)):
        p, sn, ng = suites.large(ctx, rng, kind, far)
        phys = dict(sigmas(rng), snOrder=sn, nGroups=ng, iterMax=300, errMax='1e-12', DD_IterMax=300, DD_ErrMax='1e-12', OutputFile='true')
        ref = b.add(runs.Problem(ctx, rng, p.m, 1), runs.random_deck(rng, ['TraverseGraph'], **phys), dict(threads=1, seed=1, timeout=120), logsolve=0)
        for sw in runs.FREE:
            pairs.append((ref, b.add(p, runs.random_deck(rng, [sw], **dict(phys, SourceIteration='false')), dict(runs.random_sim(rng), threads=1, policy=4, timeout=120), logsolve=0)))
    b.run()
    c06.compare(ctx, b, pairs, 'Krylov solution and full sweep', rel='1e-6', abs_='1e-11')


def run(ctx):
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)
        b = interface(ctx, rng, 42 if ctx.quick else 84, not ctx.quick)
        ids = suites.verify_cases(ctx, b, 'KrylovTrace', lambda ids: cases(ctx, b, ids, 4 if ctx.quick else 12), 'Krylov interface')
        for i in ids[:3]: ctx.sample(b.describe(i))
        same_result(ctx, rng, 5 if ctx.quick else 14, not ctx.quick)
        if ctx.violations: break
    ctx.assumptions = ['PETSc is replaced by an own GMRES that logs its calls and first applies every operator to a random vector',
                       'results are compared to a relative 1e-6']
