"""Problems and configurations to run, and the projection of their traces."""
import os
import vlib, mesh as M
from vlib import fhex, unhex, events, deck_text

FULL = ['OriginalTycho1', 'OriginalTycho2', 'TraverseGraph']
LAG = ['PBJ', 'PBJOuter', 'PBJSI']
FREE = ['Schur', 'SchurOuter', 'SchurKrylov']


def small_mesh(rng, sn=2, big=False, kind=None):
    """A random small mesh without cyclic dependencies for order sn."""
    while True:
        t = kind or rng.choice(['delaunay', 'delaunay', 'delaunay', 'kuhn', 'kuhnj', 'single', 'islands', 'cube12', 'tilt', 'tilt', 'tiny', 'wide'])
        if t == 'delaunay': m = M.delaunay(rng, rng.choice([5, 6, 8, 9, 10] + ([14, 18] if big else [])))
        elif t == 'kuhn':
            d = rng.choice([(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1)] + ([(2, 2, 2)] if big else []))
            m = M.kuhn(rng, *d)
        elif t == 'centre': m = M.kuhn(rng, 1, 1, 1, lo=50., h=rng.choice([12., -15.]))   # has the centre of the problem as a node
        elif t == 'tilt': m = M.tilt(rng, rng.choice([(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1)] + ([(2, 2, 2)] if big else [])))
        elif t == 'wide': m = M.delaunay(rng, rng.choice([5, 6, 8, 9]), lo=-60., hi=110.)   # negative coordinates too
        elif t == 'kuhn1': m = M.kuhn(rng, 1, 1, 1)
        elif t == 'kuhn48': m = M.kuhn(rng, 2, 2, 2)
        elif t == 'kuhn72': m = M.kuhn(rng, *rng.choice([(3, 2, 2), (2, 3, 2), (2, 2, 3)]), lo=30., h=12.)
        elif t == 'kuhn288': m = M.kuhn(rng, 4, 4, 3, lo=30., h=10.)
        elif t == 'kuhn1296': m = M.kuhn(rng, 6, 6, 6, lo=30., h=6.)
        elif t == 'tiny': m = M.tiny(rng)
        elif t == 'kuhnj': m = M.kuhn(rng, *rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1)]), jitter=0.2)
        elif t == 'single': m = M.single(rng)
        elif t == 'islands': m = M.islands(rng, [M.single(rng), M.delaunay(rng, 5), M.delaunay(rng, 6)][:rng.choice([2, 3])])
        elif t == 'cube12':
            m = M.read_smesh(os.path.join(vlib.REPO, 'util', 'cube-12.smesh'))
            m.nodes = m.nodes.round(6)
        m = m.shuffled(rng)
        m.kind = t
        if M.sweepable(m, sn): return m


class Problem:
    """A mesh distributed over ranks, written to a file."""
    n = 0

    def __init__(self, ctx, rng, m, nr, pkind=None, part=None):
        self.m, self.nr = m, nr
        self.pkind = pkind or rng.choice(['random', 'random', 'slabs', 'checker', 'blocks', 'one'] if nr > 1 else ['one'])
        self.part = part if part is not None else M.partition(rng, m, nr, self.pkind)
        Problem.n += 1
        self.file = ctx.path('m%d.pmesh' % Problem.n)
        M.write_pmesh(m, self.part, nr, self.file, rng)


def write_deck(ctx, name, **kw):
    p = ctx.path(name + '.deck')
    with open(p, 'w') as f: f.write(deck_text(**kw))
    return p


def random_deck(rng, sweeps, sn=2, **kw):
    d = dict(snOrder=sn, SweepType=rng.choice(sweeps), iterMax=rng.choice([1, 2, 3]),
             maxCellsPerStep=rng.choice([1, 2, 3, 5, 8, 100]), intraAngleP=rng.randrange(5),
             interAngleP=rng.randrange(3), nGroups=rng.choice([1, 2, 3]),
             MPIType=rng.choice(['TychoTwoSided', 'CapsaicinTwoSided']),
             GaussElim=rng.choice(['Original', 'NoPivot', 'CramerGlu', 'CramerIntel']),
             SourceIteration='true', DD_IterMax=rng.choice([2, 3, 4]))
    d.update(kw)
    return d


def random_sim(rng):
    return dict(threads=rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 9]), seed=rng.randrange(1 << 30), policy=rng.randrange(5),
                mode=rng.choice([0, 1, 1, 2, 3]), delay=rng.choice([0, 0, 3, 40]), timeout=60)


def coupling(d):
    return 'full' if d['SweepType'] in FULL else 'lag' if d['SweepType'] in LAG else 'free'


def mesh_case(m):
    adj = m.adj()
    return {'x': [[fhex(v) for v in p] for p in m.nodes],
            'v': [[n + 1 for n in c] for c in m.cells],
            'adj': [[(a[0] + 1 if a else 0) for a in row] for row in adj],
            'adjf': [[(a[1] + 1 if a else 0) for a in row] for row in adj]}


class Batch:
    """Runs to make, then their traces as cases for SweepTrace."""

    def __init__(self, ctx, prefix='r'):
        self.ctx, self.prefix, self.jobs, self.meta = ctx, prefix, [], {}

    def add(self, prob, deck, sim, **extra):
        i = '%s%d' % (self.prefix, len(self.jobs))
        if str(deck.get('OutputFile')) == 'true' and 'OutputFilename' not in deck:
            deck = dict(deck, OutputFilename='psi-%s-%d.bin' % (i, id(self) % 100000))
        df = write_deck(self.ctx, i, **deck)
        j = dict(id=i, mesh=prob.file, deck=df, ranks=prob.nr)
        j.update(sim)
        j.update(extra)
        self.jobs.append(j)
        self.meta[i] = (prob, deck, j)
        return i

    def run(self):
        self.res = self.ctx.run_jobs(self.jobs)
        return self.res

    def files(self, i):
        p, d, j = self.meta[i]
        return [p.file, j['deck'], self.res[i][1], self.res[i][1][:-3] + '.out']

    def describe(self, i):
        p, d, j = self.meta[i]
        return '%s: %d cells (%s, %s partition), %d ranks x %d threads, S%s, %s, %s, work limit %s, priorities %s/%s, groups %s, schedule seed %s policy %s send mode %s' % (
            i, p.m.nc, getattr(p.m, 'kind', '?'), p.pkind, p.nr, j['threads'], d['snOrder'], d['SweepType'], d['MPIType'],
            d['maxCellsPerStep'], d['intraAngleP'], d['interAngleP'], d['nGroups'], j['seed'], j.get('policy', 0), j.get('mode', 0))

    def output(self, i):
        """Path of the output file of run i."""
        return os.path.join(os.path.dirname(self.res[i][1]), self.meta[i][1]['OutputFilename'])

    def failed(self, report=True):
        """Runs that did not end normally."""
        bad = []
        for j in self.jobs:
            e = self.res[j['id']][0]
            if e['verdict'] == 'skipped': bad.append(j['id']); continue
            if e['verdict'] != 'done' or any(e['rc']):
                bad.append(j['id'])
                if report:
                    self.ctx.violation('run does not end normally (%s, exit %s, %s): %s' % (
                        e['verdict'], e['rc'], e.get('err', ''), self.describe(j['id'])), self.files(j['id']))
        return bad

    def sweep_cases(self, ids):
        meshes, mi, cases, nev = [], {}, [], 0
        for i in ids:
            p, d, j = self.meta[i]
            if id(p.m) not in mi:
                mi[id(p.m)] = len(meshes) + 1
                meshes.append(mesh_case(p.m))
            es = list(events(self.res[i][1]))
            omega = [a['o'] for a in next(e for e in es if e['e'] == 'quad')['d']]
            ev = [[] for _ in omega]
            for e in es:
                k = e['e']
                if k in ('sb', 'se', 'xc'):
                    for l in ev: l.append({'k': k, 'r': e['r'] + 1})
                elif k == 'sv':
                    ev[e['a']].append({'k': 'sv', 'r': e['r'] + 1, 'c': e['c'] + 1,
                                       'i': [h[:10] for h in e['i']], 'o': [h[:10] for h in e['o']]})
            for l in ev:
                l.append({'k': 'end'})
                nev += len(l) + 1
            cases.append({'id': i, 'mesh': mi[id(p.m)], 'nr': p.nr, 'own': [r + 1 for r in p.part],
                          'cpl': coupling(d), 'omega': omega, 'ev': ev,
                          'zeroable': d['SweepType'] == 'PBJOuter' and d['SourceIteration'] != 'true'})
        return {'meshes': meshes, 'cases': cases}, nev

    def net_cases(self, ids, light=False):
        """Message-level traces for NetTrace.  light: only what ends and how."""
        cases, nev = [], 0
        for i in ids:
            p, d, j = self.meta[i]
            ev = []
            for e in events(self.res[i][1]):
                k = e['e']
                r = e.get('r', 0) + 1
                if k == 'send': ev.append(dict(k=k, r=r, m=e['m'], to=e['to'] + 1, tag=e['tag'], n=e['n'], dt=e['dt'], h=e['h']))
                elif k == 'recv': ev.append({'k': k, 'r': r, 'm': e['m'], 'from': e['from'] + 1, 'tag': e['tag'], 'n': e['n'], 'dt': e['dt'], 'h': e['h']})
                elif k == 'sdone': ev.append(dict(k='done', r=r, m=e['m'], h=e['h']))
                elif k == 'coll': ev.append(dict(k=k, r=r, c=e['k'], n=e['n'], op=e['op']))
                elif k in ('sb', 'se', 'xc'): ev.append(dict(k='phase', r=r))
                elif k == 'exit': ev.append(dict(k=k, r=r, rc=e['rc']))
                elif k == 'error': ev.append(dict(k=k, r=r, msg=e['msg']))
                elif k in ('deadlock', 'livelock', 'timeout'):
                    ev.append(dict(k='stuck', r=1, msg=k + ': ' + '; '.join('rank %d thread %d: %s' % (t['r'], t['t'], t['w']) for t in e.get('waits', []))))
                elif k == 'died': ev.append(dict(k='stuck', r=1, msg='rank %d dies (%s)' % (e['r'], e.get('rc'))))
                elif k == 'end': ev.append(dict(k=k))
            if light: ev = [e for e in ev if e['k'] in ('stuck', 'exit', 'error', 'end')]
            nev += len(ev) + 1
            cases.append({'id': i, 'nr': p.nr, 'ev': ev})
        return cases, nev

    def mesh_cases(self, ids):
        """Loaded meshes (runs with logmesh) for MeshCheck."""
        cases, n = [], 0
        for i in ids:
            p, d, j = self.meta[i]
            m = mesh_case(p.m)
            m['mat'] = [int(x) for x in p.m.mats]
            m['own'] = [r + 1 for r in p.part]
            m['nr'] = p.nr
            loaded = [None] * p.nr
            for e in events(self.res[i][1]):
                if e['e'] == 'quad': m['omega'] = [a['o'] for a in e['d']]
                elif e['e'] == 'mesh': loaded[e['r']] = [loaded_cell(c) for c in e['cells']]
            cases.append({'id': i, 'mesh': m, 'loaded': loaded})
            n += 1 + p.nr + sum(map(len, loaded))
        return cases, n


def loaded_cell(c):
    def face(f):
        return {'ac': f['ac'] + 1, 'af': f['af'] + 1, 'ar': f['ar'] + 1, 'gs': f['gs'], 'sc': f['sc'] + 1, 'rt': int(f['rt']),
                'area': f['area'], 'f2c': [x + 1 for x in f['f2c']], 'c2f': [x + 1 for x in f['c2f']],
                'nv': [x + 1 for x in f['nv']], 'xc': f['xc'] + 1, 'xf': f['xf'] + 1,
                'on': f['on'], 'oi': f['oi'], 'ii': f['ii']}
    return {'g': c['g'] + 1, 'm': c['m'], 'vol': c['vol'], 'v': [[k[0:16], k[16:32], k[32:48]] for k in c['v']],
            'f': [face(f) for f in c['f']]}


def read_psi(path):
    """An output file: (cells, angles, groups, cell -> hexadecimal values), or None."""
    if not os.path.exists(path): return None
    with open(path, 'rb') as f: data = f.read()
    import struct
    if len(data) < 64: return None
    ver, nc, na, ng = struct.unpack('<4Q', data[32:64])
    if len(data) != 64 + 8 * nc * na * 4 * ng: return None
    n = na * 4 * ng
    rev = [data[i:i + 8][::-1].hex() for i in range(64, len(data), 8)]
    return nc, na, ng, [rev[c * n:(c + 1) * n] for c in range(nc)]
