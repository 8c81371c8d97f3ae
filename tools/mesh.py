"""Tetrahedral meshes: generation, numbering, partitioning and files.

Independent of /repo's code: the generators and the writers below implement the
documented file formats, so that the code under test can be given meshes that
its own tools would never make.
"""
import itertools, os, random, struct
import numpy as np

INVALID = (1 << 64) - 1
SNAME = b"Tycho 2 Serial Mesh"
PNAME = b"Tycho 2 Parallel Mesh"


class Mesh:
    """nodes: (n,3) floats; cells: 4 node ids, in file order; mats; faces: 3 node
    ids; fcells: 1 or 2 cells; cfaces: the 4 faces of a cell, in file order."""

    def __init__(self, nodes, cells, mats):
        self.nodes = np.array(nodes, dtype=float)
        self.cells = [tuple(int(x) for x in c) for c in cells]
        self.mats = list(mats)
        self.link()

    @property
    def nc(self):
        return len(self.cells)

    def link(self, order=None):
        self.faces, self.fcells, self.cfaces = [], [], []
        idx = {}
        for c, cn in enumerate(self.cells):
            fs = []
            for f in range(4):
                tri = tuple(cn[i] for i in range(4) if i != f)
                k = frozenset(tri)
                if k not in idx:
                    idx[k] = len(self.faces)
                    self.faces.append(tri)
                    self.fcells.append([])
                self.fcells[idx[k]].append(c)
                fs.append(idx[k])
            self.cfaces.append(fs)
        assert all(1 <= len(x) <= 2 for x in self.fcells)

    def lface(self, c, f):
        """Vertex of cell c opposite to face f."""
        s = set(self.faces[f])
        return next(i for i in range(4) if self.cells[c][i] not in s)

    def adj(self):
        """adj[c][lf] = (neighbour, its local face) or None."""
        a = [[None] * 4 for _ in self.cells]
        for f, cs in enumerate(self.fcells):
            if len(cs) == 2:
                l0, l1 = self.lface(cs[0], f), self.lface(cs[1], f)
                a[cs[0]][l0] = (cs[1], l1)
                a[cs[1]][l1] = (cs[0], l0)
        return a

    def normal(self, c, lf):
        cn = self.cells[c]
        p = [self.nodes[cn[i]] for i in range(4) if i != lf]
        n = np.cross(p[1] - p[0], p[2] - p[0])
        n /= np.linalg.norm(n)
        if np.dot(n, p[0] - self.nodes[cn[lf]]) < 0:
            n = -n
        return n

    def volumes(self):
        x = self.nodes[np.array(self.cells)]
        return np.abs(np.einsum('ij,ij->i', x[:, 1] - x[:, 0],
                      np.cross(x[:, 2] - x[:, 0], x[:, 3] - x[:, 0]))) / 6

    def shuffled(self, rng):
        """Same mesh with random numbering of nodes, cells, faces and vertices."""
        pn = list(range(len(self.nodes))); rng.shuffle(pn)
        inv = [0] * len(pn)
        for i, p in enumerate(pn): inv[p] = i
        pc = list(range(self.nc)); rng.shuffle(pc)
        cells = []
        for c in pc:
            v = [inv[x] for x in self.cells[c]]
            rng.shuffle(v)
            cells.append(v)
        m = Mesh(self.nodes[pn], cells, [self.mats[c] for c in pc])
        pf = list(range(len(m.faces))); rng.shuffle(pf)
        invf = [0] * len(pf)
        for i, p in enumerate(pf): invf[p] = i
        faces, fcells = [], []
        for p in pf:
            t = list(m.faces[p]); rng.shuffle(t); faces.append(tuple(t))
            c = list(m.fcells[p]); rng.shuffle(c); fcells.append(c)
        m.faces, m.fcells = faces, fcells
        for c in range(m.nc):
            fs = [invf[f] for f in m.cfaces[c]]
            rng.shuffle(fs)
            m.cfaces[c] = fs
        return m


def quadrature(n):
    """Directions of the product quadrature of order n (2 n^2 of them)."""
    mu, _ = np.polynomial.legendre.leggauss(n)
    out = []
    for i in range(n):
        for k in range(2 * n):
            phi = np.pi / n * (k + 0.5)
            s = np.sqrt(1 - mu[i] ** 2)
            out.append((s * np.cos(phi), s * np.sin(phi), mu[i]))
    return np.array(out)


def sweepable(m, sn):
    """No cycle for any direction, and no face that is nearly (but not up to
    rounding) parallel to a direction."""
    adj = m.adj()
    nrm = np.array([[m.normal(c, f) for f in range(4)] for c in range(m.nc)])
    for o in quadrature(sn):
        d = nrm @ o
        a = np.abs(d)
        if ((a > 1e-13) & (a < 5e-10)).any():
            return False
        need = [0] * m.nc
        for c in range(m.nc):
            for f in range(4):
                if adj[c][f] and d[c][f] < -1e-10:
                    need[c] += 1
        st = [c for c in range(m.nc) if need[c] == 0]
        k = 0
        while st:
            c = st.pop(); k += 1
            for f in range(4):
                if adj[c][f] and d[c][f] > 1e-10:
                    n = adj[c][f][0]
                    need[n] -= 1
                    if need[n] == 0: st.append(n)
        if k != m.nc:
            return False
    return True


# --------------------------------------------------------------- generators
def mats(rng, n, kind=None):
    k = rng.choice([1, 2, 3]) if kind is None else kind
    return [1] * n if k == 1 else [rng.choice([1, 2]) for _ in range(n)]


def delaunay(rng, n, lo=20., hi=80., kind=None):
    from scipy.spatial import Delaunay
    while True:
        p = np.array([[rng.uniform(lo, hi) for _ in range(3)] for _ in range(n)])
        d = np.linalg.norm(p[:, None] - p[None], axis=2) + np.eye(n) * 1e9
        if d.min() < (hi - lo) / (4 * n ** (1 / 3)):
            continue
        t = Delaunay(p)
        m = Mesh(p, t.simplices, [1] * len(t.simplices))
        # drop flat tetrahedra of the hull
        v = m.volumes()
        keep = [c for c in range(m.nc) if v[c] > 1e-4 * (hi - lo) ** 3 / m.nc]
        if not keep: continue
        m = Mesh(p, [m.cells[c] for c in keep], mats(rng, len(keep), kind))
        return compact(m)


def compact(m):
    used = sorted({x for c in m.cells for x in c})
    ix = {u: i for i, u in enumerate(used)}
    return Mesh(m.nodes[used], [[ix[x] for x in c] for c in m.cells], m.mats)


def kuhn(rng, nx, ny, nz, lo=20., h=20., jitter=0., kind=None):
    """Structured bricks cut in six: many faces parallel to directions."""
    ids = {}
    nodes = []
    for i, j, k in itertools.product(range(nx + 1), range(ny + 1), range(nz + 1)):
        ids[i, j, k] = len(nodes)
        nodes.append([lo + h * x + (rng.uniform(-jitter, jitter) * h if jitter else 0) for x in (i, j, k)])
    cells = []
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        for perm in itertools.permutations(range(3)):
            v = [i, j, k]
            c = [ids[tuple(v)]]
            for ax in perm:
                v[ax] += 1
                c.append(ids[tuple(v)])
            cells.append(c)
    return Mesh(nodes, cells, mats(rng, len(cells), kind))


def tilt(rng, dims):
    """A structured mesh sheared very little: faces nearly parallel to
    directions, and nodes with nearly equal coordinates."""
    m = kuhn(rng, *dims)
    e = 10 ** rng.uniform(-8, -2.5)
    a = np.eye(3) + e * np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)])
    m.nodes = m.nodes @ a.T
    return m


def tiny(rng):
    """A mesh that is very small for its distance from the origin."""
    m = rng.choice([lambda: kuhn(rng, 1, 1, 1), lambda: kuhn(rng, 2, 1, 1, jitter=0.2), lambda: delaunay(rng, 6), lambda: single(rng)])()
    c = np.array([rng.uniform(35, 65) for _ in range(3)])
    m.nodes = c + (m.nodes - 50) * 10 ** rng.uniform(-8, -4)
    return m


def single(rng, lo=30., hi=70.):
    while True:
        p = np.array([[rng.uniform(lo, hi) for _ in range(3)] for _ in range(4)])
        m = Mesh(p, [range(4)], mats(rng, 1))
        if m.volumes()[0] > 500: return m


def islands(rng, ms):
    """Several meshes far apart in one: partitions without neighbours."""
    nodes, cells, mt, off = [], [], [], 0
    for i, m in enumerate(ms):
        nodes.append(m.nodes + np.array([200. * i, 0, 0]))
        cells += [[x + off for x in c] for c in m.cells]
        mt += m.mats
        off += len(m.nodes)
    return Mesh(np.vstack(nodes), cells, mt)


def read_smesh(path):
    b = open(path, 'rb').read()
    _, nc, nf, nn = struct.unpack('<4Q', b[32:64])
    w = np.frombuffer(b, dtype='<u8', offset=64, count=nc * 9 + nf * 5)
    x = np.frombuffer(b, dtype='<f8', offset=64 + 8 * (nc * 9 + nf * 5), count=nn * 3)
    c = w[:nc * 9].reshape(nc, 9)
    f = w[nc * 9:].reshape(nf, 5)
    m = Mesh.__new__(Mesh)
    m.nodes = x.reshape(nn, 3).copy()
    m.cells = [tuple(int(v) for v in r[4:8]) for r in c]
    m.mats = [int(r[8]) for r in c]
    m.cfaces = [[int(v) for v in r[:4]] for r in c]
    m.faces = [tuple(int(v) for v in r[2:]) for r in f]
    m.fcells = [[int(v) for v in r[:2] if int(v) != INVALID] for r in f]
    return m


# -------------------------------------------------------------------- files
def u64(v):
    return struct.pack('<%dQ' % len(v), *v)


def write_smesh(m, path):
    out = [SNAME.ljust(32, b'\0'), u64([2, m.nc, len(m.faces), len(m.nodes)])]
    for c in range(m.nc):
        out.append(u64(list(m.cfaces[c]) + list(m.cells[c]) + [m.mats[c]]))
    for f, t in enumerate(m.faces):
        cs = list(m.fcells[f]) + [INVALID] * (2 - len(m.fcells[f]))
        out.append(u64(cs + list(t)))
    for p in m.nodes:
        out.append(struct.pack('<3d', *p))
    with open(path, 'wb') as fp:
        fp.write(b''.join(out))


def parts_of(m, part, nparts, rng=None):
    """The partitions of the parallel mesh format, as dictionaries."""
    res = []
    lists = [[c for c in range(m.nc) if part[c] == p] for p in range(nparts)]
    if rng:
        for l in lists: rng.shuffle(l)
    lidx = {c: i for l in lists for i, c in enumerate(l)}
    for p in range(nparts):
        cs = lists[p]
        fs = sorted({f for c in cs for f in m.cfaces[c]})
        ns = sorted({n for c in cs for n in m.cells[c]})
        if rng: rng.shuffle(fs); rng.shuffle(ns)
        ci = {c: i for i, c in enumerate(cs)}
        fi = {f: i for i, f in enumerate(fs)}
        ni = {n: i for i, n in enumerate(ns)}
        cells = [([fi[f] for f in m.cfaces[c]], [ni[n] for n in m.cells[c]], c, m.mats[c]) for c in cs]
        faces = []
        for f in fs:
            k = m.fcells[f]
            mine = [c for c in k if c in ci]
            tri = [ni[n] for n in m.faces[f]]
            if rng: rng.shuffle(tri)
            if len(k) == 1:
                bc, pp, bt = [ci[k[0]], INVALID], [p, INVALID], 0
            elif len(mine) == 2:
                bc, pp, bt = [ci[c] for c in k], [p, p], 2
            else:
                bc, pp, bt = [lidx[c] for c in k], [part[c] for c in k], 1
            faces.append((bc, tri, f, pp, bt))
        nodes = [(tuple(m.nodes[n]), n) for n in ns]
        res.append((cells, faces, nodes))
    return res


def write_pmesh(m, part, nparts, path, rng=None):
    ps = parts_of(m, part, nparts, rng)
    blobs = []
    for cells, faces, nodes in ps:
        b = [u64([len(cells), len(faces), len(nodes)])]
        for f, n, g, mt in cells: b.append(u64(f + n + [g, mt]))
        for bc, t, g, pp, bt in faces: b.append(u64(bc + t + [g] + pp + [bt]))
        for x, g in nodes: b.append(struct.pack('<3dQ', *x, g))
        blobs.append(b''.join(b))
    off = [32 + 16 + 8 * (nparts + 1)]
    for b in blobs: off.append(off[-1] + len(b))
    with open(path, 'wb') as fp:
        fp.write(PNAME.ljust(32, b'\0') + u64([2, nparts]) + u64(off) + b''.join(blobs))


# --------------------------------------------------------------- partitions
def partition(rng, m, n, kind):
    """Cell -> rank.  Kinds: random, slabs, checker (alternating), one (all on
    one rank, the others empty), blocks (grown from seeds)."""
    nc = m.nc
    cen = np.array([m.nodes[list(c)].mean(axis=0) for c in m.cells])
    if kind == 'random':
        return [rng.randrange(n) for _ in range(nc)]
    if kind == 'slabs':
        ax = np.array([rng.uniform(-1, 1) for _ in range(3)])
        o = np.argsort(cen @ ax)
        p = [0] * nc
        for i, c in enumerate(o): p[int(c)] = i * n // nc
        return p
    if kind == 'checker':
        o = sorted(range(nc), key=lambda c: tuple(cen[c]))
        p = [0] * nc
        for i, c in enumerate(o): p[c] = i % n
        return p
    if kind == 'twocolour':                       # as many faces between ranks as can be had simply
        a, p = m.adj(), [None] * nc
        for c0 in range(nc):
            todo = [c0]
            while todo:
                c = todo.pop(0)
                if p[c] is not None: continue
                nb = [x[0] for x in a[c] if x]
                seen = [p[x] for x in nb if p[x] is not None]
                p[c] = min(range(n), key=lambda r: (seen.count(r), r))
                todo += [x for x in nb if p[x] is None]
        return p
    if kind == 'one':
        r = rng.randrange(n)
        return [r] * nc
    if kind == 'blocks':
        seeds = [rng.randrange(nc) for _ in range(n)]
        d = np.array([[np.linalg.norm(cen[c] - cen[s]) for s in seeds] for c in range(nc)])
        return [int(x) for x in d.argmin(axis=1)]
    raise ValueError(kind)
