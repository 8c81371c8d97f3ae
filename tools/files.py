"""Mesh files: made word by word, given to the tools, and read back as words."""
import json, os, re, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib, mesh as M

EDGE = [0, 1, 2, 3, 255, 256, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 63, M.INVALID - 1, M.INVALID]


def split(data):
    """A file as [name, words, rest]."""
    n = max(len(data) - 32, 0) // 8
    return {'name': list(data[:32]), 'words': [data[32 + 8 * i:40 + 8 * i][::-1].hex() for i in range(n)], 'rest': max(len(data) - 32, 0) % 8}


def read(path):
    try:
        with open(path, 'rb') as f: return f.read()
    except FileNotFoundError:
        return None


def word(rng):
    return rng.choice([rng.choice(EDGE), rng.randrange(1000), rng.randrange(1 << 64)])


def coordinate(rng, plain):
    if plain: return struct.unpack('<Q', struct.pack('<d', rng.choice([0.0, -0.0, 1.5, rng.uniform(-1e3, 1e3), rng.uniform(-1e9, 1e9), rng.uniform(-1, 1) * 1e-5])))[0]
    v = rng.choice([rng.randrange(1 << 64), 0, 1 << 63, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7fefffffffffffff, 0x3ff0000000000000])
    if v & 0x7ff0000000000000 == 0x7ff0000000000000 and v & 0xfffffffffffff: v |= 1 << 51     # no signalling NaN
    return v


def random_serial(rng, plain=False):
    """Any words in the layout of a serial mesh."""
    nc, nf, nn = [rng.choice([0, 1, 2, 3, 5, 9]) for _ in range(3)]
    w = [2, nc, nf, nn] + [word(rng) for _ in range(9 * nc + 5 * nf)] + [coordinate(rng, plain) for _ in range(3 * nn)]
    return M.SNAME.ljust(32, b'\0') + M.u64(w)


def random_parallel(rng, n, plain=False):
    parts = []
    for _ in range(n):
        nc, nf, nn = [rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(3)] if rng.random() < 0.8 else (0, 0, 0)
        w = [nc, nf, nn] + [word(rng) for _ in range(10 * nc)]
        for _ in range(nf): w += [word(rng) for _ in range(8)] + [rng.randrange(3)]
        for _ in range(nn): w += [coordinate(rng, plain) for _ in range(3)] + [word(rng)]
        parts.append(w)
    off = [32 + 8 * (3 + n)]
    for p in parts: off.append(off[-1] + 8 * len(p))
    return M.PNAME.ljust(32, b'\0') + M.u64([2, n] + off + sum(parts, []))


def large_parallel(rng, bits):
    """A parallel mesh of two parts, the first of more than 2**bits bytes, almost all of them zero:
    ([(position, word)], bytes); positions count words after the name from 1."""
    kind = rng.randrange(3)
    per = (10, 9, 4)
    n = [rng.randrange(3, 9) for _ in range(3)]
    n[kind] = (1 << bits) // 8 // per[kind] + rng.randrange(5, 50)
    small = [rng.randrange(1, 4) for _ in range(3)]
    start = [2 + 3]
    for c in (n, small): start.append(start[-1] + 3 + sum(a * b for a, b in zip(c, per)))
    w = {1: 2, 2: 2}
    for i, s in enumerate(start): w[3 + i] = 32 + 8 * s
    for s, c in zip(start, (n, small)):
        for i in range(3): w[s + 1 + i] = c[i]
    for s, c in zip(start, (n, small)):
        size = [a * b for a, b in zip(c, per)]
        for q in range(3):
            o = s + 3 + sum(size[:q])
            at = set(rng.randrange(size[q]) for _ in range(12)) | {0, size[q] - 1}
            for b in range(26, bits + 1): at |= {x for x in ((1 << b) // 8 - 1, (1 << b) // 8, (1 << b) // 8 + 1) if x < size[q]}
            for x in at: w[o + 1 + x] = rng.randrange(3) if q == 1 and x % 9 == 8 else word(rng)
    return sorted(w.items()), 32 + 8 * start[-1]


def write_sparse(path, words, size):
    with open(path, 'wb') as f:
        f.write(M.PNAME.ljust(32, b'\0'))
        for p, w in words:
            f.seek(32 + 8 * (p - 1))
            f.write(M.u64([w]))
        f.truncate(size)


def corrupted(rng, data, other):
    """The file with a wrong name or version."""
    k = rng.choice(['name', 'name', 'kind', 'version', 'version', 'short'])
    b = bytearray(data)
    if k == 'name':
        i = rng.randrange(32)
        b[i] = rng.choice([x for x in (b[i] ^ 1, b[i] ^ 0x20, b[i] ^ 0x80, 0, 65) if x != b[i]])
    elif k == 'kind': b[:32] = other.ljust(32, b'\0')
    elif k == 'version': b[32:40] = M.u64([rng.choice([0, 1, 3, 258, (1 << 32) + 2, (1 << 63) + 2, M.INVALID])])
    else: b = b[:rng.choice([0, 1, 31, 32, 39])]
    return bytes(b)


def tool(ctx, name, *args, cwd=None, env={}):
    """Runs a utility; returns (exit status, output)."""
    try:
        r = subprocess.run([ctx.path('bin', name)] + [str(a) for a in args], cwd=cwd or ctx.dir, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return r.returncode, r.stdout


def many(jobs, procs=vlib.NCPU):
    """Calls functions at once."""
    with ThreadPoolExecutor(procs) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def sim_tool(ctx, name, jobs):
    """Runs a utility under simulated message passing.  jobs: [(id, ranks, seed, args)].
    Returns {id: (end event, [output of each rank])}."""
    fn = ctx.path('sim-' + name + '-%d' % ctx.cov['sim_runs'])
    ctx.cov['sim_runs'] += len(jobs)
    with open(fn, 'w') as f:
        for i, ranks, seed, args in jobs:
            f.write('id=%s out=%s stdout=%s ranks=%d threads=1 seed=%d policy=%d mode=%d delay=0 timeout=60 -- %s\n'
                    % (i, ctx.path(i + '.tr'), ctx.path(i + '.out'), ranks, seed, seed % 5, seed % 3, ' '.join(map(str, args))))
    r = subprocess.run([ctx.path('bin', name), fn], cwd=ctx.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = {}
    for line in r.stdout.splitlines():
        k = line.find(' {')
        if k > 0:
            try: out[line[:k]] = json.loads(line[k + 1:])
            except ValueError: pass
    res = {}
    for i, ranks, seed, args in jobs:
        if i not in out: raise vlib.CheckError('no result of %s %s: %s' % (name, i, r.stdout[-500:]))
        txt = []
        for q in range(ranks):
            t = read(ctx.path(i + '.out' + ('.%d' % q if q else '')))
            txt.append(t.decode(errors='replace') if t else '')
        res[i] = (out[i], txt)
    return res


def ok(end):
    return end['verdict'] == 'done' and not any(end['rc'])


# ------------------------------------------------------- printed descriptions
def h(n):
    return '%016x' % int(n)


def x(t):
    return [vlib.fhex(float(v)) for v in t]


KINDS = {'MeshBoundary': 0, 'PartitionBoundary': 1, 'NotBoundary': 2}


def items(txt, what, rest):
    """Numbered items of a description: [(number, fields)]."""
    return [(int(m[0]), m[1:]) for m in re.findall(r'%s (\d+)%s' % (what, rest), txt)]


def described(txt, cells, faces, nodes):
    """A printed mesh, and the numbers its cells, faces and nodes are printed with."""
    one = lambda p: h(re.findall(p, txt)[0])
    return {'mesh': {'nc': one(r'Num Cells: (\d+)'), 'nf': one(r'Num Faces: (\d+)'), 'nn': one(r'Num Nodes: (\d+)'),
                     'cells': cells[1], 'faces': faces[1], 'nodes': nodes[1]}, 'labels': [cells[0], faces[0], nodes[0]]}


def listed(items, record): return [i for i, f in items], [record(f) for i, f in items]


def header(txt):
    """The name and the version printed."""
    n = re.findall(r'^Mesh Format Name: (.*)$', txt, flags=re.M)
    v = re.findall(r'^Mesh Version: (\d+)$', txt, flags=re.M)
    return {'name': list(n[0].encode()) if n else [], 'version': h(v[0]) if v else ''}


def parse_serial(txt):
    """What SerialMeshInfo prints."""
    d = described(txt, listed(items(txt, 'Cell', r'\n\s*Faces (\d+) (\d+) (\d+) (\d+)\n\s*Nodes (\d+) (\d+) (\d+) (\d+)\n\s*Material Index (\d+)'),
                              lambda c: {'f': [h(v) for v in c[0:4]], 'n': [h(v) for v in c[4:8]], 'm': h(c[8])}),
                  listed(items(txt, 'Face', r'\n\s*Cells (\d+) (\d+)\n\s*Nodes (\d+) (\d+) (\d+)'), lambda c: {'c': [h(v) for v in c[0:2]], 'n': [h(v) for v in c[2:5]]}),
                  listed(items(txt, 'Node', r': \((\S+), (\S+), (\S+)\)'), lambda c: {'x': x(c)}))
    return dict(d, **header(txt))


def parse_part(txt):
    return described(txt, listed(items(txt, 'Cell', r'\n\s*Faces (\d+) (\d+) (\d+) (\d+)\n\s*Nodes (\d+) (\d+) (\d+) (\d+)\n\s*globalID: (\d+)\n\s*materialIndex: (\d+)'),
                                 lambda c: {'f': [h(v) for v in c[0:4]], 'n': [h(v) for v in c[4:8]], 'g': h(c[8]), 'm': h(c[9])}),
                     listed(items(txt, 'Face', r'\n\s*Cells (\d+) (\d+)\n\s*Nodes (\d+) (\d+) (\d+)\n\s*globalID: (\d+)\n\s*partition: (\d+) (\d+)\n\s*boundaryType: (\w+)'),
                            lambda c: {'c': [h(v) for v in c[0:2]], 'n': [h(v) for v in c[2:5]], 'g': h(c[5]), 'p': [h(v) for v in c[6:8]], 'b': h(KINDS[c[8]])}),
                     listed(items(txt, 'Node', r'\n\s*coords: \((\S+), (\S+), (\S+)\)\n\s*globalID: (\d+)'), lambda c: {'x': x(c[0:3]), 'g': h(c[3])}))


def parse_parts(txt):
    """Printed parts, each with the number printed."""
    s = re.split(r'^Partition (\d+)$', txt, flags=re.M)
    return [dict(parse_part(p), part=int(i)) for i, p in zip(s[1::2], s[2::2])]


def parse_parallel(txt):
    """What ParallelMeshInfo prints of the file as a whole."""
    n = re.findall(r'^Num partitions (\d+)$', txt, flags=re.M)
    o = re.findall(r'^Bytes Offset\n((?:\s+\d+\n)*)', txt, flags=re.M)
    return dict(header(txt), n=h(n[0]) if n else '', off=[h(v) for v in o[0].split()] if o else [], parts=parse_parts(txt))
