"""C15: the output file."""
import hashlib, os
from concurrent.futures import ThreadPoolExecutor
import runs, suites, vlib
LEVEL = 'model_checking'


def digest(path):
    if not os.path.exists(path): return ''
    with open(path, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()


def place(rng, path, size):
    """What is there before the run."""
    k = rng.choice(['nothing', 'nothing', 'longer', 'shorter', 'same length', 'empty'])
    n = {'nothing': None, 'longer': size + rng.choice([1, 8, 4096]), 'shorter': max(size // 2, 1), 'same length': size, 'empty': 0}[k]
    if n is not None:
        with open(path, 'wb') as f: f.write(rng.randbytes(n))
    return k


def cases(ctx, b, ids, before):
    cs, n = [], 0
    for i in ids:
        p, d, j = b.meta[i]
        ev, writes, na = [], [], 2 * int(d['snOrder']) ** 2
        for e in vlib.events(b.res[i][1]):
            if e['e'] == 'sv': ev.append({'c': e['c'] + 1, 'a': e['a'] + 1, 'p': e['p']})
            elif e['e'] == 'fwrite': writes.append({'r': e['r'], 'off': e['off'], 'n': e['n']})
        f = b.output(i)
        data = b''
        if os.path.exists(f):
            with open(f, 'rb') as h: data = h.read()
        cs.append({'id': i, 'nc': p.m.nc, 'na': na, 'ng': d['nGroups'], 'ev': ev, 'asked': d['OutputFile'] == 'true', 'before': before[i],
                   'after': digest(f), 'bytes': len(data), 'name': list(data[:32]),
                   'words': [data[o:o + 8][::-1].hex() for o in range(0, len(data) - 7, 8)] if d['OutputFile'] == 'true' else [], 'writes': writes})
        n += len(ev) + 2
    return cs, n


def large(ctx, rng, ranks):
    """A run without an iteration that writes more than 2**31 bytes."""
    while True:
        m = runs.small_mesh(rng, 30)
        if 10 <= m.nc <= 40: break
    na, nr = 1800, rng.choice(ranks)
    ng = (1 << (31 if ctx.quick else 32)) // ((m.nc - 1) * na * 32) + 1 + rng.randrange(20)       # the last cell begins beyond it
    b = runs.Batch(ctx, 'large')
    i = b.add(runs.Problem(ctx, rng, m, nr), runs.random_deck(rng, ['OriginalTycho2', 'TraverseGraph'], 30, iterMax=0, nGroups=ng, OutputFile='true', intraAngleP=0, interAngleP=0),
              dict(threads=1, seed=rng.randrange(1 << 30), mode=0, timeout=600, logsolve=0), logmpi=1)
    b.run()
    if b.failed(): return
    f = b.output(i)
    writes = [{'r': e['r'], 'off': e['off'] // 8, 'n': e['n'] // 8} for e in vlib.events(b.res[i][1]) if e['e'] == 'fwrite' and e['n'] > 0]
    some, pos = [], 8
    with open(f, 'rb') as h:
        head = h.read(64)
        zero = bytes(1 << 24)
        while len(some) < 100:
            d = h.read(1 << 24)
            if not d: break
            if d != zero[:len(d)]: some += [[pos + o // 8, d[o:o + 8][::-1].hex()] for o in range(0, len(d), 8) if d[o:o + 8] != zero[:8]][:100]
            pos += len(d) // 8
    c = {'id': i, 'nc': m.nc, 'na': na, 'ng': ng, 'name': list(head[:32]), 'words': [head[o:o + 8][::-1].hex() for o in range(0, 64, 8)],
         'length': os.path.getsize(f) // 8, 'some': some, 'writes': writes}
    os.remove(f)
    r = ctx.tlc('OutputLarge', cases=[c], expect=1)
    ctx.cov['traces_validated_against_impl'] += 1
    ctx.sample(b.describe(i) + ', %d bytes' % (8 * c['length']))
    if not r['ok']: ctx.violation('output file: %s %s: %s' % (r['violated'], r['bad'], b.describe(i)), b.files(i))


def run(ctx):
    os.makedirs(ctx.path('runs'), exist_ok=True)
    ctx.build('sweep')
    ctx.classes()
    with ThreadPoolExecutor(1) as ex:
        far = ex.submit(large, ctx, ctx.rng('large'), [2, 3, 5, 8])
        small(ctx)
        far.result()
    ctx.assumptions = ['parallel file access is simulated on a local file']


def small(ctx):
    for k in range(1 if ctx.quick else 12):
        rng = ctx.rng('runs', k)

        def deck(rng, sw):
            return dict(OutputFile=rng.choice(['true', 'true', 'true', 'false']), nGroups=rng.choice([1, 2, 3, 5]), iterMax=rng.choice([0, 1, 2, 3]),
                        SourceIteration=rng.choice(['true', 'true', 'false']) if sw not in runs.FULL else 'true')
        b = suites.sweep_batch(ctx, rng, 54 if ctx.quick else 108, big=not ctx.quick, deck=deck, full=1, logmpi=1, sn=(2, 2, 4))
        suites.add_large(ctx, rng, b, 6, deck=lambda rng, sw: dict(OutputFile='true'), far=('ranks', 'groups'), full=1, logmpi=1)
        before = {}
        for j in b.jobs:
            p, d, _ = b.meta[j['id']]
            if 'OutputFilename' not in d:     # no output: the name is still given
                d['OutputFilename'] = rng.choice(['off-%s-%d.bin' % (j['id'], k)])
                runs.write_deck(ctx, j['id'], **d)
            if d['SweepType'] in runs.FULL + runs.LAG and d['SourceIteration'] == 'true': j['perturb'] = 1
            f = ctx.path('runs', d['OutputFilename'])
            p.there = place(rng, f, 64 + p.m.nc * 2 * int(d['snOrder']) ** 2 * 4 * d['nGroups'] * 8)
            before[j['id']] = digest(f)
        ids = suites.verify_cases(ctx, b, 'OutputTrace', lambda ids: cases(ctx, b, ids, before), 'output file')
        for i in ids[:3]: ctx.sample(b.describe(i) + ', before: ' + b.meta[i][0].there)
        if ctx.violations: break
