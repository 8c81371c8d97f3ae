"""C14: input deck."""
import itertools, os, re
import files, runs, suites, vlib, mesh as M
LEVEL = 'model_checking'
FIELDS = dict(snOrder='snorder', iterMax='itermax', errMax='errmax', maxCellsPerStep='maxcellsperstep', intraAngleP='intraanglep', interAngleP='interanglep',
              nGroups='ngroups', outputFile='outputfile', outputFilename='outputfilename', ddIterMax='dd_itermax', ddErrMax='dd_errmax',
              sourceIteration='sourceiteration', mpiType='mpitype', sweepType='sweeptype', gaussElim='gausselim')
INTS = ['snOrder', 'iterMax', 'maxCellsPerStep', 'intraAngleP', 'interAngleP', 'nGroups', 'DD_IterMax']
REALS = ['errMax', 'sigmaT1', 'sigmaS1', 'sigmaT2', 'sigmaS2', 'DD_ErrMax']
BOOLS = ['OutputFile', 'SourceIteration']
OPTIONS = dict(MPIType=['TychoTwoSided', 'CapsaicinTwoSided'], SweepType=runs.FULL + runs.LAG + runs.FREE, GaussElim=['Original', 'NoPivot', 'CramerGlu', 'CramerIntel'])
WORDS = ['abc', '5a', 'a5', '0x5', '1e', 'e5', '1.2.3', '--1', '+-1', '1-', '1_0', '.', '+', '-', 'true', '5.0', '1e3', '2.5', '99999999999', '1e400', '-1e400', 'TychoTwoSided',
         '2147483648', '4294967298', '-2147483649', '18446744073709551618', '0b1', '1f', '1.0f', '1d3', '-', 'TRUE', 'yes', 'no', 'on', '1', '0', '-1', 't', 'tru', 'truee', 'f']


def good_values(rng):
    real = lambda: rng.choice([rng.choice(['0.5', '1', '1.', '.25', '1e-3', '1E+2', '+0.125', '3.0000000000000001', '0.1', '123456789.123456789', '1e-10', '00.5', '7e0', '0']), '%.17g' % rng.uniform(0, 2), '%.3e' % rng.uniform(0, 9)])
    return dict(snOrder=rng.choice(['2', '4', '+2', '02', '002', '6']), iterMax=rng.choice(['0', '1', '2', '10', '2147483647', '0000003']), errMax=real(),
                maxCellsPerStep=rng.choice(['1', '7', '100', '2147483647', '0010']), intraAngleP=str(rng.randrange(5)), interAngleP=str(rng.randrange(3)),
                nGroups=rng.choice(['1', '2', '3', '04']), sigmaT1=real(), sigmaS1=real(), sigmaT2=real(), sigmaS2=real(),
                OutputFile=rng.choice(['true', 'false', 'TRUE', 'False', 'tRuE']), OutputFilename=rng.choice(['psi.bin', 'a', 'true', '7', '-x_.+', 'Psi.Out']),
                SourceIteration=rng.choice(['true', 'false', 'True', 'FALSE']), MPIType=rng.choice(OPTIONS['MPIType']),
                DD_IterMax=rng.choice(['0', '1', '5', '2147483647']), DD_ErrMax=real(), SweepType=rng.choice(OPTIONS['SweepType']), GaussElim=rng.choice(OPTIONS['GaussElim']))


def anycase(rng, k):
    t = rng.randrange(4)
    return k if t < 2 else k.upper() if t == 2 else ''.join(c.upper() if rng.random() < .5 else c.lower() for c in k)


def blanks(rng, least):
    return ''.join(rng.choice(' \t') for _ in range(rng.choice([least, least, least, 1, 2, 4])))


def line(rng, k, v):
    c = rng.choice(['', '', '', '#', '# note', '#a b', '#=,"!', '## snOrder 4', '\t# x#y'])
    return blanks(rng, 0) + anycase(rng, k) + (blanks(rng, 1) or ' ') + v + blanks(rng, 0) + c


def filler(rng):
    return rng.choice(['', '', ' ', '\t \t', '#', '# snOrder 8', '#####', '  # a = b, "c" (d) \xe9', 'unused 5', 'Other_Key.x +value', '#iterMax abc'])


def broken(rng, k, v):
    """A line that is no entry."""
    return rng.choice([k, k + ' ', k + ' ' + v + ' ' + v, k + '=' + v, k + ' = ' + v, k + ':' + v, k + ' "' + v + '"', k + ' ' + v + ';', k + ' #' + v, '=' + v, k + v, k + ',' + v,
                       k + ' ' + v + ' x # c', '!' + k + ' ' + v, k + ' ' + v + '\0', '\0', k + ' \xe9', '(' + k + ')', k + '\\ ' + v, '&', '"' + k + '" ' + v, '// ' + k, k + ' ' + v + '//'])


def deck(rng, kind):
    v = good_values(rng)
    keys = list(v)
    hit = rng.choice(keys)
    if kind == 'missing': keys.remove(hit)
    elif kind == 'value':
        hit = rng.choice(INTS + INTS + REALS + BOOLS + list(OPTIONS))
        if hit in INTS: v[hit] = rng.choice(WORDS + ['-1', '0', '3', '5', '31', '32', '-2', '4294967296', v[hit] + '.', v[hit] + '.0', v[hit] + 'e0', v[hit] + 'a'])
        elif hit in REALS: v[hit] = rng.choice([w for w in WORDS if w != '0x5'] + ['1,5'[0:1] + '.5.', '1e5e', '1e+', '.e1', '1.5-', v[hit] + 'x', v[hit] + '.e', '1e999'])
        elif hit in BOOLS: v[hit] = rng.choice(WORDS + ['true.', 'falsee', '+true', 'T', 'fals', 'truefalse'])
        else:
            o = rng.choice(OPTIONS[hit])
            v[hit] = rng.choice(WORDS + [o.lower(), o.upper(), o[:-1], o + 'x', o + '.', o[1:], rng.choice(OPTIONS[rng.choice(list(OPTIONS))]), o + o])
        if hit == 'nGroups' and v[hit].isdigit() and int(v[hit]) > 40: v[hit] = '2147483648'
        if hit == 'snOrder' and v[hit].isdigit() and int(v[hit]) in range(8, 31, 2): v[hit] = '8'
    order = rng.choice(['same', 'shuffled', 'shuffled', 'reverse'])
    if order == 'shuffled': rng.shuffle(keys)
    elif order == 'reverse': keys.reverse()
    ls = [line(rng, k, v[k]) for k in keys]
    if kind == 'double': ls.insert(rng.randrange(len(ls) + 1), line(rng, hit, rng.choice([v[hit], v[hit], good_values(rng)[hit]])))
    elif kind == 'other double':
        for k in ('Extra', 'eXTRA'): ls.insert(rng.randrange(len(ls) + 1), line(rng, k, '1'))
    elif kind == 'broken': ls.insert(rng.randrange(len(ls) + 1), broken(rng, hit if rng.random() < .5 else 'unused', v[hit]))
    elif kind == 'broken entry': ls[keys.index(hit)] = broken(rng, hit, v[hit])
    elif kind == 'commented': ls[keys.index(hit)] = '#' + ls[keys.index(hit)]
    for _ in range(rng.choice([0, 1, 3, 8])): 
        f = filler(rng)
        if f and f.split('#')[0].strip() and any(f.split()[0] in x for x in ls): continue
        ls.insert(rng.randrange(len(ls) + 1), f)
    t = '\n'.join(ls)
    return t + rng.choice(['\n', '\n', '', '\n\n\n', '\n# end'])


def run(ctx):
    for k in range(1 if ctx.quick else 20):
        rng = ctx.rng('decks', k)
        texts = []
        kinds = ['good'] * 4 + ['missing', 'value', 'value', 'value', 'value', 'double', 'double', 'other double', 'broken', 'broken', 'broken entry', 'commented']
        for n in range(480 if ctx.quick else 960): texts.append((kinds[n % len(kinds)], deck(rng, kinds[n % len(kinds)])))
        # every short line, in a good deck
        good = vlib.deck_text().rstrip('\n').split('\n')
        for n in (1, 2, 3, 4):
            for t in itertools.product('aZ \t#.=' if n < 4 else 'a #=', repeat=n):
                if ctx.quick and n == 3 and rng.random() < 0.6 or n == 4 and rng.random() < (0.7 if ctx.quick else 0): continue
                if k and n < 4: continue
                ls = list(good)
                ls.insert(rng.randrange(len(ls) + 1), ''.join(t))
                texts.append(('line', '\n'.join(ls) + '\n'))
        texts += [('empty', ''), ('no line end', 'snOrder'), ('blank', ' \n\t\n#')]
        m = M.delaunay(rng, 5, kind=1)
        while m.nc != 2: m = M.delaunay(rng, 5, kind=1)
        m.mats = [1, 2]
        m.kind = 'two cells'
        ps = [runs.Problem(ctx, rng, m, n, part=[0, n - 1]) for n in (1, 2)]
        jobs, cs = [], []
        for n, (kind, t) in enumerate(texts):
            i = 'd%d-%d' % (k, n)
            f = ctx.path(i + '.deck')
            with open(f, 'wb') as o: o.write(t.encode('latin1'))
            p = ps[0] if n % 4 else ps[1]
            jobs.append(dict(id=i, mesh=p.file, deck=f, ranks=p.nr, threads=1, seed=n, policy=0, mode=0, delay=0, timeout=20, maxsteps=400, logmesh=1, logsolve=0, nr=p.nr, kind=kind))
        jobs.append(dict(jobs[0], id='d%d-missing' % k, deck=ctx.path('no such.deck'.replace(' ', '-')), kind='no deck'))
        texts.append(('no deck', ''))
        meta = {j['id']: (j.pop('kind'), j.pop('nr'), j['deck']) for j in jobs}
        res = ctx.run_jobs(jobs)
        for j, (kind, t) in zip(jobs, texts):
            end, tr = res[j['id']]
            got = {}
            said = ''.join((files.read(tr[:-3] + '.out' + x) or b'').decode(errors='replace') for x in ('', '.1'))
            sigma = {}
            solved = False
            for e in vlib.events(tr):
                if e['e'] == 'deck': got[e['r']] = {FIELDS[a]: e[a] for a in FIELDS}
                elif e['e'] == 'mesh':
                    for c in e['cells']: sigma[c['m']] = c
                elif e['e'] == 'sv': solved = True
            ranks = meta[j['id']][1]
            refused = len(got) < ranks
            if refused and (got or solved): ctx.violation('ranks disagree on the deck, or sweep before refusing it: %s' % j['id'], [j['deck']])
            if refused and files.ok(end): ctx.violation('a deck is not used, and no error is given: %s' % j['id'], [j['deck']])
            if not refused:
                for g in got.values():
                    for a in ('snorder', 'itermax', 'maxcellsperstep', 'intraanglep', 'interanglep', 'ngroups', 'dd_itermax'): g[a] = str(g[a])
                    for x in (1, 2):
                        g['sigmat%d' % x], g['sigmas%d' % x] = sigma[x]['st'], sigma[x]['ss']
            cs.append({'id': j['id'], 'deck': list(t.encode('latin1')), 'refused': refused, 'said': sorted({int(x) for x in re.findall(r'line (\d+)', said)}), 'got': [] if refused else [got[r] for r in range(ranks)]})
        parts = [(c, sum(1 + 1 + len(lines(x['deck'])) for x in c)) for c in (cs[i::6] for i in range(6))]
        for (c, n), r in zip(parts, ctx.tlc_many('DeckTrace', parts)):
            ctx.cov['traces_validated_against_impl'] += len(c)
            if r['ok']: continue
            for t in r['bad']:
                i = t.split('"')[1]
                ctx.violation('deck: %s (%s)' % (' '.join(t.split()), meta[i][0]), [meta[i][2]])
            if not r['bad']: ctx.violation('deck: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
        ctx.cov['decks'] = ctx.cov.get('decks', 0) + len(cs)
        ctx.cov['refused'] = ctx.cov.get('refused', 0) + sum(c['refused'] for c in cs)
        for c in cs[5:480:60]: ctx.sample('%s (%s): %s' % (c['id'], meta[c['id']][0], 'refused' if c['refused'] else 'accepted'))
        if ctx.violations: break
        for j in jobs:
            if os.path.exists(j['deck']): os.remove(j['deck'])
    ctx.assumptions = ['not judged: infinite, undefined, hexadecimal and underflowing numbers, blanks other than space and tab, line ends other than LF',
                       'entries the program does not use are allowed']


def lines(d):
    t = bytes(d).split(b'\n')
    return t[:-1] if t and t[-1] == b'' else t
