"""C13: refinement."""
import os
import numpy as np
import c11, files, runs, suites, vlib, mesh as M
LEVEL = 'model_checking'
MODELS = [('RefineModelOne', 13), ('RefineModelTwo', 10), ('RefineModelEdge', 10)]


def distort(rng, m):
    """Other sizes, places and shapes; nodes nearly, but not quite, in a plane."""
    k = rng.choice(['', '', 'size', 'place', 'flat', 'noise', 'noise', 'steps', 'exact'])
    x = m.nodes
    if k == 'size': x = x * rng.choice([1e-9, 1e-3, 1e6])
    elif k == 'place': x = x + np.array([rng.choice([0, 1e3, -1e4]) for _ in range(3)])
    elif k == 'flat': x = x * np.array(rng.choice([(1, 1, 0.01), (1, 30, 1), (0.02, 1, 1)]))
    elif k == 'noise': x = x + np.array([[rng.uniform(-1, 1) * rng.choice([1e-16, 1e-14, 1e-13]) * 50 for _ in range(3)] for _ in x])
    elif k == 'steps': x = x + np.array([[rng.randrange(-6, 7) * 0.4e-14 * 50, 0, 0] for _ in x])
    elif k == 'exact': x = np.round(x)
    m.nodes = x
    m.kind += ' ' + k
    return m


def run(ctx):
    ctx.build('utils')
    for cfg, n in MODELS + ([] if ctx.quick else [('RefineModel', 730)]):
        r = ctx.tlc('RefineModel', cfg=cfg, expect=n)
        if not r['ok']: raise vlib.CheckError('the model of refinement itself fails: %s %s' % (r['violated'], r['out'][-2000:]))
    for k in range(1 if ctx.quick else 20):
        rng = ctx.rng('meshes', k)
        cs, jobs = [], []
        for t in range(36 if ctx.quick else 60):
            if t % 9 == 8:      # many nodes nearly, but not quite, in the same planes
                m = M.kuhn(rng, *rng.choice([(2, 2, 2), (2, 2, 1), (3, 2, 1)] if ctx.quick else [(2, 2, 2), (3, 3, 2), (4, 2, 1)]), lo=0., h=1 / 3.)
                e = rng.choice([1e-14, 1e-14, 3e-15, 3e-14, 1e-13])
                m.nodes = m.nodes + np.array([[rng.uniform(-1, 1) * e for _ in range(3)] for _ in m.nodes])
                m = m.shuffled(rng)
                m.kind = 'planes'
            else: m = distort(rng, c11.any_mesh(rng, not ctx.quick))
            if (m.volumes() <= 0).any(): continue
            i = 'refine%d-%d' % (k, t)
            M.write_smesh(m, ctx.path(i + '.0.smesh'))

            def go(i=i, m=m):
                for g in range(2 if m.nc <= 2 else 1):
                    s, o = ctx.path('%s.%d.smesh' % (i, g)), ctx.path('%s.%d.smesh' % (i, g + 1))
                    rc, txt = files.tool(ctx, 'RefineSerialMesh', s, o)
                    d = files.read(o)
                    if rc or d is None: ctx.violation('refining %s (%s) fails: %s %s' % (i, m.kind, rc, txt[-300:]), [s]); return
                    f = files.split(d)
                    cs.append({'id': '%s.%d' % (i, g), 'old': files.split(files.read(s))['words'], 'new': f['words'], 'name': f['name'], 'rest': f['rest'], 'kind': m.kind})
            jobs.append(go)
        files.many(jobs)
        cs.sort(key=lambda c: -len(c['new']))
        path = {c['id']: [ctx.path(c['id'] + '.smesh'), ctx.path('%s.%d.smesh' % (c['id'][:-2], int(c['id'][-1]) + 1))] for c in cs}
        parts = [(c, sum(int(x['old'][1], 16) + 1 for x in c)) for c in (cs[i::6] for i in range(6)) if c]
        for (c, n), r in zip(parts, ctx.tlc_many('RefineCheck', parts)):
            ctx.cov['traces_validated_against_impl'] += len(c)
            if r['ok']: continue
            for t in r['bad']:
                i = t.split('"')[1]
                ctx.violation('refinement: %s (%s)' % (' '.join(t.split()), [x['kind'] for x in c if x['id'] == i]), path[i])
            if not r['bad']: ctx.violation('refinement: %s violated\n%s' % (r['violated'], r['out'][-2000:]))
        ctx.cov['refinements'] = ctx.cov.get('refinements', 0) + len(cs)
        for c in cs[::8]: ctx.sample('%s (%s): %d cells' % (c['id'], c['kind'], int(c['old'][1], 16)))
        if ctx.violations: break
        for i in path:
            for f in path[i]:
                if os.path.exists(f): os.remove(f)
