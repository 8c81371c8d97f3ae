// Between the partitioner and METIS: writes down the graph METIS is given and
// what it answers.  METIS_LOG names the file; METIS_RANDOM, if set, is the seed
// of an arbitrary answer given in place of METIS's.
#include <cstdio>
#include <cstdlib>
#include <metis.h>

typedef int Part(idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t *);

static void row(FILE *f, const char *name, const idx_t *x, idx_t n) {
    fprintf(f, "\"%s\":[", name);
    for (idx_t i = 0; i < n; i++) fprintf(f, "%s%lld", i ? "," : "", (long long)x[i]);
    fprintf(f, "]");
}

static int wrap(Part *real, idx_t *nv, idx_t *nc, idx_t *xadj, idx_t *adj, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np,
                real_t *tp, real_t *ub, idx_t *opt, idx_t *cut, idx_t *part) {
    int rc = METIS_OK;
    const char *r = getenv("METIS_RANDOM");
    FILE *f = getenv("METIS_LOG") ? fopen(getenv("METIS_LOG"), "w") : NULL;
    idx_t n = *nv, e = xadj[n], p = *np;
    if (f) { fprintf(f, "{\"n\":%lld,\"parts\":%lld,", (long long)n, (long long)p); row(f, "xadj", xadj, n + 1); fprintf(f, ","); row(f, "adj", adj, e); }
    if (r) {
        unsigned long long s = strtoull(r, NULL, 10) * 2862933555777941757ULL + 3037000493ULL;
        for (idx_t i = 0; i < n; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; part[i] = (s >> 33) % p; }
        if (cut) *cut = 0;
    } else rc = real(nv, nc, xadj, adj, vw, vs, aw, np, tp, ub, opt, cut, part);
    if (f) { fprintf(f, ",\"ok\":%d,", rc == METIS_OK); row(f, "part", part, n); fprintf(f, "}\n"); fclose(f); }
    return rc;
}

extern "C" {
Part __real_METIS_PartGraphKway, __real_METIS_PartGraphRecursive;
int __wrap_METIS_PartGraphKway(idx_t *a, idx_t *b, idx_t *c, idx_t *d, idx_t *e, idx_t *f, idx_t *g, idx_t *h, real_t *i, real_t *j, idx_t *k, idx_t *l, idx_t *m) { return wrap(__real_METIS_PartGraphKway, a, b, c, d, e, f, g, h, i, j, k, l, m); }
int __wrap_METIS_PartGraphRecursive(idx_t *a, idx_t *b, idx_t *c, idx_t *d, idx_t *e, idx_t *f, idx_t *g, idx_t *h, real_t *i, real_t *j, idx_t *k, idx_t *l, idx_t *m) { return wrap(__real_METIS_PartGraphRecursive, a, b, c, d, e, f, g, h, i, j, k, l, m); }
}
