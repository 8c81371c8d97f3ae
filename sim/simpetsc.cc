// Stand-in for PETSc's GMRES(30) on shell matrices, over the simulated message
// passing, with PETSc's convergence rules (relative to the right-hand side).
// Logs every solve: its parameters, iteration count and true residual.
#include "petsc/petsc.h"
#include "sim.hpp"
#include <math.h>
#include <string.h>
#include <vector>
#include <string>
struct SimVec { std::vector<double> a; int n, N; };
struct SimMat { int m, n, M, N; void *ctx; void (*mult)(void); };
struct SimKsp { Mat A; double rtol, atol, dtol; int maxit, its, restart, reason; double rnorm; bool nz; std::string type; };
typedef PetscErrorCode (*MultFn)(Mat, Vec, Vec);
static int nksp = 0;

static std::string hexvec(const std::vector<double> &v) {
    std::string s = "[";
    char b[24];
    for (size_t i = 0; i < v.size(); i++) {
        uint64_t u; memcpy(&u, &v[i], 8);
        snprintf(b, sizeof b, "%s\"%016lx\"", i ? "," : "", (unsigned long)u);
        s += b;
    }
    return s + "]";
}
static std::string hexd(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, 20, "%016lx", (unsigned long)u); return b; }
static double gsum(double x) { double y; MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return y; }
static double dot(Vec a, Vec b) { double s = 0; for (size_t i = 0; i < a->a.size(); i++) s += a->a[i] * b->a[i]; return gsum(s); }
static double norm(Vec a) { return sqrt(dot(a, a)); }
static void logVec(const char *what, int k, int it, Vec x, Vec y) {
    sim::enterNoYield();
    std::string s = std::string("{\"e\":\"") + what + "\",\"r\":" + std::to_string(sim::myRank) + ",\"ksp\":"
        + std::to_string(k) + ",\"it\":" + std::to_string(it) + ",\"x\":" + hexvec(x->a);
    if (y) s += ",\"y\":" + hexvec(y->a);
    sim::logs(s + "}");
    sim::leave();
}
static int applies = 0, depth = 0;
static void mult(KSP k, int id, Vec x, Vec y) {
    applies++;
    depth++;
    if (sim::S->cfg.logvec && depth == 1) {
        sim::enterNoYield();
        sim::logf("{\"e\":\"kmult\",\"r\":%d,\"ksp\":%d}", sim::myRank, id);
        sim::leave();
    }
    ((MultFn)k->A->mult)(k->A, x, y);
    if (sim::S->cfg.logvec && depth == 1) logVec("kapply", id, applies, x, y);
    depth--;
}
extern "C" {
PetscErrorCode PetscInitialize(int *, char ***, const char *, const char *) { return 0; }
PetscErrorCode PetscInitializeNoArguments(void) { return 0; }
PetscErrorCode PetscFinalize(void) { return 0; }
PetscErrorCode PetscPopSignalHandler(void) { return 0; }
PetscErrorCode VecCreate(MPI_Comm, Vec *v) { *v = new SimVec(); (*v)->n = (*v)->N = 0; return 0; }
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N) {
    double s = gsum(n);
    if (N >= 0 && s != N) sim::error("vector sizes: local sizes add up to %g, not %d", s, N);
    v->n = n; v->N = N; v->a.assign(n, 0.0);
    return 0;
}
PetscErrorCode VecCreateMPI(MPI_Comm c, PetscInt n, PetscInt N, Vec *v) { VecCreate(c, v); return VecSetSizes(*v, n, N); }
PetscErrorCode VecSetType(Vec, VecType) { return 0; }
PetscErrorCode VecSetFromOptions(Vec) { return 0; }
PetscErrorCode VecDuplicate(Vec v, Vec *w) { *w = new SimVec(*v); std::fill((*w)->a.begin(), (*w)->a.end(), 0.0); return 0; }
PetscErrorCode VecDestroy(Vec *v) { delete *v; *v = NULL; return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **a) { *a = v->a.data(); return 0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **) { return 0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { *a = v->a.data(); return 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **) { return 0; }
PetscErrorCode VecSet(Vec v, PetscScalar x) { for (double &d : v->a) d = x; return 0; }
PetscErrorCode VecCopy(Vec a, Vec b) { b->a = a->a; return 0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt *n) { *n = v->n; return 0; }
PetscErrorCode VecGetSize(Vec v, PetscInt *n) { *n = v->N; return 0; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt m, PetscInt n, PetscInt M, PetscInt N, void *ctx, Mat *A) {
    double s = gsum(m);
    if (M >= 0 && s != M) sim::error("matrix sizes: local sizes add up to %g, not %d", s, M);
    *A = new SimMat{m, n, M, N, ctx, NULL};
    return 0;
}
PetscErrorCode MatShellSetOperation(Mat A, MatOperation op, void (*f)(void)) { if (op == MATOP_MULT) A->mult = f; return 0; }
PetscErrorCode MatShellSetContext(Mat A, void *c) { A->ctx = c; return 0; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx; return 0; }
PetscErrorCode MatDestroy(Mat *A) { delete *A; *A = NULL; return 0; }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { *k = new SimKsp{NULL, 1e-5, 1e-50, 1e5, 10000, 0, 30, 0, 0, false, "gmres"}; return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat) { k->A = A; return 0; }
PetscErrorCode KSPSetTolerances(KSP k, PetscReal r, PetscReal a, PetscReal d, PetscInt m) {
    if (r != PETSC_DEFAULT) k->rtol = r;
    if (a != PETSC_DEFAULT) k->atol = a;
    if (d != PETSC_DEFAULT) k->dtol = d;
    if (m != PETSC_DEFAULT) k->maxit = m;
    return 0;
}
PetscErrorCode KSPSetType(KSP k, KSPType t) { k->type = t; return 0; }
PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
PetscErrorCode KSPSetUp(KSP) { return 0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b) { k->nz = b == PETSC_TRUE; return 0; }
PetscErrorCode KSPGMRESSetRestart(KSP k, PetscInt n) { k->restart = n; return 0; }
PetscErrorCode KSPGetIterationNumber(KSP k, PetscInt *n) { *n = k->its; return 0; }
PetscErrorCode KSPGetResidualNorm(KSP k, PetscReal *n) { *n = k->rnorm; return 0; }
PetscErrorCode KSPGetConvergedReason(KSP k, KSPConvergedReason *r) { *r = k->reason; return 0; }
PetscErrorCode KSPDestroy(KSP *k) { delete *k; *k = NULL; return 0; }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    int id = nksp++;
    int myApplies = 0;
    double bnorm = norm(b);
    sim::enterNoYield();
    sim::logf("{\"e\":\"kbegin\",\"r\":%d,\"ksp\":%d,\"n\":%d,\"N\":%d,\"rtol\":\"%s\",\"maxit\":%d,\"nz\":%d,\"type\":\"%s\",\"bnorm\":\"%s\",\"deep\":%d,\"o\":%ld}",
        sim::myRank, id, b->n, b->N, hexd(k->rtol).c_str(), k->maxit, k->nz ? 1 : 0, k->type.c_str(), hexd(bnorm).c_str(), depth, sim::printed());
    sim::leave();
    if (sim::S->cfg.logvec && depth == 0) logVec("kb", id, 0, b, x);
    if (!k->nz) std::fill(x->a.begin(), x->a.end(), 0.0);
    SimVec r = *b, w = *b;
    if (sim::S->cfg.probe && depth == 0) {     // the operator may be applied to anything at any time
        SimVec u = *b;
        for (size_t i = 0; i < u.a.size(); i++) {
            uint64_t h[3] = {(uint64_t)sim::myRank, i, (uint64_t)id};
            u.a[i] = 0.5 + (sim::fnv(h, sizeof h) >> 20) / 17592186044416.0;
        }
        mult(k, id, &u, &w);
    }
    int m = k->restart;
    k->its = 0;
    k->reason = 0;
    double r0 = -1, ref = -1;
    for (;;) {
        // residual
        bool zero = !k->nz && k->its == 0;
        if (zero) r.a = b->a;
        else { mult(k, id, x, &w); myApplies++; for (size_t i = 0; i < r.a.size(); i++) r.a[i] = b->a[i] - w.a[i]; }
        double beta = norm(&r);
        if (r0 < 0) { r0 = beta; ref = bnorm > 0 ? bnorm : beta; }
        k->rnorm = beta;
        if (beta <= fmax(k->rtol * ref, k->atol)) { k->reason = 2; break; }
        if (!(beta < k->dtol * ref)) { k->reason = -4; break; }
        if (k->its >= k->maxit) { k->reason = -3; break; }
        std::vector<SimVec> V(1, r);
        for (double &d : V[0].a) d /= beta;
        std::vector<std::vector<double>> H;
        std::vector<double> cs, sn, g(1, beta);
        int j = 0;
        for (; j < m && k->its < k->maxit; j++) {
            mult(k, id, &V[j], &w); myApplies++;
            std::vector<double> h(j + 2);
            for (int i = 0; i <= j; i++) {
                h[i] = dot(&w, &V[i]);
                for (size_t q = 0; q < w.a.size(); q++) w.a[q] -= h[i] * V[i].a[q];
            }
            h[j + 1] = norm(&w);
            bool happy = !(h[j + 1] > 1e-30 * beta);
            SimVec v = w;
            if (!happy) for (double &d : v.a) d /= h[j + 1];
            V.push_back(v);
            for (int i = 0; i < j; i++) {
                double t = cs[i] * h[i] + sn[i] * h[i + 1];
                h[i + 1] = -sn[i] * h[i] + cs[i] * h[i + 1];
                h[i] = t;
            }
            double d = sqrt(h[j] * h[j] + h[j + 1] * h[j + 1]);
            cs.push_back(d > 0 ? h[j] / d : 1); sn.push_back(d > 0 ? h[j + 1] / d : 0);
            h[j] = d; 
            g.push_back(-sn[j] * g[j]);
            g[j] = cs[j] * g[j];
            H.push_back(h);
            k->its++;
            k->rnorm = fabs(g[j + 1]);
            if (happy || k->rnorm <= fmax(k->rtol * ref, k->atol)) { j++; k->reason = 2; break; }
        }
        std::vector<double> y(j);
        for (int i = j - 1; i >= 0; i--) {
            double s = g[i];
            for (int q = i + 1; q < j; q++) s -= H[q][i] * y[q];
            y[i] = H[i][i] != 0 ? s / H[i][i] : 0;
        }
        for (int i = 0; i < j; i++)
            for (size_t q = 0; q < x->a.size(); q++) x->a[q] += y[i] * V[i].a[q];
        if (k->reason) break;
        if (k->its >= k->maxit) { k->reason = -3; break; }
    }
    if (sim::S->cfg.logvec && depth == 0) logVec("kx", id, 0, x, NULL);
    sim::enterNoYield();
    sim::logf("{\"e\":\"kend\",\"r\":%d,\"ksp\":%d,\"its\":%d,\"reason\":%d,\"rnorm\":\"%s\",\"applies\":%d,\"deep\":%d,\"o\":%ld}",
        sim::myRank, id, k->its, k->reason, hexd(k->rnorm).c_str(), myApplies, depth, sim::printed());
    sim::leave();
    return 0;
}
}
