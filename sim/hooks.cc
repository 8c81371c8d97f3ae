// The observation hooks of /repo/src/Verif.hh: one trace event each, written
// while the task holds the baton, in the order in which things happen.
#include "Verif.hh"
#include "Global.hh"
#include "Mat.hh"
#include "TychoMesh.hh"
#include "Quadrature.hh"
#include "SweepSchedule.hh"
#include "sim.hpp"
#include <algorithm>
#include <string.h>
#include <string>
#include <vector>
using std::string;
using std::to_string;

static string hexd(double d) {
    uint64_t u; memcpy(&u, &d, 8);
    char b[20]; snprintf(b, 20, "%016lx", (unsigned long)u);
    return b;
}
static string q(const string &s) { return "\"" + s + "\""; }
static string qd(double d) { return q(hexd(d)); }
static string num(UINT x) { return x == UINT64_MAX ? "-1" : to_string(x); }
static string nodeKey(UINT node) {
    string s;
    for (int d = 0; d < 3; d++) s += hexd(g_tychoMesh->getNodeCoord(node, d) + 0.0);
    return s;
}
static bool nodeLess(UINT a, UINT b) {
    for (int d = 0; d < 3; d++) {
        double x = g_tychoMesh->getNodeCoord(a, d), y = g_tychoMesh->getNodeCoord(b, d);
        if (x != y) return x < y;
    }
    return false;
}
static void emit(const string &s) { sim::logs(s); }

// Vertices of a face of a cell, in an order that both neighbours agree on.
static std::vector<unsigned char> order;
static void faceOrder(UINT cell, UINT face, int v[3]) {
    if (order.empty()) {
        order.resize(g_nCells * 12);
        for (UINT c = 0; c < g_nCells; c++)
            for (UINT f = 0; f < 4; f++) {
                int k = 0, w[3];
                for (int i = 0; i < 4; i++) if (i != (int)f) w[k++] = i;
                std::sort(w, w + 3, [&](int a, int b) {
                    return nodeLess(g_tychoMesh->getCellNode(c, a), g_tychoMesh->getCellNode(c, b)); });
                for (int i = 0; i < 3; i++) order[c * 12 + f * 3 + i] = w[i];
            }
    }
    for (int i = 0; i < 3; i++) v[i] = order[cell * 12 + face * 3 + i];
}
static string hashOf(const std::vector<double> &v) {
    bool zero = true;
    for (double d : v) if (!(d == 0)) zero = false;
    if (zero) return "\"0\"";
    char b[24];
    snprintf(b, sizeof b, "\"%016lx\"", (unsigned long)sim::fnv(v.data(), 8 * v.size()));
    return b;
}

static string mpiName() {
    return g_mpiType == MPIType_TychoTwoSided ? "TychoTwoSided" : g_mpiType == MPIType_CapsaicinTwoSided ? "CapsaicinTwoSided" : "?";
}
static string sweepName() {
#define N(x) if (g_sweepType == SweepType_##x) return #x;
    N(OriginalTycho1) N(OriginalTycho2) N(TraverseGraph) N(PBJ) N(PBJOuter) N(Schur) N(SchurOuter) N(PBJSI) N(SchurKrylov)
#undef N
    return "?";
}
static string gaussName() {
#define N(x) if (g_gaussElim == GaussElim_##x) return #x;
    N(Original) N(NoPivot) N(CramerGlu) N(CramerIntel)
#undef N
    return "?";
}
namespace Verif {
void init() {
    sim::enter();
    string s;
    s = "{\"e\":\"quad\",\"r\":" + to_string(sim::myRank) + ",\"n\":" + to_string(g_nAngles) + ",\"d\":[";
    for (UINT a = 0; a < g_nAngles; a++) {
        std::vector<double> o = g_quadrature->getOmega(a);
        s += string(a ? "," : "") + "{\"o\":[" + qd(o[0]) + "," + qd(o[1]) + "," + qd(o[2]) + "],\"w\":"
           + qd(g_quadrature->getWt(a)) + "}";
    }
    emit(s + "]}");
    s = "{\"e\":\"deck\",\"r\":" + to_string(sim::myRank) + ",\"snOrder\":" + num(g_snOrder) + ",\"iterMax\":" + num(g_iterMax) +
        ",\"errMax\":" + qd(g_errMax) + ",\"maxCellsPerStep\":" + num(g_maxCellsPerStep) + ",\"intraAngleP\":" + num(g_intraAngleP) +
        ",\"interAngleP\":" + num(g_interAngleP) + ",\"nGroups\":" + num(g_nGroups) + ",\"outputFile\":" + (g_outputFile ? "true" : "false") +
        ",\"outputFilename\":" + q(g_outputFilename) + ",\"ddIterMax\":" + num(g_ddIterMax) + ",\"ddErrMax\":" + qd(g_ddErrMax) +
        ",\"sourceIteration\":" + (g_useSourceIteration ? "true" : "false") + ",\"mpiType\":" + q(mpiName()) + ",\"sweepType\":" +
        q(sweepName()) + ",\"gaussElim\":" + q(gaussName()) + "}";
    emit(s);
    s = "{\"e\":\"mesh\",\"r\":" + to_string(sim::myRank) + ",\"nc\":" + to_string(g_nCells) + ",\"na\":" +
        to_string(g_nAngles) + ",\"ng\":" + to_string(g_nGroups) + ",\"nt\":" + to_string(g_nThreads);
    if (sim::S->cfg.logmesh) {
        s += ",\"cells\":[";
        for (UINT c = 0; c < g_nCells; c++) {
            s += string(c ? "," : "") + "{\"g\":" + num(g_tychoMesh->getLGCell(c)) + ",\"m\":" +
                num(g_tychoMesh->getCellMaterial(c)) + ",\"st\":" + qd(g_sigmaT[c]) + ",\"ss\":" + qd(g_sigmaS[c]) +
                ",\"vol\":" + qd(g_tychoMesh->getCellVolume(c)) + ",\"v\":[";
            for (int v = 0; v < 4; v++) s += string(v ? "," : "") + q(nodeKey(g_tychoMesh->getCellNode(c, v)));
            s += "],\"f\":[";
            for (UINT f = 0; f < 4; f++) {
                UINT ac = g_tychoMesh->getAdjCell(c, f), ar = g_tychoMesh->getAdjRank(c, f);
                bool bdry = ac == TychoMesh::BOUNDARY_FACE;
                s += string(f ? "," : "") + "{\"ac\":" + (bdry ? "-1" : num(g_tychoMesh->getLGCell(ac))) +
                    ",\"ar\":" + num(ar);
                UINT sd = g_tychoMesh->getSide(c, f);
                s += ",\"gs\":" + (bdry ? num(g_tychoMesh->getLGSide(sd)) : string("-1")) +
                     ",\"sc\":" + (bdry ? num(g_tychoMesh->getLGCell(g_tychoMesh->getSideCell(sd))) : string("-1")) +
                     ",\"rt\":" + (bdry ? (g_tychoMesh->getGLSide(g_tychoMesh->getLGSide(sd)) == sd ? "1" : "0") : "1");
                s += ",\"area\":" + qd(g_tychoMesh->getFaceArea(c, f)) + ",\"f2c\":[";
                for (int i = 0; i < 3; i++) s += string(i ? "," : "") + num(g_tychoMesh->getFaceToCellVrtx(c, f, i));
                s += "],\"c2f\":[";
                for (int i = 0; i < 4; i++) s += string(i ? "," : "") + (i == (int)f ? "-1" : num(g_tychoMesh->getCellToFaceVrtx(c, f, i)));
                s += "],\"nv\":[";
                for (int i = 0; i < 3; i++) s += string(i ? "," : "") + (bdry ? "-1" : num(g_tychoMesh->getNeighborVrtx(c, f, i)));
                // the other ways to ask for the neighbour
                UINT af = g_tychoMesh->getAdjFace(c, f);
                s += "],\"af\":" + (bdry ? "-1" : num(af));
                if (bdry && ar != TychoMesh::BAD_RANK)
                    s += ",\"xc\":" + num(g_tychoMesh->getAdjCellFromSide(sd)) + ",\"xf\":" + num(g_tychoMesh->getAdjFaceFromSide(sd));
                else s += ",\"xc\":-1,\"xf\":-1";
                s += ",\"on\":[";
                for (UINT a = 0; a < g_nAngles; a++) s += string(a ? "," : "") + qd(g_tychoMesh->getOmegaDotN(a, c, f));
                s += "],\"oi\":[";
                for (UINT a = 0; a < g_nAngles; a++)
                    s += string(a ? "," : "") + (g_tychoMesh->isOutgoing(a, c, f) ? "1" : "0");
                s += "],\"ii\":[";
                for (UINT a = 0; a < g_nAngles; a++)
                    s += string(a ? "," : "") + (g_tychoMesh->isIncoming(a, c, f) ? "1" : "0");
                s += "]}";
            }
            s += "]}";
        }
        s += "]";
    }
    emit(s + "}");
    sim::leave();
}
void schedule() {
    sim::enter();
    for (UINT g = 0; g < g_nAngleGroups; g++) {
        const SweepSchedule &sc = *g_sweepSchedule[g];
        string s = "{\"e\":\"sched\",\"r\":" + to_string(sim::myRank) + ",\"g\":" + to_string(g) + ",\"steps\":[";
        for (UINT i = 0; i < sc.nSteps(); i++) {
            s += string(i ? "," : "") + "{\"w\":[";
            bool first = true;
            for (const SweepSchedule::Work &w : sc.getWork(i)) {
                s += string(first ? "" : ",") + "[" + num(g_tychoMesh->getLGCell(w.getCell())) + "," + num(w.getAngle()) + "]";
                first = false;
            }
            s += "],\"s\":[";
            first = true;
            for (UINT p : sc.getSendProcs(i)) { s += string(first ? "" : ",") + num(p); first = false; }
            s += "],\"v\":[";
            first = true;
            for (UINT p : sc.getRecvProcs(i)) { s += string(first ? "" : ",") + num(p); first = false; }
            s += "]}";
        }
        emit(s + "]}");
    }
    sim::leave();
}
void priorities(const Mat2<UINT> &p) {
    sim::enter();
    string s = "{\"e\":\"prio\",\"r\":" + to_string(sim::myRank) + ",\"p\":[";
    for (UINT c = 0; c < g_nCells; c++) {
        s += string(c ? "," : "") + "{\"c\":" + num(g_tychoMesh->getLGCell(c)) + ",\"a\":[";
        for (UINT a = 0; a < g_nAngles; a++) {
            UINT x = p(c, a);
            s += string(a ? ",\"" : "\"") + to_string(x) + "\"";
        }
        s += "]}";
    }
    emit(s + "]}");
    sim::leave();
}
void sweepBegin(const char *kind) {
    sim::enter();
    sim::logf("{\"e\":\"sb\",\"r\":%d,\"k\":\"%s\",\"o\":%ld}", sim::myRank, kind, sim::printed());
    sim::leave();
}
void sweepEnd(const char *kind) {
    sim::enter();
    sim::logf("{\"e\":\"se\",\"r\":%d,\"k\":\"%s\",\"o\":%ld}", sim::myRank, kind, sim::printed());
    sim::leave();
}
void exchanged() {
    sim::enter();
    sim::logf("{\"e\":\"xc\",\"r\":%d,\"o\":%ld}", sim::myRank, sim::printed());
    sim::leave();
}
// Adds to every result a small value that no other (cell, angle, vertex, group)
// has, so that no two values of the run are equal by symmetry.  perturb = 1 + k: the
// values of group g are those of group g + k with perturb = 1.
static void perturb(UINT cell, UINT angle, const Mat2<double> &psi) {
    Mat2<double> &p = const_cast<Mat2<double> &>(psi);
    for (UINT v = 0; v < 4; v++)
        for (UINT g = 0; g < g_nGroups; g++) {
            uint64_t k[4] = {g_tychoMesh->getLGCell(cell), angle, v, g + sim::S->cfg.perturb - 1};
            p(v, g) += 1e-3 * (1 + (sim::fnv(k, sizeof k) >> 40) / 16777216.0);
        }
}
void solved(const UINT cell, const UINT angle, const double sigmaTotal, const Mat3<double> &pb,
            const Mat2<double> &src, const Mat2<double> &psi) {
    if (sim::S->cfg.perturb) perturb(cell, angle, psi);
    if (!sim::S->cfg.logsolve) { sim::enter(); sim::S->nsolves++; sim::leave(); return; }
    string s = "{\"e\":\"sv\",\"r\":" + to_string(sim::myRank) + ",\"t\":" + to_string(sim::ompThread) +
        ",\"c\":" + num(g_tychoMesh->getLGCell(cell)) + ",\"a\":" + to_string(angle) + ",\"i\":[";
    std::vector<double> v(3 * g_nGroups);
    for (UINT f = 0; f < 4; f++) {
        int w[3]; faceOrder(cell, f, w);
        for (int i = 0; i < 3; i++)
            for (UINT g = 0; g < g_nGroups; g++)
                v[i * g_nGroups + g] = pb(g_tychoMesh->getCellToFaceVrtx(cell, f, w[i]), f, g) + 0.0;
        s += (f ? "," : "") + hashOf(v);
    }
    s += "],\"o\":[";
    for (UINT f = 0; f < 4; f++) {
        int w[3]; faceOrder(cell, f, w);
        for (int i = 0; i < 3; i++)
            for (UINT g = 0; g < g_nGroups; g++) v[i * g_nGroups + g] = psi(w[i], g) + 0.0;
        s += (f ? "," : "") + hashOf(v);
    }
    s += "]";
    if (sim::S->cfg.full) {
        s += ",\"sg\":" + qd(sigmaTotal) + ",\"q\":[";
        for (UINT x = 0; x < 4; x++) {
            s += x ? ",[" : "[";
            for (UINT g = 0; g < g_nGroups; g++) s += string(g ? "," : "") + qd(src(x, g));
            s += "]";
        }
        s += "],\"p\":[";
        for (UINT x = 0; x < 4; x++) {
            s += x ? ",[" : "[";
            for (UINT g = 0; g < g_nGroups; g++) s += string(g ? "," : "") + qd(psi(x, g));
            s += "]";
        }
        s += "]";
        if (sim::S->cfg.full > 1) {
            // inflow by face and cell vertex (the entry for the opposite vertex is unused)
            s += ",\"b\":[";
            for (UINT f = 0; f < 4; f++) {
                s += f ? ",[" : "[";
                for (UINT x = 0; x < 4; x++) {
                    s += x ? ",[" : "[";
                    for (UINT g = 0; g < g_nGroups; g++)
                        s += string(g ? "," : "") + (x == f ? qd(0) : qd(pb(g_tychoMesh->getCellToFaceVrtx(cell, f, x), f, g)));
                    s += "]";
                }
                s += "]";
            }
            s += "]";
        }
    }
    s += "}";
    sim::enter();
    sim::S->nsolves++;
    emit(s);
    sim::leave();
}
}
