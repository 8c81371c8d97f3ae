// Drives the mesh classes of /repo/src with arguments their tools cannot give
// them, and shows what they hold after reading.
//   scopy IN OUT | sdump IN OUT       serial mesh: read, then write / show
//   pcopy IN OUT | pdump IN OUT       parallel mesh, read sequentially
//   plarge IN OUT, clarge IN OUT      like pdump and cdump, showing only what is not zero
//   split IN PARTS N OUT              PARTS: the partition of every cell
//   cdump IN OUT                      (with message passing) read collectively; rank r writes OUT.r
#include "SerialMesh.hh"
#include "ParallelMesh.hh"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
#include <mpi.h>
#include "Comm.hh"
#endif
using namespace std;

static FILE *o;
static void word(uint64_t v, const char *sep) { fprintf(o, "%s\"%016llx\"", sep, (unsigned long long)v); }
static void real(double d, const char *sep) { uint64_t v; memcpy(&v, &d, 8); word(v, sep); }
template <class T> static void list(const char *key, const T *p, int n)
{
    fprintf(o, "\"%s\":[", key);
    for (int i = 0; i < n; i++) word(p[i], i ? "," : "");
    fprintf(o, "]");
}
static void coords(const double *x)
{
    fprintf(o, "\"x\":[");
    for (int i = 0; i < 3; i++) real(x[i], i ? "," : "");
    fprintf(o, "]");
}
static void number(const char *key, uint64_t v) { fprintf(o, ",\"%s\":", key); word(v, ""); }

static void serial(const SerialMesh &m)
{
    fprintf(o, "{\"nc\":"); word(m.c_numCells, ""); number("nf", m.c_numFaces); number("nn", m.c_numNodes);
    fprintf(o, ",\"cells\":[");
    for (size_t i = 0; i < m.c_cellData.size(); i++) {
        fprintf(o, i ? ",{" : "{"); list("f", m.c_cellData[i].boundingFaces, 4); fprintf(o, ","); list("n", m.c_cellData[i].boundingNodes, 4);
        number("m", m.c_cellData[i].materialIndex); fprintf(o, "}");
    }
    fprintf(o, "],\"faces\":[");
    for (size_t i = 0; i < m.c_faceData.size(); i++) {
        fprintf(o, i ? ",{" : "{"); list("c", m.c_faceData[i].boundingCells, 2); fprintf(o, ","); list("n", m.c_faceData[i].boundingNodes, 3); fprintf(o, "}");
    }
    fprintf(o, "],\"nodes\":[");
    for (size_t i = 0; i < m.c_nodeData.size(); i++) { fprintf(o, i ? ",{" : "{"); coords(m.c_nodeData[i].coords); fprintf(o, "}"); }
    fprintf(o, "]}\n");
}

static void part(const ParallelMesh::PartitionData &p)
{
    fprintf(o, "{\"nc\":"); word(p.numCells, ""); number("nf", p.numFaces); number("nn", p.numNodes);
    fprintf(o, ",\"cells\":[");
    for (size_t i = 0; i < p.cellData.size(); i++) {
        fprintf(o, i ? ",{" : "{"); list("f", p.cellData[i].boundingFaces, 4); fprintf(o, ","); list("n", p.cellData[i].boundingNodes, 4);
        number("g", p.cellData[i].globalID); number("m", p.cellData[i].materialIndex); fprintf(o, "}");
    }
    fprintf(o, "],\"faces\":[");
    for (size_t i = 0; i < p.faceData.size(); i++) {
        fprintf(o, i ? ",{" : "{"); list("c", p.faceData[i].boundingCells, 2); fprintf(o, ","); list("n", p.faceData[i].boundingNodes, 3);
        number("g", p.faceData[i].globalID); fprintf(o, ","); list("p", p.faceData[i].partition, 2); number("b", p.faceData[i].boundaryType); fprintf(o, "}");
    }
    fprintf(o, "],\"nodes\":[");
    for (size_t i = 0; i < p.nodeData.size(); i++) {
        fprintf(o, i ? ",{" : "{"); coords(p.nodeData[i].coords); number("g", p.nodeData[i].globalID); fprintf(o, "}");
    }
    fprintf(o, "]}");
}

// A large part: only the words that are not zero, as [kind, record, field, word].
static const char *sep;
static void some(const char *kind, size_t i, int field, uint64_t w)
{
    if (w == 0) return;
    fprintf(o, "%s[\"%s\",%llu,%d,\"%016llx\"]", sep, kind, (unsigned long long)i, field, (unsigned long long)w);
    sep = ",";
}
static void large(const ParallelMesh::PartitionData &p)
{
    fprintf(o, "{\"nc\":"); word(p.numCells, ""); number("nf", p.numFaces); number("nn", p.numNodes);
    fprintf(o, ",\"sizes\":[%llu,%llu,%llu],\"some\":[", (unsigned long long)p.cellData.size(), (unsigned long long)p.faceData.size(), (unsigned long long)p.nodeData.size());
    sep = "";
    for (size_t i = 0; i < p.cellData.size(); i++) {
        for (int k = 0; k < 4; k++) { some("cell", i, k, p.cellData[i].boundingFaces[k]); some("cell", i, 4 + k, p.cellData[i].boundingNodes[k]); }
        some("cell", i, 8, p.cellData[i].globalID); some("cell", i, 9, p.cellData[i].materialIndex);
    }
    for (size_t i = 0; i < p.faceData.size(); i++) {
        for (int k = 0; k < 2; k++) { some("face", i, k, p.faceData[i].boundingCells[k]); some("face", i, 6 + k, p.faceData[i].partition[k]); }
        for (int k = 0; k < 3; k++) some("face", i, 2 + k, p.faceData[i].boundingNodes[k]);
        some("face", i, 5, p.faceData[i].globalID); some("face", i, 8, p.faceData[i].boundaryType);
    }
    for (size_t i = 0; i < p.nodeData.size(); i++) {
        for (int k = 0; k < 3; k++) { uint64_t v; memcpy(&v, &p.nodeData[i].coords[k], 8); some("node", i, k, v); }
        some("node", i, 3, p.nodeData[i].globalID);
    }
    fprintf(o, "]}");
}

static void show(const string &name) { o = fopen(name.c_str(), "w"); if (!o) { perror(name.c_str()); exit(9); } }

int main(int argc, char **argv)
{
    string cmd = argc > 1 ? argv[1] : "";
#ifndef PARALLEL_MESH_READ_SERIAL_ONLY
    if ((cmd == "cdump" || cmd == "clarge") && argc == 4) {
        ParallelMesh::PartitionData p;
        MPI_Init(&argc, &argv);
        ParallelMesh::readInParallel(argv[2], p);
        for (int r = 0; r < Comm::numRanks(); r++) {
            if (r == Comm::rank()) { show(string(argv[3]) + "." + to_string(r)); if (cmd == "clarge") large(p); else part(p); fclose(o); }
            Comm::barrier();
        }
        MPI_Finalize();
        return 0;
    }
#endif
    if (cmd == "scopy" && argc == 4) { SerialMesh m; m.read(argv[2]); m.write(argv[3]); return 0; }
    if (cmd == "sdump" && argc == 4) { SerialMesh m; m.read(argv[2]); show(argv[3]); serial(m); fclose(o); return 0; }
    if (cmd == "pcopy" && argc == 4) { ParallelMesh m; m.read(argv[2]); m.write(argv[3]); return 0; }
    if (cmd == "pdump" && argc == 4) {
        ParallelMesh m; m.read(argv[2]); show(argv[3]);
        fprintf(o, "{"); list("off", m.c_bytesOffset.data(), m.c_bytesOffset.size()); number("n", m.c_numPartitions); fprintf(o, ",\"parts\":[");
        for (size_t i = 0; i < m.c_partitionData.size(); i++) { if (i) fprintf(o, ","); part(m.c_partitionData[i]); }
        fprintf(o, "]}\n"); fclose(o); return 0;
    }
    if (cmd == "plarge" && argc == 4) {
        ParallelMesh m; m.read(argv[2]); show(argv[3]);
        fprintf(o, "[");
        for (size_t i = 0; i < m.c_partitionData.size(); i++) { if (i) fprintf(o, ","); large(m.c_partitionData[i]); }
        fprintf(o, "]\n"); fclose(o); return 0;
    }
    if (cmd == "split" && argc == 6) {
        SerialMesh s; ParallelMesh m; vector<uint64_t> v; uint64_t x; ifstream f(argv[3]);
        while (f >> x) v.push_back(x);
        s.read(argv[2]); m.createFromSerialMesh(s, v, atoi(argv[4])); m.write(argv[5]); return 0;
    }
    fprintf(stderr, "meshtool: bad arguments\n");
    return 8;
}
