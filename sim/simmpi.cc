// Simulated message passing: point to point with eager or rendezvous
// completion and delayed delivery, collectives, files.  Every rule a correct
// program must obey (matching types and lengths, untouched send buffers, equal
// collectives, nothing left open) is checked and reported through sim::error.
#include "mpi.h"
#include "sim.hpp"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
#include <string>
using namespace sim;

struct Req {
    int kind;               // 0 free 1 send 2 recv
    int msg, post;
    void *buf;
    const void *sbuf;
    uint64_t len, hash;
    bool flagged;
};
static std::vector<Req> reqs;   // handle = index + 1
static int nopen;

static int dtsize(int dt) {
    switch (dt) {
    case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR:
    case MPI_C_BOOL: return 1;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    default: return 8;
    }
}
static const char *dtname(int dt) {
    switch (dt) {
    case MPI_BYTE: return "byte"; case MPI_CHAR: return "char";
    case MPI_DOUBLE: return "double";
    case MPI_UINT64_T: case MPI_UNSIGNED_LONG: return "u64";
    case MPI_INT: return "int"; default: return "other";
    }
}
static bool dtcompat(int a, int b) {
    auto n = [](int d) { return d == MPI_UNSIGNED_LONG || d == MPI_UNSIGNED_LONG_LONG ? MPI_UINT64_T
                       : d == MPI_LONG || d == MPI_LONG_LONG ? MPI_INT64_T : d; };
    return n(a) == n(b);
}
static std::string hx(uint64_t h) { char b[20]; snprintf(b, 20, "%016lx", (unsigned long)h); return b; }
static bool visible(const Msg &m) { return m.visibleAt <= S->steps; }

static bool matches(const Post &p, const Msg &m) {
    return p.rank == m.dst && (p.src == MPI_ANY_SOURCE || p.src == m.src)
        && (p.tag == MPI_ANY_TAG || p.tag == m.tag);
}
namespace sim {
// Matches visible messages with posted receives.  Per (src,dst) order is kept
// because messages are scanned in send order and become visible in that order.
void progressMatches() {
    while (S->inflightHead < S->nmsgs && M[S->inflightHead].matched) S->inflightHead++;
    for (int i = S->inflightHead; i < S->nmsgs; i++) {
        Msg &m = M[i];
        if (m.matched || !visible(m)) continue;
        int best = -1;
        for (int k = 0; k < S->npost; k++) {
            Post &p = S->posts[k];
            if (p.used == 1 && matches(p, m) && (best < 0 || p.order < S->posts[best].order)) best = k;
        }
        if (best >= 0) {
            S->posts[best].used = 2;
            S->posts[best].msg = i;
            m.matched = 1;
            S->epoch++;
            S->softpolls = 0;
        }
    }
}
}
static int newPost(int src, int tag, int dt, uint64_t maxlen) {
    int k = 0;
    while (k < S->npost && S->posts[k].used) k++;
    if (k == S->npost) { if (S->npost == MAXPOST) { error("too many posted receives"); _exit(96); } S->npost++; }
    Post &p = S->posts[k];
    p.rank = myRank; p.src = src; p.tag = tag; p.dt = dt; p.used = 1; p.msg = -1;
    p.maxlen = maxlen; p.order = S->postorder++;
    progressed();
    progressMatches();
    return k;
}
static void checkBuf(Req &q, const char *when) {
    if (q.kind != 1 || q.flagged || q.len == 0) return;
    static std::vector<char> tmp;
    tmp.resize(q.len);
    // The buffer may be gone by now; do not die of that.
    struct iovec l = { tmp.data(), q.len }, r = { (void *)q.sbuf, q.len };
    ssize_t n = process_vm_readv(getpid(), &l, 1, &r, 1, 0);
    if (n < 0 && (errno == EPERM || errno == ENOSYS)) { memcpy(tmp.data(), q.sbuf, q.len); n = q.len; }
    if (n != (ssize_t)q.len || fnv(tmp.data(), q.len) != q.hash) {
        q.flagged = true;
        M[q.msg].bufchanged = 1;
        // A send that waits for its receive reads the buffer only then.
        if (M[q.msg].sync && !M[q.msg].matched && n == (ssize_t)q.len)
            memcpy(A + M[q.msg].off, tmp.data(), q.len);
        error("buffer of pending send (msg %d to %d tag %d) changed before completion, seen at %s",
              q.msg, M[q.msg].dst, M[q.msg].tag, when);
    }
}
static void checkBufs(const char *when) {
    for (auto &q : reqs) checkBuf(q, when);
}

static int checkPeer(int dest, const char *what) {
    if (dest < 0 || dest >= S->cfg.ranks) { error("%s: bad rank %d", what, dest); return MPI_ERR_OTHER; }
    return 0;
}
static int newMsg(const void *buf, int count, int dt, int dest, int tag, bool ssend, bool nb) {
    if (S->nmsgs >= MAXMSG) { error("message table full"); _exit(96); }
    int i = S->nmsgs;
    Msg &m = M[i];
    memset(&m, 0, sizeof m);
    m.src = myRank; m.dst = dest; m.tag = tag; m.dt = dt; m.isnb = nb;
    m.len = (uint64_t)count * dtsize(dt);
    m.off = S->arena;
    if (S->arena + m.len > ARENA) { error("message arena full"); _exit(96); }
    memcpy(A + m.off, buf, m.len);
    S->arena += (m.len + 15) & ~15ULL;
    m.hash = fnv(A + m.off, m.len);
    switch (S->cfg.mode) {
    case 1: m.sync = 1; break;
    case 2: m.sync = rnd() & 1; break;
    case 3: m.sync = m.len > 64; break;
    default: m.sync = 0;
    }
    if (ssend) m.sync = 1;
    uint64_t v = S->steps;
    if (S->cfg.delay) v += rnd() % (S->cfg.delay + 1);
    uint64_t &lv = S->lastVisible[myRank][dest];
    if (v < lv) v = lv;
    lv = v;
    m.visibleAt = v;
    S->nmsgs++;
    S->nsends++;
    if (S->cfg.logmpi)
        logf("{\"e\":\"send\",\"r\":%d,\"t\":%d,\"m\":%d,\"to\":%d,\"tag\":%d,\"n\":%lu,\"dt\":\"%s\",\"h\":\"%s\",\"nb\":%d}",
             myRank, ompThread, i, dest, tag, (unsigned long)m.len, dtname(dt), hx(m.hash).c_str(), nb);
    progressed();
    progressMatches();
    return i;
}
static int newReq(int kind) {
    size_t i = 0;
    while (i < reqs.size() && reqs[i].kind) i++;
    if (i == reqs.size()) reqs.push_back(Req());
    reqs[i] = Req();
    reqs[i].kind = kind;
    nopen++;
    return (int)i + 1;
}
static bool sendDone(const Msg &m) { return !m.sync || m.matched; }
static void logDone(int msg, uint64_t h) {
    if (S->cfg.logmpi)
        logf("{\"e\":\"sdone\",\"r\":%d,\"t\":%d,\"m\":%d,\"h\":\"%s\"}", myRank, ompThread, msg, hx(h).c_str());
}
static int deliver(int post, void *buf, MPI_Status *st) {
    Post &p = S->posts[post];
    Msg &m = M[p.msg];
    int rc = MPI_SUCCESS;
    uint64_t n = m.len;
    if (n > p.maxlen) { error("message %d of %lu bytes truncated to %lu", p.msg, (unsigned long)n, (unsigned long)p.maxlen); n = p.maxlen; rc = MPI_ERR_TRUNCATE; }
    if (!dtcompat(p.dt, m.dt)) error("message %d sent as %s, received as %s", p.msg, dtname(m.dt), dtname(p.dt));
    memcpy(buf, A + m.off, n);
    m.received = 1;
    S->nrecvs++;
    if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = rc; st->sim_bytes = (long)n; }
    if (S->cfg.logmpi)
        logf("{\"e\":\"recv\",\"r\":%d,\"t\":%d,\"m\":%d,\"from\":%d,\"tag\":%d,\"n\":%lu,\"dt\":\"%s\",\"h\":\"%s\"}",
             myRank, ompThread, p.msg, m.src, m.tag, (unsigned long)n, dtname(p.dt), hx(fnv(buf, n)).c_str());
    p.used = 0;
    progressed();
    return rc;
}
// Done? Completes and frees the request.
static bool reqReady(int h) {
    Req &q = reqs[h - 1];
    if (q.kind == 1) return sendDone(M[q.msg]);
    return S->posts[q.post].used == 2;
}
static int reqFinish(MPI_Request *r, MPI_Status *st) {
    Req &q = reqs[*r - 1];
    int rc = 0;
    if (q.kind == 1) {
        checkBuf(q, "wait");
        logDone(q.msg, q.flagged ? 0 : q.hash);
        if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; }
    }
    else rc = deliver(q.post, q.buf, st);
    q.kind = 0;
    nopen--;
    *r = MPI_REQUEST_NULL;
    return rc;
}
static bool badReq(MPI_Request r) {
    if (r < 0 || r > (int)reqs.size() || (r > 0 && reqs[r - 1].kind == 0)) { error("invalid request %d", r); return true; }
    return false;
}

// The threads of a rank may call MPI only as the level of thread support that
// was asked for allows.
static int threadLevel = 0, inCall = 0;
static void begin(const char *what) {
    enter();
    if (what[0]) {
        if (threadLevel < MPI_THREAD_SERIALIZED && syscall(SYS_gettid) != getpid())
            error("MPI call (%s) by thread %d, but MPI was not started for threads other than the main one", what, ompThread);
        if (threadLevel < MPI_THREAD_MULTIPLE && inCall > 0)
            error("MPI call (%s) by thread %d during another thread's MPI call", what, ompThread);
        inCall++;
        checkBufs(what);
    }
    else inCall++;
}
static void finish() { inCall--; leave(); }

extern "C" {
int MPI_Init_thread(int *, char ***, int required, int *provided) {
    begin("");
    S->initd[myRank] = 1;
    threadLevel = required;
    *provided = required;
    finish();
    return 0;
}
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, 0, &p); }
int MPI_Initialized(int *f) { *f = S->initd[myRank]; return 0; }
int MPI_Finalized(int *f) { *f = S->finalized[myRank]; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c == MPI_COMM_SELF ? 0 : myRank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = c == MPI_COMM_SELF ? 1 : S->cfg.ranks; return 0; }
int MPI_Abort(MPI_Comm, int code) { fflush(NULL); _exit(code ? code : 1); }
double MPI_Wtime(void) { return (double)S->steps * 1e-6; }
int MPI_Type_size(MPI_Datatype d, int *s) { *s = dtsize(d); return 0; }

static int doSend(const void *buf, int n, int dt, int dest, int tag, bool ss) {
    if (dest == MPI_PROC_NULL) return 0;
    begin("send");
    if (checkPeer(dest, "send")) { finish(); return MPI_ERR_OTHER; }
    int m = newMsg(buf, n, dt, dest, tag, ss, false);
    while (!sendDone(M[m])) block("send to %d tag %d", dest, tag);
    logDone(m, M[m].hash);
    finish();
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm) { return doSend(b, n, d, to, tag, false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm) { return doSend(b, n, d, to, tag, true); }
static int doIsend(const void *buf, int n, int dt, int dest, int tag, bool ss, MPI_Request *r) {
    *r = MPI_REQUEST_NULL;
    if (dest == MPI_PROC_NULL) return 0;
    begin("isend");
    if (checkPeer(dest, "isend")) { finish(); return MPI_ERR_OTHER; }
    int m = newMsg(buf, n, dt, dest, tag, ss, true);
    int h = newReq(1);
    Req &q = reqs[h - 1];
    q.msg = m; q.sbuf = buf; q.len = M[m].len; q.hash = M[m].hash;
    *r = h;
    finish();
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request *r) { return doIsend(b, n, d, to, tag, false, r); }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request *r) { return doIsend(b, n, d, to, tag, true, r); }
int MPI_Recv(void *buf, int n, MPI_Datatype d, int src, int tag, MPI_Comm, MPI_Status *st) {
    if (src == MPI_PROC_NULL) return 0;
    begin("recv");
    if (src != MPI_ANY_SOURCE && checkPeer(src, "recv")) { finish(); return MPI_ERR_OTHER; }
    int p = newPost(src, tag, d, (uint64_t)n * dtsize(d));
    while (S->posts[p].used != 2) block("recv from %d tag %d", src, tag);
    int rc = deliver(p, buf, st);
    finish();
    return rc;
}
int MPI_Irecv(void *buf, int n, MPI_Datatype d, int src, int tag, MPI_Comm, MPI_Request *r) {
    *r = MPI_REQUEST_NULL;
    if (src == MPI_PROC_NULL) return 0;
    begin("irecv");
    if (src != MPI_ANY_SOURCE && checkPeer(src, "irecv")) { finish(); return MPI_ERR_OTHER; }
    int p = newPost(src, tag, d, (uint64_t)n * dtsize(d));
    int h = newReq(2);
    reqs[h - 1].post = p; reqs[h - 1].buf = buf;
    *r = h;
    finish();
    return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int to, int stag, void *rb, int rn,
                 MPI_Datatype rd, int from, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request r[2];
    MPI_Status ss[2];
    MPI_Irecv(rb, rn, rd, from, rtag, c, &r[0]);
    MPI_Isend(sb, sn, sd, to, stag, c, &r[1]);
    int rc = MPI_Waitall(2, r, ss);
    if (st) *st = ss[0];
    return rc;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    begin("waitall");
    int rc = 0;
    for (int i = 0; i < n; i++) {
        if (r[i] == MPI_REQUEST_NULL || badReq(r[i])) continue;
        while (!reqReady(r[i])) {
            Req &q = reqs[r[i] - 1];
            if (q.kind == 1) block("waitall: send to %d tag %d", M[q.msg].dst, M[q.msg].tag);
            else block("waitall: recv from %d tag %d", S->posts[q.post].src, S->posts[q.post].tag);
        }
        int e = reqFinish(&r[i], st ? &st[i] : NULL);
        if (e) rc = e;
    }
    finish();
    return rc;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) { return MPI_Waitall(1, r, st); }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    begin("waitany");
    int rc = 0;
    for (;;) {
        std::vector<int> ready;
        bool any = false;
        for (int i = 0; i < n; i++) {
            if (r[i] == MPI_REQUEST_NULL || badReq(r[i])) continue;
            any = true;
            if (reqReady(r[i])) ready.push_back(i);
        }
        if (!any) { *idx = MPI_UNDEFINED; break; }
        if (!ready.empty()) {
            int i = ready[rnd() % ready.size()];
            *idx = i;
            rc = reqFinish(&r[i], st);
            break;
        }
        block("waitany of %d", n);
    }
    finish();
    return rc;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st) {
    int i;
    int rc = MPI_Waitany(n, r, &i, st);
    if (i == MPI_UNDEFINED) { *cnt = MPI_UNDEFINED; return rc; }
    *cnt = 1; idx[0] = i;
    return rc;
}
static int testImpl(int n, MPI_Request *r, int *flag, bool all, int *idx, MPI_Status *st) {
    begin("test");
    std::vector<int> ready, active;
    for (int i = 0; i < n; i++) {
        if (r[i] == MPI_REQUEST_NULL || badReq(r[i])) continue;
        active.push_back(i);
        if (reqReady(r[i])) ready.push_back(i);
    }
    int rc = 0;
    *flag = 0;
    if (idx) *idx = MPI_UNDEFINED;
    if (active.empty()) *flag = 1;
    else if (all ? ready.size() == active.size() : !ready.empty()) {
        *flag = 1;
        if (all) for (int i : active) rc |= reqFinish(&r[i], st ? &st[i] : NULL);
        else { int i = ready[rnd() % ready.size()]; if (idx) *idx = i; rc = reqFinish(&r[i], st); }
    }
    else softpoll();
    finish();
    return rc;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { return testImpl(1, r, flag, true, NULL, st); }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) { return testImpl(n, r, flag, true, NULL, st); }
int MPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *st) { return testImpl(n, r, flag, false, idx, st); }
int MPI_Testsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st) {
    int f, i;
    int rc = testImpl(n, r, &f, false, &i, st);
    if (f && i == MPI_UNDEFINED) *cnt = MPI_UNDEFINED;
    else if (f) { *cnt = 1; idx[0] = i; }
    else *cnt = 0;
    return rc;
}
static int findMsg(int src, int tag) {
    progressMatches();
    for (int i = S->inflightHead; i < S->nmsgs; i++) {
        Msg &m = M[i];
        if (m.matched || m.dst != myRank || !visible(m)) continue;
        if ((src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag)) return i;
    }
    return -1;
}
static void fillStatus(int i, MPI_Status *st) {
    if (st) { st->MPI_SOURCE = M[i].src; st->MPI_TAG = M[i].tag; st->MPI_ERROR = 0; st->sim_bytes = (long)M[i].len; }
}
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status *st) {
    begin("probe");
    int i;
    while ((i = findMsg(src, tag)) < 0) block("probe from %d tag %d", src, tag);
    fillStatus(i, st);
    finish();
    return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int *flag, MPI_Status *st) {
    begin("iprobe");
    int i = findMsg(src, tag);
    *flag = i >= 0;
    if (i >= 0) fillStatus(i, st);
    else { S->nfalsepolls++; softpoll(); }
    finish();
    return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype d, int *n) {
    int s = dtsize(d);
    *n = st->sim_bytes % s || st->sim_bytes / s > 0x7fffffffL ? MPI_UNDEFINED : (int)(st->sim_bytes / s);
    return 0;
}

// ------------------------------------------------------------- collectives
enum { C_BARRIER = 1, C_ALLREDUCE, C_REDUCE, C_BCAST, C_ALLGATHER, C_GATHER, C_FOPEN, C_FCLOSE, C_FINALIZE,
       C_ALLGATHERV, C_GATHERV, C_SCATTER, C_SCATTERV, C_ALLTOALL, C_ALLTOALLV, C_SCAN, C_EXSCAN, C_DUP };
static const char *cname[] = {"", "barrier", "allreduce", "reduce", "bcast", "allgather", "gather",
                              "fopen", "fclose", "finalize", "allgatherv", "gatherv", "scatter", "scatterv", "alltoall", "alltoallv", "scan", "exscan", "dup"};

static void reduceOne(int dt, int op, char *acc, const char *x) {
#define RED(T) { T &a = *(T *)acc; T b = *(const T *)x; \
    switch (op) { case MPI_SUM: a = a + b; break; case MPI_MAX: a = a < b ? b : a; break; \
    case MPI_MIN: a = b < a ? b : a; break; case MPI_LOR: a = (a != 0) || (b != 0); break; \
    case MPI_LAND: a = (a != 0) && (b != 0); break; case MPI_PROD: a = a * b; break; \
    case MPI_LXOR: a = (a != 0) != (b != 0); break; } }
    switch (dt) {
    case MPI_DOUBLE: RED(double) break;
    case MPI_FLOAT: RED(float) break;
    case MPI_INT: RED(int) break;
    case MPI_UNSIGNED: RED(unsigned) break;
    case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: RED(int64_t) break;
    case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: RED(uint64_t) break;
    default: RED(unsigned char) break;
    }
}
// Joins a collective (engine held); result gathered from all ranks in rank order.
static void coll(int kind, int dt, int op, int count, int root, const void *in, size_t bytes,
                 std::vector<std::vector<char>> *all, bool whole = false) {
    uint64_t seq = S->collseq[myRank]++;
    Coll &c = S->colls[seq % NCOLL];
    if (bytes > (size_t)MAXCOLLBYTES) { error("collective too large"); _exit(96); }
    while (c.seq != seq && c.arrived) block("%s (slot busy)", cname[kind]);
    if (c.arrived == 0) {
        c.seq = seq; c.kind = kind; c.dt = dt; c.op = op; c.count = count; c.root = root; c.left = 0;
    }
    else if (c.kind != kind || c.dt != dt || c.op != op || c.count != count || c.root != root)
        error("collective %lu differs between ranks: %s/%d/%d and %s/%d/%d", (unsigned long)seq,
              cname[c.kind], c.op, c.count, cname[kind], op, count);
    if (S->cfg.logmpi)
        logf("{\"e\":\"coll\",\"r\":%d,\"t\":%d,\"q\":%lu,\"k\":\"%s\",\"n\":%d,\"op\":%d}", myRank, ompThread,
             (unsigned long)seq, cname[kind], count, op);
    if (in) memcpy(c.data[myRank], in, bytes);
    c.arrived++;
    S->ncolls++;
    progressed();
    while (c.arrived < S->cfg.ranks) block("%s #%lu", cname[kind], (unsigned long)seq);
    if (all) {
        all->resize(S->cfg.ranks);
        for (int r = 0; r < S->cfg.ranks; r++) (*all)[r].assign(c.data[r], c.data[r] + (whole ? (size_t)MAXCOLLBYTES : bytes));
    }
    if (++c.left == S->cfg.ranks) { c.arrived = 0; progressed(); }
}
int MPI_Barrier(MPI_Comm cm) {
    if (cm == MPI_COMM_SELF) return 0;
    begin("barrier");
    coll(C_BARRIER, 0, 0, 0, 0, NULL, 0, NULL);
    finish();
    return 0;
}
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm cm) {
    size_t b = (size_t)n * dtsize(d);
    if (cm == MPI_COMM_SELF) { if (in != MPI_IN_PLACE) memmove(out, in, b); return 0; }
    begin("allreduce");
    if (in == MPI_IN_PLACE) in = out;
    std::vector<std::vector<char>> all;
    coll(C_ALLREDUCE, d, op, n, 0, in, b, &all);
    std::vector<char> acc = all[0];
    for (int r = 1; r < S->cfg.ranks; r++)
        for (int i = 0; i < n; i++)
            reduceOne(d, op, acc.data() + (size_t)i * dtsize(d), all[r].data() + (size_t)i * dtsize(d));
    memcpy(out, acc.data(), b);
    finish();
    return 0;
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm cm) {
    size_t b = (size_t)n * dtsize(d);
    if (cm == MPI_COMM_SELF) { if (in != MPI_IN_PLACE) memmove(out, in, b); return 0; }
    begin("reduce");
    if (in == MPI_IN_PLACE) in = out;
    std::vector<std::vector<char>> all;
    coll(C_REDUCE, d, op, n, root, in, b, &all);
    if (myRank == root) {
        std::vector<char> acc = all[0];
        for (int r = 1; r < S->cfg.ranks; r++)
            for (int i = 0; i < n; i++)
                reduceOne(d, op, acc.data() + (size_t)i * dtsize(d), all[r].data() + (size_t)i * dtsize(d));
        memcpy(out, acc.data(), b);
    }
    finish();
    return 0;
}
int MPI_Bcast(void *buf, int n, MPI_Datatype d, int root, MPI_Comm cm) {
    if (cm == MPI_COMM_SELF) return 0;
    begin("bcast");
    size_t b = (size_t)n * dtsize(d);
    std::vector<std::vector<char>> all;
    coll(C_BCAST, d, 0, n, root, buf, b, &all);
    memcpy(buf, all[root].data(), b);
    finish();
    return 0;
}
static int gatherImpl(const void *in, int n, int d, void *out, int rn, int rd, int root, int kind) {
    begin("gather");
    (void)rn; (void)rd;
    size_t b = (size_t)n * dtsize(d);
    if (in == MPI_IN_PLACE) in = (char *)out + myRank * b;
    std::vector<std::vector<char>> all;
    coll(kind, d, 0, n, root, in, b, &all);
    if (kind == C_ALLGATHER || myRank == root)
        for (int r = 0; r < S->cfg.ranks; r++) memcpy((char *)out + r * b, all[r].data(), b);
    finish();
    return 0;
}
int MPI_Allgather(const void *in, int n, MPI_Datatype d, void *out, int rn, MPI_Datatype rd, MPI_Comm) {
    return gatherImpl(in, n, d, out, rn, rd, 0, C_ALLGATHER);
}
int MPI_Gather(const void *in, int n, MPI_Datatype d, void *out, int rn, MPI_Datatype rd, int root, MPI_Comm) {
    return gatherImpl(in, n, d, out, rn, rd, root, C_GATHER);
}
int MPI_Finalize(void) {
    begin("finalize");
    coll(C_FINALIZE, 0, 0, 0, 0, NULL, 0, NULL);
    if (nopen) error("%d requests open at finalize", nopen);
    S->finalized[myRank] = 1;
    finish();
    return 0;
}
// Relatives of the above.  Ranks may give different amounts: all is passed on.
static void copy(void *out, const std::vector<char> &from, size_t at, size_t bytes) {
    if (at + bytes > from.size()) { error("collective: receives more than was sent"); return; }
    memcpy(out, from.data() + at, bytes);
}
static void gathervImpl(const void *in, int n, int d, void *out, const int *rn, const int *disp, int rd, int root, int kind) {
    begin("gatherv");
    size_t w = dtsize(d);
    bool get = kind == C_ALLGATHERV || myRank == root;
    if (in == MPI_IN_PLACE) { n = rn[myRank]; w = dtsize(rd); in = (char *)out + disp[myRank] * w; }
    std::vector<std::vector<char>> all;
    coll(kind, d, 0, 0, root, in, n * w, &all, true);
    for (int r = 0; get && r < S->cfg.ranks; r++) copy((char *)out + disp[r] * (size_t)dtsize(rd), all[r], 0, rn[r] * (size_t)dtsize(rd));
    finish();
}
int MPI_Allgatherv(const void *in, int n, MPI_Datatype d, void *out, const int *rn, const int *disp, MPI_Datatype rd, MPI_Comm) {
    gathervImpl(in, n, d, out, rn, disp, rd, 0, C_ALLGATHERV); return 0;
}
int MPI_Gatherv(const void *in, int n, MPI_Datatype d, void *out, const int *rn, const int *disp, MPI_Datatype rd, int root, MPI_Comm) {
    gathervImpl(in, n, d, out, rn, disp, rd, root, C_GATHERV); return 0;
}
int MPI_Scatterv(const void *in, const int *sn, const int *disp, MPI_Datatype d, void *out, int n, MPI_Datatype rd, int root, MPI_Comm) {
    begin("scatterv");
    std::vector<char> buf;
    for (int r = 0; myRank == root && r < S->cfg.ranks; r++) {
        // packed with its place in front: rank r reads from there
        size_t b = sn[r] * (size_t)dtsize(d);
        const char *x = (const char *)in + disp[r] * (size_t)dtsize(d);
        buf.insert(buf.end(), (char *)&b, (char *)&b + sizeof b);
        buf.insert(buf.end(), x, x + b);
    }
    std::vector<std::vector<char>> all;
    coll(C_SCATTERV, d, 0, 0, root, buf.data(), buf.size(), &all, true);
    size_t at = 0, b = 0;
    for (int r = 0; r <= myRank; r++) { at += r ? b : 0; memcpy(&b, all[root].data() + at, sizeof b); at += sizeof b; }
    if (b > n * (size_t)dtsize(rd)) error("scatterv: more than asked for");
    else if (out != MPI_IN_PLACE) copy(out, all[root], at, b);
    finish();
    return 0;
}
int MPI_Scatter(const void *in, int sn, MPI_Datatype d, void *out, int n, MPI_Datatype rd, int root, MPI_Comm) {
    begin("scatter");
    std::vector<std::vector<char>> all;
    coll(C_SCATTER, d, 0, 0, root, in, myRank == root ? sn * (size_t)dtsize(d) * S->cfg.ranks : 0, &all, true);
    size_t b = n * (size_t)dtsize(rd);
    if (out != MPI_IN_PLACE) copy(out, all[root], myRank * b, b);
    finish();
    return 0;
}
int MPI_Alltoall(const void *in, int sn, MPI_Datatype d, void *out, int n, MPI_Datatype rd, MPI_Comm) {
    begin("alltoall");
    if (in == MPI_IN_PLACE) { in = out; sn = n; d = rd; }
    size_t b = sn * (size_t)dtsize(d);
    std::vector<std::vector<char>> all;
    coll(C_ALLTOALL, d, 0, sn, 0, in, b * S->cfg.ranks, &all);
    for (int r = 0; r < S->cfg.ranks; r++) copy((char *)out + r * b, all[r], myRank * b, b);
    finish();
    return 0;
}
int MPI_Alltoallv(const void *in, const int *sn, const int *sdisp, MPI_Datatype d, void *out, const int *rn, const int *rdisp, MPI_Datatype rd, MPI_Comm) {
    begin("alltoallv");
    std::vector<char> buf;
    for (int r = 0; r < S->cfg.ranks; r++) {
        size_t b = sn[r] * (size_t)dtsize(d);
        const char *x = (const char *)in + sdisp[r] * (size_t)dtsize(d);
        buf.insert(buf.end(), (char *)&b, (char *)&b + sizeof b);
        buf.insert(buf.end(), x, x + b);
    }
    std::vector<std::vector<char>> all;
    coll(C_ALLTOALLV, d, 0, 0, 0, buf.data(), buf.size(), &all, true);
    for (int q = 0; q < S->cfg.ranks; q++) {
        size_t at = 0, b = 0;
        for (int r = 0; r <= myRank; r++) { at += r ? b : 0; memcpy(&b, all[q].data() + at, sizeof b); at += sizeof b; }
        if (b != rn[q] * (size_t)dtsize(rd)) error("alltoallv: %lu bytes from %d, not %lu", (unsigned long)b, q, (unsigned long)(rn[q] * (size_t)dtsize(rd)));
        else copy((char *)out + rdisp[q] * (size_t)dtsize(rd), all[q], at, b);
    }
    finish();
    return 0;
}
static int scanImpl(const void *in, void *out, int n, int d, int op, int upto, int kind) {
    begin("scan");
    if (in == MPI_IN_PLACE) in = out;
    size_t w = dtsize(d);
    std::vector<std::vector<char>> all;
    coll(kind, d, op, n, 0, in, n * w, &all);
    if (upto >= 0) {
        std::vector<char> acc = all[0];
        for (int r = 1; r <= upto; r++)
            for (int i = 0; i < n; i++) reduceOne(d, op, acc.data() + i * w, all[r].data() + i * w);
        memcpy(out, acc.data(), n * w);
    }
    finish();
    return 0;
}
int MPI_Scan(const void *in, void *out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm) { return scanImpl(in, out, n, d, op, myRank, C_SCAN); }
int MPI_Exscan(const void *in, void *out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm) { return scanImpl(in, out, n, d, op, myRank - 1, C_EXSCAN); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *to) {
    // its messages share the numbering of the world's: a program that relies on
    // the difference uses the same tag twice, which the checks would report
    begin("dup"); coll(C_DUP, 0, 0, 0, 0, NULL, 0, NULL); finish();
    *to = c;
    return 0;
}
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Query_thread(int *p) { *p = threadLevel; return 0; }
int MPI_Is_thread_main(int *f) { *f = ompThread == 0; return 0; }
int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "simulated"); *n = 9; return 0; }
int MPI_Error_string(int e, char *s, int *n) { *n = sprintf(s, "error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }

// ------------------------------------------------------------------- files
}
struct SimFile { int fd; MPI_Offset pos; bool self, wr; std::string name; };
// The operations of this rank on files, counted; the one the job names fails.
// Kinds: 1 an error, 2 half of the transfer; 3 and 4 the same with all later
// operations of the same name failing too (4: they transfer nothing).
static int ioCount;
static int ioFault(const char *op) {
    static std::string broken;
    ioCount++;
    int k = S->cfg.iokind;
    if (!k || myRank != S->cfg.iorank) return 0;
    if (ioCount == S->cfg.ioop) { if (k > 2) broken = op; return k == 3 ? 1 : k == 4 ? 2 : k; }
    return broken != op ? 0 : k == 3 ? 1 : 5;
}
static void ioLog(const char *op, const std::string &name, bool wr, MPI_Offset off, size_t n, ssize_t got, bool ok) {
    if (S->cfg.logio)
        logf("{\"e\":\"io\",\"r\":%d,\"op\":\"%s\",\"file\":\"%s\",\"wr\":%s,\"off\":%ld,\"n\":%lu,\"got\":%ld,\"ok\":%s}",
             myRank, op, name.substr(name.rfind('/') + 1).c_str(), wr ? "true" : "false", (long)off, (unsigned long)n, (long)got, ok ? "true" : "false");
}
extern "C" {
int MPI_File_delete(const char *name, MPI_Info) {
    begin("");
    int f = ioFault("delete");
    int rc = f == 1 ? -1 : unlink(name);
    int err = f == 1 ? EIO : errno;
    if (S->cfg.logmpi) logf("{\"e\":\"fdel\",\"r\":%d,\"rc\":%d}", myRank, rc);
    ioLog("delete", name, true, 0, 0, 0, rc == 0);
    finish();
    return rc == 0 ? MPI_SUCCESS : err == ENOENT ? MPI_ERR_NO_SUCH_FILE : MPI_ERR_OTHER;
}
int MPI_File_open(MPI_Comm cm, const char *name, int mode, MPI_Info, MPI_File *f) {
    begin("fopen");
    bool self = cm == MPI_COMM_SELF;
    int fl = mode & MPI_MODE_RDWR ? O_RDWR : mode & MPI_MODE_WRONLY ? O_WRONLY : O_RDONLY;
    // everyone arrives; rank 0 creates; everyone opens
    std::vector<std::vector<char>> all;
    int fd = -1, err = 0;
    if (!self) coll(C_FOPEN, 0, mode, 0, 0, NULL, 0, NULL);
    int fault = ioFault("open");      // decided by the first rank, as an open is collective
    if (myRank == 0 || self) {
        int x = fl;
        if (mode & MPI_MODE_CREATE) x |= O_CREAT;
        if (mode & MPI_MODE_EXCL) x |= O_EXCL;
        fd = fault == 1 ? -1 : open(name, x, 0644);
        err = fd < 0 ? fault == 1 ? EIO : errno : 0;
    }
    if (!self) {
        coll(C_FOPEN, 0, mode, 1, 0, &err, sizeof err, &all);
        memcpy(&err, all[0].data(), sizeof err);
        if (!err && myRank != 0) { fd = open(name, fl); if (fd < 0) err = errno; }
    }
    *f = NULL;
    if (!err) *f = new SimFile{fd, 0, self, fl != O_RDONLY, name};
    ioLog("open", name, fl != O_RDONLY, 0, 0, 0, err == 0);
    if (S->cfg.logmpi)
        logf("{\"e\":\"fopen\",\"r\":%d,\"mode\":%d,\"err\":%d}", myRank, mode, err);
    finish();
    return err == 0 ? MPI_SUCCESS : err == EEXIST ? MPI_ERR_FILE_EXISTS
         : err == ENOENT ? MPI_ERR_NO_SUCH_FILE : MPI_ERR_OTHER;
}
int MPI_File_close(MPI_File *f) {
    begin("fclose");
    if (!*f) { error("close of no file"); finish(); return MPI_ERR_OTHER; }
    if (!(*f)->self) coll(C_FCLOSE, 0, 0, 0, 0, NULL, 0, NULL);
    close((*f)->fd);
    int fault = ioFault("close");
    ioLog("close", (*f)->name, (*f)->wr, 0, 0, 0, fault != 1);
    delete *f;
    *f = NULL;
    finish();
    return fault == 1 ? MPI_ERR_OTHER : 0;
}
int MPI_File_seek(MPI_File f, MPI_Offset o, int whence) {
    if (!f) return MPI_ERR_OTHER;
    if (ioFault("seek") == 1) { ioLog("seek", f->name, f->wr, o, 0, 0, false); return MPI_ERR_OTHER; }
    ioLog("seek", f->name, f->wr, o, 0, 0, true);
    if (whence == MPI_SEEK_SET) f->pos = o;
    else if (whence == MPI_SEEK_CUR) f->pos += o;
    else { struct stat s; fstat(f->fd, &s); f->pos = s.st_size + o; }
    return 0;
}
static ssize_t lastGot;
static int xfer(MPI_File f, MPI_Offset off, void *rb, const void *wb, int n, int d, MPI_Status *st) {
    if (!f) { error("transfer on no file"); return MPI_ERR_OTHER; }
    if (n < 0) { ioLog(rb ? "read" : "write", f->name, f->wr, off, 0, -1, false); return MPI_ERR_OTHER; }
    size_t b = (size_t)n * dtsize(d);
    int fault = ioFault(rb ? "read" : "write");
    size_t all = fault == 2 ? b / 2 : fault == 5 ? 0 : b;
    ssize_t k = fault == 1 ? -1 : 0;
    while (k >= 0 && (size_t)k < all) {     // the system takes up to 2 GB at once
        ssize_t x = rb ? pread(f->fd, (char *)rb + k, all - k, off + k) : pwrite(f->fd, (const char *)wb + k, all - k, off + k);
        if (x < 0) { k = -1; break; }
        if (x == 0) break;
        k += x;
    }
    ioLog(rb ? "read" : "write", f->name, f->wr, off, b, k, k == (ssize_t)b);
    lastGot = k;
    if (k < 0) return MPI_ERR_OTHER;
    if (st) { st->sim_bytes = k; st->MPI_ERROR = 0; }
    if (S->cfg.logmpi)
        logf("{\"e\":\"%s\",\"r\":%d,\"off\":%lu,\"n\":%lu,\"got\":%ld}", rb ? "fread" : "fwrite", myRank,
             (unsigned long)off, (unsigned long)b, (long)k);
    return 0;
}
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype d, MPI_Status *st) {
    begin(""); int rc = xfer(f, o, b, NULL, n, d, st); finish(); return rc;
}
int MPI_File_read(MPI_File f, void *b, int n, MPI_Datatype d, MPI_Status *st) {
    int rc = MPI_File_read_at(f, f ? f->pos : 0, b, n, d, st);
    if (f && !rc) f->pos += lastGot;
    return rc;
}
int MPI_File_read_all(MPI_File f, void *b, int n, MPI_Datatype d, MPI_Status *st) { return MPI_File_read(f, b, n, d, st); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype d, MPI_Status *st) {
    begin(""); int rc = xfer(f, o, NULL, b, n, d, st); finish(); return rc;
}
int MPI_File_write(MPI_File f, const void *b, int n, MPI_Datatype d, MPI_Status *st) {
    int rc = MPI_File_write_at(f, f ? f->pos : 0, b, n, d, st);
    if (f && !rc) f->pos += lastGot;
    return rc;
}
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype d, MPI_Status *st) { return MPI_File_write_at(f, o, b, n, d, st); }
int MPI_File_set_size(MPI_File f, MPI_Offset n) { if (!f) return MPI_ERR_OTHER; return ftruncate(f->fd, n) ? MPI_ERR_OTHER : 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *n) { struct stat s; if (!f) return MPI_ERR_OTHER; fstat(f->fd, &s); *n = s.st_size; return 0; }
int MPI_File_sync(MPI_File) { return 0; }
int MPI_File_get_position(MPI_File f, MPI_Offset *n) { if (!f) return MPI_ERR_OTHER; *n = f->pos; return 0; }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype d, MPI_Status *st) { return MPI_File_read_at(f, o, b, n, d, st); }
int MPI_File_write_all(MPI_File f, const void *b, int n, MPI_Datatype d, MPI_Status *st) { return MPI_File_write(f, b, n, d, st); }
int MPI_File_preallocate(MPI_File f, MPI_Offset n) { struct stat s; if (!f) return MPI_ERR_OTHER; fstat(f->fd, &s); return s.st_size >= n ? 0 : MPI_File_set_size(f, n); }
}
