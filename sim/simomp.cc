// Simulated OpenMP runtime (the libgomp entry points gcc calls) and memory
// access instrumentation (the entry points of -fsanitize=thread), both on the
// baton scheduler of sim.cc.  Inside a parallel region a thread may lose the
// baton at any instrumented memory access, so missing atomics and missing
// orderings between threads become visible and are reproducible from the seed.
#include "sim.hpp"
#include <map>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#include <vector>
using namespace sim;

namespace {
struct Work { long next, end, incr, chunk; bool guided, init; unsigned done; };
struct UWork { unsigned long long next, end, incr, chunk; bool up, guided; unsigned done; };
struct Team {
    unsigned n, finished, arrived, gen, single;
    std::map<unsigned, Work> ws;
    std::map<unsigned, UWork> uws;
    void *copyp;
};
struct Worker {
    int task, num;
    void (*fn)(void *);
    void *data;
    Team *team;
    pthread_t th;
};
std::vector<Worker *> pool;
int numThreads = 0;
__thread Team *team = NULL;
__thread unsigned wsCount = 0;
__thread unsigned curWs = 0;
std::map<void *, int> crit;

void *workerMain(void *p) {
    Worker *w = (Worker *)p;
    me = w->task;
    for (;;) {
        waitBaton();
        leave();
        ompThread = w->num; ompTeam = w->team->n; team = w->team; wsCount = 0;
        w->fn(w->data);
        Team *t = team;
        ompTeam = 1; team = NULL;
        enterNoYield();
        t->finished++;
        progressed();
        taskExit();
    }
    return NULL;
}
void lockIt(void *k, const char *what) {
    enter();
    while (crit[k]) block("%s", what);
    crit[k] = 1;
    leave();
}
void unlockIt(void *k) {
    enter();
    crit[k] = 0;
    progressed();
    leave();
}
int kDefault, kAtomic;
}
void newEpoch();
extern "C" {
int omp_get_thread_num(void) { return team ? ompThread : 0; }
int omp_get_num_threads(void) { return team ? (int)team->n : 1; }
int omp_get_max_threads(void) { return numThreads ? numThreads : S->cfg.threads; }
void omp_set_num_threads(int n) { numThreads = n; }
int omp_in_parallel(void) { return team && team->n > 1; }
int omp_get_num_procs(void) { return 8; }
int omp_get_level(void) { return team ? 1 : 0; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { return nowns() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { void *p; } simlock;
void omp_init_lock(void *l) { crit[l] = 0; }
void omp_destroy_lock(void *l) { crit.erase(l); }
void omp_set_lock(void *l) { lockIt(l, "omp lock"); }
void omp_unset_lock(void *l) { unlockIt(l); }
int omp_test_lock(void *l) {
    enter();
    int ok = !crit[l];
    if (ok) crit[l] = 1; else softpoll();
    leave();
    return ok;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned) {
    enter();
    if (nthreads == 0) nthreads = omp_get_max_threads();
    if (team) nthreads = 1;
    Team t;
    t.n = nthreads; t.finished = 0; t.arrived = 0; t.gen = 0; t.single = 0; t.copyp = NULL;
    while (pool.size() + 1 < nthreads) {
        Worker *w = new Worker;
        w->num = (int)pool.size() + 1;
        w->task = newTask(myRank, w->num, T_FREE);
        pthread_create(&w->th, NULL, workerMain, w);
        pool.push_back(w);
    }
    for (unsigned i = 0; i + 1 < nthreads; i++) {
        pool[i]->fn = fn; pool[i]->data = data; pool[i]->team = &t;
        S->tasks[pool[i]->task].state = T_READY;
    }
    if (nthreads > 1) { newEpoch(); progressed(); }
    Team *old = team;
    unsigned oldWs = wsCount;
    int oldN = ompThread, oldT = ompTeam;
    leave();
    if (!old || old->n == 1) { ompThread = 0; }
    team = &t; ompThread = 0; ompTeam = nthreads; wsCount = 0;
    fn(data);
    team = old; ompThread = oldN; ompTeam = oldT; wsCount = oldWs;
    enter();
    while (t.finished + 1 < nthreads) block("join of parallel region");
    leave();
}
void GOMP_critical_start(void) { lockIt(&kDefault, "omp critical"); }
void GOMP_critical_end(void) { unlockIt(&kDefault); }
void GOMP_critical_name_start(void **p) { lockIt(p, "omp critical"); }
void GOMP_critical_name_end(void **p) { unlockIt(p); }
void GOMP_atomic_start(void) { lockIt(&kAtomic, "omp atomic"); }
void GOMP_atomic_end(void) { unlockIt(&kAtomic); }
void GOMP_barrier(void) {
    if (!team || team->n == 1) return;
    Team *t = team;
    enter();
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; newEpoch(); progressed(); }
    else while (t->gen == g) block("omp barrier");
    leave();
}
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start(void) {
    if (!team) return true;
    enter();
    unsigned k = wsCount++;
    bool mine = team->single == k;
    if (mine) team->single++;
    leave();
    return mine;
}
void *GOMP_single_copy_start(void) {
    if (GOMP_single_start()) return NULL;
    GOMP_barrier();
    return team->copyp;
}
void GOMP_single_copy_end(void *p) { if (team) team->copyp = p; GOMP_barrier(); }

static bool chunkNext(long *is, long *ie) {
    if (!team) return false;
    enter();
    Work &w = team->ws[curWs];
    bool ok = w.incr > 0 ? w.next < w.end : w.next > w.end;
    if (ok) {
        long left = (w.end - w.next) / w.incr; if (left < 1) left = 1;
        long c = w.chunk < 1 ? 1 : w.chunk;
        if (w.guided) { long g = left / (long)team->n; if (g > c) c = g; }
        *is = w.next;
        long e = w.next + c * w.incr;
        if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
        *ie = e;
        w.next = e;
    }
    leave();
    return ok;
}
static bool loopStart(long s, long e, long i, long c, long *is, long *ie, bool g) {
    if (!team) { if (s == e) return false; *is = s; *ie = e; return true; }
    enter();
    curWs = 1000000 + wsCount++;
    if (!team->ws.count(curWs)) team->ws[curWs] = Work{s, e, i, c, g, true, 0};
    leave();
    return chunkNext(is, ie);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, is, ie, false); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, is, ie, true); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, is, ie, false); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *is, long *ie) { return loopStart(s, e, i, c, is, ie, true); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, is, ie, false); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, is, ie, false); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loopStart(s, e, i, 1, is, ie, false); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return chunkNext(a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return chunkNext(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
// A combined parallel loop: every thread is to find the same work descriptor,
// so the first one to ask creates it.
static void parLoop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, bool g) {
    struct Ctx { void (*fn)(void *); void *data; long s, e, i, c; bool g; } ctx = {fn, data, s, e, i, c, g};
    struct R { static void run(void *p) {
        Ctx *x = (Ctx *)p;
        enterNoYield();
        curWs = 1000000 + wsCount++;
        if (!team->ws.count(curWs)) team->ws[curWs] = Work{x->s, x->e, x->i, x->c, x->g, true, 0};
        leave();
        x->fn(x->data);
    } };
    GOMP_parallel(R::run, &ctx, n, 0);
}
void GOMP_parallel_loop_dynamic(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(f, d, n, s, e, i, c, false); }
void GOMP_parallel_loop_guided(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(f, d, n, s, e, i, c, true); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(f, d, n, s, e, i, c, false); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(f, d, n, s, e, i, c, true); }
void GOMP_parallel_loop_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parLoop(f, d, n, s, e, i, 1, false); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parLoop(f, d, n, s, e, i, 1, false); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parLoop(f, d, n, s, e, i, 1, false); }

// unsigned 64-bit loops
typedef unsigned long long ull;
static bool uchunk(ull *is, ull *ie) {
    if (!team) return false;
    enter();
    UWork &w = team->uws[curWs];
    bool ok = w.up ? w.next < w.end : w.next > w.end;
    if (ok) {
        ull step = w.up ? w.incr : 0 - w.incr;
        ull left = w.up ? (w.end - w.next + step - 1) / step : (w.next - w.end + step - 1) / step;
        ull c = w.chunk < 1 ? 1 : w.chunk;
        if (w.guided && left / team->n > c) c = left / team->n;
        if (c > left) c = left;
        *is = w.next;
        *ie = c == left ? w.end : (w.up ? w.next + c * step : w.next - c * step);
        w.next = *ie;
    }
    leave();
    return ok;
}
static bool uloop(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie, bool g) {
    if (!team) { if (s == e) return false; *is = s; *ie = e; return true; }
    enter();
    curWs = 1000000 + wsCount++;
    if (!team->uws.count(curWs)) team->uws[curWs] = UWork{s, e, i, c, up, g, 0};
    leave();
    return uchunk(is, ie);
}
bool GOMP_loop_ull_dynamic_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop(u, s, e, i, c, a, b, false); }
bool GOMP_loop_ull_guided_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop(u, s, e, i, c, a, b, true); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop(u, s, e, i, c, a, b, false); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop(u, s, e, i, c, a, b, true); }
bool GOMP_loop_ull_runtime_start(bool u, ull s, ull e, ull i, ull *a, ull *b) { return uloop(u, s, e, i, 1, a, b, false); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool u, ull s, ull e, ull i, ull *a, ull *b) { return uloop(u, s, e, i, 1, a, b, false); }
bool GOMP_loop_ull_dynamic_next(ull *a, ull *b) { return uchunk(a, b); }
bool GOMP_loop_ull_guided_next(ull *a, ull *b) { return uchunk(a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *a, ull *b) { return uchunk(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull *a, ull *b) { return uchunk(a, b); }
bool GOMP_loop_ull_runtime_next(ull *a, ull *b) { return uchunk(a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *a, ull *b) { return uchunk(a, b); }

// sections are a dynamic loop over 1..n
unsigned GOMP_sections_next(void) { long a, b; return chunkNext(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loopStart(1, (long)n + 1, 1, 1, &a, &b, false) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*f)(void *), void *d, unsigned n, unsigned cnt, unsigned) { parLoop(f, d, n, 1, (long)cnt + 1, 1, 1, false); }
// tasks run at once in the thread that creates them
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpy) {
        std::vector<char> b(size + align);
        char *p = (char *)(((uintptr_t)b.data() + align - 1) & ~(uintptr_t)(align - 1));
        cpy(p, data);
        fn(p);
    }
    else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
}

// ---------------------------------------------- memory access instrumentation
static __thread uint64_t cd = 64;
static __thread uint64_t cdrng = 0;
static inline uint64_t draw() {
    if (!cdrng) cdrng = S->cfg.seed * 0x9e3779b97f4a7c15ULL + (uint64_t)me * 7919 + 1;
    cdrng ^= cdrng << 13; cdrng ^= cdrng >> 7; cdrng ^= cdrng << 17;
    return cdrng;
}
static void preempt() {
    // mostly long stretches, sometimes a burst of switches
    uint64_t d = draw();
    cd = (d & 7) == 0 ? 1 + (d >> 8) % 8 : 20 + (d >> 8) % 4000;
    enter();
    leave();
}
// Places touched by two threads of a team, at least once written, with no barrier
// in between: switches happen there above all.  This only guides the scheduler; it
// is no verdict (accesses ordered by a lock and memory used again are found, too).
static const unsigned kShadow = 1 << 16;
static struct { uintptr_t at; unsigned epoch; short thread; bool written, shared; } shadow[kShadow];
static unsigned epoch = 1, hot = 0, hotNow = 0;
void newEpoch() { epoch++; hotNow = 0; }
static inline void touch(void *p, bool write) {
    uintptr_t a = (uintptr_t)p >> 2;
    auto &s = shadow[(a * 0x9e3779b97f4a7c15ULL) >> 48];
    if (s.at != a) { s.at = a; s.epoch = epoch; s.thread = ompThread; s.written = write; s.shared = false; return; }
    if (s.epoch != epoch) { s.epoch = epoch; s.thread = ompThread; s.written = write; }
    else if (s.thread != ompThread) {
        if (s.written || write) s.shared = true;
        s.thread = ompThread;
        s.written |= write;
    }
    else s.written |= write;
    if (s.shared && hotNow < 60 && hot < 20000 && (draw() & 3) == 0) { hot++; hotNow++; enter(); leave(); }
}
#define ACCESS(p, w) do { if (ompTeam > 1 && team) { if (--cd == 0) preempt(); touch(p, w); } } while (0)
// Atomics are where threads meet: switch often, and always make time pass.
static void atomicPoint() {
    if (!S || me < 0 || ompTeam <= 1 || !team) return;
    uint64_t d = draw();
    if ((d & 3) == 0) { enter(); leave(); }
}
static __thread uint64_t lastAtomicEpoch = ~0ULL;
static __thread unsigned sameAtomic = 0;
static __thread const volatile void *lastAtomicAddr = NULL;
// Repeated loads of one atomic with nothing else in between are a spin loop:
// treat the thread as polling.
static void atomicLoad(const volatile void *a) {
    if (!S || me < 0 || ompTeam <= 1 || !team) return;
    if (a == lastAtomicAddr) sameAtomic++; else { sameAtomic = 0; lastAtomicAddr = a; }
    if (sameAtomic > 0) { enterNoYield(); softpoll(); leave(); }
    else atomicPoint();
}
static void atomicWrite() {
    if (!S || me < 0) return;
    sameAtomic = 0; lastAtomicAddr = NULL;
    S->softpolls = 0;
    atomicPoint();
}
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *a) { ACCESS(a, false); } void __tsan_write##n(void *a) { ACCESS(a, true); } \
 void __tsan_unaligned_read##n(void *a) { ACCESS(a, false); } void __tsan_unaligned_write##n(void *a) { ACCESS(a, true); } \
 void __tsan_volatile_read##n(void *a) { atomicLoad(a); } void __tsan_volatile_write##n(void *a) { ACCESS(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long) { ACCESS(a, false); }
void __tsan_write_range(void *a, unsigned long) { ACCESS(a, true); }
void __tsan_vptr_update(void **a, void *) { ACCESS(a, true); }
void __tsan_vptr_read(void **a) { ACCESS(a, false); }
#define ATOMIC(T, n) \
T __tsan_atomic##n##_load(const volatile T *a, int) { atomicLoad(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { atomicWrite(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { atomicWrite(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { atomicWrite(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { atomicWrite(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { atomicWrite(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { atomicWrite(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { atomicWrite(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomicWrite(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { atomicWrite(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomicWrite(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(unsigned char, 8) ATOMIC(unsigned short, 16) ATOMIC(unsigned, 32) ATOMIC(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
