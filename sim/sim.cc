// The simulated machine: ranks are forked processes, threads are pthreads, and
// exactly one task runs at a time.  A task gives up the baton at every message
// passing call, thread operation and observation hook; who runs next is decided
// by a seeded policy (or by a script), so an execution is a pure function of
// (program, input, configuration, seed).  Exception: a task that runs for long
// without reaching such a point (a spin loop) is detached and runs beside the
// others until it does.
#include "sim.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <fstream>
#include <sstream>
#include <vector>

namespace sim {
Shm *S; Msg *M; char *A; char *TR;
const uint64_t ARENA = 6ULL << 30, TRACE = 6ULL << 30;
__thread int me = -1;
__thread int ompThread = 0, ompTeam = 1;
int myRank = -1;

uint64_t nowns() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000ULL + t.tv_nsec;
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
uint64_t rnd() {
    uint64_t z = (S->rng += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static void lockS() {
    while (__sync_lock_test_and_set(&S->lock, 1)) sched_yield();
}
static void unlockS() { __sync_lock_release(&S->lock); }

void logs(const std::string &s) {
    uint64_t o = S->traceLen;
    if (o + s.size() + 1 >= TRACE) return;
    memcpy(TR + o, s.data(), s.size());
    TR[o + s.size()] = '\n';
    S->traceLen = o + s.size() + 1;
}
void logf(const char *fmt, ...) {
    char b[4096];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    logs(b);
}
static void hang() { for (;;) pause(); }
static void setVerdict(int v) {
    if (!S->verdict) S->verdict = v;
}
// Bytes the rank has printed so far
long printed() { fflush(stdout); return lseek(1, 0, SEEK_CUR); }
void error(const char *fmt, ...) {
    char b[400];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char *c = b; *c; c++) if (*c == '"' || *c == '\\') *c = '\'';
    logf("{\"e\":\"error\",\"r\":%d,\"msg\":\"%s\"}", myRank, b);
    if (!S->lastErrSet) { S->lastErrSet = 1; strcpy(S->errmsg, b); }
}

int newTask(int rank, int thread, int state) {
    if (S->ntasks >= MAXTASK) { fprintf(stderr, "too many tasks\n"); _exit(97); }
    int i = S->ntasks++;
    Task &t = S->tasks[i];
    memset(&t, 0, sizeof t);
    t.rank = rank; t.thread = thread; t.state = state;
    t.prio = rnd();
    sem_init(&t.sem, 1, 0);
    return i;
}
void progressMatches();

static bool cand(const Task &t) {
    return t.state == T_READY || (t.state == T_BLOCKED && t.pollEpoch != S->epoch);
}

// Chooses the next task (lock held). -1: none can run.
static int pick(int self, bool avoidSelf) {
    int c[MAXTASK], n = 0;
    for (int i = 0; i < S->ntasks; i++)
        if (cand(S->tasks[i]) && !(avoidSelf && i == self)) c[n++] = i;
    if (n == 0 && avoidSelf && self >= 0 && cand(S->tasks[self])) c[n++] = self;
    if (n == 0) return -1;
    if (n == 1) return c[0];
    if (S->cfg.policy < 5 && S->softpolls > 4ULL * S->ntasks) return c[rnd() % n]; // only pollers: be fair
    switch (S->cfg.policy) {
    case 1: // sticky
        if (self >= 0 && rnd() % 16)
            for (int i = 0; i < n; i++) if (c[i] == self) return self;
        return c[rnd() % n];
    case 2: { // random priorities with change points
        if (rnd() % 64 == 0) S->tasks[c[rnd() % n]].prio = rnd();
        int b = c[0];
        for (int i = 1; i < n; i++) if (S->tasks[c[i]].prio > S->tasks[b].prio) b = c[i];
        // fairness: a fixed priority would let a polling loop run for ever
        if (rnd() % 8 == 0) return c[rnd() % n];
        return b; }
    case 3: { // starve one rank
        int d[MAXTASK], k = 0;
        for (int i = 0; i < n; i++)
            if (S->tasks[c[i]].rank != S->starve) d[k++] = c[i];
        if (k && rnd() % 32) return d[rnd() % k];
        return c[rnd() % n]; }
    case 4: { // round robin over tasks
        for (int k = 1; k <= S->ntasks; k++) {
            int i = (S->rr + k) % S->ntasks;
            for (int j = 0; j < n; j++) if (c[j] == i) { S->rr = i; return i; }
        }
        return c[0]; }
    case 5: { // script of rank numbers, consumed one per choice
        while (S->scriptPos < S->nscript) {
            int r = S->script[S->scriptPos++];
            for (int i = 0; i < n; i++) if (S->tasks[c[i]].rank == r) return c[i];
            break;
        }
        return c[rnd() % n]; }
    case 6: { // go on while possible, then the next task; deviations as given
        int d = 0;
        for (int i = 0; i < n; i++) if (c[i] == self) d = i;
        if (c[d] != self) { while (d < n && c[d] < self) d++; d %= n; }
        int at = S->nchoices++;
        if (at < (int)sizeof S->degree) S->degree[at] = n;
        for (int k = 0; k < S->nalts; k++) if (S->altAt[k] == at) d = (d + S->altTo[k]) % n;
        return c[d]; }
    default:
        return c[rnd() % n];
    }
}

static void reportStuck(const char *what) {
    std::string s = std::string("{\"e\":\"") + what + "\",\"waits\":[";
    bool first = true;
    for (int i = 0; i < S->ntasks; i++) {
        Task &t = S->tasks[i];
        if (t.state == T_FREE || t.state == T_DONE) continue;
        char b[300];
        snprintf(b, sizeof b, "%s{\"r\":%d,\"t\":%d,\"w\":\"%s\"}", first ? "" : ",",
                 t.rank, t.thread, t.state == T_BLOCKED ? t.wait : "running");
        s += b; first = false;
    }
    logs(s + "]}");
}

static bool anyLive() {
    for (int i = 0; i < S->ntasks; i++)
        if (S->tasks[i].state != T_FREE && S->tasks[i].state != T_DONE) return true;
    return false;
}
static bool anyDetached() {
    for (int i = 0; i < S->ntasks; i++)
        if (S->tasks[i].state == T_DETACHED) return true;
    return false;
}
// Has a message become visible since the last look?
static bool arrived() {
    for (int i = S->inflightHead; i < S->nmsgs; i++)
        if (!M[i].matched && M[i].visibleAt > S->scanStep && M[i].visibleAt <= S->steps) return true;
    return false;
}
// Lets time pass so that a delayed message arrives. False: nothing in flight.
static bool advanceTime() {
    bool newly = arrived();
    S->scanStep = S->steps;
    if (newly) {
        S->epoch++;
        progressMatches();
        return true;
    }
    uint64_t best = UINT64_MAX;
    for (int i = S->inflightHead; i < S->nmsgs; i++)
        if (!M[i].matched && M[i].visibleAt > S->steps && M[i].visibleAt < best)
            best = M[i].visibleAt;
    if (best == UINT64_MAX) return false;
    S->steps = S->scanStep = best;
    S->epoch++;
    progressMatches();
    return true;
}

// Gives the baton to someone (lock held); returns the chosen task or -1.
static int grant(int self, bool avoidSelf) {
    for (;;) {
        S->steps++;
        int n = pick(self, avoidSelf);
        if (n >= 0) {
            S->running = n;
            S->tasks[n].state = T_RUNNING;
            S->inEngine = 1;
            return n;
        }
        if (advanceTime()) continue;
        S->running = -1;
        S->inEngine = 0;
        S->userSince = nowns();
        if (anyDetached()) return -1;
        if (anyLive()) {
            if (!S->verdict) { reportStuck("deadlock"); setVerdict(1); }
        }
        return -1;
    }
}
void post(int t) { S->nswitch++; sem_post(&S->tasks[t].sem); }
void waitBaton() {
    while (sem_wait(&S->tasks[me].sem) && errno == EINTR) ;
}
static void resched(int newstate, bool avoidSelf) {
    lockS();
    S->tasks[me].state = newstate;
    int n = grant(me, avoidSelf);
    unlockS();
    if (n == me) return;
    if (n >= 0) post(n);
    waitBaton();
}
static void limits() {
    if (S->cfg.maxsteps && S->steps > (uint64_t)S->cfg.maxsteps && !S->verdict) {
        reportStuck("livelock");
        setVerdict(2);
        hang();
    }
    if (S->verdict) hang();
}
static void acquire() {
    lockS();
    if (S->tasks[me].state == T_RUNNING && S->running == me) {
        S->inEngine = 1;
        unlockS();
        return;
    }
    // detached: ask for the baton again
    S->tasks[me].state = T_READY;
    if (S->running == -1) {
        int n = grant(me, false);
        unlockS();
        if (n == me) return;
        if (n >= 0) post(n);
    }
    else unlockS();
    waitBaton();
}
void enter() { acquire(); resched(T_READY, false); limits(); }
void enterNoYield() { acquire(); limits(); }
void leave() { S->userSince = nowns(); __sync_synchronize(); S->inEngine = 0; }
void block(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->tasks[me].wait, sizeof S->tasks[me].wait, fmt, ap);
    va_end(ap);
    S->tasks[me].pollEpoch = S->epoch;
    resched(T_BLOCKED, false);
    limits();
}
void softpoll() {
    S->softpolls++;
    // Polling takes time, in which messages arrive.
    if (S->softpolls % 16 == 0) {
        lockS();
        if (S->softpolls % 64 == 0 || arrived()) advanceTime();
        unlockS();
    }
    if (S->softpolls > 4000ULL * S->ntasks) {
        // Nothing has changed for thousands of fruitless polls.
        lockS();
        bool t = advanceTime();
        unlockS();
        S->softpolls = 0;
        if (!t && !S->verdict) { reportStuck("livelock"); setVerdict(2); hang(); }
    }
    resched(T_READY, true);
    limits();
}
void progressed() { S->epoch++; S->softpolls = 0; }
void taskExit() {
    lockS();
    S->tasks[me].state = T_FREE;
    int n = grant(-1, false);
    unlockS();
    if (n >= 0) post(n);
}

// ------------------------------------------------------------------ job driver
static void *shmmap(size_t n) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(97); }
    return p;
}

struct Job {
    std::string id, out, script, alts, stdoutf;
    std::vector<std::string> args;
    Config cfg;
};

static int nTimeouts = 0;
static void runJob(const Job &j, int (*appmain)(int, char **)) {
    madvise(S, sizeof(Shm), MADV_REMOVE);
    madvise(M, sizeof(Msg) * (size_t)MAXMSG, MADV_REMOVE);
    madvise(A, ARENA, MADV_REMOVE);
    madvise(TR, TRACE, MADV_REMOVE);
    memset(S, 0, sizeof(Shm));
    S->cfg = j.cfg;
    S->rng = j.cfg.seed * 0x2545F4914F6CDD1DULL + 12345;
    S->running = -1;
    S->starve = rnd() % j.cfg.ranks;
    if (!j.script.empty()) {
        FILE *f = fopen(j.script.c_str(), "r");
        int v;
        while (f && S->nscript < (int)sizeof S->script && fscanf(f, "%d", &v) == 1)
            S->script[S->nscript++] = v;
        if (f) fclose(f);
    }
    for (std::istringstream is(j.alts); S->nalts < 16; S->nalts++) {
        char c;
        if (!(is >> S->altAt[S->nalts] >> c >> S->altTo[S->nalts])) break;
        is >> c;
    }
    int R = j.cfg.ranks;
    std::vector<pid_t> pid(R);
    for (int r = 0; r < R; r++) newTask(r, 0, T_READY);
    fflush(NULL);
    pid_t parent = getpid();
    for (int r = 0; r < R; r++) {
        pid[r] = fork();
        if (pid[r] == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) _exit(98);
            rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            std::string so = j.stdoutf.empty() ? "/dev/null"
                           : (r == 0 ? j.stdoutf : j.stdoutf + "." + std::to_string(r));
            int fd = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 1); dup2(fd, 2); close(fd);
            me = r; myRank = r;
            waitBaton();
            leave();
            std::vector<char *> av;
            for (auto &a : j.args) av.push_back(const_cast<char *>(a.c_str()));
            av.push_back(NULL);
            int rc = appmain(j.args.size(), av.data());
            guardCheck();
            fflush(NULL);
            enterNoYield();
            logf("{\"e\":\"exit\",\"r\":%d,\"rc\":%d,\"fin\":%d}", r, rc, S->finalized[r]);
            lockS();
            S->tasks[me].state = T_DONE;
            progressed();
            int n = grant(-1, false);
            unlockS();
            if (n >= 0) post(n);
            _exit(rc);
        }
    }
    uint64_t t0 = nowns();
    lockS();
    int n = grant(-1, false);
    unlockS();
    post(n);
    int left = R;
    std::vector<int> rcs(R, -1000);
    int polls = 0;
    while (left > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int r = 0; r < R; r++) if (pid[r] == p) {
                left--;
                pid[r] = 0;
                rcs[r] = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
                bool clean = false;
                for (int i = 0; i < S->ntasks; i++)
                    if (S->tasks[i].rank == r && S->tasks[i].thread == 0)
                        clean = S->tasks[i].state == T_DONE;
                if (!clean && !S->verdict) {
                    // the rank died (abort, exit or signal) in mid-run
                    char b[200];
                    snprintf(b, sizeof b, "{\"e\":\"died\",\"r\":%d,\"rc\":%d}", r, rcs[r]);
                    logs(b);
                    setVerdict(3);
                }
            }
            continue;
        }
        if (S->verdict == 1 || S->verdict == 2 || S->verdict == 3 || S->verdict == 5)
            for (int r = 0; r < R; r++) if (pid[r]) kill(pid[r], SIGKILL);
        uint64_t now = nowns();
        if (S->verdict == 0 && S->inEngine == 0) {
            if (S->running >= 0 && now > S->userSince && now - S->userSince > 60000000ULL) {
                lockS();
                int run = S->running;
                if (run >= 0 && S->inEngine == 0 && S->verdict == 0 && left > 0) {
                    bool other = false;
                    for (int i = 0; i < S->ntasks; i++)
                        if (i != run && S->tasks[i].state != T_FREE
                            && S->tasks[i].state != T_DONE) other = true;
                    if (other) {
                        S->tasks[run].state = T_DETACHED;
                        S->ndetach++;
                        int n = grant(-1, false);
                        unlockS();
                        if (n >= 0) post(n);
                        continue;
                    }
                }
                unlockS();
            }
            if (S->running == -1 && now > S->userSince && now - S->userSince > 45000000000ULL) {
                lockS();
                if (S->running == -1 && !S->verdict) {
                    reportStuck("deadlock"); setVerdict(1);
                }
                unlockS();
            }
        }
        if (!S->verdict && now - t0 > j.cfg.timeout * 1000000000ULL) {
            reportStuck("timeout");
            setVerdict(5);
        }
        usleep(polls++ < 50 ? 100 : 1000);
    }
    if (!S->verdict) S->verdict = 4;
    if (S->verdict == 5) nTimeouts++;
    // what is left in the network
    char b[1000];
    int lost = 0;
    if (S->verdict == 4)
        for (int i = 0; i < S->nmsgs; i++)
            if (!M[i].received) {
                lost++;
                snprintf(b, sizeof b, "{\"e\":\"lost\",\"r\":%d,\"to\":%d,\"tag\":%d,\"len\":%lu}",
                         M[i].src, M[i].dst, M[i].tag, (unsigned long)M[i].len);
                logs(b);
            }
    static const char *vn[] = {"none", "deadlock", "livelock", "died", "done", "timeout"};
    std::string rc = "[";
    for (int r = 0; r < R; r++) rc += (r ? "," : "") + std::to_string(rcs[r]);
    rc += "]";
    snprintf(b, sizeof b, "{\"e\":\"end\",\"verdict\":\"%s\",\"rc\":%s,\"steps\":%lu,"
             "\"msgs\":%d,\"lost\":%d,\"solves\":%lu,\"detached\":%lu,\"err\":\"%s\"}",
             vn[S->verdict], rc.c_str(), (unsigned long)S->steps, S->nmsgs, lost,
             (unsigned long)S->nsolves, (unsigned long)S->ndetach, S->errmsg);
    logs(b);
    std::string res = b;
    if (j.cfg.policy == 6) {
        res = res.substr(0, res.size() - 1) + ",\"choices\":\"";
        for (int i = 0; i < S->nchoices && i < (int)sizeof S->degree; i++) res += (char)('0' + S->degree[i]);
        res += "\"}";
    }
    FILE *f = fopen(j.out.c_str(), "w");
    if (!f) { perror(j.out.c_str()); exit(97); }
    fwrite(TR, 1, S->traceLen, f);
    fclose(f);
    printf("%s %s\n", j.id.c_str(), res.c_str());
    fflush(stdout);
}

// Job file: one job per line: key=value ... -- args
void runJobs(const char *jobfile, int (*appmain)(int, char **)) {
    S = (Shm *)shmmap(sizeof(Shm));
    M = (Msg *)shmmap(sizeof(Msg) * (size_t)MAXMSG);
    A = (char *)shmmap(ARENA);
    TR = (char *)shmmap(TRACE);
    std::ifstream in(jobfile);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        Job j;
        Config c;
        memset(&c, 0, sizeof c);
        c.ranks = 1; c.threads = 1; c.seed = 1; c.logsolve = 1; c.timeout = 120;
        std::istringstream is(line);
        std::string w;
        while (is >> w && w != "--") {
            size_t e = w.find('=');
            std::string k = w.substr(0, e), v = w.substr(e + 1);
            if (k == "id") j.id = v;
            else if (k == "out") j.out = v;
            else if (k == "stdout") j.stdoutf = v;
            else if (k == "script") j.script = v;
            else if (k == "alts") j.alts = v;
            else if (k == "ranks") c.ranks = std::stoi(v);
            else if (k == "threads") c.threads = std::stoi(v);
            else if (k == "seed") c.seed = std::stoull(v);
            else if (k == "policy") c.policy = std::stoi(v);
            else if (k == "mode") c.mode = std::stoi(v);
            else if (k == "delay") c.delay = std::stoi(v);
            else if (k == "full") c.full = std::stoi(v);
            else if (k == "logmpi") c.logmpi = std::stoi(v);
            else if (k == "logsolve") c.logsolve = std::stoi(v);
            else if (k == "logvec") c.logvec = std::stoi(v);
            else if (k == "probe") c.probe = std::stoi(v);
            else if (k == "logmesh") c.logmesh = std::stoi(v);
            else if (k == "perturb") c.perturb = std::stoi(v);
            else if (k == "logio") c.logio = std::stoi(v);
            else if (k == "iorank") c.iorank = std::stoi(v);
            else if (k == "ioop") c.ioop = std::stoi(v);
            else if (k == "iokind") c.iokind = std::stoi(v);
            else if (k == "maxsteps") c.maxsteps = std::stoi(v);
            else if (k == "timeout") c.timeout = std::stoi(v);
            else { fprintf(stderr, "bad key %s\n", k.c_str()); exit(97); }
        }
        j.args.push_back("sweep.x");
        while (is >> w) j.args.push_back(w);
        j.cfg = c;
        if (nTimeouts >= 2) {   // the program hangs; do not wait for it again and again
            printf("%s {\"e\":\"end\",\"verdict\":\"skipped\"}\n", j.id.c_str());
            fflush(stdout);
            continue;
        }
        runJob(j, appmain);
    }
}
}
