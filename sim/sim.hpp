// Shared state and scheduler interface of the simulated machine.
#ifndef SIM_HPP
#define SIM_HPP
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <string>

void guardCheck();
namespace sim {

enum TaskState { T_FREE, T_READY, T_RUNNING, T_BLOCKED, T_DETACHED, T_DONE };

struct Task {
    int rank, thread, state;
    uint64_t pollEpoch;     // BLOCKED: epoch at which its condition was false
    uint64_t prio;          // for priority policies
    sem_t sem;
    char wait[120];
};

struct Msg {
    int src, dst, tag, dt, sync;   // sync: completes only when matched
    int matched, received;
    int sdone, bufchanged;
    int isnb;                      // 1: nonblocking send
    uint64_t len, off, visibleAt, hash;
};

struct Post {               // posted receive
    int rank, src, tag, dt, used, msg;
    uint64_t maxlen;
    uint64_t order;
};

const int MAXTASK = 128, MAXRANK = 32, MAXMSG = 1 << 20, MAXPOST = 4096;
const int NCOLL = 64, MAXCOLLBYTES = 65536;

struct Coll {
    uint64_t seq;
    int kind, dt, op, count, root, arrived, left;
    int result;
    char data[MAXRANK][MAXCOLLBYTES];
};

struct Config {
    int ranks, threads;
    uint64_t seed;
    int policy;             // 0 uniform 1 sticky 2 priorities 3 starve one 4 round robin 5 script 6 fixed, with given deviations
    int mode;               // 0 eager 1 rendezvous 2 random 3 threshold
    int delay;              // max delivery delay in steps
    int full;               // log full numbers in solve events
    int logmpi;             // log message events
    int logsolve;
    int logvec;             // log Krylov vectors
    int probe;              // apply Krylov operators to a random vector first
    int logmesh;            // log the loaded mesh
    int perturb;            // make all results distinguishable
    int logio;              // log every operation on files
    int iorank, ioop, iokind;   // the operation (of this rank, from 1) that fails: 1 error, 2 a short transfer; 3, 4: and those after it
    int maxsteps;           // scheduling step limit (0: none)
    int timeout;            // seconds wall
};

struct Shm {
    Config cfg;
    volatile int lock;
    volatile int running;       // task holding the baton, -1 none
    volatile int inEngine;
    volatile uint64_t userSince;
    volatile int verdict;       // 0 none 1 deadlock 2 livelock 3 error 4 done 5 timeout
    uint64_t rng, epoch, steps, scanStep, softpolls;
    int ntasks;
    Task tasks[MAXTASK];
    int nmsgs;
    uint64_t arena;             // payload bytes used
    int npost;
    uint64_t postorder;
    Post posts[MAXPOST];
    int inflightHead;           // all msgs below are received
    uint64_t lastVisible[MAXRANK][MAXRANK];
    uint64_t collseq[MAXRANK];
    Coll colls[NCOLL];
    int fileResult;
    int initd[MAXRANK], finalized[MAXRANK];
    int starve;
    int rr;
    volatile uint64_t traceLen;
    uint64_t nswitch;
    int nscript, scriptPos;
    unsigned char script[1 << 16];
    int nalts, altAt[16], altTo[16];    // policy 6: at this choice, this many tasks further
    int nchoices;
    unsigned char degree[1 << 16];      // policy 6: how many tasks could go on at each choice
    uint64_t nsolves, nsends, nrecvs, ncolls, nfalsepolls, ndetach;
    int lastErrSet;
    char errmsg[400];
};

extern Shm *S;
extern Msg *M;              // message table
extern char *A;             // payload arena
extern char *TR;            // trace buffer
extern const uint64_t ARENA, TRACE;

extern __thread int me;     // my task id
extern __thread int ompThread, ompTeam;
extern int myRank;

void enter();               // sync point: may switch to another task
void enterNoYield();        // acquire engine without offering to switch
void leave();
void block(const char *fmt, ...);   // condition false: let others run until epoch changes
void softpoll();            // a poll returned "nothing"
void progressed();          // state changed: wake blocked tasks
uint64_t rnd();
void logf(const char *fmt, ...);    // append to the trace (engine held)
void logs(const std::string &s);
long printed();
void error(const char *fmt, ...);   // a rule of the simulated machine was broken
int newTask(int rank, int thread, int state);
void post(int task);
void waitBaton();
void taskExit();            // baton holder gives up for good or until reposted
uint64_t nowns();
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
void runJobs(const char *jobfile, int (*appmain)(int, char **));
}
#endif
