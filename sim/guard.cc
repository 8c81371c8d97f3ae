// Allocation that notices writes beyond the end (or before the beginning) of a
// block and double deletes, and whose fresh and deleted blocks hold garbage.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <atomic>

namespace {
struct Head { Head *next, *prev; size_t size; uint64_t magic; uint64_t canary[2]; };
const uint64_t LIVE = 0x4c49564548454144ULL, DEAD = 0x4445414442454546ULL, CAN = 0xa55aa55a5aa55aa5ULL;
Head *head;
std::atomic_flag lock = ATOMIC_FLAG_INIT;
void take() { while (lock.test_and_set(std::memory_order_acquire)) ; }
void give() { lock.clear(std::memory_order_release); }
const size_t TAIL = 32;

void fail(const char *what, size_t n) {
    fprintf(stderr, "memory: %s (block of %zu bytes)\n", what, n);
    fflush(NULL);
    abort();
}
const char *check(Head *h) {
    if (h->magic == DEAD) return "deleted twice";
    if (h->magic != LIVE || h->canary[0] != CAN || h->canary[1] != CAN) return "written before its beginning";
    unsigned char *t = (unsigned char *)(h + 1) + h->size;
    for (size_t i = 0; i < TAIL; i++) if (t[i] != 0xb6) return "written beyond its end";
    return NULL;
}
void *get(size_t n) {
    Head *h = (Head *)malloc(sizeof(Head) + n + TAIL);
    if (!h) return NULL;
    h->size = n; h->magic = LIVE; h->canary[0] = h->canary[1] = CAN; h->prev = NULL;
    memset(h + 1, 0xcb, n);
    memset((unsigned char *)(h + 1) + n, 0xb6, TAIL);
    take();
    h->next = head;
    if (head) head->prev = h;
    head = h;
    give();
    return h + 1;
}
void put(void *p) {
    if (!p) return;
    Head *h = (Head *)p - 1;
    const char *c = check(h);
    if (c) fail(c, h->size);
    take();
    if (h->prev) h->prev->next = h->next; else head = h->next;
    if (h->next) h->next->prev = h->prev;
    give();
    h->magic = DEAD;
    memset(p, 0xdb, h->size);
    free(h);
}
}

// Checks all blocks; ends the process if one is damaged.
void guardCheck() {
    take();
    const char *c = NULL;
    size_t n = 0;
    for (Head *h = head; h && !c; h = h->next) { c = check(h); n = h->size; }
    give();
    if (c) fail(c, n);
}
#ifdef GUARD_ATEXIT
namespace { struct AtExit { AtExit() { atexit(guardCheck); } } atExit; }
#endif

void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
