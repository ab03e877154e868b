/* Programs whose threads communicate plain data through the atomic operations only; compiled with race detection. */
#include <Zycore/Atomic.h>
#include "C33_shim.h"
#ifdef __cplusplus
extern "C" {
#endif
int sched_yield(void);
#ifdef __cplusplus
}
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef BY_MACRO
static uint64_t c32(void* p, uint64_t a, uint64_t b) { return ZYAN_ATOMIC_COMPARE_EXCHANGE32(*(ZyanU32*)p, (ZyanU32)a, (ZyanU32)b); }
static uint64_t i32(void* p) { return ZYAN_ATOMIC_INCREMENT32(*(ZyanU32*)p); }
static uint64_t d32(void* p) { return ZYAN_ATOMIC_DECREMENT32(*(ZyanU32*)p); }
static uint64_t c64(void* p, uint64_t a, uint64_t b) { return ZYAN_ATOMIC_COMPARE_EXCHANGE64(*(ZyanU64*)p, a, b); }
static uint64_t i64(void* p) { return ZYAN_ATOMIC_INCREMENT64(*(ZyanU64*)p); }
static uint64_t d64(void* p) { return ZYAN_ATOMIC_DECREMENT64(*(ZyanU64*)p); }
static uint64_t cp(void* p, uint64_t a, uint64_t b) { return ZYAN_ATOMIC_COMPARE_EXCHANGE(*(ZyanVoidPointer*)p, (ZyanUPointer)a, (ZyanUPointer)b); }
static uint64_t ip(void* p) { return ZYAN_ATOMIC_INCREMENT(*(ZyanVoidPointer*)p); }
static uint64_t dp(void* p) { return ZYAN_ATOMIC_DECREMENT(*(ZyanVoidPointer*)p); }
#else
static uint64_t c32(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange32((ZyanAtomic32*)p, (ZyanU32)a, (ZyanU32)b); }
static uint64_t i32(void* p) { return ZyanAtomicIncrement32((ZyanAtomic32*)p); }
static uint64_t d32(void* p) { return ZyanAtomicDecrement32((ZyanAtomic32*)p); }
static uint64_t c64(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange64((ZyanAtomic64*)p, a, b); }
static uint64_t i64(void* p) { return ZyanAtomicIncrement64((ZyanAtomic64*)p); }
static uint64_t d64(void* p) { return ZyanAtomicDecrement64((ZyanAtomic64*)p); }
static uint64_t cp(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange((ZyanAtomicPointer*)p, (ZyanUPointer)a, (ZyanUPointer)b); }
static uint64_t ip(void* p) { return ZyanAtomicIncrement((ZyanAtomicPointer*)p); }
static uint64_t dp(void* p) { return ZyanAtomicDecrement((ZyanAtomicPointer*)p); }
#endif
#define PROGRAMS(w) \
static void CAT(relay, w)(struct Relay* r, int thread) \
{ \
    int i, k; unsigned spin = 0; \
    for (i = 0; i < r->nsteps; ++i) \
    { \
        const struct Step* s = &r->steps[i]; \
        if (s->thread != thread) continue; \
        while (CAT(c, w)(r->token, s->probe, s->probe) != s->wait) if (++spin > 100) sched_yield(); \
        for (k = 0; k < s->n; ++k) if (s->acc[k].write) r->data[s->acc[k].cell] = s->acc[k].value; else if (r->data[s->acc[k].cell] != s->acc[k].value) r->bad = 1; \
        if (s->pass == 0) CAT(i, w)(r->token); else if (s->pass == 1) CAT(d, w)(r->token); else if (CAT(c, w)(r->token, s->wait, s->next) != s->wait) r->bad = 2; \
    } \
} \
/* every thread leaves a value and counts; the one that completes the count reads them all, changes them and opens the next round */ \
static void CAT(gather, w)(struct Gather* g, int thread) \
{ \
    unsigned round, spin = 0; int k; \
    for (round = 0; round < g->rounds; ++round) \
    { \
        uint64_t n = (uint64_t)g->threads, base = g->down ? g->start - round * n : g->start + round * n, last = g->down ? base - n : base + n, got; \
        g->data[thread] += (uint64_t)thread + 1; \
        got = g->down ? CAT(d, w)(g->counter) : CAT(i, w)(g->counter); \
        if (got == last) { for (k = 0; k < g->threads; ++k) { if (g->data[k] != ((uint64_t)k + 1) * (round + 1)) g->bad = 1; } g->data[7] = round + 1; CAT(i, w)((char*)g->counter + 64); } \
        else { while (CAT(c, w)((char*)g->counter + 64, round + 1, round + 1) != round + 1) if (++spin > 100) sched_yield(); } \
        if (g->data[7] != round + 1) g->bad = 2; \
        /* nobody may start the next round before all have read */ \
        CAT(d, w)((char*)g->counter + 128); \
        while (CAT(c, w)((char*)g->counter + 128, g->start - n * (round + 1), g->start - n * (round + 1)) != g->start - n * (round + 1)) if (++spin > 100) sched_yield(); \
    } \
} \
static void CAT(lock, w)(struct Lock* l, int thread) \
{ \
    unsigned k, spin = 0; int j; \
    for (k = 0; k < l->n; ++k) \
    { \
        while (CAT(c, w)(l->lock, 0, 1) != 0) if (++spin > 50) sched_yield(); \
        for (j = 0; j < l->cells; ++j) l->data[j] += 1 + (uint64_t)j; \
        if (l->release) CAT(d, w)(l->lock); else CAT(c, w)(l->lock, 1, 0); \
    } \
    (void)thread; \
}
PROGRAMS(32)
PROGRAMS(64)
PROGRAMS(p)
#ifdef __cplusplus
extern "C"
#endif
const struct PubOps CAT(pub_ops_, SHIM);
#ifdef __cplusplus
extern "C"
#endif
const struct PubOps CAT(pub_ops_, SHIM) = {{relay32, relay64, relayp}, {gather32, gather64, gatherp}, {lock32, lock64, lockp}};
