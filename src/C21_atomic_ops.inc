/* The atomic operations of <Zycore/Atomic.h> behind plain functions; compiled several times. */
#include <Zycore/Atomic.h>
#include "C21_shim.h"
#include <stdint.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static uint64_t c32(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange32((ZyanAtomic32*)p, (ZyanU32)a, (ZyanU32)b); }
static uint64_t i32(void* p) { return ZyanAtomicIncrement32((ZyanAtomic32*)p); }
static uint64_t d32(void* p) { return ZyanAtomicDecrement32((ZyanAtomic32*)p); }
static uint64_t c64(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange64((ZyanAtomic64*)p, a, b); }
static uint64_t i64(void* p) { return ZyanAtomicIncrement64((ZyanAtomic64*)p); }
static uint64_t d64(void* p) { return ZyanAtomicDecrement64((ZyanAtomic64*)p); }
static uint64_t cp(void* p, uint64_t a, uint64_t b) { return ZyanAtomicCompareExchange((ZyanAtomicPointer*)p, (ZyanUPointer)a, (ZyanUPointer)b); }
static uint64_t ip(void* p) { return ZyanAtomicIncrement((ZyanAtomicPointer*)p); }
static uint64_t dp(void* p) { return ZyanAtomicDecrement((ZyanAtomicPointer*)p); }
/* the macros take the variable itself */
static uint64_t mc32(void* p, uint64_t a, uint64_t b) { ZyanU32 r = ZYAN_ATOMIC_COMPARE_EXCHANGE32(*(ZyanU32*)p, (ZyanU32)a, (ZyanU32)b); return r; }
static uint64_t mi32(void* p) { ZyanU32 r = ZYAN_ATOMIC_INCREMENT32(*(ZyanU32*)p); return r; }
static uint64_t md32(void* p) { ZyanU32 r = ZYAN_ATOMIC_DECREMENT32(*(ZyanU32*)p); return r; }
static uint64_t mc64(void* p, uint64_t a, uint64_t b) { ZyanU64 r = ZYAN_ATOMIC_COMPARE_EXCHANGE64(*(ZyanU64*)p, a, b); return r; }
static uint64_t mi64(void* p) { ZyanU64 r = ZYAN_ATOMIC_INCREMENT64(*(ZyanU64*)p); return r; }
static uint64_t md64(void* p) { ZyanU64 r = ZYAN_ATOMIC_DECREMENT64(*(ZyanU64*)p); return r; }
static uint64_t mcp(void* p, uint64_t a, uint64_t b) { ZyanUPointer r = ZYAN_ATOMIC_COMPARE_EXCHANGE(*(ZyanVoidPointer*)p, (ZyanUPointer)a, (ZyanUPointer)b); return r; }
static uint64_t mip(void* p) { ZyanUPointer r = ZYAN_ATOMIC_INCREMENT(*(ZyanVoidPointer*)p); return r; }
static uint64_t mdp(void* p) { ZyanUPointer r = ZYAN_ATOMIC_DECREMENT(*(ZyanVoidPointer*)p); return r; }
/* tight loops as the compiler inlines them into user code */
#define LOOPS(w, T) \
    static uint64_t CAT(li, w)(void* p, uint64_t n, uint64_t* out) { uint64_t k; for (k = 0; k < n; ++k) { uint64_t r = CAT(i, w)(p); if (out) out[k] = r; } return n; } \
    static uint64_t CAT(ld, w)(void* p, uint64_t n, uint64_t* out) { uint64_t k; for (k = 0; k < n; ++k) { uint64_t r = CAT(d, w)(p); if (out) out[k] = r; } return n; } \
    static uint64_t CAT(lc, w)(void* p, uint64_t n, uint64_t add) { uint64_t k, tries = 0; T cur = 0; for (k = 0; k < n;) { T old = (T)CAT(c, w)(p, cur, (T)(cur + (T)add)); ++tries; if (old == cur) { ++k; cur = (T)(cur + (T)add); } else cur = old; } return tries; }
LOOPS(32, uint32_t)
LOOPS(64, uint64_t)
LOOPS(p, uintptr_t)
#ifdef __cplusplus
extern "C"
#endif
const struct AtomicOps CAT(atomic_ops_, SHIM);
#ifdef __cplusplus
extern "C"
#endif
const struct AtomicOps CAT(atomic_ops_, SHIM) = {
    {c32, c64, cp, mc32, mc64, mcp}, {i32, i64, ip, mi32, mi64, mip}, {d32, d64, dp, md32, md64, mdp}, {li32, li64, lip}, {ld32, ld64, ldp}, {lc32, lc64, lcp}};
