// Stand-ins for the C library's heap functions: the library is compiled with -Dmalloc=zyhook_malloc and so on.
#pragma once
#include "zy.hpp"
static std::map<void*, size_t> g_heap; // live blocks and their sizes
static uint64_t g_heap_calls;
static struct HeapInjector : Injector { HeapInjector() { status = ZYAN_STATUS_NOT_ENOUGH_MEMORY; } } g_heap_inj;
static void* heap_new(size_t n, size_t align = 0, bool zero = false)
{
    ++g_heap_calls; if (g_heap_inj.refuse()) { note("heap: request for %zu bytes REFUSED", n); errno = ENOMEM; return nullptr; }
    if (n > ((size_t)64 << 20)) { errno = ENOMEM; return nullptr; }
    void* p = nullptr;
    if (align <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, align, n ? n : 1)) return nullptr;
    memset(p, zero ? 0 : 0xA5, n); g_heap[p] = n; note("heap: %zu bytes", n); return p;
}
extern "C" void* zyhook_malloc(size_t n) { return heap_new(n); }
extern "C" void* zyhook_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return heap_new(n, 0, true); }
extern "C" void* zyhook_aligned_alloc(size_t al, size_t n) { return heap_new(n, al); }
extern "C" int zyhook_posix_memalign(void** p, size_t al, size_t n) { void* q = heap_new(n, al); if (!q) return ENOMEM; *p = q; return 0; }
extern "C" void zyhook_free(void* p) { ++g_heap_calls; if (!p) return; CHECK(g_heap.erase(p), "free of a block that was not allocated or already released"); note("heap: free"); free(p); }
extern "C" void* zyhook_realloc(void* q, size_t n)
{
    CHECK(!q || g_heap.count(q), "realloc of a block that was not allocated or already released");
    CHECK(!q || n, "realloc of a block to zero bytes (has no defined result)");
    void* p = heap_new(n); if (!p || !q) return p;
    memcpy(p, q, std::min(n, g_heap[q])); g_heap.erase(q); free(q); return p;
}
extern "C" void* zyhook_reallocarray(void* q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return zyhook_realloc(q, n); }
