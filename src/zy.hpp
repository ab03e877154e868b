// Helpers shared by the property files: strict recording allocator, guarded buffers, status names.
#pragma once
#include "engine.hpp"
#include <map>
#include <set>
#include <memory>
#include <Zycore/Allocator.h>
#include <Zycore/Object.h>
#include <Zycore/Status.h>
#include <Zycore/Types.h>

inline std::string st_name(ZyanStatus s)
{
    char b[32];
    // no switch: a library whose codes collide must still compile
    if (s == ZYAN_STATUS_SUCCESS) return "SUCCESS";
    if (s == ZYAN_STATUS_FAILED) return "FAILED";
    if (s == ZYAN_STATUS_TRUE) return "TRUE";
    if (s == ZYAN_STATUS_FALSE) return "FALSE";
    if (s == ZYAN_STATUS_INVALID_ARGUMENT) return "INVALID_ARGUMENT";
    if (s == ZYAN_STATUS_INVALID_OPERATION) return "INVALID_OPERATION";
    if (s == ZYAN_STATUS_ACCESS_DENIED) return "ACCESS_DENIED";
    if (s == ZYAN_STATUS_NOT_FOUND) return "NOT_FOUND";
    if (s == ZYAN_STATUS_OUT_OF_RANGE) return "OUT_OF_RANGE";
    if (s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) return "INSUFFICIENT_BUFFER_SIZE";
    if (s == ZYAN_STATUS_NOT_ENOUGH_MEMORY) return "NOT_ENOUGH_MEMORY";
    if (s == ZYAN_STATUS_BAD_SYSTEMCALL) return "BAD_SYSTEMCALL";
    if (s == ZYAN_STATUS_OUT_OF_RESOURCES) return "OUT_OF_RESOURCES";
    if (s == ZYAN_STATUS_MISSING_DEPENDENCY) return "MISSING_DEPENDENCY";
    snprintf(b, sizeof b, "0x%08x", (unsigned)s); return b;
}
#define STN(s) st_name(s).c_str()

// Exact-size heap block: ASan red zones sit directly at both ends.
struct Guarded
{
    uint8_t* p = nullptr; size_t n = 0;
    Guarded() {}
    explicit Guarded(size_t sz, int fill = 0xC3) { alloc(sz, fill); }
    ~Guarded() { free(p); }
    Guarded(const Guarded&) = delete;
    Guarded& operator=(const Guarded&) = delete;
    void alloc(size_t sz, int fill = 0xC3) { free(p); p = (uint8_t*)malloc(sz ? sz : 1); n = sz; memset(p, fill, sz); }
    void assign(const void* d, size_t sz) { free(p); p = (uint8_t*)malloc(sz ? sz : 1); n = sz; if (sz) memcpy(p, d, sz); }
};

// A distinctive status nobody else produces; still a failure status.
#define INJECTED_STATUS ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 0x21u, 0x4Au)

// Decides which requests for memory are refused.
struct Injector
{
    uint64_t n_failed = 0;
    uint64_t calls = 0;             // allocate + reallocate calls
    uint64_t fail_from = 0, fail_to = 0; // refuse calls with index in [from, to) (1-based), 0 = none
    bool fail_all = false;
    ZyanStatus status = INJECTED_STATUS; // what a refused operation must return
    void inject(uint64_t k, uint64_t len = 1) { fail_from = calls + k; fail_to = fail_from + len; } // k >= 1
    void no_inject() { fail_from = fail_to = 0; fail_all = false; }
    bool refuse()
    {
        ++calls;
        bool r = fail_all || (fail_from && calls >= fail_from && calls < fail_to);
        if (r) ++n_failed;
        return r;
    }
};

struct RecAlloc : ZyanAllocator, Injector
{
    struct Blk { size_t elem, n; };
    std::map<void*, Blk> live;
    uint64_t free_calls = 0, free_fail_from = 0, free_fail_to = 0;   // releases with index in [from, to) are refused (1-based)
    uint64_t n_free_failed = 0;
    std::set<void*> refused;                                         // blocks whose release was refused and that are still allocated
    uint64_t n_alloc = 0, n_realloc = 0, n_free = 0;
    size_t limit = (size_t)64 << 20;
    bool strict_status = true;
    const char* name = "allocator";

    RecAlloc()
    {
        ZyanStatus s = ZyanAllocatorInit(this, &do_alloc, &do_realloc, &do_free);
        CHECK(s == ZYAN_STATUS_SUCCESS, "ZyanAllocatorInit returned %s", STN(s));
    }
    ~RecAlloc() { for (auto& b : live) free(b.first); }
    RecAlloc(const RecAlloc&) = delete;

    uint64_t total() const { return n_alloc + n_realloc + n_free; }
    void check_empty(const char* when) { CHECK(live.size() == refused.size(), "%s: %zu block(s) still allocated %s", name, live.size() - refused.size(), when); }
    static RecAlloc* self(ZyanAllocator* a) { CHECK(a != nullptr, "allocator callback called with a null allocator"); return static_cast<RecAlloc*>(a); }

    static ZyanStatus do_alloc(ZyanAllocator* a, void** p, ZyanUSize elem, ZyanUSize n)
    {
        RecAlloc* s = self(a);
        CHECK(p && elem && n, "%s: allocate called with p=%p element_size=%zu n=%zu", s->name, (void*)p, (size_t)elem, (size_t)n);
        ++s->n_alloc;
        if (s->refuse()) return INJECTED_STATUS;
        size_t sz;
        if (__builtin_mul_overflow(elem, n, &sz) || sz > s->limit) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
        void* q = malloc(sz); memset(q, 0xA5, sz);
        s->live[q] = Blk{elem, n};
        note("%s: allocate %zu x %zu", s->name, (size_t)elem, (size_t)n);
        *p = q;
        return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus do_realloc(ZyanAllocator* a, void** p, ZyanUSize elem, ZyanUSize n)
    {
        RecAlloc* s = self(a);
        CHECK(p && elem && n, "%s: reallocate called with p=%p element_size=%zu n=%zu", s->name, (void*)p, (size_t)elem, (size_t)n);
        ++s->n_realloc;
        auto it = s->live.find(*p);
        CHECK(it != s->live.end(), "%s: reallocate of a block that is not live", s->name);
        CHECK(it->second.elem == elem, "%s: reallocate with element size %zu, allocated with %zu", s->name, (size_t)elem, it->second.elem);
        if (s->refuse()) { note("%s: reallocate to %zu x %zu REFUSED", s->name, (size_t)elem, (size_t)n); return INJECTED_STATUS; }
        size_t sz;
        if (__builtin_mul_overflow(elem, n, &sz) || sz > s->limit) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
        void* q = malloc(sz); memset(q, 0xA5, sz);
        memcpy(q, *p, std::min(sz, it->second.elem * it->second.n));
        free(*p);
        s->live.erase(it);
        s->live[q] = Blk{elem, n};
        note("%s: reallocate to %zu x %zu", s->name, (size_t)elem, (size_t)n);
        *p = q;
        return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus do_free(ZyanAllocator* a, void* p, ZyanUSize elem, ZyanUSize n)
    {
        RecAlloc* s = self(a);
        ++s->n_free;
        auto it = s->live.find(p);
        CHECK(it != s->live.end(), "%s: release of a block that is not live", s->name);
        CHECK(it->second.elem == elem && it->second.n == n, "%s: release of a %zu x %zu block as %zu x %zu", s->name,
            it->second.elem, it->second.n, (size_t)elem, (size_t)n);
        ++s->free_calls;
        if (s->free_fail_from && s->free_calls >= s->free_fail_from && s->free_calls < s->free_fail_to)
        {
            ++s->n_free_failed; s->refused.insert(p); note("%s: release REFUSED", s->name); return INJECTED_STATUS;
        }
        free(p);
        s->live.erase(it); s->refused.erase(p);
        note("%s: release", s->name);
        return ZYAN_STATUS_SUCCESS;
    }
};
