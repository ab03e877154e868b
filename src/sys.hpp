// Common base of the model-based container systems.
#pragma once
#include "api.hpp"
#include "zy.hpp"
#include <functional>

// fills an object that is about to be initialised with arbitrary old contents
inline void garble(Src& s, void* p, size_t n) { memset(p, s.pick<int>({0xCC, 0x00, 0xFF, 0x01}), n); }

struct SysBase
{
    const Api& A;
    RecAlloc* ra = nullptr;      // the recording allocator the container was initialised with (may be null)
    bool inject = false;         // inject allocation failures around operations
    Injector* inj = nullptr;     // ... through this (default: the recording allocator)
    bool refused = false;        // set when the last call was refused and not retried
    bool shrink_refused = false; // set when an optional shrink was refused but the operation succeeded
    unsigned injected = 0;
    explicit SysBase(const Api& a) : A(a) {}
    virtual ~SysBase() {}

    Injector* injector() const { return inj ? inj : ra; }
    bool skipped(ZyanStatus st) const { return refused && st == injector()->status; }
    enum { NONE = 0, MAY_SUCCEED = 1 };
    // Runs one library call; optionally with an allocation failure first. `unchanged` must verify that the container
    // still equals the model (previous contents), it is called after a refused attempt; the call is then retried.
    template <class F, class U> ZyanStatus call(Src& s, F f, U unchanged, int flags = NONE)
    {
        shrink_refused = refused = false;
        Injector* ra = injector();
        if (inject && ra && s.chance(1, 3))
        {
            uint64_t before = ra->n_failed;
            unsigned k = (unsigned)s.weighted({6, 2, 1, 1}) + 1;
            ra->inject(k, s.flip() ? 1 : 100);
            if (g_trace) note("allocation failure armed for allocator call +%u", k);
            ZyanStatus st = f();
            ra->no_inject();
            if (ra->n_failed > before)
            {
                ++injected;
                LABEL("allocation refused during an operation");
                if ((flags & MAY_SUCCEED) && ZYAN_SUCCESS(st)) { shrink_refused = true; return st; }
                CHECK(st == ra->status, "the allocator refused with status 0x%08x but the operation returned %s", (unsigned)ra->status, STN(st));
                unchanged();
                if (s.chance(1, 3)) { refused = true; return st; } // not retried: behaves as if never called
                return f();
            }
            return st;
        }
        return f();
    }
};
