// technique: stateful model-based property testing of the default allocator over stand-ins for the C library's heap with injected refusals: directly (blocks against a content model) and under random container histories, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_vec.hpp"
#include "sys_list.hpp"
#include "sys_str.hpp"
#include "sys_bits.hpp"
#include "sys_arg.hpp"
#include "heap.hpp"

PropertyInfo PROPERTY = {"C30", "exploration",
    "A case either drives the three operations of the default allocator directly (blocks of 1 to 64 KiB in random element sizes, requests "
    "whose size overflows or exceeds the memory, re-allocation in both directions) against a model of every block's contents, or runs a random "
    "history on a vector, list, string or bitset that uses the default allocator, or parses arguments with it; about a third of the "
    "operations are given a heap that refuses a chosen request; non-trivial: a block was re-allocated and a request was refused",
    900000, 10800000, 6000, 3, 3,
    {"the C library's heap is reached only through malloc, calloc, realloc, reallocarray, aligned_alloc, posix_memalign and free",
     "the operations of an allocator are reached through the members of ZyanAllocator, as the containers do"}};

static bool g_resized;
static void direct(Src& s)
{
    LABEL("direct use");
    ZyanAllocator* d = ZyanAllocatorDefault(); CHECK(d && d->allocate && d->reallocate && d->deallocate, "the default allocator lacks an operation");
    struct Blk { void* p; size_t es, n; std::string m; };
    std::vector<Blk> b; uint8_t tick = 1;
    auto fill = [&](Blk& x, size_t from) { x.m.resize(x.es * x.n); for (size_t i = from; i < x.m.size(); ++i) x.m[i] = (char)(tick * 31 + i * 7); ++tick; memcpy((char*)x.p + from, x.m.data() + from, x.m.size() - from); };
    auto verify = [&](const char* when) {
        CHECK(g_heap.size() == b.size(), "%s: %zu block(s) of the heap are live, expected %zu", when, g_heap.size(), b.size());
        for (size_t i = 0; i < b.size(); ++i)
        {
            Blk& x = b[i];
            CHECK((uintptr_t)x.p % alignof(std::max_align_t) == 0, "%s: block %zu is not aligned", when, i);
            CHECK(!memcmp(x.p, x.m.data(), x.m.size()), "%s: the contents of block %zu changed", when, i);
            for (size_t k = 0; k < i; ++k) CHECK((char*)x.p + x.m.size() <= (char*)b[k].p || (char*)b[k].p + b[k].m.size() <= (char*)x.p, "%s: blocks %zu and %zu overlap", when, k, i);
        } };
    auto count = [&](size_t es) -> size_t {
        switch (s.weighted({10, 2, 1, 1}))
        {
        case 0: return s.size(20) + 1;
        case 1: return std::max<size_t>(1, s.size(65536) / es);
        case 2: return std::max<size_t>(1, SIZE_MAX / es + 1 + s.below(3)); // overflows (for element sizes of at least 2)
        default: return std::max<size_t>(1, s.pick<size_t>({SIZE_MAX, SIZE_MAX / es, SIZE_MAX / 2, (size_t)1 << (8 * sizeof(size_t) - 17 + 16 * (sizeof(size_t) < 8))}) - s.below(3));
        } };
    do
    {
        int op = b.empty() ? 0 : (int)s.weighted({4, 4, 2});
        bool armed = s.chance(1, 4); uint64_t f0 = g_heap_inj.n_failed;
        if (op == 0 && b.size() < 12)
        {
            Blk x; x.es = s.pick<size_t>({1, 2, 3, 4, 8, 13, 16, 24, 40, 4096}); x.n = count(x.es); void* p = (void*)0x1234;
            size_t sz; bool bad = __builtin_mul_overflow(x.es, x.n, &sz) || sz > ((size_t)64 << 20);
            OP("allocate", x.es, x.n, armed);
            if (armed) g_heap_inj.inject(1); ZyanStatus st = d->allocate(d, &p, x.es, x.n); g_heap_inj.no_inject();
            if (bad || g_heap_inj.n_failed > f0) { CHECK(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "the heap cannot serve %zu x %zu bytes but allocate returned %s", x.es, x.n, STN(st)); LABEL("refused request"); verify("after a refused allocation"); continue; }
            CHECK(st == ZYAN_STATUS_SUCCESS, "allocate of %zu x %zu bytes returned %s", x.es, x.n, STN(st));
            x.p = p; fill(x, 0); b.push_back(x); verify("after an allocation");
        }
        else if (op == 1)
        {
            Blk& x = b[s.below(b.size())]; size_t n = count(x.es), sz; void* p = x.p; bool bad = __builtin_mul_overflow(x.es, n, &sz) || sz > ((size_t)64 << 20);
            OP("reallocate", (size_t)(&x - &b[0]), x.es, x.n, n, armed);
            if (armed) g_heap_inj.inject(1); ZyanStatus st = d->reallocate(d, &p, x.es, n); g_heap_inj.no_inject();
            if (bad || g_heap_inj.n_failed > f0)
            {
                CHECK(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "the heap cannot serve %zu x %zu bytes but reallocate returned %s", x.es, n, STN(st));
                CHECK(p == x.p, "a refused re-allocation changed the caller's pointer"); LABEL("refused request"); verify("after a refused re-allocation"); continue;
            }
            CHECK(st == ZYAN_STATUS_SUCCESS, "reallocate to %zu x %zu bytes returned %s", x.es, n, STN(st));
            CHECK(p, "reallocate returned no block");
            size_t keep = std::min(x.n, n) * x.es; x.p = p; x.n = n;
            CHECK(!memcmp(p, x.m.data(), keep), "a re-allocation lost the contents of its block");
            g_resized = true; fill(x, keep); verify("after a re-allocation");
        }
        else if (op == 2)
        {
            size_t i = s.below(b.size()); OP("deallocate", i);
            ZyanStatus st = d->deallocate(d, b[i].p, b[i].es, b[i].n); CHECK(st == ZYAN_STATUS_SUCCESS, "deallocate returned %s", STN(st));
            b.erase(b.begin() + i); verify("after a release");
        }
    } while (s.more(20));
    while (b.size()) { ZyanStatus st = d->deallocate(d, b.back().p, b.back().es, b.back().n); CHECK(st == ZYAN_STATUS_SUCCESS, "deallocate returned %s", STN(st)); b.pop_back(); verify("after a release"); }
}

void run_case(Src& s)
{
    const Api& A = native_api();
    CHECK(g_heap.empty(), "harness: heap not empty"); g_resized = false;
    uint64_t f0 = g_heap_inj.n_failed;
    auto empty = [&](const char* when) { CHECK(g_heap.empty(), "%zu block(s) of the heap are still allocated %s", g_heap.size(), when); };
    auto setup = [&](SysBase& x) { x.inject = true; x.inj = &g_heap_inj; };
    switch (s.weighted({3, 3, 2, 4, 2, 2}))
    {
    case 0: direct(s); break;
    case 1:
    {
        LABEL("vector");
        VecSys v(A); setup(v); v.kind = VecSys::DEFAULT_ALLOC; v.es = s.pick<size_t>({1, 3, 4, 8, 24}); v.configure(s, nullptr); size_t max = s.pick<size_t>({8, 20, 50});
        while (v.init(s, s.size(20)) != ZYAN_STATUS_SUCCESS) { empty("after a failed initialisation"); if (!s.flip()) return; }
        while (s.more(25))
        {
            if (s.chance(1, 15))
            {
                VecSys d(A); setup(d); d.kind = VecSys::DEFAULT_ALLOC; d.configure(s, nullptr);
                if (d.duplicate_from(s, v, s.size(12))) { d.step(s, false, max); d.verify("duplicate"); d.destroy(); }
                v.verify("source of a duplication");
            }
            else v.step(s, s.chance(1, 4), max);
            g_resized = true;
        }
        v.destroy(); break;
    }
    case 2:
    {
        LABEL("list");
        ListSys l(A); setup(l); l.kind = ListSys::DEFAULT_ALLOC; l.es = s.pick<size_t>({4, 5, 8, 24}); size_t max = s.pick<size_t>({6, 20});
        l.init(s, 0, 0);
        while (s.more(25)) { l.step(s, max); if (l.m.size() > 1) g_resized = true; }
        l.destroy(); break;
    }
    case 3:
    {
        LABEL("string");
        StrSys t(A); setup(t); t.kind = StrSys::DEFAULT_ALLOC; t.configure(s, nullptr); size_t max = s.pick<size_t>({20, 60, 150});
        if (s.chance(1, 3)) { std::string a = gen_text(s, t.alpha, max), b = gen_text(s, t.alpha, max); if (!t.build_from(s, a, s.flip() ? &b : nullptr, s.size(60))) { empty("after a failed duplication"); return; } }
        else while (t.init(s, s.size(60)) != ZYAN_STATUS_SUCCESS) { empty("after a failed initialisation"); if (!s.flip()) return; }
        while (s.more(25))
        {
            switch (s.weighted({6, 2, 1}))
            {
            case 0: t.step(s, s.chance(1, 4), max); break;
            case 1: { StrSys::Num q = StrSys::gen_num(s); t.op_number(s, q); break; }
            default: { StrSys::Fmt f = StrSys::gen_fmt(s, s.chance(1, 4) ? 300 : 30); t.op_format(s, f); }
            }
            g_resized = true;
        }
        t.destroy(); break;
    }
    case 4:
    {
        LABEL("bitset");
        BitSys b(A); setup(b); b.kind = BitSys::DEFAULT_ALLOC; b.configure(s, nullptr); size_t max = s.pick<size_t>({20, 100});
        while (b.init(s, s.size(max), 0) != ZYAN_STATUS_SUCCESS) { empty("after a failed initialisation"); if (!s.flip()) return; }
        while (s.more(25)) { b.step(s, s.chance(1, 4), max * 2); g_resized = true; }
        b.destroy(); break;
    }
    default:
    {
        LABEL("argument parsing");
        ArgCase c; c.generate(s); c.trace();
        for (unsigned k = 0; k <= 3; ++k)
        {
            Guarded pv(sizeof(ZyanVector), 0xCC); ZyanVector* p = (ZyanVector*)pv.p; const char* et = nullptr;
            uint64_t f = g_heap_inj.n_failed; if (k) g_heap_inj.inject(k, s.flip() ? 1 : 100);
            OP("ArgParse with refused heap request", k);
            ZyanStatus st = ZyanArgParse(&c.cfg, p, &et);
            g_heap_inj.no_inject();
            if (g_heap_inj.n_failed > f) { CHECK(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "the heap refused but parsing returned %s", STN(st)); c.check_memory("failed parsing"); LABEL("refused request"); }
            else { c.compare(A, st, p, et); g_resized = true; }
            empty("after parsing");
        }
    }
    }
    empty("after the destruction of the container");
    if (g_resized && g_heap_inj.n_failed > f0) mark_nontrivial();
}
