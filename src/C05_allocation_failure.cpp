// technique: stateful model-based property testing with injected allocator failures (random call index, single or persistent), ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_vec.hpp"
#include "sys_list.hpp"
#include "sys_str.hpp"
#include "sys_bits.hpp"
#include "sys_arg.hpp"

PropertyInfo PROPERTY = {"C05", "exploration",
    "A case is a random history on a vector, list, string (with number and formatted appends), bitset or an argument parse over a strict "
    "allocator that refuses a chosen call (one or all following) in about a third of the operations, including initialisation and "
    "duplication; after a refusal the status must be the allocator's, the container must equal the model with all its bookkeeping, and "
    "the retried and later operations must behave as usual; list removals and destructions also meet an allocator that refuses to take a block back; non-trivial: at least two refusals happened (one for argument parsing)",
    1200000, 14400000, 6000, 3, 3,
    {"a refused automatic shrink after a completed removal is not reported", "list growth and multi-part number appends may keep completed steps"}};

// Destroys a container, sometimes with an allocator that refuses to take the memory back, which must be reported.
template <class Sys, class F> static bool refused_destroy(Src& s, Sys& y, RecAlloc& ra, F f)
{
    if (!y.ra || ra.live.size() == ra.refused.size() || !s.chance(1, 6)) return false;
    OP("Destroy, release refused");
    ra.free_fail_from = ra.free_calls + 1; ra.free_fail_to = ra.free_fail_from + 1000000;
    ZyanStatus st = f();
    CHECK(ra.free_calls >= ra.free_fail_from, "the destruction released nothing although memory is allocated");
    CHECK(st == INJECTED_STATUS, "the allocator refused to take the memory back and the destruction returned %s", STN(st));
    LABEL("refused release by a destruction");
    return true;
}

void run_case(Src& s)
{
    const Api& A = native_api();
    RecAlloc ra, ra2;
    unsigned injected = 0;
    switch (s.weighted({4, 2, 4, 2, 2}))
    {
    case 0:
    {
        LABEL("vector");
        VecSys v(A); v.inject = true; v.dtor = s.flip(); v.es = s.pick<size_t>({1, 3, 4, 8, 24}); v.configure(s, &ra);
        size_t max = s.pick<size_t>({8, 20, 50});
        while (v.init(s, s.size(20)) != ZYAN_STATUS_SUCCESS) if (!s.flip()) { ra.check_empty("after failed initialisation"); return; }
        std::unique_ptr<VecSys> d;
        while (s.more(25))
        {
            if (!d && s.chance(1, 15))
            {
                d.reset(new VecSys(A)); d->inject = true; d->configure(s, &ra2);
                if (!d->duplicate_from(s, v, s.size(12))) { d.reset(); ra2.check_empty("after failed duplication"); }
                v.verify("source of a duplication"); continue;
            }
            if (d && s.chance(1, 4)) d->step(s, false, max); else v.step(s, s.chance(1, 4), max);
        }
        injected = v.injected + (d ? d->injected : 0);
        if (d || !refused_destroy(s, v, ra, [&] { return A.ZyanVectorDestroy(v.v); })) v.destroy();
        if (d) { d->verify("duplicate"); d->destroy(); }
        break;
    }
    case 1:
    {
        LABEL("list");
        ListSys l(A); l.ra = &ra; l.inject = true; l.dtor = s.flip(); l.es = s.pick<size_t>({4, 5, 8, 24});
        size_t max = s.pick<size_t>({6, 20});
        l.init(s, 0, 0);
        while (s.more(25)) if (s.chance(1, 12)) l.op_refused_release(s); else l.step(s, max);
        injected = l.injected + l.refused_releases;
        if (refused_destroy(s, l, ra, [&] { return A.ZyanListDestroy(l.l); })) { if (injected >= 2) mark_nontrivial(); return; }
        l.destroy();
        break;
    }
    case 2:
    {
        LABEL("string");
        StrSys t(A); t.inject = true; t.configure(s, &ra); size_t max = s.pick<size_t>({20, 60, 150});
        if (s.chance(1, 3))
        {
            std::string a = gen_text(s, t.alpha, max), b = gen_text(s, t.alpha, max);
            if (!t.build_from(s, a, s.flip() ? &b : nullptr, s.size(60))) { ra.check_empty("after failed duplication"); if (t.injected) mark_nontrivial(); return; }
        }
        else while (t.init(s, s.size(60)) != ZYAN_STATUS_SUCCESS) if (!s.flip()) { ra.check_empty("after failed initialisation"); return; }
        while (s.more(25))
            switch (s.weighted({6, 2, 1}))
            {
            case 0: t.step(s, s.chance(1, 4), max); break;
            case 1: { StrSys::Num q = StrSys::gen_num(s); t.op_number(s, q); break; }
            default: { StrSys::Fmt f = StrSys::gen_fmt(s, s.chance(1, 4) ? 300 : 30); t.op_format(s, f); }
            }
        injected = t.injected;
        if (!refused_destroy(s, t, ra, [&] { return A.ZyanStringDestroy(t.str); })) t.destroy();
        break;
    }
    case 3:
    {
        LABEL("bitset");
        BitSys b(A); b.inject = true; b.configure(s, &ra); size_t max = s.pick<size_t>({20, 100});
        while (b.init(s, s.size(max), 0) != ZYAN_STATUS_SUCCESS) if (!s.flip()) { ra.check_empty("after failed initialisation"); return; }
        while (s.more(25)) b.step(s, s.chance(1, 4), max * 2);
        injected = b.injected;
        if (!refused_destroy(s, b, ra, [&] { return A.ZyanBitsetDestroy(b.b); })) b.destroy();
        break;
    }
    default:
    {
        LABEL("argument parsing");
        ArgCase c; c.generate(s); c.trace();
        // persistent refusal from call k on: only a parse that needs no further memory may have another outcome
        for (unsigned k = 1; k <= 4; ++k)
        {
            Guarded pv(sizeof(ZyanVector), 0xCC); ZyanVector* p = (ZyanVector*)pv.p; const char* et = nullptr;
            uint64_t f0 = ra.n_failed; ra.inject(k, s.flip() ? 1 : 100);
            OP("ArgParseEx with refused allocator call", k);
            ZyanStatus st = ZyanArgParseEx(&c.cfg, p, &et, &ra);
            ra.no_inject();
            if (ra.n_failed > f0)
            {
                CHECK(st == INJECTED_STATUS, "the allocator refused but parsing returned %s", STN(st));
                c.check_memory("failed parsing"); injected += 2; LABEL("allocation refused during an operation");
            }
            else c.compare(A, st, p, et);
            ra.check_empty("after parsing");
        }
    }
    }
    ra.check_empty("after destruction"); ra2.check_empty("after destruction");
    if (injected >= 2) mark_nontrivial();
}
