#include "sys_vec.hpp"
#include "sys_list.hpp"
#include "sys_str.hpp"
#include "sys_bits.hpp"
#include "sys_arg.hpp"
#include "heap.hpp"

PropertyInfo PROPERTY = {"C04", "exploration",
    "A case creates 1 to 4 containers of random kinds (vector, list, string, bitset; recording allocator each of its own, default "
    "allocator with the C library's heap functions replaced by counting stand-ins, or fixed buffer), interleaves random histories on "
    "them and parses arguments in between; every operation may call only its own container's allocator, calls must name live blocks "
    "with their exact element size and count, and after destruction (in random order) nothing may remain; non-trivial: at least two "
    "containers were used and an allocator saw a re-allocation or a list released nodes",
    350000, 4200000, 8000, 3, 3,
    {"the C library's heap is reached only through malloc, calloc, realloc and free"}};

enum { OWN, DEFAULT, NONE_ALLOWED };
struct Any
{
    RecAlloc ra;
    std::unique_ptr<VecSys> v; std::unique_ptr<ListSys> l; std::unique_ptr<StrSys> t; std::unique_ptr<BitSys> b;
    int storage = OWN; bool up = false; size_t max = 8;
    void create(Src& s)
    {
        const Api& A = native_api();
        storage = (int)s.weighted({5, 3, 3}); max = s.pick<size_t>({6, 20, 60});
        switch (s.below(4))
        {
        case 0: v.reset(new VecSys(A)); v->es = s.pick<size_t>({1, 3, 8, 40}); v->dtor = s.chance(1, 4) && storage != DEFAULT; v->kind = (VecSys::Kind)storage; v->configure(s, &ra); if (size_t w = s.wide()) { v->es = w; max = 6; v->growth = std::min(v->growth, 3u); } v->init(s, s.size(20)); break;
        case 1: l.reset(new ListSys(A)); l->es = s.pick<size_t>({1, 4, 8, 30}); l->ra = &ra; l->kind = (ListSys::Kind)storage; if (size_t w = s.wide()) { l->es = w; max = 6; } l->init(s, s.size(12), s.below(20)); break;
        case 2:
            t.reset(new StrSys(A)); t->kind = (StrSys::Kind)storage; t->configure(s, &ra);
            if (s.chance(1, 3)) { std::string a = gen_text(s, t->alpha, 40), b2 = gen_text(s, t->alpha, 40); if (!t->build_from(s, a, s.flip() ? &b2 : nullptr, s.size(90))) t->init(s, s.size(40)); }
            else t->init(s, s.size(60));
            break;
        default: b.reset(new BitSys(A)); b->kind = (BitSys::Kind)storage; b->configure(s, &ra); if (ZYAN_FAILED(b->init(s, s.size(40), 8))) b->init(s, 0, 8); break;
        }
        up = true;
    }
    void step(Src& s)
    {
        if (v) v->step(s, s.chance(1, 4), max);
        else if (l) l->step(s, max);
        else if (t) switch (s.weighted({6, 1, 1})) { case 0: t->step(s, s.chance(1, 4), max); break; case 1: { StrSys::Num q = StrSys::gen_num(s); t->op_number(s, q); break; } default: { StrSys::Fmt f = StrSys::gen_fmt(s, 40); t->op_format(s, f); } }
        else b->step(s, s.chance(1, 4), max * 2);
    }
    void destroy()
    {
        if (v) v->destroy(); else if (l) l->destroy(); else if (t) t->destroy(); else b->destroy();
        ra.check_empty("after the destruction of its container"); up = false;
    }
};

void run_case(Src& s)
{
    CHECK(g_heap.empty(), "harness: heap not empty");
    std::vector<std::unique_ptr<Any>> c; size_t n = s.below(4) + 1; bool worked = false;
    auto snapshot = [&](std::vector<uint64_t>& x, uint64_t& h) { x.clear(); for (auto& a : c) x.push_back(a->ra.total()); h = g_heap_calls; };
    std::vector<uint64_t> x; uint64_t h;
    auto check = [&](size_t who, const char* what) {
        for (size_t i = 0; i < c.size(); ++i)
            if (i < x.size() && (i != who || c[i]->storage != OWN)) CHECK(c[i]->ra.total() == x[i], "%s of container %zu called the allocator of container %zu", what, who, i);
        if (who >= c.size() || c[who]->storage != DEFAULT) CHECK(g_heap_calls == h, "%s of container %zu (%s) called the C library's heap", what, who, who < c.size() && c[who]->storage == NONE_ALLOWED ? "fixed buffer" : "own allocator");
    };
    for (size_t i = 0; i < n; ++i) { snapshot(x, h); c.emplace_back(new Any); c.back()->create(s); check(i, "initialisation"); }
    while (s.more(30))
    {
        size_t i = s.below(n);
        if (s.chance(1, 25))
        {
            ArgCase ac; ac.generate(s); RecAlloc pr; Guarded pv(sizeof(ZyanVector), 0xCC); const char* et = nullptr;
            snapshot(x, h); bool ex = s.flip(); size_t live = g_heap.size();
            OP(ex ? "ArgParseEx" : "ArgParse");
            ZyanStatus st = ex ? ZyanArgParseEx(&ac.cfg, (ZyanVector*)pv.p, &et, &pr) : ZyanArgParse(&ac.cfg, (ZyanVector*)pv.p, &et);
            if (ex) check(SIZE_MAX, "argument parsing");
            else CHECK(pr.total() == 0, "argument parsing called another allocator");
            ac.compare(native_api(), st, (ZyanVector*)pv.p, et);
            pr.check_empty("after argument parsing"); CHECK(g_heap.size() == live, "argument parsing leaked memory");
            continue;
        }
        snapshot(x, h); c[i]->step(s); check(i, "operation");
        if (c[i]->storage == OWN && (c[i]->ra.n_realloc || (c[i]->l && c[i]->ra.n_free))) worked = true;
        if (c[i]->storage == DEFAULT && g_heap_calls > h) worked = true;
    }
    while (true)
    {
        std::vector<size_t> left; for (size_t i = 0; i < n; ++i) if (c[i]->up) left.push_back(i);
        if (left.empty()) break;
        size_t i = s.pick(left); snapshot(x, h); c[i]->destroy(); check(i, "destruction");
    }
    CHECK(g_heap.empty(), "%zu block(s) of the default allocator still allocated after the destruction of all containers", g_heap.size());
    if (n >= 2 && worked) mark_nontrivial();
}
