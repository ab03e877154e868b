#include "sys_vec.hpp"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C01", "exploration",
    "A case is a random history of vector operations (valid and invalid arguments) on a vector over a recording, the default or a "
    "fixed-buffer storage, checked against a plain sequence after every operation; rarely the vector has about 2^31 or 2^32 elements or bytes over a lazily backed mapping; non-trivial: at least 6 elements entered and at "
    "least 5 operations changed a non-empty vector",
    500000, 6000000, 6000, 3, 3,
    {"elements passed to the vector are not taken from the vector itself", "callbacks do not modify the vector they are called from"}};

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_vector(s);
    const Api& A = native_api();
    RecAlloc ra, ra2; ra2.name = "allocator of the duplicate";
    VecSys v(A);
    v.es = s.pick<size_t>({1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40, 100});
    v.kind = (VecSys::Kind)s.weighted({5, 2, 3});
    v.alphabet = s.chance(1, 4) ? 3 : 0;
    v.configure(s, &ra);
    size_t max = s.pick<size_t>({8, 8, 20, 60});
    size_t big = s.large(); if (big > 1000) { v.es = s.pick<size_t>({1, 4, 8}); v.growth = std::min(v.growth, 3u); } else if (size_t w = big ? 0 : s.wide()) { v.es = w; max = 6; v.growth = std::min(v.growth, 3u); LABEL("elements of more than 250 bytes"); LABEL_IF(w > 65535, "elements of 64 KiB or more"); }
    v.init(s, (v.kind == VecSys::FIXED ? s.size(max) : s.size(20)) + (v.kind == VecSys::FIXED || s.flip() ? big : 0));
    if (big) { v.op_bulk(s, big); max = big + big / 4; }
    unsigned changed = 0;
    bool wild = s.flip();
    std::unique_ptr<VecSys> dup;
    while (s.more(big > 1000 ? 6 : 25))
    {
        if (dup && s.chance(1, 4)) { dup->step(s, wild, max); v.check_contents("source after an operation on its duplicate"); continue; }
        if (!dup && s.chance(1, 30))
        {
            dup.reset(new VecSys(A));
            dup->kind = (VecSys::Kind)s.weighted({3, 1, 2});
            dup->configure(s, &ra2);
            size_t cap = s.flip() ? s.size(20) : v.m.size() + s.below(5);
            if (!dup->duplicate_from(s, v, cap)) dup.reset();
            v.check_contents("source of a duplication");
            continue;
        }
        if (s.chance(1, 8)) { v.check_accessors(s.wild_index(v.m.size())); continue; }
        std::vector<std::string> before = v.m;
        v.step(s, wild, max);
        if (before.size() && before != v.m) ++changed;
        if (dup) dup->check_contents("duplicate after an operation on its source");
    }
    for (size_t i = 0; i < v.m.size() + 2; ++i) v.check_accessors(i);
    if (v.next_id > 6 && changed >= 5) mark_nontrivial();
    LABEL_IF(v.m.size() > 16, "more than 16 elements at the end");
    v.destroy();
    if (dup) { dup->check_contents("duplicate after its source was destroyed"); dup->destroy(); }
}
