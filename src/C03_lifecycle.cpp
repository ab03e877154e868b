#include "sys_vec.hpp"
#include "sys_list.hpp"

PropertyInfo PROPERTY = {"C03", "exploration",
    "A case is a random history on a vector (optionally with a duplicate) or a list whose elements carry unique ids and whose destructor "
    "logs the address and bytes of the element and then overwrites it; after every operation the log must equal exactly the elements that "
    "left the container, and constructors must have been called exactly when an element was emplaced; non-trivial: at least 5 elements "
    "were destroyed before the container itself was",
    450000, 5400000, 6000, 3, 3,
    {"a duplicate owns copies of the elements, each destroyed once more through the duplicate"}};

void run_case(Src& s)
{
    const Api& A = native_api();
    RecAlloc ra, ra2;
    if (s.chance(2, 5))
    {
        ListSys l(A); l.ra = &ra; l.dtor = true;
        l.es = s.pick<size_t>({4, 5, 8, 24});
        l.kind = (ListSys::Kind)s.weighted({5, 1, 3});
        size_t max = s.pick<size_t>({6, 20});
        size_t big = s.large(150, 2000);
        if (size_t w = big ? 0 : s.wide()) { l.es = w; max = 6; LABEL("elements of more than 250 bytes"); }
        l.init(s, s.size(max) + big, s.size(16));
        size_t gone = 0; if (big) { l.op_resize_to(s, big, 1); max = big + 5; }
        while (s.more(big > 1000 ? 6 : 25)) { size_t n0 = l.m.size(); l.step(s, max); if (l.m.size() < n0) gone += n0 - l.m.size(); }
        if (gone >= 5) mark_nontrivial();
        LABEL("list");
        l.destroy();
        ra.check_empty("after destruction");
        return;
    }
    VecSys v(A);
    v.dtor = true;
    v.es = s.pick<size_t>({4, 5, 8, 12, 40});
    v.kind = (VecSys::Kind)s.weighted({5, 1, 3});
    v.configure(s, &ra);
    size_t max = s.pick<size_t>({8, 20, 40});
    size_t big = s.large(150, 2000); if (big) v.growth = std::min(v.growth, 3u); else if (size_t w = s.wide()) { v.es = w; max = 6; v.growth = std::min(v.growth, 3u); LABEL("elements of more than 250 bytes"); }
    v.init(s, s.size(20) + (v.kind == VecSys::FIXED ? big : 0)); if (big) { v.op_bulk(s, big); max = big + 10; }
    bool wild = s.flip();
    std::unique_ptr<VecSys> dup;
    while (s.more(big > 1000 ? 6 : 25))
    {
        if (!dup && s.chance(1, 20))
        {
            dup.reset(new VecSys(A)); dup->kind = s.flip() ? VecSys::RECORDED : VecSys::FIXED; dup->configure(s, &ra2);
            if (!dup->duplicate_from(s, v, v.m.size() + s.below(4) - (s.chance(1, 3) && v.m.size()))) dup.reset();
            v.verify("source of a duplication");
            continue;
        }
        if (dup && s.chance(1, 4)) { dup->step(s, wild, max); v.verify("source after an operation on its duplicate"); }
        else v.step(s, wild, max);
    }
    if (v.total_destroyed >= 5) mark_nontrivial();
    LABEL("vector");
    v.destroy();
    if (dup) { dup->verify("duplicate after its source was destroyed"); dup->destroy(); }
    ra.check_empty("after destruction"); ra2.check_empty("after destruction");
}
