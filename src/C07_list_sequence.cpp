#include "sys_list.hpp"

PropertyInfo PROPERTY = {"C07", "exploration",
    "A case is a random history of list operations (push, emplace with succeeding/failing/no constructor, pop, removal of nodes and "
    "ranges, data updates, resize, clear) on a list over a recording, the default or a fixed-buffer storage, checked by forward and "
    "backward walks after every operation; non-trivial: at least 5 elements entered, and an element was removed while others remained",
    600000, 7200000, 6000, 3, 3,
    {"nodes passed to removal and data functions are live nodes of that list, in list order for ranges"}};

void run_case(Src& s)
{
    RecAlloc ra;
    ListSys l(native_api()); l.ra = &ra;
    l.es = s.pick<size_t>({1, 2, 4, 7, 8, 16, 24, 33, 100});
    l.kind = (ListSys::Kind)s.weighted({5, 2, 3});
    size_t max = s.pick<size_t>({6, 12, 30});
    size_t big = s.large(150, 8000); if (big > 1000) l.es = s.pick<size_t>({1, 8}); else if (size_t w = big ? 0 : s.wide()) { l.es = w; max = 6; LABEL("elements of more than 250 bytes"); }
    l.init(s, s.size(max) + big, s.size(16)); if (big) { l.op_resize_to(s, big, (int)s.below(2)); max = big + 5; }
    bool rem = false;
    while (s.more(big > 1000 ? 6 : 25))
    {
        size_t n0 = l.m.size();
        l.step(s, max);
        rem |= l.m.size() && l.m.size() < n0;
    }
    if (l.next_id > 5 && rem) mark_nontrivial();
    LABEL_IF(l.m.size() > 10, "more than 10 elements at the end");
    l.destroy();
}
