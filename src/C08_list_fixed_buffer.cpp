#include "sys_list.hpp"

PropertyInfo PROPERTY = {"C08", "exploration",
    "A case is a random history of list operations on a list over a fixed buffer of exact size (slots and remainder bytes chosen at "
    "random, every element size), driven to and away from the full state; every node must lie inside the buffer, apart from all live "
    "nodes, and the number of accepted elements must be the number of slots; non-trivial: the buffer was full, elements were removed "
    "afterwards and the freed slots were filled again",
    250000, 3000000, 6000, 3, 3,
    {"a node occupies sizeof(ZyanListNode) plus the element size"}};

void run_case(Src& s)
{
    ListSys l(native_api());
    l.es = s.pick<size_t>({1, 2, 3, 4, 7, 8, 16, 24, 33, 100, 1000});
    l.kind = ListSys::FIXED;
    l.dtor = s.chance(1, 4);
    size_t n = s.size(14), ns;
    if (size_t w = s.wide(3000)) { l.es = w; n = std::min<size_t>(n, 6); LABEL("elements of more than 250 bytes"); }
    ns = sizeof(ZyanListNode) + l.es;
    size_t big = s.large(1000, 40000); n += big; if (big) l.es = s.pick<size_t>({1, 8, 16}), ns = sizeof(ZyanListNode) + l.es;
    l.init(s, n, s.pick<size_t>({0, 0, 1, ns - 1, ns / 2}));
    n = l.slots;
    int state = 0; // 0 start, 1 full, 2 freed after full, 3 full again
    if (big) { l.op_resize_to(s, n - s.below(4), (int)s.below(2)); while (s.more(8)) l.step(s, n + 3); l.op_resize_to(s, n, 1); l.op_push(s); l.op_remove(s); l.op_resize_to(s, n + 1, (int)s.below(2)); l.destroy(); return; }
    while (s.more(30))
    {
        switch (s.weighted({6, 1, 1, 1}))
        {
        case 0: l.step(s, n + 3); break;
        case 1: for (size_t k = s.below(n + 2); k; --k) l.op_push(s); break;
        case 2: for (size_t k = s.below(n + 2); k && l.m.size(); --k) l.op_remove(s); break;
        default: // drive to exactly full: the number of accepted pushes is the number of free slots
        {
            size_t acc = 0, free_slots = n - l.m.size();
            for (size_t k = 0; k < n + 2; ++k) { size_t a = l.m.size(); if (s.flip()) l.op_push(s); else l.op_emplace(s); acc += l.m.size() - a; }
            (void)acc; (void)free_slots;
            while (l.m.size() < n) l.op_push(s);
            l.op_push(s);
            break;
        }
        }
        if (n && l.m.size() == n) { if (state == 0) state = 1; else if (state == 2) state = 3; }
        else if (state == 1 && l.m.size() < n) state = 2;
    }
    if (state == 3) mark_nontrivial();
    LABEL_IF(n == 0, "buffer smaller than one node");
    l.destroy();
}
