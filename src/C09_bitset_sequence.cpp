#include "sys_bits.hpp"

PropertyInfo PROPERTY = {"C09", "exploration",
    "A case is a random history of bitset operations (any bit count, valid and invalid indices) on a bitset over a recording, default or "
    "fixed-buffer storage; after every operation all bits, the size, the size in bytes and the capacity are compared with an array of "
    "booleans; non-trivial: the size was not a multiple of eight when bits were changed, and bits were set and cleared",
    800000, 9600000, 4000, 3, 3,
    {"the last index is the most significant bit, index 0 the least significant one"}};

void run_case(Src& s)
{
    RecAlloc ra;
    BitSys b(native_api());
    b.kind = (BitSys::Kind)s.weighted({5, 2, 3});
    b.configure(s, &ra);
    size_t max = s.pick<size_t>({12, 40, 100});
    size_t big = s.large() * (s.flip() ? 1 : 8); if (big) b.growth = std::min(b.growth, 3u);
    ZyanStatus st = b.init(s, s.size(max) + big, s.size(max / 8 + 2) + (big + 7) / 8);
    if (ZYAN_FAILED(st)) return;
    bool wild = s.flip(), odd = false, set = false, clr = false;
    while (s.more(big > 10000 ? 4 : 25))
    {
        std::vector<bool> before = b.m;
        b.step(s, wild, max * 2);
        for (size_t i = 0; i < std::min(before.size(), b.m.size()); ++i) if (before[i] != b.m[i]) { if (b.m.size() % 8) odd = true; (b.m[i] ? set : clr) = true; }
        b.check_ends();
        if (s.chance(1, 6)) { size_t i = s.wild_index(b.m.size()); st = b.A.ZyanBitsetTest(b.b, i); CHECK(i < b.m.size() ? ZYAN_SUCCESS(st) : ZYAN_FAILED(st), "Test(%zu) of %zu bits returned %s", i, b.m.size(), STN(st)); }
    }
    if (odd && set && clr) mark_nontrivial();
    b.destroy();
    ra.check_empty("after destruction");
}
