// technique: stateful model-based property testing of string and bitset histories against the configured capacity policy, observed through the recording allocator
#include "sys_bits.hpp"
#include "sys_str.hpp"

PropertyInfo PROPERTY = {"C27", "exploration",
    "A case is a random history of string edits (insertions, appends, deletions, resizes, numbers, formatted appends, reserve, shrink) "
    "or bitset pushes and pops with random growth factor (1..4) and shrink threshold (0..255), on a recording allocator, the default "
    "allocator or a fixed buffer, also for duplicates and concatenations; after every operation capacity, address and allocator calls "
    "are compared with the configured policy; non-trivial: the capacity changed at least twice",
    400000, 4800000, 6000, 3, 3,
    {"capacities are observed through the capacity accessors and the allocator callbacks only",
     "the default growth factor and shrink threshold of bitsets are not documented and not judged"}};

enum Op { SAME, GROWING, PARTS, DELETING, RESIZING, CLEARING, RESERVING, FITTING };
struct Policy { size_t g, t; bool fixed; unsigned changes = 0; };
// sizes and capacities are in storage units (characters including the terminator, bytes of bits)
static void judge(Policy& p, Op op, size_t n0, size_t c0, size_t n1, size_t c1, size_t req)
{
    CHECK(c1 >= n1 && c1 >= 1, "capacity %zu below the %zu units in use", c1, n1);
    if (c0 != c1) ++p.changes;
    LABEL_IF(c1 > c0, "capacity grew"); LABEL_IF(c1 < c0 && op != FITTING, "capacity shrank automatically");
    if (p.fixed) { CHECK(c1 == c0, "the capacity of a fixed buffer changed from %zu to %zu", c0, c1); return; }
    bool may_shrink = p.t && n1 * p.t < c0 && n1 * p.g < c0;
    size_t target = std::max<size_t>(1, n1 * p.g);
    switch (op)
    {
    case SAME: CHECK(c1 == c0, "capacity changed from %zu to %zu without a change of size", c0, c1); break;
    case PARTS: // several edits in one, each of which may shrink if a threshold is set
        if (p.t) { CHECK(c1 <= std::max(c0, target), "capacity grew from %zu to %zu for %zu units, more than the growth factor %zu allows", c0, c1, n1, p.g); break; }
        [[fallthrough]];
    case GROWING:
        if (n1 <= c0) { CHECK(c1 == c0 || (may_shrink && c1 >= n1 && c1 < c0), "capacity changed from %zu to %zu although %zu units fit (growth factor %zu, shrink threshold %zu)", c0, c1, n1, p.g, p.t); break; }
        CHECK(c1 <= target, "capacity grew from %zu to %zu for %zu units, more than the growth factor %zu allows", c0, c1, n1, p.g);
        if (op == GROWING) CHECK(c1 == target, "capacity grew from %zu to %zu for %zu units with growth factor %zu", c0, c1, n1, p.g);
        LABEL_IF(p.g == 1, "growth without over-allocation");
        break;
    case DELETING:
        if (n1 == n0) { CHECK(c1 == c0 || (may_shrink && c1 == target), "capacity changed from %zu to %zu without a deletion", c0, c1); break; }
        CHECK(c1 == (may_shrink ? target : c0), "capacity went from %zu to %zu after a deletion leaving %zu units (growth factor %zu, shrink threshold %zu)", c0, c1, n1, p.g, p.t);
        LABEL_IF(!p.t, "deletion without automatic shrinking");
        break;
    case RESIZING:
        if (n1 == n0) CHECK(c1 == c0 || (may_shrink && c1 == target), "capacity changed from %zu to %zu although the size was kept", c0, c1);
        else CHECK(c1 == (n1 > c0 || may_shrink ? target : c0), "capacity went from %zu to %zu after a resize to %zu units (growth factor %zu, shrink threshold %zu)", c0, c1, n1, p.g, p.t);
        break;
    case CLEARING:
        CHECK(c1 <= c0, "clearing enlarged the capacity from %zu to %zu", c0, c1);
        if (!p.t) CHECK(c1 == c0, "clearing changed the capacity from %zu to %zu without a shrink threshold", c0, c1);
        else if (n0 != n1 && may_shrink) CHECK(c1 <= target, "clearing left the capacity at %zu (growth factor %zu, shrink threshold %zu)", c1, p.g, p.t);
        break;
    case RESERVING:
        if (req <= c0) CHECK(c1 == c0, "reserving %zu units changed the sufficient capacity %zu to %zu", req, c0, c1);
        else CHECK(c1 >= req && c1 <= req * p.g, "reserving %zu units changed the capacity from %zu to %zu", req, c0, c1);
        break;
    default: CHECK(c1 == std::max<size_t>(1, n1), "shrinking to fit %zu units left a capacity of %zu", n1, c1); break;
    }
}

static void run_string(Src& s)
{
    const Api& A = native_api();
    RecAlloc ra; StrSys t(A);
    t.configure(s, &ra);
    t.kind = s.chance(1, 10) ? StrSys::FIXED : s.chance(1, 8) ? StrSys::DEFAULT_ALLOC : StrSys::RECORDED;
    if (t.kind == StrSys::DEFAULT_ALLOC) t.set_default_policy();
    size_t max = s.pick<size_t>({20, 60, 200});
    if (s.chance(1, 2))
    {
        std::string a = gen_text(s, t.alpha, 60), b = gen_text(s, t.alpha, 40); bool cat = s.flip();
        if (!t.build_from(s, a, cat ? &b : nullptr, t.kind == StrSys::FIXED ? std::max<size_t>(120, a.size() + b.size() + 20) : s.size(120))) FAIL("a duplicate that fits was refused");
    }
    else if (t.init(s, t.kind == StrSys::FIXED ? 120 : s.size(120)) != ZYAN_STATUS_SUCCESS) return;
    Policy p{t.growth, t.shrink, t.kind == StrSys::FIXED};
    while (s.more(24))
    {
        size_t n0 = t.m.size() + 1, c0 = t.capacity() + 1, req = 0; uint64_t calls0 = ra.total(); const char* d0 = t.data();
        Op op = SAME;
        switch (s.weighted({9, 6, 2, 3, 1, 3, 2, 2, 2, 2}))
        {
        case 0: op = GROWING; t.op_insert(s, false, max); break;
        case 1: op = DELETING; t.op_delete(s, false); break;
        case 2: t.op_setchar(s, false); break;
        case 3:
        {
            // filled afterwards, so that all characters are known
            size_t n = s.size(max); OP("Resize", n); op = RESIZING;
            if (p.fixed && n > 120) { op = SAME; break; }
            ZyanStatus st = A.ZyanStringResize(t.str, n); CHECK(st == ZYAN_STATUS_SUCCESS, "Resize returned %s", STN(st));
            size_t k = t.m.size(); t.m.resize(n, 'r'); for (; k < n; ++k) CHECK(A.ZyanStringSetChar(t.str, k, 'r') == ZYAN_STATUS_SUCCESS, "SetChar after a resize failed");
            break;
        }
        case 4: { OP("Clear"); op = CLEARING; ZyanStatus st = A.ZyanStringClear(t.str); CHECK(st == ZYAN_STATUS_SUCCESS, "Clear returned %s", STN(st)); t.m.clear(); break; }
        case 5:
        {
            req = s.size(max * 2); OP("Reserve", req); op = RESERVING;
            if (p.fixed && req > 120) { op = SAME; break; }
            ZyanStatus st = A.ZyanStringReserve(t.str, req++); CHECK(st == ZYAN_STATUS_SUCCESS, "Reserve returned %s", STN(st));
            break;
        }
        case 6: { OP("ShrinkToFit"); op = FITTING; ZyanStatus st = A.ZyanStringShrinkToFit(t.str); CHECK(st == ZYAN_STATUS_SUCCESS, "ShrinkToFit returned %s", STN(st)); break; }
        case 7: op = PARTS; t.op_number(s, StrSys::gen_num(s)); break;
        case 8: op = PARTS; t.op_format(s, StrSys::gen_fmt(s, 20)); break;
        default: t.op_case(s, false); break;
        }
        t.verify("after an operation");
        size_t n1 = t.m.size() + 1, c1 = t.capacity() + 1;
        judge(p, op, n0, c0, n1, c1, req);
        if (c1 == c0 && n1 > n0 && !(op == PARTS && p.t) && t.kind == StrSys::RECORDED) CHECK(ra.total() == calls0 && t.data() == d0, "the string was re-allocated although its capacity %zu did not change", c0);
    }
    if (!p.fixed && !p.t && s.chance(2, 3)) // without automatic shrinking a reserved capacity is kept
    {
        size_t n = t.m.size() + s.size(60); OP("Reserve", n);
        ZyanStatus st = A.ZyanStringReserve(t.str, n); CHECK(st == ZYAN_STATUS_SUCCESS && t.capacity() >= n, "Reserve(%zu) returned %s with capacity %zu", n, STN(st), t.capacity());
        uint64_t calls0 = ra.total(); const char* d0 = t.data();
        while (t.m.size() < n)
        {
            ViewBox v(A); std::string x = gen_text(s, t.alpha, 8); if (x.empty()) x = "x";
            x.resize(std::min(x.size(), n - t.m.size())); v.make(s, x); bool front = s.flip();
            OP(front ? "Insert" : "Append", x);
            st = front ? A.ZyanStringInsert(t.str, 0, v.get()) : A.ZyanStringAppend(t.str, v.get());
            CHECK(st == ZYAN_STATUS_SUCCESS, "insertion within the reserved capacity returned %s", STN(st));
            t.m.insert(front ? 0 : t.m.size(), x);
        }
        CHECK(ra.total() == calls0 && t.data() == d0, "re-allocation within the reserved capacity %zu", n);
        t.verify("after filling the reserved capacity"); LABEL("filled reserved capacity");
    }
    LABEL("string");
    if (p.changes >= 2) mark_nontrivial();
    t.destroy(); ra.check_empty("after destruction");
}

static void run_bitset(Src& s)
{
    const Api& A = native_api();
    RecAlloc ra; BitSys b(A);
    b.configure(s, &ra);
    b.kind = s.chance(1, 10) ? BitSys::FIXED : BitSys::RECORDED;
    if (b.init(s, s.size(200), 40) != ZYAN_STATUS_SUCCESS) FAIL("bitset initialisation refused");
    Policy p{b.growth, b.shrink, b.kind == BitSys::FIXED};
    auto cap = [&] { return b.get(A.ZyanBitsetGetCapacityBytes, "GetCapacityBytes"); };
    while (s.more(24))
    {
        unsigned how = (unsigned)s.weighted({9, 8, 1, 2, 2, 2}); size_t reps = how < 2 ? s.size(60) : 1;
        for (size_t k = 0; k < reps; ++k)
        {
            size_t n0 = (b.m.size() + 7) / 8, c0 = cap(), req = 0; uint64_t calls0 = ra.total(); Op op = SAME;
            switch (how)
            {
            case 0: op = GROWING; b.op_push(s); break;
            case 1: op = DELETING; if (!b.m.empty()) b.op_pop(s); break;
            case 2: { OP("Clear"); op = CLEARING; ZyanStatus st = A.ZyanBitsetClear(b.b); CHECK(st == ZYAN_STATUS_SUCCESS, "Clear returned %s", STN(st)); b.m.clear(); break; }
            case 3:
            {
                size_t n = s.size(600); OP("Reserve", n); op = RESERVING; req = (n + 7) / 8;
                if (!b.fits(n)) { op = SAME; break; }
                ZyanStatus st = A.ZyanBitsetReserve(b.b, n); CHECK(st == ZYAN_STATUS_SUCCESS, "Reserve returned %s", STN(st));
                break;
            }
            case 4: { OP("ShrinkToFit"); op = FITTING; ZyanStatus st = A.ZyanBitsetShrinkToFit(b.b); CHECK(st == ZYAN_STATUS_SUCCESS, "ShrinkToFit returned %s", STN(st)); break; }
            default: b.op_bit(s, true); break;
            }
            b.verify("after an operation");
            size_t n1 = (b.m.size() + 7) / 8, c1 = cap();
            judge(p, op, n0, c0, n1, c1, req);
            if (c1 == c0 && n1 > n0 && b.kind == BitSys::RECORDED) CHECK(ra.total() == calls0, "the bitset was re-allocated although its capacity %zu did not change", c0);
        }
    }
    LABEL("bitset");
    if (p.changes >= 2) mark_nontrivial();
    b.destroy(); ra.check_empty("after destruction");
}

void run_case(Src& s) { if (s.chance(1, 4)) run_bitset(s); else run_string(s); }
