// technique: model-based property testing of aggregates and algebraic laws of bitset operations, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_bits.hpp"

PropertyInfo PROPERTY = {"C10", "exploration",
    "A case is a history on two bitsets of different sizes and storages, mixing bit operations with and, or, xor, flip and custom byte "
    "operations between them; aggregates are compared with the model after every operation and the laws (involution of flip and xor, "
    "De Morgan, idempotence) are checked at the end; non-trivial: a logic operation ran on bitsets whose sizes are no multiples of "
    "eight and some but not all bits were set afterwards",
    600000, 7200000, 4000, 3, 3,
    {"bits of the destination beyond a shorter source are unspecified after and, or, xor (documented)"}};

static unsigned g_calls; static int g_op; static unsigned g_fail_at;
static ZyanStatus byte_op(ZyanU8* a, const ZyanU8* b)
{
    if (++g_calls == g_fail_at) return ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 5u, 7u);
    switch (g_op) { case 0: *a = (ZyanU8)~(*a & *b); break; case 1: *a = (ZyanU8)(*a & ~*b); break; case 2: *a = *b; break; default: *a = (ZyanU8)~(*a ^ *b); }
    return ZYAN_STATUS_SUCCESS;
}
static bool bit_op(int op, bool a, bool b) { switch (op) { case 0: return !(a && b); case 1: return a && !b; case 2: return b; default: return a == b; } }

struct Pair
{
    BitSys d, q;
    Pair() : d(native_api()), q(native_api()) {}
    // destination bits beyond the source: unspecified, adopt what is there
    void logic(int how, bool self)
    {
        const Api& A = d.A; BitSys& src = self ? d : q;
        static const char* n[] = {"AND", "OR", "XOR"};
        OP(n[how], self);
        std::string raw_before = raw(src);
        std::vector<bool> sm = src.m;
        ZyanStatus st = how == 0 ? A.ZyanBitsetAND(d.b, src.b) : how == 1 ? A.ZyanBitsetOR(d.b, src.b) : A.ZyanBitsetXOR(d.b, src.b);
        CHECK(st == ZYAN_STATUS_SUCCESS, "%s returned %s", n[how], STN(st));
        if (!self) CHECK(raw(src) == raw_before, "the source of %s was modified", n[how]);
        for (size_t i = 0; i < d.m.size(); ++i)
            if (i < sm.size()) d.m[i] = how == 0 ? d.m[i] && sm[i] : how == 1 ? d.m[i] || sm[i] : d.m[i] != sm[i];
            else d.m[i] = d.test(i);
        d.verify(n[how]); d.check_aggregates(n[how]);
        if (!self) { q.verify("source"); q.check_aggregates("source"); }
    }
    static std::string raw(BitSys& b) { std::string r; for (size_t i = 0; i < b.m.size(); ++i) r.push_back(b.test(i) ? '1' : '0'); return r; }
    void custom(Src& s)
    {
        g_op = (int)s.below(4); g_calls = 0; size_t bytes = std::min((d.m.size() + 7) / 8, (q.m.size() + 7) / 8);
        g_fail_at = s.chance(1, 5) ? (unsigned)s.below(bytes + 1) + 1 : 0;
        bool fails = g_fail_at && g_fail_at <= bytes;
        OP("PerformByteOperation", g_op, g_fail_at);
        ZyanStatus st = d.A.ZyanBitsetPerformByteOperation(d.b, q.b, &byte_op);
        CHECK(fails ? st == ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 5u, 7u) : st == ZYAN_STATUS_SUCCESS, "byte operation returned %s", STN(st));
        CHECK(g_calls == (fails ? g_fail_at : bytes), "the operation was called %u times for %zu common bytes", g_calls, bytes);
        size_t done = fails ? (g_fail_at - 1) * 8 : bytes * 8;
        for (size_t i = 0; i < d.m.size(); ++i)
            if (i < q.m.size() && i < done) d.m[i] = bit_op(g_op, d.m[i], q.m[i]);
            else if (i < done) d.m[i] = d.test(i); // shares a byte with bits behind the end of the source
        d.verify("byte operation"); d.check_aggregates("byte operation"); q.verify("source of a byte operation");
        LABEL("custom byte operation");
    }
};

static void flip(BitSys& b) { OP("Flip"); ZyanStatus st = b.A.ZyanBitsetFlip(b.b); CHECK(st == ZYAN_STATUS_SUCCESS, "Flip returned %s", STN(st)); b.m.flip(); b.verify("Flip"); b.check_aggregates("Flip"); }

void run_case(Src& s)
{
    RecAlloc r1, r2; Pair p;
    size_t max = s.weighted({15, 1}) ? s.pick<size_t>({300, 600, 1200}) : s.pick<size_t>({9, 20, 70});
    BitSys* bs[2] = {&p.d, &p.q}; RecAlloc* rs[2] = {&r1, &r2};
    size_t big = s.large() * (s.flip() ? 1 : 8); max += big;
    size_t n1 = s.size(max), n2 = s.flip() ? n1 : s.size(max); if (big) n1 = big + s.below(10);
    for (int i = 0; i < 2; ++i)
    {
        bs[i]->kind = (BitSys::Kind)s.weighted({4, 1, 2}); bs[i]->configure(s, rs[i]);
        bs[i]->init(s, i ? n2 : n1, max / 8 + 4);
        bs[i]->check_aggregates("after init");
    }
    bool nt = false;
    while (s.more(big > 10000 ? 4 : 20))
    {
        int w = (int)s.weighted({6, 4, 2, 1});
        if (w == 0) { int i = (int)s.below(2); bs[i]->step(s, false, max * 2); bs[i]->check_aggregates("after operation"); }
        else if (w == 1)
        {
            p.logic((int)s.below(3), s.chance(1, 8));
            size_t c = p.d.count_model();
            if (p.d.m.size() % 8 && p.q.m.size() % 8 && c && c < p.d.m.size()) nt = true;
        }
        else if (w == 2) p.custom(s);
        else flip(*bs[s.below(2)]);
        for (BitSys* b : bs) LABEL_IF(b->m.size() > 260 && b->count_model() > 255, "more than 255 set bits");
    }
    // laws on the common indices
    std::vector<bool> a = p.d.m, b = p.q.m; size_t c = std::min(a.size(), b.size());
    switch (s.below(4))
    {
    case 0: flip(p.d); flip(p.d); CHECK(p.d.m == a, "flip twice is not the identity"); break;
    case 1: p.logic(2, false); p.logic(2, false); for (size_t i = 0; i < c; ++i) CHECK(p.d.m[i] == a[i], "xor twice is not the identity at bit %zu", i); break;
    case 2: // not (a and b) == not a or not b
    {
        p.logic(0, false); flip(p.d); std::vector<bool> l = p.d.m;
        for (size_t i = 0; i < a.size(); ++i) { ZyanStatus st = p.d.A.ZyanBitsetAssign(p.d.b, i, a[i]); CHECK(st == ZYAN_STATUS_SUCCESS, "Assign returned %s", STN(st)); } p.d.m = a;
        flip(p.d); flip(p.q); p.logic(1, false);
        for (size_t i = 0; i < c; ++i) CHECK(p.d.m[i] == l[i], "De Morgan does not hold at bit %zu", i);
        break;
    }
    default: { int how = (int)s.below(2); p.logic(how, true); CHECK(p.d.m == a, "%s with itself changed the bitset", how ? "or" : "and"); }
    }
    if (nt) mark_nontrivial();
    for (int i = 0; i < 2; ++i) bs[i]->destroy();
    r1.check_empty("after destruction"); r2.check_empty("after destruction");
}
