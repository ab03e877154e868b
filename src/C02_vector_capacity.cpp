#include "sys_vec.hpp"

PropertyInfo PROPERTY = {"C02", "exploration",
    "A case is a random history of vector operations with random growth factor (1..255), shrink threshold (0..255) and initial "
    "capacity, or on a fixed buffer, or a duplicate with a requested capacity, or on a vector of so many bytes that its size times the growth factor or the shrink threshold exceeds 32 bits; after every operation the capacity is compared with the documented policy, with the real block "
    "and with the allocator calls made; non-trivial: the capacity changed at least 3 times, or a fixed buffer was full at least twice",
    600000, 7200000, 6000, 3, 3,
    {"capacities are observed through ZyanVectorGetCapacity and the allocator callbacks only"}};

// vectors so big that their size times the growth factor or the shrink threshold exceeds 32 bits; elements are bytes and always equal a pattern
static void giant(Src& s)
{
    static std::string pattern; if (pattern.empty()) { pattern.resize((size_t)36 << 20); uint32_t x = 1; for (char& c : pattern) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } }
    const Api& A = native_api(); RecAlloc ra; ZyanVector v; unsigned g = 128 + (unsigned)s.below(128), t = (unsigned)s.pick<uint64_t>({0, 1, 2, g, g + 1, 128 + s.below(128), 255}) & 255;
    if (s.chance(1, 4) && t > 127) std::swap(g, t); if (g < 128 && t < 128) g = 128;
    size_t es = 1, n = (size_t)((1ull << 32) / std::max(g, t)) + s.below(7) - 3; if (s.chance(1, 4) && n < ((size_t)17 << 20)) es = 2;
    size_t cap = n + s.pick<size_t>({0, 0, 1, 2, 9}); OP("giant", es, n, cap, g, t);
    ZyanStatus st = A.ZyanVectorInitEx(&v, es, cap, nullptr, &ra, (ZyanU8)g, (ZyanU8)t); CHECK(st == ZYAN_STATUS_SUCCESS, "InitEx returned %s", STN(st));
    st = A.ZyanVectorInsertRange(&v, 0, pattern.data(), n); CHECK(st == ZYAN_STATUS_SUCCESS, "filling the reserved capacity with %zu elements returned %s", n, STN(st));
    unsigned left = 1 + (unsigned)s.below(6);
    while (left--)
    {
        size_t n0 = n, k = 1 + s.below(5), want = n; const char* what; void* e = nullptr; const char* from = &pattern[n * es];
        switch (s.below(7))
        {
        case 0: what = "PushBack"; OP(what); want = n + 1; st = A.ZyanVectorPushBack(&v, from); break;
        case 1: what = "Insert"; OP(what); want = n + 1; st = A.ZyanVectorInsert(&v, n, from); break;
        case 2: what = "InsertRange"; OP(what, k); want = n + k; st = A.ZyanVectorInsertRange(&v, n, from, k); break;
        case 3: what = "Emplace"; OP(what); want = n + 1; st = A.ZyanVectorEmplace(&v, &e, nullptr); if (ZYAN_SUCCESS(st)) memcpy(e, from, es); break;
        case 4: what = "PopBack"; OP(what); want = n - 1; st = A.ZyanVectorPopBack(&v); break;
        case 5: what = "DeleteRange"; OP(what, k); want = n - k; st = A.ZyanVectorDeleteRange(&v, n - k, k); break;
        default: what = "Resize"; want = s.flip() ? n - k : n + k; OP(what, want); st = A.ZyanVectorResize(&v, want); if (ZYAN_SUCCESS(st)) for (size_t i = n; i < want; ++i) { CHECK(ZYAN_SUCCESS(A.ZyanVectorSet(&v, i, &pattern[i * es])), "Set failed"); } break;
        }
        ZyanUSize size, c; A.ZyanVectorGetSize(&v, &size); A.ZyanVectorGetCapacity(&v, &c);
        if (want > cap) { if (ZYAN_SUCCESS(st)) n = want; else CHECK(c == cap, "a refused %s changed the capacity from %zu to %zu", what, cap, (size_t)c); LABEL(ZYAN_SUCCESS(st) ? "giant: growth accepted" : "giant: growth refused"); }
        else { CHECK(ZYAN_SUCCESS(st), "%s from %zu to %zu elements with capacity %zu returned %s", what, n0, want, cap, STN(st)); n = want; }
        CHECK(size == n, "after %s the size is %zu instead of %zu", what, (size_t)size, n);
        CHECK(c >= n, "after %s the capacity %zu is below the size %zu", what, (size_t)c, n);
        if (want >= n0 && want <= cap) CHECK(c == cap, "%s within the capacity changed it from %zu to %zu", what, cap, (size_t)c);
        if (want < n0 && !(t && (uint64_t)n * t < cap && (uint64_t)n * g < cap)) CHECK(c == cap, "%s to %zu elements changed the capacity from %zu to %zu (growth %u, threshold %u)", what, n, cap, (size_t)c, g, t);
        CHECK(ra.live.size() == 1 && ra.live.begin()->second.n == c && ra.live.begin()->second.elem == es, "capacity is %zu but the block holds %zu elements", (size_t)c, ra.live.begin()->second.n);
        cap = c;
    }
    CHECK(!memcmp(A.ZyanVectorGet(&v, 0), pattern.data(), n * es), "contents of a vector of %zu elements changed", n);
    st = A.ZyanVectorDestroy(&v); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); ra.check_empty("after destruction"); LABEL("giant vector"); mark_nontrivial();
}

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 9) return giant(s);
    const Api& A = native_api();
    RecAlloc ra;
    VecSys v(A);
    v.es = s.pick<size_t>({1, 2, 3, 8, 12, 40});
    v.kind = s.weighted({5, 3}) ? VecSys::FIXED : VecSys::RECORDED;
    if (s.chance(1, 12)) v.kind = VecSys::DEFAULT_ALLOC;
    v.alphabet = 5;
    v.check_cap = true;
    v.configure(s, &ra);
    RecAlloc rs; VecSys src(A);
    size_t max = s.pick<size_t>({6, 12, 40, 150});
    size_t big = s.large(); if (big) { v.growth = std::min(v.growth, 3u); v.es = s.pick<size_t>({1, 3, 8}); } else if (size_t w = s.wide(8000)) { v.es = std::min<size_t>(w, 33000); max = 6; v.growth = std::min(v.growth, 3u); LABEL("elements of more than 250 bytes"); }
    if (!big && s.chance(1, 4)) // a duplicate: its capacity is the requested one, but at least what the contents need
    {
        src.es = v.es; src.alphabet = 5; src.check_cap = true; src.kind = (VecSys::Kind)s.below(3); src.configure(s, &rs); src.init(s, s.size(60));
        for (size_t n = s.size(20); n--;) if (src.fits(src.m.size() + 1)) src.op_push(s);
        size_t cap = s.flip() ? s.size(120) : src.m.size() + s.below(4);
        if (v.kind == VecSys::FIXED) cap = std::max(cap, src.m.size());
        if (!v.duplicate_from(s, src, cap)) FAIL("a duplicate that fits was refused");
        src.verify("source of a duplicate"); src.destroy(); rs.check_empty("after destruction of the source");
        LABEL("capacity of a duplicate");
    }
    else v.init(s, s.size(v.kind == VecSys::FIXED ? max : 60) + (v.kind == VecSys::FIXED || s.flip() ? big : 0));
    if (big) { v.op_bulk(s, big); max = big + big / 4; }
    unsigned changes = 0, full = 0;
    while (s.more(big > 1000 ? 6 : 30))
    {
        size_t cap0 = v.capacity(), size0 = v.m.size(); uint64_t calls0 = ra.total();
        const void* data0 = size0 ? A.ZyanVectorGet(v.v, 0) : nullptr;
        v.step(s, false, max);
        size_t cap1 = v.capacity(), size1 = v.m.size();
        const void* data1 = size1 ? A.ZyanVectorGet(v.v, 0) : nullptr;
        if (cap0 != cap1) ++changes;
        LABEL_IF(cap1 > cap0, "capacity grew"); LABEL_IF(cap1 < cap0, "capacity shrank");
        if (v.kind == VecSys::FIXED)
        {
            CHECK(!data1 || data1 == v.buf.p, "vector left its fixed buffer");
            CHECK(ra.total() == 0, "vector on a fixed buffer called an allocator");
            if (size1 == cap1) ++full;
        }
        if (v.kind == VecSys::RECORDED)
        {
            CHECK(ra.live.size() == 1 && ra.live.begin()->second.n == cap1, "capacity is %zu but the block holds %zu elements", cap1, ra.live.begin()->second.n);
            if (cap1 == cap0 && size1 > size0) CHECK(ra.total() == calls0 && (!data0 || data0 == data1), "the vector was re-allocated although its capacity %zu sufficed for %zu elements", cap0, size1);
        }
    }
    // reserve guarantee: no re-allocation while the reserved capacity suffices
    if (v.kind == VecSys::RECORDED && s.chance(1, 3))
    {
        size_t n = v.m.size() + s.size(50);
        OP("Reserve", n);
        ZyanStatus st = A.ZyanVectorReserve(v.v, n);
        CHECK(st == ZYAN_STATUS_SUCCESS && v.capacity() >= n, "Reserve(%zu) returned %s with capacity %zu", n, STN(st), v.capacity());
        v.mcap = v.capacity();
        uint64_t calls0 = ra.total();
        while (v.m.size() < n) { if (s.flip()) v.op_push(s); else { std::string x = v.value(s); OP("Insert", 0, x); st = A.ZyanVectorInsert(v.v, 0, x.data()); CHECK(st == ZYAN_STATUS_SUCCESS, "Insert returned %s", STN(st)); v.m.insert(v.m.begin(), x); } }
        CHECK(ra.total() == calls0, "re-allocation within the reserved capacity %zu", n);
        v.verify("after filling the reserved capacity");
        LABEL("filled reserved capacity");
    }
    if (changes >= 3 || full >= 2) mark_nontrivial();
    v.destroy();
    ra.check_empty("after destruction");
}
