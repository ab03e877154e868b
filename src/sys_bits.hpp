// Model-based bitset system.
#pragma once
#include "sys.hpp"

struct BitSys : SysBase
{
    enum Kind { RECORDED, DEFAULT_ALLOC, FIXED };
    Kind kind = RECORDED;
    unsigned growth = 2, shrink = 2;
    ZyanBitset* b = nullptr;
    Guarded buf;
    std::vector<bool> m;

    explicit BitSys(const Api& a) : SysBase(a) { b = (ZyanBitset*)malloc(sizeof *b); memset(b, 0xCC, sizeof *b); }
    ~BitSys() { free(b); }
    BitSys(const BitSys&) = delete;

    size_t size() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanBitsetGetSize(b, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "BitsetGetSize returned %s", STN(st)); return n; }
    size_t get(ZyanStatus (*f)(const ZyanBitset*, ZyanUSize*), const char* what) const { ZyanUSize n = 0x5A5A; ZyanStatus st = f(b, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "%s returned %s", what, STN(st)); return n; }
    bool test(size_t i) const
    {
        ZyanStatus st = A.ZyanBitsetTest(b, i);
        CHECK(st == ZYAN_STATUS_TRUE || st == ZYAN_STATUS_FALSE, "testing bit %zu of %zu returned %s", i, m.size(), STN(st));
        return st == ZYAN_STATUS_TRUE;
    }
    void verify(const char* when) const
    {
        size_t n = size();
        CHECK(n == m.size(), "%s: size is %zu, expected %zu", when, n, m.size());
        for (size_t i = 0; i < n; ++i) CHECK(test(i) == m[i], "%s: bit %zu of %zu is %d, expected %d", when, i, n, (int)!m[i], (int)m[i]);
        size_t sb = get(A.ZyanBitsetGetSizeBytes, "GetSizeBytes"), cb = get(A.ZyanBitsetGetCapacityBytes, "GetCapacityBytes"), c = get(A.ZyanBitsetGetCapacity, "GetCapacity");
        CHECK(sb == (n + 7) / 8, "%s: size in bytes is %zu with %zu bits", when, sb, n);
        CHECK(c == cb * 8 && cb >= sb, "%s: capacity %zu bits / %zu bytes with %zu bits", when, c, cb, n);
        if (kind == FIXED) CHECK(cb == buf.n, "%s: capacity is %zu bytes on a buffer of %zu", when, cb, buf.n);
        if (kind == RECORDED) CHECK(ra->live.size() == 1 && ra->live.begin()->second.n * ra->live.begin()->second.elem == cb, "%s: capacity is %zu bytes but the block differs", when, cb);
    }
    size_t count_model() const { size_t r = 0; for (bool x : m) r += x; return r; }
    void check_aggregates(const char* when) const
    {
        size_t e = count_model(), c = get(A.ZyanBitsetCount, "Count");
        CHECK(c == e, "%s: Count is %zu, expected %zu of %zu bits", when, c, e, m.size());
        ZyanStatus a = A.ZyanBitsetAll(b), y = A.ZyanBitsetAny(b), z = A.ZyanBitsetNone(b);
        auto tf = [](bool v) { return v ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE; };
        CHECK(a == tf(e == m.size()), "%s: All returned %s with %zu of %zu bits set", when, STN(a), e, m.size());
        CHECK(y == tf(e > 0), "%s: Any returned %s with %zu of %zu bits set", when, STN(y), e, m.size());
        CHECK(z == tf(e == 0), "%s: None returned %s with %zu of %zu bits set", when, STN(z), e, m.size());
    }
    bool fits(size_t n) const { return kind != FIXED || (n + 7) / 8 <= buf.n; }
    void expect(ZyanStatus st, bool accept, const char* what)
    {
        if (accept) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although it is valid", what, STN(st)); return; }
        CHECK(ZYAN_FAILED(st), "%s was accepted (%s) although it is invalid", what, STN(st)); LABEL("refused operation");
    }
#define BUNCHANGED [&] { verify("after a refused allocation"); }
    void configure(Src& s, RecAlloc* r) { ra = r; growth = (unsigned)s.weighted({4, 6, 2, 1}) + 1; shrink = s.pick<unsigned>({2, 0, 1, 2, 3, 4, 255}); }
    ZyanStatus init(Src& s, size_t n, size_t bytes)
    {
        ZyanStatus st;
        garble(s, b, sizeof *b);
        m.clear();
        if (kind == RECORDED)
        {
            OP("BitsetInitEx", n, growth, shrink);
            st = call(s, [&] { return A.ZyanBitsetInitEx(b, n, ra, (ZyanU8)growth, (ZyanU8)shrink); }, [&] { CHECK(ra->live.empty(), "failed initialisation left memory allocated"); });
            if (skipped(st)) return st;
        }
        else if (kind == DEFAULT_ALLOC) { OP("BitsetInit", n); st = call(s, [&] { return A.ZyanBitsetInit(b, n); }, [] {}); if (skipped(st)) return st; }
        else
        {
            if (!bytes) bytes = 1;
            OP("BitsetInitBuffer", n, bytes); buf.alloc(bytes, 0xC3);
            st = A.ZyanBitsetInitBuffer(b, n, buf.p, bytes);
            if (!fits(n)) { CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%zu bits do not fit into %zu bytes but the result is %s", n, bytes, STN(st)); LABEL("fixed buffer full"); return st; }
        }
        CHECK(st == ZYAN_STATUS_SUCCESS, "bitset initialisation returned %s", STN(st));
        m.assign(n, false);
        verify("after init");
        return st;
    }
    void destroy() { OP("BitsetDestroy"); ZyanStatus st = A.ZyanBitsetDestroy(b); CHECK(st == ZYAN_STATUS_SUCCESS, "BitsetDestroy returned %s", STN(st)); }
    void op_bit(Src& s, bool wild)
    {
        size_t i = wild && s.chance(1, 4) ? s.wild_index(m.size()) : s.below(m.size() + (wild ? 1 : 0)); int how = (int)s.below(5); bool val = s.flip();
        if (m.empty() && !wild) return op_push(s);
        static const char* n[] = {"Set", "Reset", "Assign", "Toggle", "Test"};
        OP(n[how], i, val);
        ZyanStatus st;
        switch (how)
        {
        case 0: st = A.ZyanBitsetSet(b, i); break;
        case 1: st = A.ZyanBitsetReset(b, i); break;
        case 2: st = A.ZyanBitsetAssign(b, i, val); break;
        case 3: st = A.ZyanBitsetToggle(b, i); break;
        default: st = A.ZyanBitsetTest(b, i); break;
        }
        expect(st, i < m.size(), "bit access");
        if (i < m.size()) switch (how) { case 0: m[i] = true; break; case 1: m[i] = false; break; case 2: m[i] = val; break; case 3: m[i] = !m[i]; break; default: CHECK(st == (m[i] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "Test(%zu) returned %s", i, STN(st)); }
        verify("after bit access");
    }
    void op_push(Src& s)
    {
        bool v = s.flip(); OP("Push", v);
        ZyanStatus st = call(s, [&] { return A.ZyanBitsetPush(b, v); }, BUNCHANGED);
        if (skipped(st)) return;
        if (!fits(m.size() + 1)) { CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "push into a full buffer returned %s", STN(st)); LABEL("fixed buffer full"); }
        else { expect(st, true, "push"); m.push_back(v); }
        verify("after push");
    }
    void op_pop(Src& s)
    {
        OP("Pop");
        ZyanStatus st = call(s, [&] { return A.ZyanBitsetPop(b); }, BUNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        expect(st, !m.empty(), "pop");
        if (!m.empty()) m.pop_back();
        verify("after pop");
    }
    void op_all(Src& s)
    {
        int how = (int)s.weighted({3, 3, 3, 1});
        static const char* n[] = {"SetAll", "ResetAll", "Flip", "Clear"};
        OP(n[how]);
        ZyanStatus st = call(s, [&] { return how == 0 ? A.ZyanBitsetSetAll(b) : how == 1 ? A.ZyanBitsetResetAll(b) : how == 2 ? A.ZyanBitsetFlip(b) : A.ZyanBitsetClear(b); }, BUNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        expect(st, true, n[how]);
        if (how == 0) m.assign(m.size(), true); else if (how == 1) m.assign(m.size(), false); else if (how == 2) m.flip(); else m.clear();
        verify(n[how]);
    }
    void op_mem(Src& s, size_t max)
    {
        bool res = s.flip(); size_t n = s.size(max);
        OP(res ? "Reserve" : "ShrinkToFit", res ? n : 0);
        ZyanStatus st = call(s, [&] { return res ? A.ZyanBitsetReserve(b, n) : A.ZyanBitsetShrinkToFit(b); }, BUNCHANGED);
        if (skipped(st)) return;
        if (res && !fits(n)) CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "Reserve(%zu) on %zu bytes returned %s", n, buf.n, STN(st));
        else expect(st, true, res ? "Reserve" : "ShrinkToFit");
        size_t c = get(A.ZyanBitsetGetCapacity, "GetCapacity");
        if (res && ZYAN_SUCCESS(st)) CHECK(c >= n, "capacity is %zu bits after Reserve(%zu)", c, n);
        if (!res && kind != FIXED) CHECK(c == std::max<size_t>(8, (m.size() + 7) / 8 * 8), "capacity is %zu bits after ShrinkToFit of %zu", c, m.size());
        verify("after Reserve/ShrinkToFit");
    }
    void check_ends() const
    {
        ZyanStatus a = A.ZyanBitsetTestMSB(b), z = A.ZyanBitsetTestLSB(b);
        if (m.empty()) { CHECK(ZYAN_FAILED(a) && ZYAN_FAILED(z), "MSB/LSB of an empty bitset: %s / %s", STN(a), STN(z)); return; }
        CHECK(a == (m.back() ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "TestMSB returned %s, the last bit is %d", STN(a), (int)m.back());
        CHECK(z == (m.front() ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "TestLSB returned %s, the first bit is %d", STN(z), (int)m.front());
    }
    void step(Src& s, bool wild, size_t max)
    {
        switch (s.weighted({8, 7, 4, 3, 2}))
        {
        case 0: op_bit(s, wild); break;
        case 1: for (size_t k = s.flip() ? 1 : s.size(20); k; --k) op_push(s); break;
        case 2: for (size_t k = s.flip() ? 1 : s.size(20); k; --k) op_pop(s); break;
        case 3: op_all(s); break;
        default: op_mem(s, max); break;
        }
    }
};
