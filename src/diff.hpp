// The same generated history through several worlds (builds of the library, surroundings of the call), compared after every call.
#pragma once
#include "locales.hpp"
#include "sys_arg.hpp"
#include "sys_str.hpp"
// deterministic allocator that accepts what the library does (its discipline is C04's subject) and refuses on demand
struct Env // what a call finds lying around: none of it may show in a result
{
    uint8_t fill = 0xA5, pre = 0xCC; int err = 0; void (*before)(const Api&, uint8_t) = nullptr; bool downwards = false, same_place = false; const char* what = ""; unsigned locale = 0;
};
struct Plain : ZyanAllocator
{
    std::map<void*, size_t> live; uint64_t calls = 0, from = 0, to = 0; Env env; char* arena = nullptr; size_t left = 0; static constexpr size_t ARENA = 1 << 15;
    Plain(const Api& A, const Env& e) : env(e) { A.ZyanAllocatorInit(this, &al, &re, &fr); if (e.downwards) { arena = (char*)malloc(ARENA); left = ARENA; } }
    ~Plain() { for (auto& b : live) give(b.first); free(arena); }
    bool mine(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
    void* take(size_t n) { size_t r = (n + 16) & ~(size_t)15; if (arena && r <= left) return arena + (left -= r); return malloc(n + 1); }
    void give(void* p) { if (!mine(p)) free(p); }
    bool refuse(size_t e, size_t n) { ++calls; size_t z; return (calls >= from && calls < to) || __builtin_mul_overflow(e, n, &z) || z > (1u << 22); }
    static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { auto s = (Plain*)a; if (s->refuse(e, n)) return INJECTED_STATUS; void* q = s->take(e * n); memset(q, s->env.fill, e * n); s->live[q] = e * n; *p = q; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n)
    {
        auto s = (Plain*)a; if (s->refuse(e, n)) return INJECTED_STATUS; auto it = s->live.find(*p); if (it == s->live.end()) return ZYAN_STATUS_INVALID_ARGUMENT;
        void* q = s->take(e * n); memset(q, s->env.fill, e * n); memcpy(q, *p, std::min(e * n, it->second)); s->give(*p); s->live.erase(it); s->live[q] = e * n; *p = q; return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus fr(ZyanAllocator* a, void* p, ZyanUSize, ZyanUSize) { auto s = (Plain*)a; auto it = s->live.find(p); if (it != s->live.end()) { memset(p, s->env.fill ^ 0x55, it->second); s->live.erase(it); s->give(p); } return ZYAN_STATUS_SUCCESS; }
};
struct Obs
{
    std::string b; ZyanStatus st = ZYAN_STATUS_SUCCESS;
    void u(uint64_t v) { b.append((const char*)&v, 8); }
    void s(const void* p, size_t n) { u(n); if (n) b.append((const char*)p, n); }
    void status(ZyanStatus x) { st = x; u(x); }
};
// what a case was given and saw; one per thread, as C29 runs cases in several threads
static thread_local std::string* g_dlog; static thread_local size_t g_es; static thread_local std::string g_cval; static thread_local ZyanStatus g_cst;
static thread_local std::string* g_seen; // everything the first world observed, if anyone asks
static void on_destroy(void* p) { if (g_dlog) g_dlog->append((const char*)p, g_es); }
static ZyanStatus construct(void* p) { if (ZYAN_SUCCESS(g_cst)) memcpy(p, g_cval.data(), g_cval.size()); return g_cst; }
static ZyanBool eq1(const void* a, const void* b) { return *(const char*)a == *(const char*)b; }
static ZyanI32 cmp1(const void* a, const void* b) { return *(const unsigned char*)a - *(const unsigned char*)b; }

struct Var
{
    const Api& A; Plain al; Guarded buf; std::string dlog; ZyanVector v; ZyanList l; ZyanString s; ZyanBitset b, b2;
    Env env; alignas(16) char slot[2][512];
    Var(const Api& a, const Env& e) : A(a), al(a, e), env(e) { int c = e.pre; memset(&v, c, sizeof v); memset(&l, c, sizeof l); memset(&s, c, sizeof s); memset(&b, c, sizeof b); memset(&b2, c, sizeof b2); }
};
// where an argument lies: in a block of its own, or always in the same place
static const void* put(Var& v, const Guarded& g, int k = 0) { if (!v.env.same_place || g.n > sizeof v.slot[k]) return g.p; memcpy(v.slot[k], g.p, g.n); return v.slot[k]; }
struct World
{
    std::vector<std::unique_ptr<Var>> vs; size_t ok = 0; ZyanStatus last; bool fixed = false; void (*observe)(Var&, Obs&) = nullptr;
    World() { for (auto& b : builds()) vs.emplace_back(new Var(*b.first, b.second)); }
    static std::vector<std::pair<const Api*, Env>> builds();
    template <class F> ZyanStatus all(Src& src, const char* what, F f, bool number = false) // number: by how much the string grows is not specified
    {
        uint64_t k = 0, len = 0; if (!fixed && src.chance(1, 8)) { k = 1 + src.below(2); len = src.flip() ? 1 : 50; if (number) { k = 1; len = 50; } OP("refuse allocator call", k, len); }
        Obs first;
        for (size_t i = 0; i < vs.size(); ++i)
        {
            Var& v = *vs[i]; v.dlog.clear(); g_dlog = &v.dlog; Obs o;
            if (k) { v.al.from = v.al.calls + k; v.al.to = v.al.from + len; }
            if (v.env.before) v.env.before(v.A, v.env.pre);
            { InLocale loc(v.env.locale); errno = v.env.err; f(v, o); } v.al.from = v.al.to = 0; if (number && !fixed) v.A.ZyanStringShrinkToFit(&v.s);
            o.s(v.dlog.data(), v.dlog.size()); o.u(v.al.live.size()); if (observe) observe(v, o); g_dlog = nullptr;
            if (!i) { first = o; if (g_seen) g_seen->append(o.b); continue; }
            CHECK(first.st == o.st, "%s returned %s in build '%s'%s but %s in build '%s'%s", what, STN(first.st), vs[0]->A.name, vs[0]->env.what, STN(o.st), v.A.name, v.env.what);
            CHECK(first.b == o.b, "%s gave different outputs or contents in build '%s'%s than in build '%s'%s", what, v.A.name, v.env.what, vs[0]->A.name, vs[0]->env.what);
        }
        last = first.st; ok += ZYAN_SUCCESS(first.st);
        return first.st;
    }
};
static std::string text(Src& s, size_t max) { return gen_text(s, (unsigned)s.below(4), max); }

// ---- vectors
static void see_vector(Var& v, Obs& o)
{
    size_t n = 0, c = 0; o.u(v.A.ZyanVectorGetSize(&v.v, &n)); o.u(v.A.ZyanVectorGetCapacity(&v.v, &c)); o.u(n); o.u(c);
    for (size_t i = 0; i < n && i < 2000; ++i) { const void* p = v.A.ZyanVectorGet(&v.v, i); if (p) o.s(p, g_es); else o.u(0); }
    o.u(v.A.ZyanVectorGet(&v.v, n) != nullptr);
}
static void vectors(Src& s)
{
    World W; size_t es = g_es = s.pick<size_t>({1, 2, 3, 8, 13}); W.fixed = s.chance(1, 3); bool dt = s.chance(1, 3); size_t cap = s.size(20); uint8_t g = 1 + (uint8_t)s.below(3), sh = s.pick<uint8_t>({0, 1, 2, 4, 8});
    auto val = [&] { std::string x(es, 0); for (auto& c : x) c = (char)s.below(4); return x; };
    OP("vector", W.fixed, es, cap, g, sh);
    ZyanStatus st = W.all(s, "VectorInit", [&](Var& v, Obs& o) {
        if (W.fixed) { v.buf.alloc(es * cap, v.env.fill); o.status(v.A.ZyanVectorInitCustomBuffer(&v.v, es, v.buf.p, cap, dt ? on_destroy : nullptr)); }
        else o.status(v.A.ZyanVectorInitEx(&v.v, es, cap, dt ? on_destroy : nullptr, &v.al, g, sh)); });
    if (ZYAN_FAILED(st)) return;
    W.observe = see_vector;
    while (s.more(12))
    {
        size_t n = 0; W.vs[0]->A.ZyanVectorGetSize(&W.vs[0]->v, &n);
        size_t i = s.chance(1, 8) ? s.wild_index(n) : s.below(n + 1), c = s.chance(1, 8) ? s.wild_index(n) : s.below(4); std::string x = val(), xs; for (size_t k = 0; k < std::min<size_t>(c, 3); ++k) xs += val();
        Guarded e, es2; e.assign(x.data(), es); es2.assign(xs.data(), xs.size()); int op = (int)s.below(19); bool flag = s.flip(); g_cval = x; g_cst = flag ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_NOT_FOUND;
        if (op == 2 && c > 3 && c < ((size_t)1 << (sizeof(size_t) > 4 ? 40 : 28))) c = 3;
        OP("op", op, i, c, x, flag);
        W.all(s, "a vector operation", [&](Var& v, Obs& o) {
            const Api& A = v.A; const void *ep = put(v, e), *rp = put(v, es2, 1); void* p = nullptr; const void* cp = nullptr; ZyanISize fi = -7; ZyanUSize fu = 7;
            switch (op)
            {
            case 0: case 1: o.status(A.ZyanVectorPushBack(&v.v, ep)); break;
            case 2: o.status(A.ZyanVectorInsertRange(&v.v, i, rp, c)); break;
            case 3: o.status(A.ZyanVectorInsert(&v.v, i, ep)); break;
            case 4: { ZyanStatus q = A.ZyanVectorEmplaceEx(&v.v, i, &p, construct); o.status(q); break; }
            case 5: { ZyanStatus q = A.ZyanVectorEmplace(&v.v, &p, nullptr); if (ZYAN_SUCCESS(q)) memcpy(p, ep, es); o.status(q); break; }
            case 6: o.status(A.ZyanVectorSet(&v.v, i, ep)); break;
            case 7: o.status(A.ZyanVectorSwapElements(&v.v, i, c)); break;
            case 8: o.status(A.ZyanVectorDelete(&v.v, i)); break;
            case 9: o.status(A.ZyanVectorDeleteRange(&v.v, i, c)); break;
            case 10: o.status(A.ZyanVectorPopBack(&v.v)); break;
            case 11: o.status(A.ZyanVectorResizeEx(&v.v, (i < 60 || i > ((size_t)1 << (sizeof(size_t) > 4 ? 40 : 28)) ? i : 60), ep)); break;
            case 12: o.status(A.ZyanVectorReserve(&v.v, i)); break;
            case 13: o.status(A.ZyanVectorShrinkToFit(&v.v)); break;
            case 14: { ZyanStatus q = A.ZyanVectorFindEx(&v.v, ep, &fi, eq1, i, c); o.status(q); if (ZYAN_SUCCESS(q)) o.u(fi); q = A.ZyanVectorFind(&v.v, ep, &fi, eq1); o.u(q); o.u(fi); break; }
            case 15: { ZyanStatus q = A.ZyanVectorBinarySearch(&v.v, ep, &fu, cmp1); o.status(q); if (ZYAN_SUCCESS(q)) o.u(fu); break; }
            case 16: o.status(A.ZyanVectorGetPointer(&v.v, i, &cp)); o.u(cp != nullptr); break;
            case 17: { ZyanVector d; ZyanStatus q = A.ZyanVectorDuplicateEx(&d, &v.v, c < 100 ? c : 5, &v.al, g, sh); o.status(q); if (ZYAN_SUCCESS(q)) { std::swap(d, v.v); see_vector(v, o); std::swap(d, v.v); A.ZyanVectorDestroy(&d); } break; }
            default: o.status(flag ? A.ZyanVectorClear(&v.v) : A.ZyanVectorResizeEx(&v.v, c < 100 ? c : 9, ep)); break;
            }
        });
    }
    W.observe = nullptr;
    OP("destroy"); W.all(s, "VectorDestroy", [&](Var& v, Obs& o) { o.status(v.A.ZyanVectorDestroy(&v.v)); });
    if (W.ok >= 3) mark_nontrivial();
}
// ---- lists
static void see_list(Var& v, Obs& o)
{
    size_t n = 0; o.u(v.A.ZyanListGetSize(&v.l, &n)); o.u(n);
    for (int d = 0; d < 2; ++d)
    {
        const ZyanListNode* q = nullptr; o.u(d ? v.A.ZyanListGetTailNode(&v.l, &q) : v.A.ZyanListGetHeadNode(&v.l, &q));
        for (size_t i = 0; q && i < 300; ++i) { o.s(v.A.ZyanListGetNodeData(q), g_es); if (d) v.A.ZyanListGetPrevNode(&q); else v.A.ZyanListGetNextNode(&q); }
        o.u(99);
    }
}
static const ZyanListNode* nth(Var& v, size_t i) { const ZyanListNode* q = nullptr; v.A.ZyanListGetHeadNode(&v.l, &q); while (q && i--) v.A.ZyanListGetNextNode(&q); return q; }
static void lists(Src& s)
{
    World W; size_t es = g_es = s.pick<size_t>({1, 4, 8, 13}); W.fixed = s.chance(1, 3); bool dt = s.chance(1, 3); size_t bytes = s.size(300);
    OP("list", W.fixed, es, bytes);
    ZyanStatus st = W.all(s, "ListInit", [&](Var& v, Obs& o) {
        if (W.fixed) { v.buf.alloc(bytes, v.env.fill); o.status(v.A.ZyanListInitCustomBuffer(&v.l, es, dt ? on_destroy : nullptr, v.buf.p, bytes)); }
        else o.status(v.A.ZyanListInitEx(&v.l, es, dt ? on_destroy : nullptr, &v.al)); });
    if (ZYAN_FAILED(st)) return;
    W.observe = see_list;
    while (s.more(12))
    {
        size_t n = 0; W.vs[0]->A.ZyanListGetSize(&W.vs[0]->l, &n); size_t i = s.below(n + 1), j = s.below(n + 1); std::string x(es, 0); for (auto& c : x) c = (char)s.byte(); Guarded e; e.assign(x.data(), es);
        int op = (int)s.below(12); g_cval = x; g_cst = s.flip() ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_NOT_FOUND; OP("op", op, i, j, x, (unsigned)g_cst);
        W.all(s, "a list operation", [&](Var& v, Obs& o) {
            const Api& A = v.A; const void* ep = put(v, e); void* p = nullptr;
            switch (op)
            {
            case 0: o.status(A.ZyanListPushBack(&v.l, ep)); break;
            case 1: o.status(A.ZyanListPushFront(&v.l, ep)); break;
            case 2: o.status(A.ZyanListEmplaceBack(&v.l, &p, construct)); break;
            case 3: { ZyanStatus q = A.ZyanListEmplaceFront(&v.l, &p, construct); o.status(q); break; }
            case 4: o.status(A.ZyanListPopBack(&v.l)); break;
            case 5: o.status(A.ZyanListPopFront(&v.l)); break;
            case 6: o.status(A.ZyanListRemove(&v.l, nth(v, i))); break;
            case 7: o.status(A.ZyanListRemoveRange(&v.l, nth(v, i), nth(v, j))); break;
            case 8: o.status(A.ZyanListSetNodeData(&v.l, nth(v, i), ep)); break;
            case 9: o.status(A.ZyanListResizeEx(&v.l, i + j / 2, ep)); break;
            case 10: o.status(A.ZyanListClear(&v.l)); break;
            default: { const ZyanListNode* q = nth(v, i); o.status(A.ZyanListGetNextNode(&q)); o.u(q != nullptr); break; }
            }
        });
    }
    W.observe = nullptr;
    OP("destroy"); W.all(s, "ListDestroy", [&](Var& v, Obs& o) { o.status(v.A.ZyanListDestroy(&v.l)); });
    if (W.ok >= 3) mark_nontrivial();
}
// ---- strings and number formatting
static void see_string(Var& v, Obs& o)
{
    size_t n = 0, c = 0; const char* p = nullptr; o.u(v.A.ZyanStringGetSize(&v.s, &n)); o.u(v.A.ZyanStringGetCapacity(&v.s, &c)); o.u(v.A.ZyanStringGetData(&v.s, &p)); o.u(n); o.u(c); if (p && n < 100000) o.s(p, n + 1);
}
static void strings(Src& s)
{
    World W; W.fixed = s.chance(1, 3); size_t cap = s.size(60); uint8_t g = 1 + (uint8_t)s.below(3), sh = s.pick<uint8_t>({0, 1, 2, 4, 8}); g_es = 1;
    OP("string", W.fixed, cap, g, sh);
    ZyanStatus st = W.all(s, "StringInit", [&](Var& v, Obs& o) {
        if (W.fixed) { v.buf.alloc(cap, v.env.fill); o.status(v.A.ZyanStringInitCustomBuffer(&v.s, (char*)v.buf.p, cap)); }
        else o.status(v.A.ZyanStringInitEx(&v.s, cap, &v.al, g, sh)); });
    if (ZYAN_FAILED(st)) return;
    W.observe = see_string;
    while (s.more(12))
    {
        size_t n = 0; W.vs[0]->A.ZyanStringGetSize(&W.vs[0]->s, &n); size_t i = s.chance(1, 8) ? s.wild_index(n) : s.below(n + 1), c = s.chance(1, 8) ? s.wild_index(n) : s.below(n + 1), k = s.below(6);
        std::string x = text(s, 20); Guarded xm; xm.assign(x.c_str(), x.size() + 1); int op = (int)s.below(26); StrSys::Num q = StrSys::gen_num(s); size_t si = s.below(x.size() + 1), sc = s.chance(1, 8) ? s.wild_index(x.size()) : s.below(x.size() - si + 1); bool bi = s.flip(); int fv = (int)s.u64();
        OP("op", op, i, c, x, si, sc, q.v, q.pad);
        W.all(s, "a string operation", [&](Var& v, Obs& o) {
            const Api& A = v.A; ZyanStringView w, w2; o.u(A.ZyanStringViewInsideBuffer(&w, (const char*)put(v, xm))); const ZyanStringView* d = ZYAN_STRING_TO_VIEW(&v.s); ZyanISize fi = -7; ZyanI32 r = 9; char ch = 0; size_t len = 0;
            A.ZyanStringViewGetSize(&w, &len); o.u(len);
            auto found = [&](ZyanStatus z) { o.status(z); if (ZYAN_SUCCESS(z)) o.u(fi); };
            switch (op)
            {
            case 0: case 1: o.status(A.ZyanStringAppend(&v.s, &w)); break;
            case 2: o.status(A.ZyanStringAppendEx(&v.s, &w, si, sc)); break;
            case 3: o.status(A.ZyanStringInsert(&v.s, i, &w)); break;
            case 4: o.status(A.ZyanStringInsertEx(&v.s, i, &w, si, sc)); break;
            case 5: o.status(A.ZyanStringDelete(&v.s, i, c)); break;
            case 6: o.status(A.ZyanStringTruncate(&v.s, i)); break;
            case 7: o.status(A.ZyanStringSetChar(&v.s, i, (char)si)); break;
            case 8: { ZyanStatus z = A.ZyanStringResize(&v.s, k < 5 ? c : c + k); const char* d8; size_t to = k < 5 ? c : c + k; if (ZYAN_SUCCESS(z) && to > n && ZYAN_SUCCESS(A.ZyanStringGetData(&v.s, &d8))) memset((char*)d8 + n, 'r', to - n); o.status(z); break; }
            case 9: o.status(A.ZyanStringReserve(&v.s, i)); break;
            case 10: o.status(A.ZyanStringShrinkToFit(&v.s)); break;
            case 11: found(bi ? A.ZyanStringLPos(d, &w, &fi) : A.ZyanStringLPosI(d, &w, &fi)); break;
            case 12: found(bi ? A.ZyanStringRPos(d, &w, &fi) : A.ZyanStringRPosI(d, &w, &fi)); break;
            case 13: found(bi ? A.ZyanStringLPosEx(d, &w, &fi, i, c) : A.ZyanStringLPosIEx(d, &w, &fi, i, c)); break;
            case 14: found(bi ? A.ZyanStringRPosEx(d, &w, &fi, i, c) : A.ZyanStringRPosIEx(d, &w, &fi, i, c)); break;
            case 15: { ZyanStatus z = bi ? A.ZyanStringCompare(d, &w, &r) : A.ZyanStringCompareI(d, &w, &r); o.status(z); o.u(r); break; }
            case 16: o.status(bi ? A.ZyanStringToLowerCaseEx(&v.s, i, c) : A.ZyanStringToUpperCaseEx(&v.s, i, c)); break;
            case 17: o.status(bi ? A.ZyanStringToLowerCase(&v.s) : A.ZyanStringToUpperCase(&v.s)); break;
            case 18: { ZyanStatus z = A.ZyanStringViewInsideViewEx(&w2, d, i, c); o.status(z); if (ZYAN_SUCCESS(z)) { const char* p = nullptr; size_t l2 = 0; A.ZyanStringViewGetSize(&w2, &l2); A.ZyanStringViewGetData(&w2, &p); o.s(p, l2); } break; }
            case 19: o.status(A.ZyanStringGetChar(d, i, &ch)); o.u(ch); break;
            case 20: { ZyanString t; ZyanStatus z = bi ? A.ZyanStringDuplicateEx(&t, &w, k * 10, &v.al, g, sh) : A.ZyanStringConcatEx(&t, d, &w, k * 10, &v.al, g, sh); o.status(z); if (ZYAN_SUCCESS(z)) { std::swap(t, v.s); see_string(v, o); std::swap(t, v.s); A.ZyanStringDestroy(&t); } break; }
            case 21: if (k == 0) o.status(A.ZyanStringClear(&v.s)); else o.status(ZYAN_STATUS_SUCCESS); break;
            default:
                switch (op & 3) { case 0: o.status(A.ZyanStringAppendDecU(&v.s, q.v, (ZyanU8)q.pad)); break; case 1: o.status(A.ZyanStringAppendDecS(&v.s, (ZyanI64)q.v, (ZyanU8)q.pad, bi, k < 2 ? &w : nullptr)); break;
                case 2: o.status(A.ZyanStringAppendHexU(&v.s, q.v, (ZyanU8)q.pad, bi)); break; default: o.status(A.ZyanStringAppendHexS(&v.s, (ZyanI64)q.v, (ZyanU8)q.pad, bi, k & 1, k < 2 ? &w : nullptr)); }
            }
        }, op > 21);
        // formatted append: only where a C library exists, on a separate string
        if (op == 21 && k) W.all(s, "StringAppendFormat", [&](Var& v, Obs& o) {
            const Api& A = v.A.ZyanStringAppendFormat ? v.A : native_api(); char b[24]; ZyanString t; A.ZyanStringInitCustomBuffer(&t, b, 4 + k * 4); ZyanStatus z = A.ZyanStringAppendFormat(&t, "%d:%s", fv, "zyan"); o.status(z); o.s(b, strlen(b)); });
    }
    W.observe = nullptr;
    OP("destroy"); W.all(s, "StringDestroy", [&](Var& v, Obs& o) { o.status(v.A.ZyanStringDestroy(&v.s)); });
    if (W.ok >= 3) mark_nontrivial();
}
// ---- bitsets
static void see_bitset(Var& v, Obs& o)
{
    size_t n = 0, c = 0, sb = 0, cb = 0, k = 0; ZyanBitset* b = &v.b; o.u(v.A.ZyanBitsetGetSize(b, &n)); o.u(v.A.ZyanBitsetGetCapacity(b, &c)); o.u(v.A.ZyanBitsetGetSizeBytes(b, &sb)); o.u(v.A.ZyanBitsetGetCapacityBytes(b, &cb)); o.u(v.A.ZyanBitsetCount(b, &k));
    for (size_t x : {n, c, sb, cb, k}) o.u(x);
    for (size_t i = 0; i < n && i < 500; ++i) o.b.push_back((char)(v.A.ZyanBitsetTest(b, i) == ZYAN_STATUS_TRUE));
    o.u(v.A.ZyanBitsetAll(b)); o.u(v.A.ZyanBitsetAny(b)); o.u(v.A.ZyanBitsetNone(b)); o.u(v.A.ZyanBitsetTestMSB(b)); o.u(v.A.ZyanBitsetTestLSB(b));
}
static void bitsets(Src& s)
{
    World W; W.fixed = s.chance(1, 3); size_t n0 = s.size(40), n1 = s.size(40), bytes = s.size(8); uint8_t g = 1 + (uint8_t)s.below(3), sh = s.pick<uint8_t>({0, 1, 2, 4}); g_es = 1;
    OP("bitset", W.fixed, n0, n1, bytes, g, sh);
    auto init2 = [&](Var& v, Obs& o) {
        ZyanStatus a;
        if (W.fixed) { v.buf.alloc(bytes, v.env.fill); a = v.A.ZyanBitsetInitBuffer(&v.b, n0, v.buf.p, bytes); } else a = v.A.ZyanBitsetInitEx(&v.b, n0, &v.al, g, sh);
        o.status(a); };
    if (ZYAN_FAILED(W.all(s, "BitsetInit", init2))) return;
    bool two = ZYAN_SUCCESS(W.all(s, "BitsetInitEx", [&](Var& v, Obs& o) { o.status(v.A.ZyanBitsetInitEx(&v.b2, n1, &v.al, 2, 2)); }));
    W.observe = see_bitset;
    while (s.more(12))
    {
        size_t n = 0; W.vs[0]->A.ZyanBitsetGetSize(&W.vs[0]->b, &n); size_t i = s.chance(1, 8) ? s.wild_index(n) : s.below(n + 1); int op = (int)s.below(20); bool f = s.flip(); if (op >= 17 && !two) op = 0; size_t j = n1 ? s.below(n1) : 0;
        OP("op", op, i, f, j);
        W.all(s, "a bitset operation", [&](Var& v, Obs& o) {
            const Api& A = v.A; ZyanBitset* b = &v.b;
            switch (op)
            {
            case 0: case 1: o.status(A.ZyanBitsetSet(b, i)); break;
            case 2: o.status(A.ZyanBitsetReset(b, i)); break;
            case 3: o.status(A.ZyanBitsetAssign(b, i, f)); break;
            case 4: o.status(A.ZyanBitsetToggle(b, i)); break;
            case 5: case 6: case 7: o.status(A.ZyanBitsetPush(b, f)); break;
            case 8: case 9: o.status(A.ZyanBitsetPop(b)); break;
            case 10: o.status(A.ZyanBitsetFlip(b)); break;
            case 11: o.status(f ? A.ZyanBitsetSetAll(b) : A.ZyanBitsetResetAll(b)); break;
            case 12: o.status(f ? A.ZyanBitsetClear(b) : A.ZyanBitsetSet(b, i)); break;
            case 13: o.status(A.ZyanBitsetReserve(b, i)); break;
            case 14: o.status(A.ZyanBitsetShrinkToFit(b)); break;
            case 15: o.status(A.ZyanBitsetTest(b, i)); break;
            case 16: if (two) o.status(A.ZyanBitsetToggle(&v.b2, j)); else o.status(ZYAN_STATUS_SUCCESS); break;
            case 17: o.status(A.ZyanBitsetAND(b, &v.b2)); break;
            case 18: o.status(A.ZyanBitsetOR(b, &v.b2)); break;
            default: o.status(A.ZyanBitsetXOR(b, &v.b2)); break;
            }
        });
    }
    W.observe = nullptr;
    OP("destroy"); W.all(s, "BitsetDestroy", [&](Var& v, Obs& o) { o.status(v.A.ZyanBitsetDestroy(&v.b)); if (two) o.u(v.A.ZyanBitsetDestroy(&v.b2)); });
    if (W.ok >= 3) mark_nontrivial();
}
// ---- argument parser
static void parser(Src& s)
{
    World W; ArgCase ac; ac.generate(s); ac.trace(); g_es = 1;
    W.all(s, "ArgParseEx", [&](Var& v, Obs& o) {
        const char* et = nullptr; ZyanStatus st = v.A.ZyanArgParseEx(&ac.cfg, &v.v, &et, &v.al); o.status(st);
        if (ZYAN_FAILED(st)) { o.u((uint64_t)(uintptr_t)et); return; }
        size_t n = 0; v.A.ZyanVectorGetSize(&v.v, &n); o.u(n);
        for (size_t i = 0; i < n; ++i) { auto a = (const ZyanArgParseArg*)v.A.ZyanVectorGet(&v.v, i); o.u((uint64_t)(uintptr_t)a->def); o.u(a->has_value); if (a->has_value) { const char* p = nullptr; size_t l = 0; v.A.ZyanStringViewGetData(&a->value, &p); v.A.ZyanStringViewGetSize(&a->value, &l); o.u((uint64_t)(uintptr_t)p); o.u(l); } }
        v.A.ZyanVectorDestroy(&v.v);
        if (n >= 2) mark_nontrivial();
    });
}

static void diff_case(Src& s)
{
    switch (s.weighted({4, 2, 6, 3, 1})) { case 0: vectors(s); break; case 1: lists(s); break; case 2: strings(s); break; case 3: bitsets(s); break; default: parser(s); }
}
