// technique: property-based testing with generated valid histories interleaved with generated invalid calls (null masks, wrap-around ranges, impossible sizes) on all containers; oracle: failure status, every model unchanged, AddressSanitizer; coverage-guided in thorough
#include "sys_vec.hpp"
#include "sys_list.hpp"
#include "sys_str.hpp"
#include "sys_bits.hpp"

PropertyInfo PROPERTY = {"C19", "exploration",
    "A case builds a vector, a list, a string and a bitset (recording allocator, default allocator or fixed buffer), applies short "
    "random valid histories and between them 1 to 12 invalid calls drawn from about 130 functions: every non-empty mask of null "
    "arguments, indices and ranges beyond the end including ranges whose end wraps around, zero sizes and sizes that overflow or "
    "exceed the address space; each must return a failure (null for pointer-returning accessors) and leave all four containers equal "
    "to their models and the allocators' blocks untouched, and later valid operations must work; non-trivial: at least one invalid "
    "call hit a container with at least one element",
    1500000, 18000000, 6000, 3, 3,
    {"null outputs, comparison functions and constructors' result pointers are taken as required arguments",
     "ZyanListResize to an impossible size is excluded (it allocates node by node)"}};

static ZyanBool eq1(const void* a, const void* b) { return *(const char*)a == *(const char*)b; }
static ZyanI32 cmp1(const void* a, const void* b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
static ZyanStatus ctor_forbidden(void*) { FAIL("the constructor was called although the arguments are invalid"); }
static ZyanStatus byteop_forbidden(ZyanU8*, const ZyanU8*) { FAIL("the byte operation was called although an argument is null"); }
static ZyanStatus byteop(ZyanU8* a, const ZyanU8* b) { *a ^= *b; return ZYAN_STATUS_SUCCESS; }

struct World
{
    const Api& A; RecAlloc ra, rl, rs, rb, rx;
    VecSys v; ListSys l; StrSys t; BitSys b; ViewBox w;
    explicit World(const Api& a) : A(a), v(a), l(a), t(a), b(a), w(a) {}
    size_t blocks() const { return ra.live.size() + rl.live.size() + rs.live.size() + rb.live.size(); }
    void verify(const char* f, size_t n)
    {
        std::string when = std::string("after a refused ") + f;
        v.verify(when.c_str()); l.verify(when.c_str()); t.verify(when.c_str()); b.verify(when.c_str()); w.intact(when.c_str());
        CHECK(blocks() == n, "%s: the number of allocated blocks changed", when.c_str());
        CHECK(rx.live.empty(), "%s: memory was left allocated", when.c_str());
    }
};

// exponents from which on that many bytes, or bits, cannot be provided
static constexpr unsigned WORD_BITS = 8 * sizeof(size_t), HIGH = WORD_BITS > 32 ? 50 : 28, HIGH_N = WORD_BITS > 32 ? 13 : 4, HIGH_BITS = WORD_BITS > 32 ? 40 : 31;

// a size that cannot be provided, near the places where products and sums with `unit` and `base` wrap around
static size_t impossible(Src& s, size_t unit, size_t base)
{
    if (!unit) unit = 1;
    size_t d = s.below(2 * base + 6);
    switch (s.below(6))
    {
    case 0: return SIZE_MAX - d;
    case 1: return SIZE_MAX / unit - d;
    case 2: return SIZE_MAX / unit < SIZE_MAX - 4 ? SIZE_MAX / unit + 1 + s.below(4) - std::min(base, (size_t)3) : SIZE_MAX - d;
    case 3: return ((size_t)1 << (WORD_BITS - 1)) - base + s.below(3);
    case 4: return ((size_t)1 << (WORD_BITS - 1)) / unit + s.below(3);
    default: return ((size_t)1 << (HIGH + s.below(HIGH_N))) + d;
    }
}
// a range [index, index+count) that is not within [0, n)
static void bad_range(Src& s, size_t n, size_t& index, size_t& count)
{
    switch (s.below(5))
    {
    case 0: index = n + 1 + s.size(10); count = s.below(4); break;
    case 1: index = s.below(n + 1); count = n - index + 1 + s.below(4); break;
    case 2: index = s.below(n + 1); count = SIZE_MAX - index + s.below(index + 1); break;   // end wraps around
    case 3: index = SIZE_MAX - s.below(4); count = s.below(n + 6); break;
    default: index = s.wild_index(n); count = s.wild_index(n); break;
    }
    bool ok = index <= n && count <= n - index;
    if (ok) { count = n - index + 1; }
}
// [index-count, index) not within [0, n)
static void bad_rrange(Src& s, size_t n, size_t& index, size_t& count)
{
    switch (s.below(4))
    {
    case 0: index = n + 1 + s.size(10); count = s.below(index + 1); break;
    case 1: index = s.below(n + 1); count = index + 1 + s.below(4); break;
    case 2: index = SIZE_MAX - s.below(4); count = s.below(n + 4); break;
    default: index = s.wild_index(n); count = s.wild_index(n); break;
    }
    if (index <= n && count <= index) count = index + 1 + s.below(3);
}
static size_t bad_index(Src& s, size_t n) { size_t i = s.flip() ? n + s.below(3) : s.wild_index(n); return i < n ? n : i; }
static size_t bad_pos(Src& s, size_t n) { size_t i = s.flip() ? n + 1 + s.below(3) : s.wild_index(n); return i <= n ? n + 1 : i; }

static void refuse(ZyanStatus st, const char* f) { CHECK(ZYAN_FAILED(st), "%s accepted an invalid argument (%s)", f, STN(st)); }

struct Nulls
{
    unsigned m; explicit Nulls(Src& s, unsigned n) { m = n == 1 ? 1 : 1 + (unsigned)s.below((1u << n) - 1); OP("nulls", m); }
    template <class T> T* operator()(unsigned bit, T* p) const { return m >> bit & 1 ? nullptr : p; }
};

static void bad_vector(Src& s, World& W)
{
    const Api& A = W.A; VecSys& v = W.v; size_t n = v.m.size(); Guarded e(v.es * 3, 'q'), scratch(sizeof(ZyanVector), 0xCC); ZyanVector* x = (ZyanVector*)scratch.p;
    const void* cp; void* mp; ZyanISize fi = 77; ZyanUSize fu = 77, out = 5; size_t i, c; const char* f; ZyanStatus st = ZYAN_STATUS_FAILED;
    size_t unit = v.es * v.growth;
    auto huge = [&] { return impossible(s, s.flip() ? unit : v.es, n); };
#define CALL(name, ...) (f = #name, A.name(__VA_ARGS__))
    switch (s.below(33))
    {
    case 0: { Nulls N(s, 2); OP("VectorInitEx"); st = CALL(ZyanVectorInitEx, N(0, x), v.es, s.size(20), v.dt(), N(1, &W.rx), 2, 4); break; }
    case 1: { bool z = s.flip(); OP("VectorInitEx", z ? "size 0" : "growth 0"); st = CALL(ZyanVectorInitEx, x, z ? 0 : v.es, s.size(20), v.dt(), &W.rx, z ? 2 : 0, 4); break; }
    case 2: { size_t q = s.pick<size_t>({2, 3, 8, 16, 40}); c = impossible(s, q, 0); if (s.flip()) { size_t q2 = impossible(s, q, 0); c = q; q = q2; } bool ex = s.flip(); OP("VectorInit", q, c); st = ex ? CALL(ZyanVectorInitEx, x, q, c, v.dt(), &W.rx, 2, 4) : CALL(ZyanVectorInit, x, q, c, nullptr); break; }
    case 3: { int h = (int)s.below(2); OP("VectorInit", h); st = CALL(ZyanVectorInit, h ? x : nullptr, h ? 0 : v.es, 4, nullptr); break; }
    case 4: { Nulls N(s, 2); OP("VectorInitCustomBuffer"); st = CALL(ZyanVectorInitCustomBuffer, N(0, x), v.es, N(1, e.p), 3, v.dt()); break; }
    case 5: { bool z = s.flip(); OP("VectorInitCustomBuffer", z); st = CALL(ZyanVectorInitCustomBuffer, x, z ? 0 : v.es, e.p, z ? 3 : 0, v.dt()); break; }
    case 6: { OP("VectorDestroy"); st = CALL(ZyanVectorDestroy, nullptr); break; }
    case 7: { Nulls N(s, 3); OP("VectorDuplicateEx"); st = CALL(ZyanVectorDuplicateEx, N(0, x), N(1, v.v), s.size(20), N(2, &W.rx), 2, 4); break; }
    case 8: { c = impossible(s, v.es, n); bool ex = s.flip(); OP("VectorDuplicate", c); st = ex ? CALL(ZyanVectorDuplicateEx, x, v.v, c, &W.rx, 2, 4) : CALL(ZyanVectorDuplicate, x, v.v, c); break; }
    case 9: { Nulls N(s, 2); OP("VectorDuplicate"); st = CALL(ZyanVectorDuplicate, N(0, x), N(1, v.v), s.size(20)); break; }
    case 10: { Nulls N(s, 3); Guarded g(v.es * (n + 1)); OP("VectorDuplicateCustomBuffer"); st = CALL(ZyanVectorDuplicateCustomBuffer, N(0, x), N(1, v.v), N(2, g.p), n + 1); break; }
    case 11: { c = n ? s.below(n) : 0; Guarded g(v.es * c); OP("VectorDuplicateCustomBuffer", c); st = CALL(ZyanVectorDuplicateCustomBuffer, x, v.v, g.p, c); break; }
    case 12: { bool nl = s.chance(1, 3), mu = s.flip(); i = nl ? s.below(n + 1) : bad_index(s, n); OP("VectorGet", i, nl); const void* r = mu ? CALL(ZyanVectorGetMutable, nl ? nullptr : v.v, i) : CALL(ZyanVectorGet, nl ? nullptr : v.v, i); CHECK(!r, "%s(%zu) of %zu elements returned a pointer", f, i, n); break; }
    case 13: { Nulls N(s, 2); i = s.below(n + 1); OP("VectorGetPointer", i); st = s.flip() ? CALL(ZyanVectorGetPointer, N(0, v.v), i, N(1, &cp)) : CALL(ZyanVectorGetPointerMutable, N(0, v.v), i, N(1, &mp)); break; }
    case 14: { i = bad_index(s, n); OP("VectorGetPointer", i); st = s.flip() ? CALL(ZyanVectorGetPointer, v.v, i, &cp) : CALL(ZyanVectorGetPointerMutable, v.v, i, &mp); break; }
    case 15: { Nulls N(s, 2); i = s.below(n + 1); OP("VectorSet", i); st = CALL(ZyanVectorSet, N(0, v.v), i, N(1, e.p)); break; }
    case 16: { i = bad_index(s, n); OP("VectorSet", i); st = CALL(ZyanVectorSet, v.v, i, e.p); break; }
    case 17: { Nulls N(s, 2); OP("VectorPushBack"); st = CALL(ZyanVectorPushBack, N(0, v.v), N(1, e.p)); break; }
    case 18: { Nulls N(s, 2); i = s.below(n + 1); c = 1 + s.below(3); bool one = s.flip(); OP("VectorInsert", i, c, one); st = one ? CALL(ZyanVectorInsert, N(0, v.v), i, N(1, e.p)) : CALL(ZyanVectorInsertRange, N(0, v.v), i, N(1, e.p), c); break; }
    case 19: { i = bad_pos(s, n); c = 1 + s.below(3); bool one = s.flip(); OP("VectorInsert", i, c, one); st = one ? CALL(ZyanVectorInsert, v.v, i, e.p) : CALL(ZyanVectorInsertRange, v.v, i, e.p, c); break; }
    case 20: { i = s.below(n + 1); c = huge(); OP("VectorInsertRange", i, c); st = CALL(ZyanVectorInsertRange, v.v, i, e.p, c); break; }
    case 21: { Nulls N(s, 2); bool ex = s.flip(); i = s.below(n + 1); OP("VectorEmplace", i, ex); st = ex ? CALL(ZyanVectorEmplaceEx, N(0, v.v), i, N(1, &mp), s.flip() ? ctor_forbidden : nullptr) : CALL(ZyanVectorEmplace, N(0, v.v), N(1, &mp), s.flip() ? ctor_forbidden : nullptr); break; }
    case 22: { i = bad_pos(s, n); OP("VectorEmplaceEx", i); st = CALL(ZyanVectorEmplaceEx, v.v, i, &mp, s.flip() ? ctor_forbidden : nullptr); break; }
    case 23: { bool nl = s.chance(1, 3); i = bad_index(s, n); c = s.below(n + 1); if (s.flip()) std::swap(i, c); OP("VectorSwapElements", i, c, nl); st = CALL(ZyanVectorSwapElements, nl ? nullptr : v.v, i, c); break; }
    case 24: { bool nl = s.chance(1, 4); i = bad_index(s, n); OP("VectorDelete", i, nl); st = CALL(ZyanVectorDelete, nl ? nullptr : v.v, nl ? 0 : i); break; }
    case 25: { bool nl = s.chance(1, 4); bad_range(s, n, i, c); if (nl) i = 0, c = 1; else if (!c) { i = n; c = 1; } OP("VectorDeleteRange", i, c, nl); st = CALL(ZyanVectorDeleteRange, nl ? nullptr : v.v, i, c); break; }
    case 26: { OP("VectorPopBack", n); st = CALL(ZyanVectorPopBack, n ? nullptr : s.flip() ? v.v : nullptr); break; }
    case 27: { int h = (int)s.below(4); OP("Vector(null)", h); st = h == 0 ? CALL(ZyanVectorClear, nullptr) : h == 1 ? CALL(ZyanVectorResize, nullptr, s.size(9)) : h == 2 ? CALL(ZyanVectorResizeEx, nullptr, s.size(9), e.p) : CALL(ZyanVectorShrinkToFit, nullptr); break; }
    case 28: { Nulls N(s, 3); i = 0; c = n; int h = (int)s.below(4); OP("VectorFind", h); auto E = (N.m & 4) ? nullptr : eq1; auto C = (N.m & 4) ? nullptr : cmp1;
        st = h == 0 ? CALL(ZyanVectorFind, N(0, v.v), e.p, N(1, &fi), E) : h == 1 ? CALL(ZyanVectorFindEx, N(0, v.v), e.p, N(1, &fi), E, i, c)
           : h == 2 ? CALL(ZyanVectorBinarySearch, N(0, v.v), e.p, N(1, &fu), C) : CALL(ZyanVectorBinarySearchEx, N(0, v.v), e.p, N(1, &fu), C, i, c); break; }
    case 29: { bad_range(s, n, i, c); bool bin = s.flip(); OP("VectorFindEx", i, c, bin); st = bin ? CALL(ZyanVectorBinarySearchEx, v.v, e.p, &fu, cmp1, i, c) : CALL(ZyanVectorFindEx, v.v, e.p, &fi, eq1, i, c); break; }
    case 30: { c = huge(); bool ini = s.flip(), ex = s.flip(); OP("VectorResize", c, ini, ex); st = ex ? CALL(ZyanVectorResizeEx, v.v, c, ini ? e.p : nullptr) : CALL(ZyanVectorResize, v.v, c); break; }
    case 31: { bool nl = s.chance(1, 4); c = nl ? s.size(9) : impossible(s, v.es, n); OP("VectorReserve", c, nl); st = CALL(ZyanVectorReserve, nl ? nullptr : v.v, c); break; }
    default: { Nulls N(s, 2); bool cap = s.flip(); OP("VectorGetSize", cap); st = cap ? CALL(ZyanVectorGetCapacity, N(0, v.v), N(1, &out)) : CALL(ZyanVectorGetSize, N(0, v.v), N(1, &out)); break; }
    }
    refuse(st, f); if (n) mark_nontrivial(); W.verify(f, W.blocks());
}

static void bad_list(Src& s, World& W)
{
    const Api& A = W.A; ListSys& l = W.l; size_t n = l.m.size(); Guarded e(l.es, 'q'), scratch(sizeof(ZyanList), 0xCC), buf(256); ZyanList* x = (ZyanList*)scratch.p;
    const void* cp; void* mp; const ZyanListNode* nd = nullptr; ZyanUSize out; const char* f; ZyanStatus st = ZYAN_STATUS_FAILED;
    const ZyanListNode* any = n ? l.m[s.below(n)].node : nullptr;
    switch (s.below(17))
    {
    case 0: { Nulls N(s, 2); OP("ListInitEx"); st = CALL(ZyanListInitEx, N(0, x), l.es, l.dt(), N(1, &W.rx)); break; }
    case 1: { bool d = s.flip(); OP("ListInit size 0", d); st = d ? CALL(ZyanListInit, x, 0, nullptr) : CALL(ZyanListInitEx, x, 0, nullptr, &W.rx); break; }
    case 2: { OP("ListInit null"); st = CALL(ZyanListInit, nullptr, l.es, nullptr); break; }
    case 3: { size_t q = SIZE_MAX - s.below(sizeof(ZyanListNode)); int h = (int)s.below(3); OP("ListInit", q, h); st = h == 0 ? CALL(ZyanListInit, x, q, nullptr) : h == 1 ? CALL(ZyanListInitEx, x, q, nullptr, &W.rx) : CALL(ZyanListInitCustomBuffer, x, q, nullptr, buf.p, buf.n); break; }
    case 4: { Nulls N(s, 2); OP("ListInitCustomBuffer"); st = CALL(ZyanListInitCustomBuffer, N(0, x), l.es, l.dt(), N(1, buf.p), buf.n); break; }
    case 5: { bool z = s.flip(); OP("ListInitCustomBuffer", z); st = CALL(ZyanListInitCustomBuffer, x, z ? 0 : l.es, l.dt(), buf.p, z ? buf.n : 0); break; }
    case 6: { OP("ListDestroy"); st = CALL(ZyanListDestroy, nullptr); break; }
    case 7: { Nulls N(s, 2); bool h = s.flip(); OP("ListGetHeadNode", h); st = h ? CALL(ZyanListGetHeadNode, N(0, l.l), N(1, &nd)) : CALL(ZyanListGetTailNode, N(0, l.l), N(1, &nd)); break; }
    case 8: { bool p = s.flip(), z = s.flip(); OP("ListGetNextNode", p, z); st = p ? CALL(ZyanListGetPrevNode, z ? nullptr : &nd) : CALL(ZyanListGetNextNode, z ? nullptr : &nd); CHECK(!nd, "%s of no node yielded a node", f); break; }
    case 9: { bool m = s.flip(); OP("ListGetNodeData", m); const void* r = m ? CALL(ZyanListGetNodeDataMutable, nullptr) : CALL(ZyanListGetNodeData, nullptr); CHECK(!r, "%s of no node returned a pointer", f); break; }
    case 10: { bool m = s.flip(); OP("ListGetNodeDataEx", m); bool both = !any || s.flip(); st = m ? CALL(ZyanListGetNodeDataMutableEx, both ? nullptr : any, s.flip() || !both ? nullptr : &mp) : CALL(ZyanListGetNodeDataEx, both ? nullptr : any, s.flip() || !both ? nullptr : &cp); break; }
    case 11: { Nulls N(s, 3); OP("ListSetNodeData"); st = CALL(ZyanListSetNodeData, N(0, l.l), N(1, any), N(2, e.p)); break; }
    case 12: { Nulls N(s, 2); int h = (int)s.below(4); OP("ListPush/Emplace", h); st = h == 0 ? CALL(ZyanListPushBack, N(0, l.l), N(1, e.p)) : h == 1 ? CALL(ZyanListPushFront, N(0, l.l), N(1, e.p)) : h == 2 ? CALL(ZyanListEmplaceBack, N(0, l.l), N(1, &mp), ctor_forbidden) : CALL(ZyanListEmplaceFront, N(0, l.l), N(1, &mp), nullptr); break; }
    case 13: { bool b = s.flip(); OP("ListPop", b, n); ZyanList* q = n ? nullptr : s.flip() ? l.l : nullptr; st = b ? CALL(ZyanListPopBack, q) : CALL(ZyanListPopFront, q); break; }
    case 14:
    {
        Nulls N(s, 3); bool one = s.flip(); OP("ListRemove", one);
        st = one ? CALL(ZyanListRemove, (N.m & 6) ? N(0, l.l) : nullptr, (N.m & 6) ? nullptr : any) : CALL(ZyanListRemoveRange, N(0, l.l), N(1, any), N(2, any));
        break;
    }
    case 15:
    {
        if (n < 2) { OP("ListClear"); st = CALL(ZyanListClear, nullptr); break; }
        size_t j = s.below(n - 1) + 1, i = s.below(j); OP("ListRemoveRange", j, i); st = CALL(ZyanListRemoveRange, l.l, l.m[j].node, l.m[i].node); break;
    }
    default: { int h = (int)s.below(4); OP("List(null)", h); Nulls N(s, 2); st = h == 0 ? CALL(ZyanListClear, nullptr) : h == 1 ? CALL(ZyanListResize, nullptr, s.size(9)) : h == 2 ? CALL(ZyanListResizeEx, nullptr, s.size(9), e.p) : CALL(ZyanListGetSize, N(0, l.l), N(1, &out)); break; }
    }
    refuse(st, f); if (n) mark_nontrivial(); W.verify(f, W.blocks());
}

static void bad_string(Src& s, World& W)
{
    const Api& A = W.A; StrSys& t = W.t; size_t n = t.m.size(), vn = W.w.text.size(); Guarded scratch(sizeof(ZyanString), 0xCC), buf(64); ZyanString* x = (ZyanString*)scratch.p; ZyanStringView* xv = (ZyanStringView*)scratch.p;
    const ZyanStringView* w = W.w.get(); ZyanString* d = t.str; const ZyanStringView* dv = ZYAN_STRING_TO_VIEW(d); const char* f; ZyanStatus st = ZYAN_STATUS_FAILED; size_t i, c; const char* cp; char ch, *mp; ZyanUSize out; ZyanISize fi; ZyanI32 ri;
    auto huge = [&] { return impossible(s, t.growth, n + 1); };
    if (s.chance(1, 30))
    {
        // an uninitialised object, as the static initialiser defines it, is no source
        ZyanStringView u; ZyanString us = ZYAN_STRING_INITIALIZER; u.string = us; int h = (int)s.below(10); bool first = s.flip(); c = s.size(40); i = n ? s.below(n + 1) : 0; Guarded g(vn + n + 2); OP("uninitialised source", h, first, i); LABEL("uninitialised source");
        const ZyanStringView *a = first ? &u : w, *b = first ? (s.flip() ? w : &u) : &u;
        switch (h)
        {
        case 0: st = CALL(ZyanStringDuplicate, x, &u, c); break;
        case 1: st = CALL(ZyanStringDuplicateEx, x, &u, c, &W.rx, 2, 4); break;
        case 2: st = CALL(ZyanStringDuplicateCustomBuffer, x, &u, (char*)g.p, g.n); break;
        case 3: st = CALL(ZyanStringConcat, x, a, b, c); break;
        case 4: st = CALL(ZyanStringConcatEx, x, a, b, c, &W.rx, 2, 4); break;
        case 5: st = CALL(ZyanStringConcatCustomBuffer, x, a, b, (char*)g.p, g.n); break;
        case 6: st = CALL(ZyanStringInsert, d, i, &u); break;
        case 7: st = CALL(ZyanStringInsertEx, d, i, &u, 0, s.size(3)); break;
        case 8: st = CALL(ZyanStringAppend, d, &u); break;
        default: st = CALL(ZyanStringAppendEx, d, &u, 0, s.size(3)); break;
        }
        refuse(st, f); mark_nontrivial(); W.verify(f, W.blocks()); return;
    }
    switch (s.below(38))
    {
    case 0: { Nulls N(s, 2); OP("StringInitEx"); st = CALL(ZyanStringInitEx, N(0, x), s.size(40), N(1, &W.rx), 2, 4); break; }
    case 1: { bool g = s.chance(1, 3), ex = s.flip(); c = g ? 10 : impossible(s, 1, 0); OP("StringInit", c, g, ex); st = g ? CALL(ZyanStringInitEx, x, c, &W.rx, 0, 4) : ex ? CALL(ZyanStringInitEx, x, c, &W.rx, 2, 4) : CALL(ZyanStringInit, x, c); break; }
    case 2: { OP("StringInit null"); st = CALL(ZyanStringInit, nullptr, s.size(40)); break; }
    case 3: { int h = 1 + (int)s.below(7); OP("StringInitCustomBuffer", h); st = CALL(ZyanStringInitCustomBuffer, h & 1 ? nullptr : x, h & 2 ? nullptr : (char*)buf.p, h & 4 ? 0 : buf.n); break; }
    case 4: { OP("StringDestroy"); st = CALL(ZyanStringDestroy, nullptr); break; }
    case 5: { Nulls N(s, 3); bool ex = s.flip(); OP("StringDuplicate", ex); if (!ex && !(N.m & 3)) ex = true; st = ex ? CALL(ZyanStringDuplicateEx, N(0, x), N(1, w), s.size(40), N(2, &W.rx), 2, 4) : CALL(ZyanStringDuplicate, N(0, x), N(1, w), s.size(40)); break; }
    case 6: { c = impossible(s, 1, vn); bool ex = s.flip(); OP("StringDuplicate", c, ex); st = ex ? CALL(ZyanStringDuplicateEx, x, w, c, &W.rx, 2, 4) : CALL(ZyanStringDuplicate, x, w, c); break; }
    case 7: { Nulls N(s, 3); Guarded g(vn + 1); OP("StringDuplicateCustomBuffer"); st = CALL(ZyanStringDuplicateCustomBuffer, N(0, x), N(1, w), N(2, (char*)g.p), g.n); break; }
    case 8: { c = s.below(vn + 1); Guarded g(c); OP("StringDuplicateCustomBuffer", c); st = CALL(ZyanStringDuplicateCustomBuffer, x, w, (char*)g.p, c); break; }
    case 9: { Nulls N(s, 4); bool ex = s.flip(); if (!ex && !(N.m & 7)) ex = true; OP("StringConcat", ex); st = ex ? CALL(ZyanStringConcatEx, N(0, x), N(1, w), N(2, dv), s.size(40), N(3, &W.rx), 2, 4) : CALL(ZyanStringConcat, N(0, x), N(1, w), N(2, dv), s.size(40)); break; }
    case 10: { c = impossible(s, 1, vn + n); bool ex = s.flip(); OP("StringConcat", c, ex); st = ex ? CALL(ZyanStringConcatEx, x, w, dv, c, &W.rx, 2, 4) : CALL(ZyanStringConcat, x, w, dv, c); break; }
    case 11: { Nulls N(s, 4); Guarded g(vn + n + 1); OP("StringConcatCustomBuffer"); st = CALL(ZyanStringConcatCustomBuffer, N(0, x), N(1, w), N(2, dv), N(3, (char*)g.p), g.n); break; }
    case 12: { c = s.below(vn + n + 1); Guarded g(c); OP("StringConcatCustomBuffer", c); st = CALL(ZyanStringConcatCustomBuffer, x, w, dv, (char*)g.p, c); break; }
    case 13: { Nulls N(s, 2); int h = (int)s.below(4); OP("StringViewInside", h); st = h == 0 ? CALL(ZyanStringViewInsideView, N(0, xv), N(1, w)) : h == 1 ? CALL(ZyanStringViewInsideViewEx, N(0, xv), N(1, w), 0, vn) : h == 2 ? CALL(ZyanStringViewInsideBuffer, N(0, xv), N(1, "abc")) : CALL(ZyanStringViewInsideBufferEx, N(0, xv), N(1, "abc"), 3); break; }
    case 14: { bad_range(s, vn, i, c); OP("StringViewInsideViewEx", i, c); st = CALL(ZyanStringViewInsideViewEx, xv, w, i, c); break; }
    case 15: { OP("StringViewInsideBufferEx"); st = CALL(ZyanStringViewInsideBufferEx, xv, "abc", SIZE_MAX); break; }
    case 16: { Nulls N(s, 2); bool g = s.flip(); OP("StringViewGet", g); st = g ? CALL(ZyanStringViewGetSize, N(0, w), N(1, &out)) : CALL(ZyanStringViewGetData, N(0, w), N(1, &cp)); break; }
    case 17: { Nulls N(s, 2); bool g = s.flip(); i = n ? s.below(n) : 0; OP("StringGetChar", g, i); st = g ? CALL(ZyanStringGetChar, N(0, dv), i, N(1, &ch)) : CALL(ZyanStringGetCharMutable, N(0, d), i, N(1, &mp)); break; }
    case 18: { i = bad_index(s, n); int h = (int)s.below(3); OP("StringGetChar", i, h); st = h == 0 ? CALL(ZyanStringGetChar, dv, i, &ch) : h == 1 ? CALL(ZyanStringGetCharMutable, d, i, &mp) : CALL(ZyanStringSetChar, d, i, 'Q'); break; }
    case 19: { i = bad_index(s, vn); OP("StringGetChar of a view", i); st = CALL(ZyanStringGetChar, w, i, &ch); break; }
    case 20: { OP("StringSetChar null"); st = CALL(ZyanStringSetChar, nullptr, 0, 'Q'); break; }
    case 21: { Nulls N(s, 2); i = s.below(n + 1); int h = (int)s.below(4); OP("StringInsert/Append", h, i); st = h == 0 ? CALL(ZyanStringInsert, N(0, d), i, N(1, w)) : h == 1 ? CALL(ZyanStringInsertEx, N(0, d), i, N(1, w), 0, vn) : h == 2 ? CALL(ZyanStringAppend, N(0, d), N(1, w)) : CALL(ZyanStringAppendEx, N(0, d), N(1, w), 0, vn); break; }
    case 22: { i = bad_pos(s, n); bool ex = s.flip(); OP("StringInsert", i, ex); st = ex ? CALL(ZyanStringInsertEx, d, i, w, 0, vn) : CALL(ZyanStringInsert, d, i, w); break; }
    case 23: { size_t at = s.below(n + 1); bad_range(s, vn, i, c); OP("StringInsertEx", at, i, c); st = CALL(ZyanStringInsertEx, d, at, w, i, c); break; }
    case 24: { bad_range(s, vn, i, c); OP("StringAppendEx", i, c); st = CALL(ZyanStringAppendEx, d, w, i, c); break; }
    case 25: { int h = (int)s.below(3); bad_range(s, n, i, c); if (h == 0) i = 0, c = n; OP("StringDelete", h, i, c); st = h == 2 ? CALL(ZyanStringTruncate, d, bad_pos(s, n)) : CALL(ZyanStringDelete, h ? d : nullptr, i, c); break; }
    case 26: { int h = (int)s.below(5); OP("String(null)", h); st = h == 0 ? CALL(ZyanStringTruncate, nullptr, 0) : h == 1 ? CALL(ZyanStringClear, nullptr) : h == 2 ? CALL(ZyanStringShrinkToFit, nullptr) : h == 3 ? CALL(ZyanStringResize, nullptr, s.size(9)) : CALL(ZyanStringReserve, nullptr, s.size(9)); break; }
    case 27: case 28:
    {
        Nulls N(s, 3); int h = (int)s.below(8); OP("StringPos", h);
        st = h == 0 ? CALL(ZyanStringLPos, N(0, dv), N(1, w), N(2, &fi)) : h == 1 ? CALL(ZyanStringLPosI, N(0, dv), N(1, w), N(2, &fi)) : h == 2 ? CALL(ZyanStringRPos, N(0, dv), N(1, w), N(2, &fi)) : h == 3 ? CALL(ZyanStringRPosI, N(0, dv), N(1, w), N(2, &fi))
           : h == 4 ? CALL(ZyanStringLPosEx, N(0, dv), N(1, w), N(2, &fi), 0, n) : h == 5 ? CALL(ZyanStringLPosIEx, N(0, dv), N(1, w), N(2, &fi), 0, n) : h == 6 ? CALL(ZyanStringRPosEx, N(0, dv), N(1, w), N(2, &fi), n, n) : CALL(ZyanStringRPosIEx, N(0, dv), N(1, w), N(2, &fi), n, n);
        break;
    }
    case 29: { bad_range(s, n, i, c); bool I = s.flip(); OP("StringLPosEx", I, i, c); st = I ? CALL(ZyanStringLPosIEx, dv, w, &fi, i, c) : CALL(ZyanStringLPosEx, dv, w, &fi, i, c); break; }
    case 30: { bad_rrange(s, n, i, c); bool I = s.flip(); OP("StringRPosEx", I, i, c); st = I ? CALL(ZyanStringRPosIEx, dv, w, &fi, i, c) : CALL(ZyanStringRPosEx, dv, w, &fi, i, c); break; }
    case 31: { Nulls N(s, 3); bool I = s.flip(); OP("StringCompare", I); st = I ? CALL(ZyanStringCompareI, N(0, dv), N(1, w), N(2, &ri)) : CALL(ZyanStringCompare, N(0, dv), N(1, w), N(2, &ri)); break; }
    case 32: { int h = (int)s.below(6); bad_range(s, n, i, c); OP("StringToCase", h, i, c); st = h == 0 ? CALL(ZyanStringToLowerCase, nullptr) : h == 1 ? CALL(ZyanStringToUpperCase, nullptr) : h == 2 ? CALL(ZyanStringToLowerCaseEx, nullptr, 0, 0) : h == 3 ? CALL(ZyanStringToUpperCaseEx, nullptr, 0, 0) : h == 4 ? CALL(ZyanStringToLowerCaseEx, d, i, c) : CALL(ZyanStringToUpperCaseEx, d, i, c); break; }
    case 33: case 34: { bool r = s.flip(); c = r ? impossible(s, 1, n + 1) : huge(); OP(r ? "StringReserve" : "StringResize", c); st = r ? CALL(ZyanStringReserve, d, c) : CALL(ZyanStringResize, d, c); break; }
    case 35: { Nulls N(s, 2); int h = (int)s.below(3); OP("StringGet", h); st = h == 0 ? CALL(ZyanStringGetCapacity, N(0, d), N(1, &out)) : h == 1 ? CALL(ZyanStringGetSize, N(0, d), N(1, &out)) : CALL(ZyanStringGetData, N(0, d), N(1, &cp)); break; }
    case 36: { Nulls N(s, 2); OP("StringAppendFormat"); st = CALL(ZyanStringAppendFormat, N(0, d), N(1, "%d"), 3); break; }
    default: { int h = (int)s.below(4); bool neg = s.flip(), sg = s.flip(); uint8_t pad = (uint8_t)s.below(30); uint64_t q = s.u64(); OP("StringAppendNumber null", h, neg, sg, pad, q); ZyanI64 z = (ZyanI64)q; (void)neg; st = h == 0 ? CALL(ZyanStringAppendDecU, nullptr, q, pad) : h == 1 ? CALL(ZyanStringAppendDecS, nullptr, z, pad, sg, s.flip() ? w : nullptr) : h == 2 ? CALL(ZyanStringAppendHexU, nullptr, q, pad, sg) : CALL(ZyanStringAppendHexS, nullptr, z, pad, sg, neg, s.flip() ? w : nullptr); break; }
    }
    refuse(st, f); if (n) mark_nontrivial(); W.verify(f, W.blocks());
}

static void bad_bitset(Src& s, World& W)
{
    const Api& A = W.A; BitSys& b = W.b; size_t n = b.m.size(); Guarded scratch(sizeof(ZyanBitset), 0xCC), buf(4); ZyanBitset* x = (ZyanBitset*)scratch.p; const char* f; ZyanStatus st = ZYAN_STATUS_FAILED; ZyanUSize out; size_t c;
    switch (s.below(14))
    {
    case 0: { Nulls N(s, 2); OP("BitsetInitEx"); st = CALL(ZyanBitsetInitEx, N(0, x), s.size(40), N(1, &W.rx), 2, 2); break; }
    case 1: { bool g = s.chance(1, 3), ex = s.flip(); c = g ? 9 : ((size_t)1 << (HIGH_BITS + s.below(WORD_BITS - HIGH_BITS))) + s.below(9); if (!g && s.flip()) c = SIZE_MAX - s.below(20); OP("BitsetInit", c, g, ex); st = g ? CALL(ZyanBitsetInitEx, x, c, &W.rx, 0, 2) : ex ? CALL(ZyanBitsetInitEx, x, c, &W.rx, 2, 2) : CALL(ZyanBitsetInit, x, c); break; }
    case 2: { OP("BitsetInit null"); st = CALL(ZyanBitsetInit, nullptr, s.size(40)); break; }
    case 3: { Nulls N(s, 2); OP("BitsetInitBuffer"); st = CALL(ZyanBitsetInitBuffer, N(0, x), s.size(32), N(1, buf.p), buf.n); break; }
    case 4: { c = s.flip() ? 33 + s.below(9) : SIZE_MAX - s.below(9); OP("BitsetInitBuffer", c); st = CALL(ZyanBitsetInitBuffer, x, c, buf.p, buf.n); break; }
    case 5: { Nulls N(s, 2); int h = (int)s.below(3); OP("BitsetAND/OR/XOR", h); st = h == 0 ? CALL(ZyanBitsetAND, N(0, b.b), N(1, b.b)) : h == 1 ? CALL(ZyanBitsetOR, N(0, b.b), N(1, b.b)) : CALL(ZyanBitsetXOR, N(0, b.b), N(1, b.b)); break; }
    case 6: { Nulls N(s, 3); OP("BitsetPerformByteOperation"); st = CALL(ZyanBitsetPerformByteOperation, N(0, b.b), N(1, b.b), (N.m & 4) ? nullptr : (N.m & 3) ? byteop_forbidden : byteop); break; }
    case 7: { int h = (int)s.below(9); OP("Bitset(null)", h); size_t i = s.size(9); bool v = s.flip();
        st = h == 0 ? CALL(ZyanBitsetFlip, nullptr) : h == 1 ? CALL(ZyanBitsetSet, nullptr, i) : h == 2 ? CALL(ZyanBitsetReset, nullptr, i) : h == 3 ? CALL(ZyanBitsetAssign, nullptr, i, v) : h == 4 ? CALL(ZyanBitsetToggle, nullptr, i)
           : h == 5 ? CALL(ZyanBitsetTest, nullptr, i) : h == 6 ? CALL(ZyanBitsetTestMSB, nullptr) : h == 7 ? CALL(ZyanBitsetTestLSB, nullptr) : CALL(ZyanBitsetSetAll, nullptr); break; }
    case 8: { int h = (int)s.below(10); OP("Bitset(null)", h + 10);
        st = h == 0 ? CALL(ZyanBitsetResetAll, nullptr) : h == 1 ? CALL(ZyanBitsetPush, nullptr, s.flip()) : h == 2 ? CALL(ZyanBitsetPop, nullptr) : h == 3 ? CALL(ZyanBitsetClear, nullptr) : h == 4 ? CALL(ZyanBitsetReserve, nullptr, s.size(9))
           : h == 5 ? CALL(ZyanBitsetShrinkToFit, nullptr) : h == 6 ? CALL(ZyanBitsetAll, nullptr) : h == 7 ? CALL(ZyanBitsetAny, nullptr) : h == 8 ? CALL(ZyanBitsetNone, nullptr) : CALL(ZyanBitsetDestroy, nullptr); break; }
    case 9: { Nulls N(s, 2); int h = (int)s.below(5); OP("BitsetGet", h); st = h == 0 ? CALL(ZyanBitsetGetSize, N(0, b.b), N(1, &out)) : h == 1 ? CALL(ZyanBitsetGetCapacity, N(0, b.b), N(1, &out)) : h == 2 ? CALL(ZyanBitsetGetSizeBytes, N(0, b.b), N(1, &out)) : h == 3 ? CALL(ZyanBitsetGetCapacityBytes, N(0, b.b), N(1, &out)) : CALL(ZyanBitsetCount, N(0, b.b), N(1, &out)); break; }
    case 10: case 11: { size_t i = bad_index(s, n); if (s.chance(1, 3)) i = n + s.below(8); int h = (int)s.below(5); OP("Bitset bit", h, i); st = h == 0 ? CALL(ZyanBitsetSet, b.b, i) : h == 1 ? CALL(ZyanBitsetReset, b.b, i) : h == 2 ? CALL(ZyanBitsetAssign, b.b, i, s.flip()) : h == 3 ? CALL(ZyanBitsetToggle, b.b, i) : CALL(ZyanBitsetTest, b.b, i); break; }
    case 12: { if (n) { OP("BitsetDestroy"); st = CALL(ZyanBitsetDestroy, nullptr); } else { int h = (int)s.below(3); OP("empty Bitset", h); st = h == 0 ? CALL(ZyanBitsetPop, b.b) : h == 1 ? CALL(ZyanBitsetTestMSB, b.b) : CALL(ZyanBitsetTestLSB, b.b); } break; }
    default: { c = s.flip() ? SIZE_MAX - s.below(20) : ((size_t)1 << (HIGH_BITS + s.below(WORD_BITS - HIGH_BITS))) + s.below(9); OP("BitsetReserve", c); st = CALL(ZyanBitsetReserve, b.b, c); break; }
    }
    refuse(st, f); if (n) mark_nontrivial(); W.verify(f, W.blocks());
}
static void bad_allocator(Src& s, World& W)
{
    Nulls N(s, 4); ZyanAllocator a; memset(&a, 0x77, sizeof a); ZyanAllocator before = a; OP("AllocatorInit");
    ZyanStatus st = W.A.ZyanAllocatorInit(N(0, &a), N.m & 2 ? nullptr : RecAlloc::do_alloc, N.m & 4 ? nullptr : RecAlloc::do_realloc, N.m & 8 ? nullptr : RecAlloc::do_free);
    refuse(st, "ZyanAllocatorInit"); CHECK(!memcmp(&a, &before, sizeof a), "a refused ZyanAllocatorInit changed the allocator");
    // the default allocator itself: requests whose product overflows
    ZyanAllocator* d = W.A.ZyanAllocatorDefault(); size_t e = s.pick<size_t>({2, 3, 8, 24, 4096}), c = SIZE_MAX / e + 1 + s.below(9); void* p = nullptr; if (s.flip()) std::swap(e, c);
    OP("default allocator", e, c); st = d->allocate(d, &p, e, c); refuse(st, "the default allocator's allocate");
    p = nullptr; st = d->allocate(d, &p, 4, 4); CHECK(ZYAN_SUCCESS(st) && p, "allocating 16 bytes returned %s", STN(st)); memset(p, 'k', 16); void* q = p;
    st = d->reallocate(d, &q, e, c); refuse(st, "the default allocator's reallocate"); CHECK(q == p, "a refused re-allocation changed the block pointer");
    for (int i = 0; i < 16; ++i) CHECK(((char*)p)[i] == 'k', "a refused re-allocation changed the block");
    st = d->deallocate(d, p, 4, 4); CHECK(ZYAN_SUCCESS(st), "release returned %s", STN(st));
}

void run_case(Src& s)
{
    const Api& A = native_api(); World W(A);
    auto kind = [&] { return (int)s.weighted({4, 2, 3}); };
    W.v.kind = (VecSys::Kind)kind(); W.v.es = s.pick<size_t>({1, 2, 3, 8, 24, 40}); W.v.configure(s, &W.ra); W.v.dtor = s.chance(1, 3); W.v.init(s, s.size(12));
    W.l.kind = (ListSys::Kind)kind(); W.l.es = s.pick<size_t>({1, 4, 8, 30}); W.l.ra = &W.rl; W.l.dtor = s.chance(1, 3); W.l.init(s, s.size(8), s.below(20));
    W.t.kind = (StrSys::Kind)kind(); W.t.configure(s, &W.rs); W.t.init(s, s.size(40));
    W.b.kind = (BitSys::Kind)kind(); W.b.configure(s, &W.rb); if (ZYAN_FAILED(W.b.init(s, s.size(24), 4))) W.b.init(s, 0, 4);
    W.w.make(s, gen_text(s, W.t.alpha, 12));
    auto good = [&](int which, size_t k) { while (k--) switch (which) { case 0: W.v.step(s, false, 8); break; case 1: W.l.step(s, 8); break; case 2: W.t.step(s, false, 20); break; default: W.b.step(s, false, 24); } };
    for (int i = 0; i < 4; ++i) good(i, s.below(4));
    do
    {
        int which = (int)s.weighted({8, 5, 9, 4, 1});
        switch (which) { case 0: bad_vector(s, W); break; case 1: bad_list(s, W); break; case 2: bad_string(s, W); break; case 3: bad_bitset(s, W); break; default: bad_allocator(s, W); }
        if (which < 4) good(which, s.below(3));
    } while (s.more(5));
    W.v.destroy(); W.l.destroy(); W.t.destroy(); W.b.destroy();
    W.ra.check_empty("at the end"); W.rl.check_empty("at the end"); W.rs.check_empty("at the end"); W.rb.check_empty("at the end");
}
