// technique: property-based testing with a deterministic cost meter: a build of the library that counts the control-flow edges it executes (byte loops included) runs generated histories at generated sizes; every call and every sequence is compared with the bound its data structure promises
#include "sys_arg.hpp"
#include "sys_str.hpp"
#define VARIANT cnt_
#define VARIANT_LIBC 0
#define VARIANT_NAME "clang -O1 counting executed edges"
#include "variant.inc"

PropertyInfo PROPERTY = {"C35", "exploration",
    "A case fills one container (vector, list on an allocator or fixed buffer, string, bitset; element sizes 1 to 40; up to about 20000 "
    "elements) with the default policy, then performs random calls at random positions, alternating insertions and removals around one "
    "size, and removes everything; or parses a long command line. Executed edges (and, for sequences, the bytes re-allocations copy) are compared with "
    "10 x the promised order + 400 per call, and with the amortised bound per sequence; the stack of a call with 8 KiB; non-trivial: at least 256 elements (or 64 tokens)",
    150000, 1500000, 2000, 3, 3,
    {"the factor 10 is far above what the operations cost now; only a change of the order of growth exceeds it",
     "searching a text costs at most the product of the lengths (no better bound is promised)"}};

static uint64_t g_work, g_copied; static bool g_meter; static uintptr_t g_low; // lowest address of the stack in use
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc() { if (!g_meter) return; ++g_work; uintptr_t a = (uintptr_t)__builtin_frame_address(0); if (a < g_low) g_low = a; }
struct CostAlloc : ZyanAllocator // charges for the bytes a re-allocation copies
{
    std::map<void*, size_t> live;
    CostAlloc() { native_api().ZyanAllocatorInit(this, &al, &re, &fr); }
    ~CostAlloc() { for (auto& b : live) free(b.first); }
    static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { g_work += 20; size_t z; if (__builtin_mul_overflow(e, n, &z) || z > (32u << 20)) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *p = malloc(z ? z : 1); ((CostAlloc*)a)->live[*p] = z; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { auto s = (CostAlloc*)a; auto it = s->live.find(*p); size_t z, old = it == s->live.end() ? 0 : it->second; if (__builtin_mul_overflow(e, n, &z) || z > (32u << 20)) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; g_work += 20; g_copied += std::min(old, z); void* q = realloc(*p, z ? z : 1); s->live.erase(*p); s->live[q] = z; *p = q; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus fr(ZyanAllocator* a, void* p, ZyanUSize, ZyanUSize) { g_work += 20; if (((CostAlloc*)a)->live.erase(p)) free(p); return ZYAN_STATUS_SUCCESS; }
};
static uint64_t g_total; // of the current sequence
template <class F> __attribute__((noinline)) static uint64_t cost(F f) {
    g_work = g_copied = 0; uintptr_t base = g_low = (uintptr_t)__builtin_frame_address(0); g_meter = true; f(); g_meter = false;
    CHECK(base - g_low <= 8192, "a call took %zu bytes of the stack", (size_t)(base - g_low));
    g_total += g_work + g_copied; return g_work; }
// one call of order f (besides what a re-allocation copies)
#define WITHIN(what, f, ...) do { uint64_t f_ = (f), w_ = cost([&] { __VA_ARGS__; }); CHECK(w_ <= 400 + 10 * f_, "%s took %llu steps where its order is %llu", what, (unsigned long long)w_, (unsigned long long)f_); } while (0)
static void sequence(const char* what, uint64_t order) { CHECK(g_total <= 4000 + 10 * order, "%s took %llu steps where the order is %llu", what, (unsigned long long)g_total, (unsigned long long)order); g_total = 0; }
static void need(ZyanStatus st, const char* what) { CHECK(ZYAN_SUCCESS(st), "%s returned %s", what, STN(st)); }

static uint64_t g_cmps; static ZyanI32 cmp4(const void* a, const void* b) { ++g_cmps; uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static ZyanBool same4(const void* a, const void* b) { ++g_cmps; return !memcmp(a, b, 4); }
static void nothing(void*) {}
static size_t big(Src& s) { switch (s.weighted({3, 5, 2})) { case 0: return s.below(40); case 1: return s.below(3000); default: return s.below(20000); } }

static void vectors(Src& s)
{
    const Api& A = cnt_api(); CostAlloc al; ZyanVector v; size_t es = s.pick<size_t>({4, 4, 8, 12, 40}), n = big(s), k; bool dt = s.chance(1, 3); unsigned char e[40] = {0}; ZyanUSize u; ZyanISize at; const void* p;
    OP("vector", es, n, dt); need(A.ZyanVectorInitEx(&v, es, s.below(20), dt ? nothing : nullptr, &al, ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD), "VectorInitEx");
    auto key = [&](uint32_t x) { memcpy(e, &x, 4); }; auto size = [&] { ZyanUSize z = 0; A.ZyanVectorGetSize(&v, &z); return (size_t)z; };
    unsigned way = (unsigned)s.below(3); size_t dup = s.pick<size_t>({1, 1, 8, 1000, 100000}); g_total = 0; void* slot;
    for (size_t i = 0; i < n; ++i) { key((uint32_t)(i / dup) * 2); ZyanStatus st = 0; cost([&] { st = way == 0 ? A.ZyanVectorPushBack(&v, e) : way == 1 ? A.ZyanVectorEmplace(&v, &slot, nullptr) : A.ZyanVectorInsert(&v, i, e); }); need(st, "adding an element"); if (way == 1) memcpy(slot, e, es); }
    sequence("adding elements at the end", n * (es + 30));
    if (n >= 256) mark_nontrivial();
    while (s.more(14))
    {
        size_t z = size(), i = s.below(z + 1), c = s.below(z - i + 1), m = z - i; int op = (int)s.below(16); key((uint32_t)s.below(2 * z / dup + 3)); OP("op", op, i, c, z);
        switch (op)
        {
        case 0: WITHIN("VectorGet", 1, p = A.ZyanVectorGet(&v, i)); break;
        case 1: WITHIN("VectorGetPointer", 1, A.ZyanVectorGetPointer(&v, i, &p)); break;
        case 2: WITHIN("VectorGetSize/Capacity", 1, A.ZyanVectorGetSize(&v, &u); A.ZyanVectorGetCapacity(&v, &u)); break;
        case 3: WITHIN("VectorSet", es, A.ZyanVectorSet(&v, i, A.ZyanVectorGet(&v, i) ? A.ZyanVectorGet(&v, z - 1 - i / 2) : e)); break;
        case 4: g_cmps = 0; WITHIN("VectorBinarySearch", 40, A.ZyanVectorBinarySearch(&v, e, &u, cmp4)); CHECK(g_cmps < 80, "a binary search in %zu elements took %llu comparisons", z, (unsigned long long)g_cmps); break;
        case 5: g_cmps = 0; WITHIN("VectorFindEx", c, A.ZyanVectorFindEx(&v, e, &at, same4, i, c)); CHECK(g_cmps <= 4 * c + 8, "a search in %zu elements took %llu comparisons", c, (unsigned long long)g_cmps); break;
        case 6: if (z < 2) break; WITHIN("VectorSwapElements", es, A.ZyanVectorSwapElements(&v, i % z, c % z)); break;
        case 7: WITHIN("VectorInsert", (m + 1) * es, need(A.ZyanVectorInsert(&v, i, e), "VectorInsert")); break;
        case 8: WITHIN("VectorDelete", m * es, A.ZyanVectorDelete(&v, i)); break;
        case 9: WITHIN("VectorDeleteRange", (m + c) * es, A.ZyanVectorDeleteRange(&v, i, c)); break;
        case 10: { size_t to = s.chance(1, 3) ? z + s.below(300) : i; WITHIN("VectorResize", (to > z ? to - z : z - to) * (4 + es), A.ZyanVectorResizeEx(&v, to, e)); break; }
        case 11: WITHIN("VectorReserve", 1, A.ZyanVectorReserve(&v, z + i)); break;
        case 12: WITHIN("VectorShrinkToFit", 1, A.ZyanVectorShrinkToFit(&v)); break;
        case 13: { ZyanVector d; WITHIN("VectorDuplicateEx", z * es, need(A.ZyanVectorDuplicateEx(&d, &v, 0, &al, 2, 4), "VectorDuplicateEx")); WITHIN("VectorDestroy", 4 * z, A.ZyanVectorDestroy(&d)); break; }
        case 14: // around one size: re-allocations must not repeat
        { size_t r = 20 + s.below(60), w = 1 + s.below(4); g_total = 0; for (size_t j = 0; j < r; ++j) { for (size_t q = 0; q < w; ++q) cost([&] { A.ZyanVectorPushBack(&v, e); }); for (size_t q = 0; q < w; ++q) cost([&] { A.ZyanVectorPopBack(&v); }); } sequence("adding and removing in turn", 2 * r * w * (es + 30) + 2 * (z + w) * es); break; }
        default: { c = std::max<size_t>(c, 1); std::vector<unsigned char> many(std::max<size_t>(1, c * es)); WITHIN("VectorInsertRange", (m + c) * es, need(A.ZyanVectorInsertRange(&v, i, many.data(), c), "VectorInsertRange")); break; }
        }
    }
    n = size(); g_total = 0; k = 0; for (size_t i = 0; i < n; ++i) { cost([&] { k += ZYAN_SUCCESS(A.ZyanVectorPopBack(&v)); }); } CHECK(k == n, "%zu of %zu elements could be removed", k, n);
    sequence("removing elements from the end", n * (es + 30)); OP("destroy"); WITHIN("VectorDestroy", 1, A.ZyanVectorDestroy(&v));
}
static void lists(Src& s)
{
    const Api& A = cnt_api(); CostAlloc al; ZyanList l; size_t es = s.pick<size_t>({4, 8, 40}), n = big(s), cap = (n + 40) * (sizeof(ZyanListNode) + es); bool fixed = s.flip(), dt = s.chance(1, 3); unsigned char e[40] = {7};
    std::unique_ptr<void, void (*)(void*)> buf(malloc(cap), free); OP("list", es, n, fixed, dt);
    need(fixed ? A.ZyanListInitCustomBuffer(&l, es, dt ? nothing : nullptr, buf.get(), cap) : A.ZyanListInitEx(&l, es, dt ? nothing : nullptr, &al), "ListInit"); const ZyanListNode* node = nullptr; ZyanUSize u; void* slot; size_t z = 0;
    std::vector<const ZyanListNode*> all; // some nodes
    unsigned fill = (unsigned)s.below(3), drain = (unsigned)s.below(3);
    for (size_t i = 0; i < n; ++i, ++z) { bool f = fill == 2 ? (i * 2654435761u >> 7) & 1 : fill; int w = i % 7; WITHIN("adding a list element", es, need(w == 0 ? f ? A.ZyanListEmplaceFront(&l, &slot, nullptr) : A.ZyanListEmplaceBack(&l, &slot, nullptr) : f ? A.ZyanListPushFront(&l, e) : A.ZyanListPushBack(&l, e), "adding a list element")); if (w == 0) memcpy(slot, e, es); if (i % 16 == 0) { if (f) A.ZyanListGetHeadNode(&l, &node); else A.ZyanListGetTailNode(&l, &node); all.push_back(node); } }
    if (n >= 256) mark_nontrivial();
    while (s.more(14))
    {
        int op = (int)s.below(12); size_t i = all.empty() ? 0 : s.below(all.size()), m = s.below(30); OP("op", op, i, m, z); node = all.empty() ? nullptr : all[i];
        switch (op)
        {
        case 0: WITHIN("ListGetSize", 1, A.ZyanListGetSize(&l, &u)); CHECK(u == z, "the list has %zu elements, expected %zu", (size_t)u, z); break;
        case 1: WITHIN("ListGetHeadNode", 1, A.ZyanListGetHeadNode(&l, &node)); break;
        case 2: WITHIN("ListGetTailNode", 1, A.ZyanListGetTailNode(&l, &node)); break;
        case 3: if (node) WITHIN("ListGetNextNode", 1, A.ZyanListGetNextNode(&node)); break;
        case 4: if (node) WITHIN("ListGetPrevNode", 1, A.ZyanListGetPrevNode(&node)); break;
        case 5: if (node) WITHIN("ListGetNodeData", 1, A.ZyanListGetNodeData(node)); break;
        case 6: if (node) WITHIN("ListSetNodeData", es, A.ZyanListSetNodeData(&l, node, e)); break;
        case 7: case 8: if (node) { WITHIN("ListRemove", 1, need(A.ZyanListRemove(&l, node), "ListRemove")); all.erase(all.begin() + i); --z; } break;
        case 9: // add and remove the same number at either end
            for (size_t j = 0; j < m; ++j) WITHIN("ListPush", es, need(j & 1 ? A.ZyanListPushFront(&l, e) : A.ZyanListPushBack(&l, e), "ListPush"));
            for (size_t j = 0; j < m; ++j) WITHIN("ListPop", 1, need(j & 1 ? A.ZyanListPopFront(&l) : A.ZyanListPopBack(&l), "ListPop"));
            break;
        case 10: WITHIN("ListResize (grow)", m * (es + 10), need(A.ZyanListResizeEx(&l, z + m, e), "ListResizeEx")); WITHIN("ListResize (shrink)", m * 10, need(A.ZyanListResizeEx(&l, z, e), "ListResizeEx")); break;
        default: // a range of new elements at the end
        { if (!m) break; const ZyanListNode *a, *b; need(A.ZyanListPushBack(&l, e), "ListPushBack"); A.ZyanListGetTailNode(&l, &a); for (size_t j = 1; j < m; ++j) A.ZyanListPushBack(&l, e); A.ZyanListGetTailNode(&l, &b); WITHIN("ListRemoveRange", m * 10, need(A.ZyanListRemoveRange(&l, a, b), "ListRemoveRange")); }
        }
    }
    unsigned end = (unsigned)s.weighted({3, 1, 1}); OP("end", end, fill, drain);
    if (s.flip()) while (!all.empty()) { size_t i = s.chance(1, 8) ? s.below(all.size()) : s.flip() ? 0 : all.size() - 1; WITHIN("ListRemove", 1, need(A.ZyanListRemove(&l, all[i]), "ListRemove")); all.erase(all.begin() + i); --z; }
    if (end == 0) { g_total = 0; for (; z; --z) WITHIN("ListPop", 1, need((drain == 2 ? z & 1 : drain) ? A.ZyanListPopFront(&l) : A.ZyanListPopBack(&l), "ListPop")); }
    else if (end == 1) WITHIN("ListClear", 10 * z, A.ZyanListClear(&l));
    WITHIN("ListDestroy", 10 * z, A.ZyanListDestroy(&l));
}
static void strings(Src& s)
{
    const Api& A = cnt_api(); CostAlloc al; ZyanString t; size_t n = big(s), z = 0; OP("string", n); need(A.ZyanStringInitEx(&t, s.below(20), &al, ZYAN_STRING_DEFAULT_GROWTH_FACTOR, ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD), "StringInitEx");
    std::string piece = gen_text(s, (unsigned)s.below(4), 24); if (piece.empty()) piece = "a"; ZyanStringView w, w2; need(A.ZyanStringViewInsideBufferEx(&w, piece.data(), piece.size()), "view"); ZyanUSize u; ZyanISize at; ZyanI32 r; char c; const char* d;
    const ZyanStringView* tv = ZYAN_STRING_TO_VIEW(&t); auto size = [&] { ZyanUSize q = 0; A.ZyanStringGetSize(&t, &q); return (size_t)q; };
    unsigned way = (unsigned)s.below(4), digits = 0; g_total = 0; size_t calls = 0;
    while (z < n) { ZyanStatus st = 0; cost([&] { st = way == 0 || way == 3 ? A.ZyanStringAppend(&t, &w) : way == 1 ? A.ZyanStringAppendDecU(&t, calls * 7919, 0) : A.ZyanStringInsert(&t, z, &w); }); need(st, "appending"); ++calls; z = size(); } (void)digits;
    sequence("appending", 2 * n + z + calls * 60);
    if (n >= 256) mark_nontrivial();
    while (s.more(14))
    {
        z = size(); size_t i = s.below(z + 1), k = s.below(z - i + 1), m = piece.size(); int op = (int)s.below(20); OP("op", op, i, k, z);
        switch (op)
        {
        case 0: WITHIN("StringGetSize/Capacity/Data", 1, A.ZyanStringGetSize(&t, &u); A.ZyanStringGetCapacity(&t, &u); A.ZyanStringGetData(&t, &d)); break;
        case 1: WITHIN("StringGetChar", 1, A.ZyanStringGetChar(tv, i, &c)); break;
        case 2: WITHIN("StringSetChar", 1, A.ZyanStringSetChar(&t, i, 'x')); break;
        case 3: WITHIN("StringInsert", 2 * (z - i + m), need(A.ZyanStringInsert(&t, i, &w), "StringInsert")); break;
        case 4: WITHIN("StringDelete", 2 * (z - i), A.ZyanStringDelete(&t, i, k)); break;
        case 5: WITHIN("StringTruncate", 1, A.ZyanStringTruncate(&t, i)); break;
        case 6: WITHIN("StringToLower", 2 * k, A.ZyanStringToLowerCaseEx(&t, i, k)); break;
        case 7: WITHIN("StringToUpper", 2 * k, A.ZyanStringToUpperCaseEx(&t, i, k)); break;
        case 8: WITHIN("StringLPos", 2 * (z + 1) * m, A.ZyanStringLPos(tv, &w, &at); A.ZyanStringLPosI(tv, &w, &at)); break;
        case 9: WITHIN("StringRPos", 2 * (z + 1) * m, A.ZyanStringRPos(tv, &w, &at); A.ZyanStringRPosI(tv, &w, &at)); break;
        case 10: WITHIN("StringLPosEx", 2 * (k + 1) * m, A.ZyanStringLPosEx(tv, &w, &at, i, k)); break;
        case 11: WITHIN("StringRPosEx", 2 * (k + 1) * m, A.ZyanStringRPosEx(tv, &w, &at, i + k, k)); break;
        case 12: WITHIN("StringCompare with a short text", 2 * m, A.ZyanStringCompare(tv, &w, &r); A.ZyanStringCompareI(&w, tv, &r)); break;
        case 13: WITHIN("StringCompare", 2 * z, A.ZyanStringCompare(tv, tv, &r); A.ZyanStringCompareI(tv, tv, &r)); break;
        case 14: WITHIN("StringViewInsideViewEx", 1, A.ZyanStringViewInsideViewEx(&w2, tv, i, k)); break;
        case 15: { ZyanString x; WITHIN("StringDuplicateEx", z, need(A.ZyanStringDuplicateEx(&x, tv, 0, &al, 2, 4), "StringDuplicateEx")); WITHIN("StringDestroy", 1, A.ZyanStringDestroy(&x)); break; }
        case 16: { ZyanString x; WITHIN("StringConcatEx", 2 * z, need(A.ZyanStringConcatEx(&x, tv, tv, 0, &al, 2, 4), "StringConcatEx")); A.ZyanStringDestroy(&x); break; }
        case 17: WITHIN("StringShrinkToFit", 1, A.ZyanStringShrinkToFit(&t)); break;
        case 18: { bool neg = s.flip(); uint8_t pad = s.byte(); WITHIN("appending a number", (size_t)pad + 60, need(s.flip() ? A.ZyanStringAppendDecS(&t, neg ? INT64_MIN : (ZyanI64)s.u64(), pad, ZYAN_TRUE, nullptr) : A.ZyanStringAppendHexU(&t, s.u64(), pad, neg), "appending a number")); break; }
        default: // around one size: re-allocations must not repeat
        { size_t q = 20 + s.below(60); g_total = 0; for (size_t j = 0; j < q; ++j) { cost([&] { need(A.ZyanStringAppend(&t, &w), "StringAppend"); }); cost([&] { need(A.ZyanStringTruncate(&t, z), "StringTruncate"); }); } sequence("appending and truncating in turn", 2 * q * (m + 60) + 6 * (z + m)); }
        }
    }
    z = size(); g_total = 0; size_t all = z; while (z) { size_t k = std::min<size_t>(z, 3); cost([&] { need(A.ZyanStringTruncate(&t, z - k), "StringTruncate"); }); z -= k; }
    sequence("truncating to nothing", 12 * all); OP("destroy"); WITHIN("StringDestroy", 1, A.ZyanStringDestroy(&t));
}
static void bitsets(Src& s)
{
    const Api& A = cnt_api(); CostAlloc al; ZyanBitset b, q; size_t n = big(s) * 3, z = 0; OP("bitset", n); need(A.ZyanBitsetInitEx(&b, 0, &al, 2, 4), "BitsetInitEx"); ZyanUSize u;
    g_total = 0; for (size_t i = 0; i < n; ++i, ++z) cost([&] { need(A.ZyanBitsetPush(&b, i & 1), "BitsetPush"); });
    sequence("pushing bits", 12 * n);
    if (n >= 256) mark_nontrivial();
    while (s.more(14))
    {
        size_t i = s.below(z + 1), y = z / 8 + 1; int op = (int)s.below(12); OP("op", op, i, z);
        switch (op)
        {
        case 0: WITHIN("BitsetSet", 1, A.ZyanBitsetSet(&b, i)); break;
        case 1: WITHIN("BitsetReset", 1, A.ZyanBitsetReset(&b, i)); break;
        case 2: WITHIN("BitsetToggle", 1, A.ZyanBitsetToggle(&b, i)); break;
        case 3: WITHIN("BitsetTest", 1, A.ZyanBitsetTest(&b, i)); break;
        case 4: WITHIN("BitsetTestMSB/LSB", 1, A.ZyanBitsetTestMSB(&b); A.ZyanBitsetTestLSB(&b)); break;
        case 5: WITHIN("BitsetGetSize/Capacity", 1, A.ZyanBitsetGetSize(&b, &u); A.ZyanBitsetGetCapacity(&b, &u); A.ZyanBitsetGetSizeBytes(&b, &u); A.ZyanBitsetGetCapacityBytes(&b, &u)); break;
        case 6: WITHIN("BitsetFlip", 4 * y, A.ZyanBitsetFlip(&b)); break;
        case 7: WITHIN("BitsetSetAll/ResetAll", 8 * y, A.ZyanBitsetResetAll(&b); A.ZyanBitsetSetAll(&b)); break;
        case 8: WITHIN("BitsetCount", 4 * y, A.ZyanBitsetCount(&b, &u)); break;
        case 9: WITHIN("BitsetAll/Any/None", 12 * y, A.ZyanBitsetAll(&b); A.ZyanBitsetAny(&b); A.ZyanBitsetNone(&b)); break;
        case 10: need(A.ZyanBitsetInitEx(&q, i, &al, 2, 4), "BitsetInitEx"); WITHIN("BitsetAND/OR/XOR", 4 * y, A.ZyanBitsetAND(&b, &q); A.ZyanBitsetOR(&b, &q); A.ZyanBitsetXOR(&b, &q)); A.ZyanBitsetDestroy(&q); break;
        default: { size_t r = 100 + s.below(200); g_total = 0; for (size_t j = 0; j < r; ++j) { bool two = j & 1; for (int k = 0; k < 1 + two * 8; ++k) cost([&] { need(A.ZyanBitsetPush(&b, j & 1), "BitsetPush"); }); for (int k = 0; k < 1 + two * 8; ++k) cost([&] { need(A.ZyanBitsetPop(&b), "BitsetPop"); }); } sequence("pushing and popping bits in turn", 10 * r * 60 + 4 * y); }
        }
    }
    g_total = 0; size_t all = z; for (; z; --z) cost([&] { need(A.ZyanBitsetPop(&b), "BitsetPop"); });
    sequence("popping bits", 12 * all); OP("destroy"); WITHIN("BitsetDestroy", 1, A.ZyanBitsetDestroy(&b));
}
static void parser(Src& s)
{
    const Api& A = cnt_api(); CostAlloc al; size_t n = s.below(s.flip() ? 100 : 1500), nd = s.below(30), chars = 0; std::vector<std::string> tok{"prog"}, names; std::vector<ZyanArgParseDefinition> defs;
    for (size_t i = 0; i < nd; ++i) names.push_back(i & 1 ? "--option" + std::to_string(i) : std::string("-") + (char)('a' + i / 2));
    for (auto& x : names) defs.push_back(ZyanArgParseDefinition{x.c_str(), ZYAN_TRUE, ZYAN_FALSE}); defs.push_back(ZyanArgParseDefinition{nullptr, ZYAN_FALSE, ZYAN_FALSE});
    for (size_t i = 0; i < n; ++i) { if (nd && s.flip()) tok.push_back(s.pick(names)); else if (nd && s.flip()) { std::string t = "-"; for (size_t k = 1 + s.below(20); k; --k) t.push_back((char)('a' + s.below((nd + 1) / 2))); tok.push_back(t); } else tok.push_back(std::string(s.below(30), 'x')); }
    std::vector<const char*> argv; for (auto& x : tok) { argv.push_back(x.c_str()); chars += x.size() + 1; } OP("arguments", n, nd, chars);
    ZyanArgParseConfig cfg{argv.data(), argv.size(), 0, SIZE_MAX, defs.data()}; ZyanVector v; const char* err = nullptr;
    uint64_t name_chars = 1; for (auto& x : names) name_chars += x.size() + 4;
    WITHIN("ArgParse", (chars + 2 * nd) * name_chars * 2 + 200 * (chars + n) + 100 * nd * nd, need(A.ZyanArgParseEx(&cfg, &v, &err, &al), "ArgParseEx")); A.ZyanVectorDestroy(&v);
    if (n >= 64) mark_nontrivial();
}
void run_case(Src& s)
{
    switch (s.weighted({4, 4, 4, 3, 1})) { case 0: vectors(s); break; case 1: lists(s); break; case 2: strings(s); break; case 3: bitsets(s); break; default: parser(s); }
}
