// technique: property testing against naive reference searches (first match, lower bound) with range-checking comparison callbacks, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_vec.hpp"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C06", "exploration",
    "A case is a vector of 0..200, rarely up to 72000 elements with keys from a small or large domain (random, or a sub-range sorted under one of several "
    "consistent comparisons while everything outside is unsorted) and several searches over the whole vector, sub-ranges and invalid "
    "ranges; rarely the vector has about 2^31 or 2^32 elements or bytes over a lazily backed mapping; results are compared with a naive scan, and the comparison callback fails if it is given anything but an element of the "
    "range and the key; non-trivial: a search over a range of at least 4 elements with duplicates or a match that is not the first element",
    2000000, 24000000, 3000, 3, 3,
    {"comparison callbacks are called with the vector element first and the key second, as the predefined functions require"}};

static const uint8_t *g_lo, *g_hi; static const void* g_key; static size_t g_es; static int g_mode; static unsigned g_calls;
static uint32_t key_of(const void* p) { uint32_t k; memcpy(&k, p, 4); return k; }
static void check_args(const void* a, const void* b)
{
    ++g_calls;
    CHECK(b == g_key, "the comparison got another key than the caller's");
    CHECK((const uint8_t*)a >= g_lo && (const uint8_t*)a + g_es <= g_hi && ((const uint8_t*)a - g_lo) % (ptrdiff_t)g_es == 0, "the search examined an element outside its range");
}
static int order(uint32_t a, uint32_t b)
{
    switch (g_mode)
    {
    case 0: return a < b ? -1 : a > b;
    case 1: return a < b ? 1 : a > b ? -1 : 0;                    // descending
    case 2: a >>= 2; b >>= 2; return a < b ? -1 : a > b;          // many equal elements
    default: return a < b ? INT32_MIN : a > b ? INT32_MAX : 0;     // extreme results
    }
}
static ZyanI32 cmp3(const void* a, const void* b) { check_args(a, b); return order(key_of(a), key_of(b)); }
static ZyanBool eq(const void* a, const void* b) { check_args(a, b); return order(key_of(a), key_of(b)) == 0; }

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_search(s);
    const Api& A = native_api();
    size_t es = s.pick<size_t>({4, 5, 8, 16}), n = s.size(s.chance(1, 10) ? 200 : 24), big = s.large(150, 1000); if (!big && s.chance(1, 1500)) big = 1000 + s.below(8000);
    n += big; if (n <= 24) if (size_t w = s.wide()) { es = w; LABEL("elements of more than 250 bytes"); }
    g_mode = (int)s.below(4); uint32_t dom = s.pick<uint32_t>({3, 10, 30, 0xFFFFFFFFu});
    auto key = [&] { return dom == 0xFFFFFFFFu ? (uint32_t)s.u64() : (uint32_t)s.below(dom) + (s.chance(1, 1000) ? 0x80000000u : 0); };
    std::vector<uint32_t> k(n);
    if (big) { if (dom < 0x1000) dom *= s.pick<uint32_t>({1, 100, 10000}); uint64_t x = s.raw(4) * 2654435761u + 1; for (auto& e : k) { x = x * 6364136223846793005ull + 1442695040888963407ull; e = dom == 0xFFFFFFFFu ? (uint32_t)(x >> 32) : (uint32_t)((x >> 33) % dom); } }
    else for (auto& x : k) x = key();
    bool whole = s.flip();
    size_t lo = whole ? 0 : s.below(n + 1), cnt = whole ? n : s.below(n - lo + 1);
    std::stable_sort(k.begin() + lo, k.begin() + lo + cnt, [](uint32_t a, uint32_t b) { return order(a, b) < 0; });
    // exact-size storage: either a fixed buffer of exactly n elements or a recorded block
    RecAlloc ra; ZyanVector v; Guarded buf; ZyanStatus st; bool fixed = s.flip();
    if (fixed) { buf.alloc(std::max<size_t>(1, n) * es); st = A.ZyanVectorInitCustomBuffer(&v, es, buf.p, std::max<size_t>(1, n), nullptr); }
    else st = A.ZyanVectorInitEx(&v, es, s.flip() ? n : 0, nullptr, &ra, 2, 0);
    CHECK(st == ZYAN_STATUS_SUCCESS, "init returned %s", STN(st));
    if (big && s.flip())
    {
        std::string all(n * es, 'x'); for (size_t i = 0; i < n; ++i) memcpy(&all[i * es], &k[i], 4);
        st = A.ZyanVectorInsertRange(&v, 0, all.data(), n); CHECK(st == ZYAN_STATUS_SUCCESS, "InsertRange returned %s", STN(st)); op_arg(all);
    }
    else for (size_t i = 0; i < n; ++i) { std::string e(es, (char)i); memcpy(&e[0], &k[i], 4); st = A.ZyanVectorPushBack(&v, e.data()); CHECK(st == ZYAN_STATUS_SUCCESS, "PushBack returned %s", STN(st)); op_arg(k[i]); }
    OP("vector", n, lo, cnt, g_mode);
    const uint8_t* base = n ? (const uint8_t*)A.ZyanVectorGet(&v, 0) : nullptr;
    g_es = es;
    do
    {
        bool bin = s.flip(); size_t i = lo, c = cnt;
        if (bin) { if (!s.chance(1, big ? 2 : 3)) { i = lo + s.below(cnt + 1); c = s.below(lo + cnt - i + 1); } }
        else { i = s.below(n + 1); c = s.below(n - i + 1); }
        bool ex = !(i == 0 && c == n && s.flip());
        if (ex && s.chance(1, 10)) { i = s.wild_index(n); c = s.wild_index(n); if (i <= n && c <= n - i && bin && !(i >= lo && i + c <= lo + cnt)) continue; }
        uint32_t q = k.size() && s.flip() ? (big && s.flip() ? k[n - 1 - s.below(5)] : s.pick(k)) : s.chance(1, 8) ? s.pick<uint32_t>({0, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu}) : key();
        if (s.chance(1, 4)) q += (uint32_t)s.below(3) - 1;
        std::string kb(es, '\x55'); memcpy(&kb[0], &q, 4); Guarded g; g.assign(kb.data(), es);
        bool valid = i <= n && c <= n - i;
        g_key = g.p; g_lo = valid && base ? base + i * es : nullptr; g_hi = valid && base ? base + (i + c) * es : nullptr; g_calls = 0;
        ZyanISize fi = 4711; ZyanUSize bi = 4711;
        OP(bin ? "BinarySearch" : "Find", ex, q, i, c);
        if (bin) st = ex ? A.ZyanVectorBinarySearchEx(&v, g.p, &bi, &cmp3, i, c) : A.ZyanVectorBinarySearch(&v, g.p, &bi, &cmp3);
        else st = ex ? A.ZyanVectorFindEx(&v, g.p, &fi, &eq, i, c) : A.ZyanVectorFind(&v, g.p, &fi, &eq);
        if (!valid) { CHECK(ZYAN_FAILED(st), "search in the invalid range (%zu, %zu) of %zu elements returned %s", i, c, n, STN(st)); LABEL("invalid range"); continue; }
        size_t first = i; bool found = false;
        if (bin) { while (first < i + c && order(k[first], q) < 0) ++first; found = first < i + c && order(k[first], q) == 0; }
        else { for (first = i; first < i + c; ++first) if (order(k[first], q) == 0) { found = true; break; } }
        CHECK(st == (found ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "%s in [%zu, %zu) returned %s, the key is %s there", bin ? "binary search" : "search", i, i + c, STN(st), found ? "present" : "not");
        if (bin) { unsigned lg = 0; while (c >> lg) ++lg; CHECK(g_calls <= 4 * lg + 8, "binary search in [%zu, %zu) took %u comparisons", i, i + c, g_calls); LABEL_IF(c > 100, "long binary search"); LABEL_IF(c > 65536, "binary search among more than 65536 elements"); }
        if (bin) CHECK(bi == first, "binary search in [%zu, %zu) yields index %zu, the lower bound is %zu", i, i + c, (size_t)bi, first);
        else CHECK(fi == (found ? (ZyanISize)first : -1), "search in [%zu, %zu) yields %ld, the first match is %ld", i, i + c, (long)fi, found ? (long)first : -1);
        LABEL_IF(found, "found"); LABEL_IF(!found, "not found"); LABEL_IF(bin, "binary search"); LABEL_IF(c == 0, "empty range");
        size_t eqs = 0; for (size_t j = i; j < i + c; ++j) eqs += order(k[j], q) == 0;
        LABEL_IF(eqs > 1, "duplicates");
        if (c >= 4 && (eqs > 1 || (found && first > i))) mark_nontrivial();
    } while (s.more(8));
    for (size_t i = 0; i < n; ++i) CHECK(key_of(A.ZyanVectorGet(&v, i)) == k[i], "a search modified element %zu", i);
    A.ZyanVectorDestroy(&v);
    ra.check_empty("after destruction");
}
