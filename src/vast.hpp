// Objects whose sizes do not fit 32 bits: the storage is a lazily backed mapping of which only both ends are ever touched
#pragma once
#include "zy.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <string>

// Coverage guidance is better spent on small objects.
#if SIZE_MAX <= 0xFFFFFFFFu || defined(ENGINE_FUZZ)
[[maybe_unused]] static void vast_vector(Src&) {}
[[maybe_unused]] static void vast_search(Src&) {}
[[maybe_unused]] static void vast_string(Src&) {}
[[maybe_unused]] static void vast_text(Src&) {}
[[maybe_unused]] static void vast_append(Src&, bool) {}
#else
#define HAVE_VAST
struct Vast
{
    static constexpr size_t ALL = ((size_t)1 << 35) + (1 << 20), HEAD = 64;
    uint8_t* base = nullptr; size_t touched_from = 0, touched_to = 0;
    // growing must not touch the new elements, or gigabytes of memory would be needed
    static bool lazy(uint8_t* p)
    {
        const Api& A = native_api(); ZyanVector x; const size_t n = (size_t)1 << 24; std::vector<unsigned char> in(n / 4096);
        if (ZYAN_FAILED(A.ZyanVectorInitCustomBuffer(&x, 1, p, n, nullptr)) || ZYAN_FAILED(A.ZyanVectorResize(&x, n))) return true;
        (void)A.ZyanVectorDestroy(&x); if (mincore(p, n, in.data())) return true;
        size_t touched = 0; for (auto c : in) touched += c & 1; madvise(p, n, MADV_DONTNEED); return touched < 64;
    }
    // nothing where such a mapping is not available
    static Vast* get()
    {
        static Vast v; static bool tried = false;
        if (!tried) { tried = true; void* p = mmap(nullptr, ALL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p != MAP_FAILED && lazy((uint8_t*)p)) v.base = (uint8_t*)p; }
        if (!v.base) { LABEL("no vast mapping available"); return nullptr; }
        return &v;
    }
    // around byte `end`
    void open(Src& s, size_t end) { if (end > ALL - 65536) _exit(2); touched_from = end - 65536; touched_to = end + 65536; for (size_t i = 0; i < HEAD; ++i) base[i] = head(i); (void)s; }
    static uint8_t head(size_t i) { return (uint8_t)(0xA1 + i * 5); }
    void check_head(const char* when) const { for (size_t i = 0; i < HEAD; ++i) CHECK(base[i] == head(i), "%s changed byte %zu of the storage", when, i); }
    void close() { for (size_t at : {(size_t)0, touched_from & ~(size_t)4095}) { madvise(base + at, 4096 * 48, MADV_DONTNEED); } }
};
// a size around the 32-bit limit of the count or of the number of bytes
static size_t vast_count(Src& s, size_t es)
{
    size_t edge = ((size_t)1 << s.pick<unsigned>({31, 32, 32, 32})) / (s.flip() && es <= 8 ? 1 : es);
    return edge + s.below(40) - 12;
}
[[maybe_unused]] static void vast_vector(Src& s)
{
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); ZyanVector v; size_t es = s.pick<size_t>({1, 1, 2, 3, 4, 7}), n = vast_count(s, es), cap = n + 24, lo = n - 8;
    w->open(s, n * es); OP("vast vector", es, n);
    ZyanStatus st = A.ZyanVectorInitCustomBuffer(&v, es, w->base, cap, nullptr); CHECK(st == ZYAN_STATUS_SUCCESS, "InitCustomBuffer returned %s", STN(st));
    st = A.ZyanVectorResize(&v, n); CHECK(st == ZYAN_STATUS_SUCCESS, "Resize to %zu returned %s", n, STN(st));
    std::vector<std::string> m; uint8_t id = 1; auto value = [&] { std::string r(es, 0); for (size_t i = 0; i < es; ++i) r[i] = (char)(id + 37 * i); ++id; return r; };
    for (size_t i = lo; i < n; ++i) { m.push_back(value()); st = A.ZyanVectorSet(&v, i, m.back().data()); CHECK(st == ZYAN_STATUS_SUCCESS, "Set(%zu) returned %s", i, STN(st)); }
    unsigned left = 2 + (unsigned)s.below(10);
    while (left--)
    {
        size_t k = s.below(m.size() + 1), e = m.empty() ? 0 : s.below(m.size()); const char* what = "nothing"; Guarded g; std::string x = value(); st = ZYAN_STATUS_SUCCESS;
        switch (s.below(10))
        {
        case 0: what = "PushBack"; if (lo + m.size() >= cap) continue; OP(what); g.assign(x.data(), es); st = A.ZyanVectorPushBack(&v, g.p); m.push_back(x); break;
        case 1: what = "Insert"; if (lo + m.size() >= cap) continue; OP(what, lo + k); g.assign(x.data(), es); st = A.ZyanVectorInsert(&v, lo + k, g.p); m.insert(m.begin() + k, x); break;
        case 2: { what = "InsertRange"; if (lo + m.size() + 3 > cap) continue; size_t c = 1 + s.below(3); OP(what, lo + k, c); std::string all; std::vector<std::string> l; for (size_t i = 0; i < c; ++i) { l.push_back(value()); all += l.back(); } g.assign(all.data(), all.size()); st = A.ZyanVectorInsertRange(&v, lo + k, g.p, c); m.insert(m.begin() + k, l.begin(), l.end()); break; }
        case 3: { what = "EmplaceEx"; if (lo + m.size() >= cap) continue; OP(what, lo + k); void* p = nullptr; st = A.ZyanVectorEmplaceEx(&v, lo + k, &p, nullptr); if (ZYAN_SUCCESS(st)) { CHECK(p == w->base + (lo + k) * es, "EmplaceEx(%zu) gives an address that is not the element's", lo + k); memcpy(p, x.data(), es); } m.insert(m.begin() + k, x); break; }
        case 4: what = "Delete"; if (m.empty()) continue; OP(what, lo + e); st = A.ZyanVectorDelete(&v, lo + e); m.erase(m.begin() + e); break;
        case 5: { what = "DeleteRange"; if (m.empty()) continue; size_t c = 1 + s.below(m.size() - e); OP(what, lo + e, c); st = A.ZyanVectorDeleteRange(&v, lo + e, c); m.erase(m.begin() + e, m.begin() + e + c); break; }
        case 6: what = "PopBack"; if (m.empty()) continue; OP(what); st = A.ZyanVectorPopBack(&v); m.pop_back(); break;
        case 7: what = "Set"; if (m.empty()) continue; OP(what, lo + e); g.assign(x.data(), es); st = A.ZyanVectorSet(&v, lo + e, g.p); m[e] = x; break;
        case 8: { what = "SwapElements"; if (m.empty() || lo + m.size() >= cap) continue; size_t f = s.below(m.size()); OP(what, lo + e, lo + f); st = A.ZyanVectorSwapElements(&v, lo + e, lo + f); std::swap(m[e], m[f]); break; }
        default: { what = "ResizeEx"; size_t want = s.below(cap - lo + 1); OP(what, lo + want); g.assign(x.data(), es); st = A.ZyanVectorResizeEx(&v, lo + want, g.p); m.resize(want, x); break; }
        }
        CHECK(ZYAN_SUCCESS(st), "%s on a vector of about %zu elements returned %s", what, n, STN(st));
        ZyanUSize z = 0, c = 0; A.ZyanVectorGetSize(&v, &z); A.ZyanVectorGetCapacity(&v, &c);
        CHECK(z == lo + m.size(), "after %s the size is %zu instead of %zu", what, (size_t)z, lo + m.size()); CHECK(c == cap, "after %s the capacity of the buffer is %zu instead of %zu", what, (size_t)c, cap);
        for (size_t i = 0; i < m.size(); ++i)
        {
            const void *p = A.ZyanVectorGet(&v, lo + i), *q = nullptr; void* r = nullptr; A.ZyanVectorGetPointer(&v, lo + i, &q); A.ZyanVectorGetPointerMutable(&v, lo + i, &r);
            CHECK(p == w->base + (lo + i) * es && p == q && p == r && p == A.ZyanVectorGetMutable(&v, lo + i), "an accessor of element %zu gives another address", lo + i);
            CHECK(!memcmp(p, m[i].data(), es), "after %s element %zu differs from the model", what, lo + i);
        }
        CHECK(!A.ZyanVectorGet(&v, lo + m.size()), "an element behind the end can be accessed"); w->check_head(what);
    }
    st = A.ZyanVectorDestroy(&v); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); w->close(); LABEL("vector of about 2^32 elements or bytes"); mark_nontrivial();
}
static const uint8_t* g_vast_base; static size_t g_vast_es, g_vast_at, g_vast_lo, g_vast_hi, g_vast_same; static unsigned g_vast_calls;
static size_t vast_index(const void* e) { size_t d = (size_t)((const uint8_t*)e - g_vast_base); CHECK(d % g_vast_es == 0 && d / g_vast_es >= g_vast_lo && d / g_vast_es < g_vast_hi, "the comparison is given an element outside the searched range"); ++g_vast_calls; return d / g_vast_es; }
static ZyanBool vast_equals(const void* e, const void*) { return vast_index(e) >= g_vast_at ? ZYAN_TRUE : ZYAN_FALSE; }
static ZyanI32 vast_compare(const void* e, const void*) { size_t i = vast_index(e); return i < g_vast_at ? -1 : i < g_vast_at + g_vast_same ? 0 : 1; }
[[maybe_unused]] static void vast_search(Src& s)
{
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); ZyanVector v; size_t es = s.pick<size_t>({1, 1, 2, 3, 4, 7}), n = vast_count(s, es); OP("vast vector", es, n);
    ZyanStatus st = A.ZyanVectorInitCustomBuffer(&v, es, w->base, n, nullptr); CHECK(ZYAN_SUCCESS(st), "init"); st = A.ZyanVectorResize(&v, n); CHECK(ZYAN_SUCCESS(st), "Resize to %zu returned %s", n, STN(st));
    g_vast_base = w->base; g_vast_es = es; unsigned left = 1 + (unsigned)s.below(6); uint8_t key = 0;
    while (left--)
    {
        bool binary = s.flip(), whole = binary && s.flip(); size_t index = whole ? 0 : n - s.below(60), count = whole ? n : s.below(n - index + 1); if (binary && !whole && s.flip()) { index = s.below(20); count = n - index - s.below(20); }
        g_vast_lo = index; g_vast_hi = index + count; g_vast_calls = 0; g_vast_at = index + (count > 200 ? (s.flip() ? count - s.below(60) : s.u64() % (count + 1)) : s.below(count + 1)); g_vast_same = s.pick<size_t>({0, 1, 1, 3});
        if (binary)
        {
            ZyanUSize f = 12345; OP(whole ? "BinarySearch" : "BinarySearchEx", index, count, g_vast_at, g_vast_same); st = whole ? A.ZyanVectorBinarySearch(&v, &key, &f, vast_compare) : A.ZyanVectorBinarySearchEx(&v, &key, &f, vast_compare, index, count);
            CHECK(f == g_vast_at, "binary search finds %zu instead of %zu", (size_t)f, g_vast_at); CHECK(st == (g_vast_same && g_vast_at < g_vast_hi ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "binary search returned %s", STN(st));
            CHECK(g_vast_calls <= 80, "binary search needed %u comparisons", g_vast_calls);
        }
        else
        {
            ZyanISize f = 12345; OP("FindEx", index, count, g_vast_at); st = A.ZyanVectorFindEx(&v, &key, &f, vast_equals, index, count); bool hit = g_vast_at < g_vast_hi;
            CHECK(st == (hit ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "search returned %s", STN(st)); CHECK(f == (hit ? (ZyanISize)g_vast_at : -1), "search finds %lld instead of %lld", (long long)f, hit ? (long long)g_vast_at : -1);
        }
    }
    st = A.ZyanVectorDestroy(&v); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); LABEL("search in about 2^32 elements or bytes"); mark_nontrivial();
}
[[maybe_unused]] static void vast_view(const Api& A, ZyanStringView& v, const std::string& x) { ZyanStatus st = A.ZyanStringViewInsideBufferEx(&v, x.data(), x.size()); CHECK(ZYAN_SUCCESS(st), "ViewInsideBufferEx returned %s", STN(st)); }
[[maybe_unused]] static void vast_string(Src& s)
{
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); ZyanString t; size_t n = vast_count(s, 1), cap = n + 40, lo = n - 10; w->open(s, n); OP("vast string", n);
    auto word = [&](size_t max) { std::string r; size_t k = 1 + s.below(max); while (k--) r += "abCDz\xC9"[s.below(6)]; return r; };
    ZyanStatus st = A.ZyanStringInitCustomBuffer(&t, (char*)w->base, cap); CHECK(ZYAN_SUCCESS(st), "InitCustomBuffer returned %s", STN(st));
    st = A.ZyanStringResize(&t, n); CHECK(ZYAN_SUCCESS(st), "Resize to %zu returned %s", n, STN(st)); w->open(s, n);
    std::string m; for (size_t i = lo; i < n; ++i) { m += "abCDz\xC9"[s.below(6)]; st = A.ZyanStringSetChar(&t, i, m.back()); CHECK(ZYAN_SUCCESS(st), "SetChar(%zu) returned %s", i, STN(st)); }
    unsigned left = 2 + (unsigned)s.below(10);
    while (left--)
    {
        size_t k = s.below(m.size() + 1), c = s.below(m.size() - k + 1); const char* what; std::string x = word(6); ZyanStringView v; vast_view(A, v, x); bool room = lo + m.size() + x.size() + 1 <= cap;
        switch (s.below(7))
        {
        case 0: what = "Append"; if (!room) continue; OP(what, x); st = A.ZyanStringAppend(&t, &v); m += x; break;
        case 1: what = "Insert"; if (!room) continue; OP(what, lo + k, x); st = A.ZyanStringInsert(&t, lo + k, &v); m.insert(k, x); break;
        case 2: what = "Delete"; if (!c) continue; OP(what, lo + k, c); st = A.ZyanStringDelete(&t, lo + k, c); m.erase(k, c); break;
        case 3: what = "Truncate"; if (k == m.size()) continue; OP(what, lo + k); st = A.ZyanStringTruncate(&t, lo + k); m.resize(k); break;
        case 4: what = "SetChar"; if (k == m.size()) continue; OP(what, lo + k); st = A.ZyanStringSetChar(&t, lo + k, x[0]); m[k] = x[0]; break;
        case 5: what = "ToLowerCaseEx"; if (!c) continue; OP(what, lo + k, c); st = A.ZyanStringToLowerCaseEx(&t, lo + k, c); for (size_t i = k; i < k + c; ++i) if (m[i] >= 'A' && m[i] <= 'Z') m[i] += 32; break;
        default: what = "ToUpperCaseEx"; if (!c) continue; OP(what, lo + k, c); st = A.ZyanStringToUpperCaseEx(&t, lo + k, c); for (size_t i = k; i < k + c; ++i) if (m[i] >= 'a' && m[i] <= 'z') m[i] -= 32; break;
        }
        CHECK(ZYAN_SUCCESS(st), "%s on a string of about %zu characters returned %s", what, n, STN(st));
        ZyanUSize z = 0; A.ZyanStringGetSize(&t, &z); CHECK(z == lo + m.size(), "after %s the size is %zu instead of %zu", what, (size_t)z, lo + m.size());
        CHECK(!memcmp(w->base + lo, m.c_str(), m.size() + 1), "after %s the last characters differ from the model", what); w->check_head(what);
        if (m.size()) { size_t i = s.below(m.size()); char ch = 1; st = A.ZyanStringGetChar((const ZyanStringView*)(const void*)&t, lo + i, &ch); CHECK(ZYAN_SUCCESS(st) && ch == m[i], "GetChar(%zu) gives another character", lo + i); }
    }
    st = A.ZyanStringDestroy(&t); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); w->close(); LABEL("string of about 2^32 characters"); mark_nontrivial();
}
[[maybe_unused]] static void vast_text(Src& s)
{
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); size_t n = vast_count(s, 1), lo = n - 60; w->open(s, n); OP("vast text", n);
    std::string m; for (size_t i = lo; i < n; ++i) m += "abA"[s.below(3)]; memcpy(w->base + lo, m.data(), m.size());
    ZyanStringView v; ZyanStatus st = A.ZyanStringViewInsideBufferEx(&v, (const char*)w->base, n); CHECK(ZYAN_SUCCESS(st), "a view of %zu characters: %s", n, STN(st));
    ZyanUSize z = 0; A.ZyanStringViewGetSize(&v, &z); CHECK(z == n, "the view has %zu characters instead of %zu", (size_t)z, n);
    unsigned left = 2 + (unsigned)s.below(8);
    auto low = [](std::string x) { for (char& c : x) if (c >= 'A' && c <= 'Z') c += 32; return x; };
    while (left--)
    {
        size_t k = s.below(m.size() + 1), c = s.below(m.size() - k + 1);
        if (s.chance(1, 4))
        {
            ZyanStringView part; OP("ViewInsideViewEx", lo + k, c); st = A.ZyanStringViewInsideViewEx(&part, &v, lo + k, c); CHECK(ZYAN_SUCCESS(st), "ViewInsideViewEx returned %s", STN(st));
            const char* d = nullptr; A.ZyanStringViewGetData(&part, &d); A.ZyanStringViewGetSize(&part, &z); CHECK((const uint8_t*)d == w->base + lo + k && z == c, "a part of a vast view is not where it should be"); continue;
        }
        std::string x; size_t l = 1 + s.below(4); while (l--) x += "abA"[s.below(3)]; ZyanStringView nd; vast_view(A, nd, x); bool fold = s.flip(), back = s.flip(); std::string range = m.substr(k, c), y = x; if (fold) range = low(range), y = low(y);
        size_t at = back ? range.rfind(y) : range.find(y); ZyanISize want = at == std::string::npos ? -1 : (ZyanISize)(lo + k + at), f = 12345; OP(back ? "RPosEx" : "LPosEx", x, lo + k, c, fold);
        st = back ? (fold ? A.ZyanStringRPosIEx(&v, &nd, &f, lo + k + c, c) : A.ZyanStringRPosEx(&v, &nd, &f, lo + k + c, c)) : (fold ? A.ZyanStringLPosIEx(&v, &nd, &f, lo + k, c) : A.ZyanStringLPosEx(&v, &nd, &f, lo + k, c));
        CHECK(st == (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "the search returned %s", STN(st)); CHECK(f == want, "the search finds %lld instead of %lld", (long long)f, (long long)want);
    }
    w->close(); LABEL("text of about 2^32 characters"); mark_nontrivial();
}
// numbers (or formatted text) appended to a string of about 2^32 characters
[[maybe_unused]] static void vast_append(Src& s, bool formatted)
{
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); ZyanString t; size_t n = vast_count(s, 1), cap = n + 120, lo = n; w->open(s, n); OP("vast string", n); std::string m;
    ZyanStatus st = A.ZyanStringInitCustomBuffer(&t, (char*)w->base, cap); CHECK(ZYAN_SUCCESS(st), "InitCustomBuffer returned %s", STN(st)); st = A.ZyanStringResize(&t, n); CHECK(ZYAN_SUCCESS(st), "Resize to %zu returned %s", n, STN(st)); w->open(s, n);
    unsigned left = 1 + (unsigned)s.below(6);
    while (left--)
    {
        uint64_t x = s.u64() >> s.below(64); unsigned pad = (unsigned)s.below(24); bool up = s.flip(); char b[64]; bool room; const char* what;
        if (formatted) { what = "AppendFormat"; snprintf(b, sizeof b, "<%llu>", (unsigned long long)x); room = n + m.size() + strlen(b) + 1 <= cap; OP(what, x); st = A.ZyanStringAppendFormat(&t, "<%llu>", (unsigned long long)x); }
        else if (s.flip()) { what = "AppendDecU"; snprintf(b, sizeof b, "%0*llu", (int)pad, (unsigned long long)x); room = n + m.size() + strlen(b) + 1 <= cap; OP(what, x, pad); st = A.ZyanStringAppendDecU(&t, x, (ZyanU8)pad); }
        else { what = "AppendHexU"; snprintf(b, sizeof b, up ? "%0*llX" : "%0*llx", (int)pad, (unsigned long long)x); room = n + m.size() + strlen(b) + 1 <= cap; OP(what, x, pad, up); st = A.ZyanStringAppendHexU(&t, x, (ZyanU8)pad, up); }
        CHECK(ZYAN_SUCCESS(st) == room, "%s of %zu characters to a string of %zu in a buffer of %zu returned %s", what, strlen(b), n + m.size(), cap, STN(st)); if (room) m += b;
        ZyanUSize z = 0; A.ZyanStringGetSize(&t, &z); CHECK(z == n + m.size(), "after %s the size is %zu instead of %zu", what, (size_t)z, n + m.size());
        CHECK(!memcmp(w->base + lo, m.c_str(), m.size() + 1), "after %s the appended characters differ from the model", what); w->check_head(what);
    }
    st = A.ZyanStringDestroy(&t); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); w->close(); LABEL("string of about 2^32 characters"); mark_nontrivial();
}
#endif
