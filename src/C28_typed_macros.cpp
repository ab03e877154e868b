// technique: property-based testing of the container macros, compiled as C and C++ by two compilers, against the sequences the containers hold
#include "sys_list.hpp"
#include "sys_str.hpp"
#include "sys_vec.hpp"
#include "C28_shim.h"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C28", "exploration",
    "A case picks one of six builds (gcc and clang, C and C++, with and without optimisation) and an element type (8 to 64 bit integers, "
    "pointer, struct with padding, double), fills vectors and a list of that type with a random history and reads, walks, modifies, "
    "nests and leaves loops early through the macros, or uses static initialisers and literal views; results are compared with the "
    "model; rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: a walk over at least two elements or a literal view with at least one character",
    1200000, 14400000, 2000, 3, 3,
    {"a loop body does not change the number of elements"}};

extern "C" { extern const TypedOps typed_gcc_c99, typed_gcc_o3, typed_clang_san, typed_clang_nolibc, typed_gxx11, typed_clangxx20; }
static const TypedOps* const BUILDS[] = {&typed_gcc_c99, &typed_gcc_o3, &typed_clang_san, &typed_clang_nolibc, &typed_gxx11, &typed_clangxx20};
static uint64_t packed(const std::string& x) { uint64_t r = 0; memcpy(&r, x.data(), std::min<size_t>(8, x.size())); return r; }

static void fill(Src& s, VecSys& v, RecAlloc& ra, size_t es, size_t big = 0)
{
    v.es = es; v.kind = s.chance(1, 4) ? VecSys::FIXED : VecSys::RECORDED; v.alphabet = 5; v.configure(s, &ra);
    if (big) v.growth = std::min(v.growth, 3u);
    v.init(s, 30 + (v.kind == VecSys::FIXED ? big : 0)); if (big) v.op_bulk(s, big);
    size_t n = s.size(24); for (size_t i = 0; i < n; ++i) v.op_push(s);
    for (size_t k = s.below(4); k; --k) v.step(s, false, 24);
}

static void vectors(Src& s, const TypedOps& T, int t)
{
    const Api& A = native_api(); RecAlloc ra, rb; VecSys v(A), w(A);
    fill(s, v, ra, T.size[t], s.large(200, 3000)); fill(s, w, rb, T.size[t]);
    size_t n = v.m.size(); std::vector<uint64_t> out(2 * n * (w.m.size() + 2) + 2 * w.m.size() + 2, 0x55AA55AA55AA55AAull);
    if (n) { size_t i = s.below(n); OP("ZYAN_VECTOR_GET", i); uint64_t x = T.get(t, v.v, i); CHECK(x == packed(v.m[i]), "%s: ZYAN_VECTOR_GET(%zu) gives 0x%llx, expected 0x%llx", T.name, i, (unsigned long long)x, (unsigned long long)packed(v.m[i])); }
    {
        size_t stop = s.flip() ? SIZE_MAX : s.below(n + 2); unsigned skip = s.flip() ? 0 : 1 + (unsigned)s.below(4);
        OP("ZYAN_VECTOR_FOREACH", stop, skip);
        size_t e = std::min(stop, n), k = T.walk(t, v.v, out.data(), stop, skip);
        CHECK(k == e, "%s: the loop visited %zu elements, expected %zu", T.name, k, e);
        for (size_t i = 0; i < e; ++i) { uint64_t x = skip && (i + 1) % skip == 0 ? 0 : packed(v.m[i]); CHECK(out[i] == x, "%s: visit %zu gave 0x%llx, expected 0x%llx", T.name, i, (unsigned long long)out[i], (unsigned long long)x); }
        LABEL_IF(e < n, "loop left early"); LABEL_IF(skip, "continue in a loop");
        if (e >= 2) mark_nontrivial();
    }
    v.verify("after reading loops");
    {
        size_t stop = s.flip() ? SIZE_MAX : s.below(n + 2); uint64_t add = s.u64();
        OP("ZYAN_VECTOR_FOREACH_MUTABLE", stop, add);
        size_t e = std::min(stop, n), k = T.modify(t, v.v, add, stop);
        CHECK(k == e, "%s: the modifying loop visited %zu elements, expected %zu", T.name, k, e);
        for (size_t i = 0; i < e; ++i) { uint64_t x = packed(v.m[i]) + add; memcpy(&v.m[i][0], &x, v.es); }
        v.verify("after a modifying loop");
    }
    {
        OP("nested loops");
        std::vector<uint64_t> e; size_t eq = 0;
        for (auto& a : v.m) { for (auto& b : w.m) if (a == b) ++eq; else { uint64_t x = 0x55AA55AA55AA55AAull; memcpy(&x, b.data(), w.es); e.push_back(x); } for (auto& b : w.m) if (a == b) ++eq; }
        std::fill(out.begin(), out.end(), 0x55AA55AA55AA55AAull);
        size_t k = T.nested(t, v.v, w.v, out.data());
        CHECK(k == eq, "%s: nested loops found %zu equal pairs, expected %zu", T.name, k, eq);
        for (size_t i = 0; i < e.size(); ++i) CHECK(out[i] == e[i], "%s: nested loops gave a wrong element", T.name);
        LABEL_IF(v.m.size() > 1 && w.m.size() > 1, "nested loops");
    }
    {
        bool second = s.flip(); OP("selected", second); auto& m = second ? w.m : v.m;
        size_t k = T.selected(t, v.v, w.v, second, out.data());
        CHECK(k == 2 * m.size(), "%s: loops over a selected vector visited %zu elements of %zu", T.name, k, m.size());
        for (size_t i = 0; i < k; ++i) CHECK(out[i] == packed(m[i % m.size()]), "%s: loops over a selected vector gave a wrong element", T.name);
    }
    v.verify("after the loops"); w.verify("after the loops");
    v.destroy(); w.destroy(); ra.check_empty("at the end"); rb.check_empty("at the end");
}
static void lists(Src& s, const TypedOps& T, int t)
{
    const Api& A = native_api(); RecAlloc ra; ListSys l(A);
    l.es = T.size[t]; l.ra = &ra; l.kind = s.chance(1, 4) ? ListSys::FIXED : ListSys::RECORDED; l.init(s, 24, 0);
    for (size_t k = s.size(30); k; --k) l.step(s, 20);
    std::vector<std::string> e; for (auto& x : l.m) e.push_back(x.data);
    std::vector<uint64_t> out(e.size() + 2); OP("ZYAN_LIST_GET");
    size_t k = T.list(t, l.l, out.data(), out.size());
    CHECK(k == e.size(), "%s: walking the list gave %zu elements of %zu", T.name, k, e.size());
    for (size_t i = 0; i < k; ++i) CHECK(out[i] == packed(e[i]), "%s: element %zu of the list is 0x%llx, expected 0x%llx", T.name, i, (unsigned long long)out[i], (unsigned long long)packed(e[i]));
    LABEL("list"); if (k >= 2) mark_nontrivial();
    l.destroy(); ra.check_empty("at the end");
}
static void statics(Src& s, const TypedOps& T)
{
    const Api& A = native_api();
    switch (s.below(4))
    {
    case 0:
    {
        OP("ZYAN_VECTOR_INITIALIZER"); RecAlloc ra; VecSys v(A); if (!T.blank_vector(v.v)) break;
        ZyanUSize n = 77; CHECK(A.ZyanVectorGetSize(v.v, &n) == ZYAN_STATUS_SUCCESS && n == 0 && !A.ZyanVectorGet(v.v, 0), "%s: a statically initialised vector is not empty", T.name);
        v.es = 4; v.configure(s, &ra); v.init(s, s.size(8)); for (int i = 0; i < 5; ++i) v.op_push(s); v.destroy(); ra.check_empty("at the end"); LABEL("static initialiser");
        break;
    }
    case 1:
    {
        OP("ZYAN_LIST_INITIALIZER"); RecAlloc ra; ListSys l(A); if (!T.blank_list(l.l)) break;
        ZyanUSize n = 77; const ZyanListNode* h = (const ZyanListNode*)&n; CHECK(A.ZyanListGetSize(l.l, &n) == ZYAN_STATUS_SUCCESS && n == 0, "%s: a statically initialised list is not empty", T.name);
        A.ZyanListGetHeadNode(l.l, &h); CHECK(!h, "%s: a statically initialised list has a head", T.name);
        l.es = 4; l.ra = &ra; l.init(s, 8, 0); for (int i = 0; i < 5; ++i) l.step(s, 8); l.destroy(); ra.check_empty("at the end"); LABEL("static initialiser");
        break;
    }
    case 2:
    {
        OP("ZYAN_STRING_INITIALIZER"); RecAlloc ra; StrSys t(A); if (!T.blank_string(t.str)) break;
        t.configure(s, &ra); t.init(s, s.size(40)); for (int i = 0; i < 5; ++i) t.step(s, false, 20);
        OP("ZYAN_STRING_TO_VIEW"); const ZyanStringView* v = T.cast((int)s.below(2), t.str); ZyanUSize n = 0; const char* p = nullptr;
        CHECK(ZYAN_SUCCESS(A.ZyanStringViewGetSize(v, &n)) && ZYAN_SUCCESS(A.ZyanStringViewGetData(v, &p)) && n == t.m.size() && p == t.data(), "%s: a string seen as view differs from the string", T.name);
        t.destroy(); ra.check_empty("at the end"); LABEL("static initialiser");
        break;
    }
    default:
    {
        int k = (int)s.below(NLIT); OP("ZYAN_DEFINE_STRING_VIEW", k);
        ZyanStringView v; const char* text = nullptr; ZyanUSize len = 0; if (!T.literal(k, &v, &text, &len)) break;
        ZyanUSize n = 99; const char* p = nullptr;
        CHECK(ZYAN_SUCCESS(A.ZyanStringViewGetSize(&v, &n)) && n == len, "%s: the view of a literal of %zu characters has %zu", T.name, (size_t)len, (size_t)n);
        CHECK(ZYAN_SUCCESS(A.ZyanStringViewGetData(&v, &p)) && !memcmp(p, text, len + 1), "%s: the view of a literal has other characters", T.name);
        for (size_t i = 0; i < len + 2; ++i) { char c = 'Q'; ZyanStatus st = A.ZyanStringGetChar(&v, i, &c); if (i < len) CHECK(ZYAN_SUCCESS(st) && c == text[i], "%s: character %zu of a literal view", T.name, i); else CHECK(ZYAN_FAILED(st), "%s: character %zu of a literal view of %zu characters was accepted", T.name, i, (size_t)len); }
        RecAlloc ra; StrSys t(A); t.configure(s, &ra); t.init(s, s.size(20)); t.op_insert(s, false, 20);
        OP("Append literal"); ZyanStatus st = A.ZyanStringAppend(t.str, &v); CHECK(!len || ZYAN_SUCCESS(st), "%s: appending a literal view returned %s", T.name, STN(st)); t.m.append(text, len); t.verify("after appending a literal view");
        ViewBox other(A); other.make(s, std::string(text, len)); ZyanI32 r = 5; CHECK(ZYAN_SUCCESS(A.ZyanStringCompare(&v, other.get(), &r)) && r == 0, "%s: a literal view differs from an equal view", T.name);
        t.destroy(); LABEL("literal view"); if (len) mark_nontrivial();
        break;
    }
    }
}
static void vast_walk(Src& s, const TypedOps& T, int t)
{
#ifdef HAVE_VAST
    Vast* w = Vast::get(); if (!w) return;
    const Api& A = native_api(); ZyanVector v; size_t es = T.size[t], n = ((size_t)1 << 32) + s.below(30); if (n * es > Vast::ALL) n = ((size_t)1 << 32) / es + s.below(30);
    OP("loops over a vast vector", es, n); ZyanStatus st = A.ZyanVectorInitCustomBuffer(&v, es, w->base, n, nullptr); CHECK(ZYAN_SUCCESS(st), "init"); st = A.ZyanVectorResize(&v, n); CHECK(ZYAN_SUCCESS(st), "Resize to %zu returned %s", n, STN(st));
    memset(w->base, 0, 4096); uint64_t out[64]; size_t stop = 1 + s.below(40), k = T.walk(t, &v, out, stop, 0); CHECK(k == stop, "%s: a loop left after %zu of %zu elements visited %zu", T.name, stop, n, k);
    k = T.modify(t, &v, s.u64(), stop); CHECK(k == stop, "%s: a modifying loop left after %zu of %zu elements visited %zu", T.name, stop, n, k);
    st = A.ZyanVectorDestroy(&v); CHECK(ZYAN_SUCCESS(st), "Destroy returned %s", STN(st)); LABEL("loops over more than 2^32 elements or bytes"); mark_nontrivial();
#else
    (void)s; (void)T; (void)t;
#endif
}
void run_case(Src& s)
{
    const TypedOps& T = *BUILDS[s.below(6)]; int t = (int)s.below(NTYPE); OP(T.name, t);
    CHECK(T.get, "the container macros cannot be compiled in the build %s", T.name);
    if (s.raw(2) >= 65536 - 12) return vast_walk(s, T, t);
    switch (s.weighted({5, 2, 2})) { case 0: vectors(s, T, t); break; case 1: lists(s, T, t); break; default: statics(s, T); }
}
