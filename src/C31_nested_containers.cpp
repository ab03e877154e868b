// technique: stateful model-based property testing of trees of containers (vectors and lists of vectors, lists, strings and bitsets) whose destructors destroy the inner containers, over a strict always-moving allocator, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys.hpp"
#include <list>

PropertyInfo PROPERTY = {"C31", "exploration",
    "A case is a tree type (one to three levels of vectors and lists over strings, bitsets, byte vectors or byte lists, as elements of their own or "
    "at the begin of larger ones, random growth and "
    "shrink policies) and a history of insertions, removals, overwrites, emplacements, swaps, resizes, reserves and clears at random nodes of "
    "the tree and of edits of the innermost containers; the whole tree is compared with a model after every operation, and the strict "
    "allocators (one per level, re-allocation always moves) must be empty at the end; non-trivial: a container with at least two "
    "non-empty elements moved or removed some of them",
    900000, 10800000, 8000, 3, 3,
    {"elements are moved bitwise into containers, as the interface prescribes"}};

enum Kind { VEC, LIST, STR, BITS, BYTES, BYTELIST };
struct Val { std::string leaf; std::vector<Val> kids; unsigned char tag = 0; bool empty() const { return leaf.empty() && kids.empty(); } };
struct Level { Kind k; unsigned growth, shrink; RecAlloc* ra; size_t tail; }; // tail: bytes behind the container that belong to the element too
static Level g_lv[4]; static int g_n; static const Api* g_api;
static int g_ctor_level; static bool g_ctor_ok; static uint64_t g_destroyed;

static size_t base_size(int d) { switch (g_lv[d].k) { case LIST: case BYTELIST: return sizeof(ZyanList); case STR: return sizeof(ZyanString); case BITS: return sizeof(ZyanBitset); default: return sizeof(ZyanVector); } }
static size_t obj_size(int d) { return base_size(d) + g_lv[d].tail; }
static unsigned char g_tag;
static unsigned char tail_byte(unsigned char tag, size_t i) { return (unsigned char)(tag * 7 + i * 13 + 1); }
static bool is_leaf(int d) { return g_lv[d].k > LIST; }
#define OK(call) do { ZyanStatus st_ = (call); CHECK(st_ == ZYAN_STATUS_SUCCESS, "%s returned %s", #call, STN(st_)); } while (0)
static void destroy(int d, void* p)
{
    const Api& A = *g_api; ++g_destroyed;
    switch (g_lv[d].k)
    {
    case VEC: case BYTES: OK(A.ZyanVectorDestroy((ZyanVector*)p)); break;
    case LIST: case BYTELIST: OK(A.ZyanListDestroy((ZyanList*)p)); break;
    case STR: OK(A.ZyanStringDestroy((ZyanString*)p)); break;
    default: OK(A.ZyanBitsetDestroy((ZyanBitset*)p));
    }
    memset(p, 0xDD, obj_size(d));
}
template <int D> static void destroy_at(void* p) { destroy(D, p); }
static ZyanMemberProcedure dtor(int d) { return d == 1 ? &destroy_at<1> : d == 2 ? &destroy_at<2> : &destroy_at<3>; }
static void init(int d, void* p, size_t cap, Val& v)
{
    const Api& A = *g_api; Level& l = g_lv[d]; v.tag = ++g_tag;
    for (size_t i = 0; i < l.tail; ++i) ((unsigned char*)p)[base_size(d) + i] = tail_byte(v.tag, i);
    switch (l.k)
    {
    case VEC: OK(A.ZyanVectorInitEx((ZyanVector*)p, obj_size(d + 1), cap, dtor(d + 1), l.ra, (ZyanU8)l.growth, (ZyanU8)l.shrink)); break;
    case BYTES: OK(A.ZyanVectorInitEx((ZyanVector*)p, 1, cap, nullptr, l.ra, (ZyanU8)l.growth, (ZyanU8)l.shrink)); break;
    case LIST: OK(A.ZyanListInitEx((ZyanList*)p, obj_size(d + 1), dtor(d + 1), l.ra)); break;
    case BYTELIST: OK(A.ZyanListInitEx((ZyanList*)p, 1, nullptr, l.ra)); break;
    case STR: OK(A.ZyanStringInitEx((ZyanString*)p, cap, l.ra, (ZyanU8)l.growth, (ZyanU8)l.shrink)); break;
    default: OK(A.ZyanBitsetInitEx((ZyanBitset*)p, 0, l.ra, (ZyanU8)l.growth, (ZyanU8)l.shrink));
    }
}
static Val g_ctor_val;
static ZyanStatus construct(void* p) { if (!g_ctor_ok) return ZYAN_STATUS_FAILED; g_ctor_val = Val(); init(g_ctor_level, p, 1, g_ctor_val); return ZYAN_STATUS_SUCCESS; }

// address of element i of the container (level d) at p
static void* element(int d, void* p, size_t i)
{
    const Api& A = *g_api;
    if (g_lv[d].k == VEC || g_lv[d].k == BYTES) { void* q = A.ZyanVectorGetMutable((ZyanVector*)p, i); CHECK(q, "VectorGetMutable(%zu) returned NULL", i); return q; }
    const ZyanListNode* n = nullptr; OK(A.ZyanListGetHeadNode((ZyanList*)p, &n));
    while (i--) { CHECK(n, "the list is too short"); OK(A.ZyanListGetNextNode(&n)); }
    CHECK(n, "the list is too short"); return A.ZyanListGetNodeDataMutable(n);
}
static void verify(int d, void* p, const Val& m, const char* when)
{
    const Api& A = *g_api; ZyanUSize n = 4711;
    for (size_t i = 0; i < g_lv[d].tail; ++i) CHECK(((unsigned char*)p)[base_size(d) + i] == tail_byte(m.tag, i), "%s: byte %zu of an element of %zu bytes differs", when, base_size(d) + i, obj_size(d));
    switch (g_lv[d].k)
    {
    case STR:
    {
        OK(A.ZyanStringGetSize((ZyanString*)p, &n)); const char* c = nullptr; OK(A.ZyanStringGetData((ZyanString*)p, &c));
        CHECK(n == m.leaf.size() && !memcmp(c, m.leaf.data(), n) && !c[n], "%s: an inner string holds \"%.*s\", expected \"%s\"", when, (int)n, c, m.leaf.c_str()); break;
    }
    case BITS:
        OK(A.ZyanBitsetGetSize((ZyanBitset*)p, &n)); CHECK(n == m.leaf.size(), "%s: an inner bitset has %zu bits, expected %zu", when, (size_t)n, m.leaf.size());
        for (size_t i = 0; i < n; ++i) CHECK(A.ZyanBitsetTest((ZyanBitset*)p, i) == (m.leaf[i] & 1 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "%s: bit %zu of an inner bitset differs", when, i);
        break;
    case BYTES:
        OK(A.ZyanVectorGetSize((ZyanVector*)p, &n)); CHECK(n == m.leaf.size(), "%s: an inner vector has %zu elements, expected %zu", when, (size_t)n, m.leaf.size());
        for (size_t i = 0; i < n; ++i) CHECK(*(const char*)A.ZyanVectorGet((ZyanVector*)p, i) == m.leaf[i], "%s: element %zu of an inner vector differs", when, i);
        break;
    case VEC:
        OK(A.ZyanVectorGetSize((ZyanVector*)p, &n)); CHECK(n == m.kids.size(), "%s: a vector of containers has %zu elements, expected %zu", when, (size_t)n, m.kids.size());
        for (size_t i = 0; i < n; ++i) verify(d + 1, A.ZyanVectorGetMutable((ZyanVector*)p, i), m.kids[i], when);
        break;
    default:
    {
        size_t e = is_leaf(d) ? m.leaf.size() : m.kids.size(), i = 0;
        OK(A.ZyanListGetSize((ZyanList*)p, &n)); CHECK(n == e, "%s: an inner list has %zu elements, expected %zu", when, (size_t)n, e);
        const ZyanListNode* x = nullptr; OK(A.ZyanListGetHeadNode((ZyanList*)p, &x));
        for (; x; ++i)
        {
            CHECK(i < e, "%s: an inner list is longer than its size", when);
            if (is_leaf(d)) CHECK(*(const char*)A.ZyanListGetNodeData(x) == m.leaf[i], "%s: element %zu of an inner list differs", when, i);
            else verify(d + 1, A.ZyanListGetNodeDataMutable(x), m.kids[i], when);
            OK(A.ZyanListGetNextNode(&x));
        }
        CHECK(i == e, "%s: an inner list ends after %zu of %zu elements", when, i, e);
    }
    }
}
static void leaf_append(int d, void* p, Val& m, char c)
{
    const Api& A = *g_api;
    switch (g_lv[d].k)
    {
    case STR: { ZyanStringView v; char b[1] = {c}; OK(A.ZyanStringViewInsideBufferEx(&v, b, 1)); OK(A.ZyanStringAppend((ZyanString*)p, &v)); break; }
    case BITS: OK(A.ZyanBitsetPush((ZyanBitset*)p, (ZyanBool)(c & 1))); break;
    case BYTES: OK(A.ZyanVectorPushBack((ZyanVector*)p, &c)); break;
    default: OK(A.ZyanListPushBack((ZyanList*)p, &c));
    }
    m.leaf.push_back(c);
}
static void leaf_step(Src& s, int d, void* p, Val& m)
{
    const Api& A = *g_api;
    switch (s.weighted({5, 3, 1, 1}))
    {
    case 0: { size_t n = s.size(12) + 1; OP("leaf append", n); while (n--) leaf_append(d, p, m, (char)('a' + s.below(26))); return; }
    case 1:
    {
        if (m.leaf.empty()) return;
        size_t n = s.below(m.leaf.size()) + 1; OP("leaf cut", n);
        switch (g_lv[d].k)
        {
        case STR: OK(A.ZyanStringTruncate((ZyanString*)p, m.leaf.size() - n)); break;
        case BITS: for (size_t i = 0; i < n; ++i) OK(A.ZyanBitsetPop((ZyanBitset*)p)); break;
        case BYTES: OK(A.ZyanVectorDeleteRange((ZyanVector*)p, m.leaf.size() - n, n)); break;
        default: for (size_t i = 0; i < n; ++i) OK(A.ZyanListPopBack((ZyanList*)p));
        }
        m.leaf.resize(m.leaf.size() - n); return;
    }
    case 2:
        OP("leaf clear");
        switch (g_lv[d].k) { case STR: OK(A.ZyanStringClear((ZyanString*)p)); break; case BITS: OK(A.ZyanBitsetClear((ZyanBitset*)p)); break; case BYTES: OK(A.ZyanVectorClear((ZyanVector*)p)); break; default: OK(A.ZyanListClear((ZyanList*)p)); }
        m.leaf.clear(); return;
    default:
        OP("leaf shrink");
        switch (g_lv[d].k) { case STR: OK(A.ZyanStringShrinkToFit((ZyanString*)p)); break; case BITS: OK(A.ZyanBitsetShrinkToFit((ZyanBitset*)p)); break; case BYTES: OK(A.ZyanVectorShrinkToFit((ZyanVector*)p)); break; default: {} }
    }
}
static void fill(Src& s, int d, void* p, Val& m)
{
    const Api& A = *g_api;
    if (is_leaf(d)) { for (size_t n = s.size(6); n; --n) leaf_append(d, p, m, (char)('a' + s.below(26))); return; }
    for (size_t n = s.below(3); n; --n)
    {
        Guarded t; t.alloc(obj_size(d + 1)); Val v; init(d + 1, t.p, s.below(3), v); fill(s, d + 1, t.p, v);
        if (g_lv[d].k == VEC) OK(A.ZyanVectorPushBack((ZyanVector*)p, t.p)); else OK(A.ZyanListPushBack((ZyanList*)p, t.p));
        m.kids.push_back(v);
    }
}
static size_t full(const Val& m, size_t from = 0) { size_t n = 0; for (size_t i = from; i < m.kids.size(); ++i) n += !m.kids[i].empty(); return n; }
static bool g_moved;
static uint64_t count(int d, const Val& v) { uint64_t n = 1; if (!is_leaf(d)) for (auto& k : v.kids) n += count(d + 1, k); return n; }
static uint64_t range(int d, const Val& v, size_t a, size_t b) { uint64_t n = 0; for (size_t i = a; i < b; ++i) n += count(d, v.kids[i]); return n; }

static void step(Src& s, int d, void* p, Val& m, size_t max)
{
    const Api& A = *g_api; size_t n = m.kids.size();
    auto fresh = [&](Guarded& t, Val& v) { t.alloc(obj_size(d + 1)); init(d + 1, t.p, s.below(3), v); fill(s, d + 1, t.p, v); };
    uint64_t expect = 0; g_destroyed = 0;
    auto refused = [&](ZyanStatus st, Guarded& t, uint64_t objs) { CHECK(ZYAN_FAILED(st), "an invalid operation on a container of containers returned %s", STN(st)); CHECK(g_destroyed == 0, "a refused operation destroyed elements"); destroy(d + 1, t.p); expect = objs; };
    if (full(m) >= 2) g_moved = true;
    if (g_lv[d].k == VEC)
    {
        ZyanVector* v = (ZyanVector*)p;
        int op = (int)s.weighted({5, 5, 3, 2, 3, 3, 2, 2, 2, 1, 2, 1, 1, 2});
        if (n >= max && (op < 4)) op = 5;
        switch (op)
        {
        case 0: { Guarded t; Val x; fresh(t, x); OP("push", d); OK(A.ZyanVectorPushBack(v, t.p)); m.kids.push_back(x); break; }
        case 1:
        {
            Guarded t; Val x; fresh(t, x); size_t i = s.chance(1, 12) ? n + 1 + s.below(2) : s.below(n + 1); OP("insert", d, i);
            ZyanStatus st = A.ZyanVectorInsert(v, i, t.p);
            if (i > n) { refused(st, t, count(d + 1, x)); break; }
            CHECK(st == ZYAN_STATUS_SUCCESS, "Insert returned %s", STN(st)); m.kids.insert(m.kids.begin() + i, x); break;
        }
        case 2:
        {
            size_t i = s.below(n + 1); g_ctor_level = d + 1; g_ctor_ok = !s.chance(1, 5); void* e = nullptr; bool ex = s.flip(); if (!ex) i = n; OP("emplace", d, i, g_ctor_ok);
            ZyanStatus st = ex ? A.ZyanVectorEmplaceEx(v, i, &e, &construct) : A.ZyanVectorEmplace(v, &e, &construct);
            if (!g_ctor_ok) { CHECK(ZYAN_FAILED(st), "an emplacement whose constructor failed returned %s", STN(st)); break; }
            CHECK(st == ZYAN_STATUS_SUCCESS, "Emplace returned %s", STN(st)); m.kids.insert(m.kids.begin() + i, g_ctor_val); CHECK(e == element(d, p, i), "the emplaced element is elsewhere"); fill(s, d + 1, e, m.kids[i]); break;
        }
        case 3:
        {
            size_t c = s.below(3) + 1, os = obj_size(d + 1); Guarded t; t.alloc(os * c); std::vector<Val> x(c); size_t i = s.below(n + 1); OP("insert range", d, i, c);
            for (size_t k = 0; k < c; ++k) { init(d + 1, t.p + k * os, s.below(3), x[k]); fill(s, d + 1, t.p + k * os, x[k]); }
            OK(A.ZyanVectorInsertRange(v, i, t.p, c)); m.kids.insert(m.kids.begin() + i, x.begin(), x.end()); break;
        }
        case 4:
        {
            Guarded t; Val x; fresh(t, x); size_t i = s.chance(1, 12) ? n : s.below(n + 1); OP("set", d, i);
            ZyanStatus st = A.ZyanVectorSet(v, i, t.p); if (i >= n) { refused(st, t, count(d + 1, x)); break; }
            CHECK(st == ZYAN_STATUS_SUCCESS, "Set returned %s", STN(st)); expect = count(d + 1, m.kids[i]); m.kids[i] = x; break;
        }
        case 5: { if (!n) break; size_t i = s.below(n), c = s.below(n - i) + 1; if (s.flip()) c = 1; OP("delete", d, i, c); expect = range(d + 1, m, i, i + c); if (c == 1 && s.flip()) OK(A.ZyanVectorDelete(v, i)); else OK(A.ZyanVectorDeleteRange(v, i, c)); m.kids.erase(m.kids.begin() + i, m.kids.begin() + i + c); break; }
        case 6: { OP("pop", d); if (!n) { CHECK(ZYAN_FAILED(A.ZyanVectorPopBack(v)), "PopBack of an empty vector succeeded"); break; } expect = range(d + 1, m, n - 1, n); OK(A.ZyanVectorPopBack(v)); m.kids.pop_back(); break; }
        case 7: { if (n < 2) break; size_t i = s.below(n), k = s.below(n); if (i == k) k = (i + 1) % n; OP("swap", d, i, k); OK(A.ZyanVectorReserve(v, n + 1)); OK(A.ZyanVectorSwapElements(v, i, k)); std::swap(m.kids[i], m.kids[k]); break; }
        case 8: { size_t c = s.below(n + 1); OP("resize", d, c); expect = range(d + 1, m, c, n); OK(A.ZyanVectorResize(v, c)); m.kids.resize(c); break; }
        case 9: { OP("clear", d); expect = range(d + 1, m, 0, n); OK(A.ZyanVectorClear(v)); m.kids.clear(); break; }
        case 10: { size_t c = s.below(max * 2); OP("reserve", d, c); OK(A.ZyanVectorReserve(v, c)); break; }
        case 11: { OP("shrink", d); OK(A.ZyanVectorShrinkToFit(v)); break; }
        case 12: { size_t i = s.wild_index(n), c = s.wild_index(n); OP("delete", d, i, c); if (i <= n && c <= n - i) break; CHECK(ZYAN_FAILED(A.ZyanVectorDeleteRange(v, i, c)), "deletion of an invalid range succeeded"); break; }
        default: // moves an element out and back in elsewhere, as a bitwise copy: the destructor must not see it
        {
            if (!n) break;
            size_t i = s.below(n), os = obj_size(d + 1); OP("overwrite in place", d, i);
            Guarded t; Val x; fresh(t, x); void* e = element(d, p, i); std::string old((char*)e, os); memcpy(e, t.p, os); Val y = m.kids[i]; m.kids[i] = x;
            OK(A.ZyanVectorPushBack(v, old.data())); m.kids.push_back(y);
        }
        }
    }
    else
    {
        ZyanList* l = (ZyanList*)p; int op = (int)s.weighted({5, 4, 3, 2, 2, 3, 2, 3, 2, 1});
        if (n >= max && op < 3) op = 5;
        auto node = [&](size_t i) { const ZyanListNode* x = nullptr; OK(A.ZyanListGetHeadNode(l, &x)); while (i--) OK(A.ZyanListGetNextNode(&x)); return x; };
        switch (op)
        {
        case 0: { Guarded t; Val x; fresh(t, x); OP("push back", d); OK(A.ZyanListPushBack(l, t.p)); m.kids.push_back(x); break; }
        case 1: { Guarded t; Val x; fresh(t, x); OP("push front", d); OK(A.ZyanListPushFront(l, t.p)); m.kids.insert(m.kids.begin(), x); break; }
        case 2:
        {
            bool back = s.flip(); g_ctor_level = d + 1; g_ctor_ok = !s.chance(1, 5); void* e = nullptr; OP(back ? "emplace back" : "emplace front", d, g_ctor_ok);
            ZyanStatus st = back ? A.ZyanListEmplaceBack(l, &e, &construct) : A.ZyanListEmplaceFront(l, &e, &construct);
            if (!g_ctor_ok) { CHECK(ZYAN_FAILED(st), "an emplacement whose constructor failed returned %s", STN(st)); break; }
            CHECK(st == ZYAN_STATUS_SUCCESS, "Emplace returned %s", STN(st)); size_t i = back ? n : 0; m.kids.insert(m.kids.begin() + i, g_ctor_val); CHECK(e == element(d, p, i), "the emplaced element is elsewhere"); fill(s, d + 1, e, m.kids[i]); break;
        }
        case 3: { OP("pop back", d); if (!n) { CHECK(ZYAN_FAILED(A.ZyanListPopBack(l)), "PopBack of an empty list succeeded"); break; } expect = range(d + 1, m, n - 1, n); OK(A.ZyanListPopBack(l)); m.kids.pop_back(); break; }
        case 4: { OP("pop front", d); if (!n) { CHECK(ZYAN_FAILED(A.ZyanListPopFront(l)), "PopFront of an empty list succeeded"); break; } expect = range(d + 1, m, 0, 1); OK(A.ZyanListPopFront(l)); m.kids.erase(m.kids.begin()); break; }
        case 5: { if (!n) break; size_t i = s.below(n); OP("remove", d, i); expect = range(d + 1, m, i, i + 1); OK(A.ZyanListRemove(l, node(i))); m.kids.erase(m.kids.begin() + i); break; }
        case 6: { if (!n) break; size_t i = s.below(n), c = s.below(n - i) + 1; OP("remove range", d, i, c); expect = range(d + 1, m, i, i + c); OK(A.ZyanListRemoveRange(l, node(i), node(i + c - 1))); m.kids.erase(m.kids.begin() + i, m.kids.begin() + i + c); break; }
        case 7: { if (!n) break; Guarded t; Val x; fresh(t, x); size_t i = s.below(n); OP("set node data", d, i); expect = count(d + 1, m.kids[i]); OK(A.ZyanListSetNodeData(l, node(i), t.p)); m.kids[i] = x; break; }
        case 8: { size_t c = s.below(n + 1); OP("resize", d, c); expect = range(d + 1, m, c, n); OK(A.ZyanListResize(l, c)); m.kids.resize(c); break; }
        default: { OP("clear", d); expect = range(d + 1, m, 0, n); OK(A.ZyanListClear(l)); m.kids.clear(); }
        }
    }
    CHECK(g_destroyed == expect, "%llu inner container(s) were destroyed, expected %llu", (unsigned long long)g_destroyed, (unsigned long long)expect);
}

void run_case(Src& s)
{
    g_api = &native_api(); RecAlloc ra[4]; g_moved = false; g_tag = 0;
    g_n = 2 + (int)s.weighted({4, 3, 1}); bool shared = s.flip();
    for (int d = 0; d < g_n; ++d)
    {
        g_lv[d].k = d + 1 < g_n ? (s.chance(2, 5) ? LIST : VEC) : s.pick<Kind>({STR, BITS, BYTES, BYTELIST});
        g_lv[d].growth = (unsigned)s.weighted({4, 6, 1}) + 1; g_lv[d].shrink = s.pick<unsigned>({4, 0, 1, 2, 255}); g_lv[d].ra = &ra[shared ? 0 : d]; g_lv[d].tail = s.chance(1, 3) ? 8 * s.size(30) : 0;
        OP("level", d, (int)g_lv[d].k, g_lv[d].growth, g_lv[d].shrink, g_lv[d].tail);
    }
    LABEL_IF(g_n > 2, "three levels or more");
    Guarded root; root.alloc(obj_size(0)); garble(s, root.p, root.n); Val m; init(0, root.p, s.below(4), m); size_t max = s.pick<size_t>({3, 6, 12});
    while (s.more(20))
    {
        if (s.chance(1, 12)) { OP("move the root"); Guarded t; t.assign(root.p, root.n); std::swap(t.p, root.p); memset(t.p, 0xDD, t.n); LABEL("root moved"); }
        int d = 0; void* p = root.p; Val* v = &m;
        while (!is_leaf(d) && v->kids.size() && s.chance(3, 5)) { size_t i = s.below(v->kids.size()); p = element(d, p, i); v = &v->kids[i]; ++d; }
        note("at level %d", d);
        if (is_leaf(d)) leaf_step(s, d, p, *v); else step(s, d, p, *v, max);
        verify(0, root.p, m, "after an operation");
    }
    g_destroyed = 0; OP("destroy"); destroy(0, root.p);
    CHECK(g_destroyed == count(0, m), "the destruction of the tree destroyed %llu containers of %llu", (unsigned long long)g_destroyed, (unsigned long long)count(0, m));
    for (auto& a : ra) a.check_empty("after the destruction of the tree");
    if (g_moved) mark_nontrivial();
}
