// Model-based linked list system.
#pragma once
#include "sys.hpp"

struct ListSys : SysBase
{
    enum Kind { RECORDED, DEFAULT_ALLOC, FIXED };
    struct El { std::string data; const ZyanListNode* node; };
    Kind kind = RECORDED;
    size_t es = 1;
    bool dtor = false;
    ZyanList* l = nullptr;
    Guarded buf;
    size_t slots = 0;              // fixed buffer: number of nodes that fit
    std::vector<El> m;
    uint64_t next_id = 1;
    std::vector<std::string> destroyed;
    static std::vector<ListSys*>& all() { static thread_local std::vector<ListSys*> a; return a; }
    static std::string& ctor_value() { static thread_local std::string s; return s; }
    static ZyanStatus& ctor_status() { static thread_local ZyanStatus s; return s; }
    static unsigned& ctor_calls() { static thread_local unsigned n; return n; }
    static void*& ctor_arg() { static thread_local void* p; return p; }

    explicit ListSys(const Api& a) : SysBase(a) { l = (ZyanList*)malloc(sizeof(ZyanList)); memset(l, 0xCC, sizeof *l); all().push_back(this); }
    ~ListSys() { free(l); all().erase(std::find(all().begin(), all().end(), this)); }
    ListSys(const ListSys&) = delete;

    static void on_destroy(void* p)
    {
        for (ListSys* s : all())
            if (s->dtor && s->owns(p)) { s->destroyed.push_back(std::string((char*)p, s->es)); memset(p, 0xDD, s->es); return; }
        FAIL("destructor called with an address that is no element of a list");
    }
    bool owns(void* p) const { if (m.size() > 1000) return true; for (auto& e : m) if (A.ZyanListGetNodeData(e.node) == p) return true; return false; }
    static ZyanStatus construct(void* p)
    {
        ctor_calls()++; ctor_arg() = p;
        if (ZYAN_SUCCESS(ctor_status())) memcpy(p, ctor_value().data(), ctor_value().size()); else memset(p, 0xEE, ctor_value().size());
        return ctor_status();
    }
    ZyanMemberProcedure dt() const { return dtor ? &on_destroy : nullptr; }
    std::string value(Src&)
    {
        std::string r(es, 0); uint64_t id = next_id++;
        for (size_t i = 0; i < es; ++i) r[i] = i < 4 ? (char)(id >> (8 * i)) : (char)(id * 31 + i * 7 + (i >> 8) * 13 + 0x40);
        return r;
    }
    size_t size() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanListGetSize(l, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "ListGetSize returned %s", STN(st)); return n; }
    const ZyanListNode* head() const { const ZyanListNode* n = (const ZyanListNode*)8; ZyanStatus st = A.ZyanListGetHeadNode(l, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "GetHeadNode returned %s", STN(st)); return n; }
    const ZyanListNode* tail() const { const ZyanListNode* n = (const ZyanListNode*)8; ZyanStatus st = A.ZyanListGetTailNode(l, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "GetTailNode returned %s", STN(st)); return n; }
    std::vector<const ZyanListNode*> walk(bool fwd, const char* when) const
    {
        std::vector<const ZyanListNode*> r; const ZyanListNode* n = fwd ? head() : tail();
        while (n)
        {
            r.push_back(n);
            CHECK(r.size() <= m.size() + 100000, "%s: the %s walk does not end", when, fwd ? "forward" : "backward");
            ZyanStatus st = fwd ? A.ZyanListGetNextNode(&n) : A.ZyanListGetPrevNode(&n);
            CHECK(st == ZYAN_STATUS_SUCCESS, "%s: stepping to the %s node returned %s", when, fwd ? "next" : "previous", STN(st));
        }
        return r;
    }
    void check_contents(const char* when) const
    {
        size_t n = size();
        CHECK(n == m.size(), "%s: size is %zu, expected %zu", when, n, m.size());
        auto f = walk(true, when), b = walk(false, when);
        CHECK(f.size() == m.size(), "%s: the forward walk visits %zu nodes, expected %zu", when, f.size(), m.size());
        CHECK(b.size() == m.size(), "%s: the backward walk visits %zu nodes, expected %zu", when, b.size(), m.size());
        for (size_t i = 0; i < n; ++i)
        {
            CHECK(f[i] == m[i].node, "%s: node %zu of %zu is not the expected one (forward)", when, i, n);
            CHECK(b[n - 1 - i] == m[i].node, "%s: node %zu of %zu is not the expected one (backward)", when, i, n);
            const void *d = A.ZyanListGetNodeData(f[i]), *d2 = (void*)1; void *d3 = A.ZyanListGetNodeDataMutable(f[i]), *d4 = (void*)1;
            ZyanStatus s1 = A.ZyanListGetNodeDataEx(f[i], &d2), s2 = A.ZyanListGetNodeDataMutableEx(f[i], &d4);
            CHECK(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS && d && d == d2 && d == d3 && d == d4, "%s: data accessors of node %zu disagree", when, i);
            CHECK(!memcmp(d, m[i].data.data(), es), "%s: data of node %zu of %zu differs from the model", when, i, n);
        }
        if (kind == FIXED)
        {
            std::vector<std::pair<uintptr_t, uintptr_t>> iv;
            for (auto& e : m)
            {
                uintptr_t d = (uintptr_t)A.ZyanListGetNodeData(e.node), lo = std::min<uintptr_t>(d, (uintptr_t)e.node), hi = std::max<uintptr_t>(d + es, (uintptr_t)e.node + sizeof(ZyanListNode));
                CHECK(lo >= (uintptr_t)buf.p && hi <= (uintptr_t)buf.p + buf.n, "%s: a node lies outside the fixed buffer", when);
                iv.push_back({lo, hi});
            }
            std::sort(iv.begin(), iv.end());
            for (size_t i = 1; i < iv.size(); ++i) CHECK(iv[i].first >= iv[i - 1].second, "%s: two nodes overlap", when);
        }
    }
    void check_destroyed(std::vector<std::string> exp, const char* when)
    {
        if (!dtor) { CHECK(destroyed.empty(), "destructor log"); return; }
        std::vector<std::string> got = destroyed;
        std::sort(exp.begin(), exp.end()); std::sort(got.begin(), got.end());
        CHECK(got == exp, "%s: %zu destructor call(s) %s, expected %zu", when, got.size(), got.size() == exp.size() ? "with other elements than expected" : "were made", exp.size());
        destroyed.clear();
    }
    void verify(const char* when, std::vector<std::string> d = {}) { check_destroyed(d, when); check_contents(when); }
    bool fits(size_t n) const { return kind != FIXED || n <= slots; }

    void init(Src& s, size_t n_slots, size_t extra)
    {
        ZyanStatus st;
        garble(s, l, sizeof *l);
        if (kind == RECORDED) { OP("ListInitEx", es); st = A.ZyanListInitEx(l, es, dt(), ra); }
        else if (kind == DEFAULT_ALLOC) { OP("ListInit", es); st = A.ZyanListInit(l, es, dt()); }
        else
        {
            size_t ns = sizeof(ZyanListNode) + es, cap = n_slots * ns + extra; if (!cap) cap = 1;
            OP("ListInitCustomBuffer", es, cap);
            buf.alloc(cap); slots = cap / ns;
            st = A.ZyanListInitCustomBuffer(l, es, dt(), buf.p, cap);
        }
        (void)s;
        CHECK(st == ZYAN_STATUS_SUCCESS, "list initialisation returned %s", STN(st));
        verify("after init");
    }
    void destroy()
    {
        OP("ListDestroy");
        ZyanStatus st = A.ZyanListDestroy(l);
        CHECK(st == ZYAN_STATUS_SUCCESS, "ListDestroy returned %s", STN(st));
        std::vector<std::string> d; for (auto& e : m) d.push_back(e.data);
        check_destroyed(d, "ListDestroy"); m.clear();
    }
    void expect(ZyanStatus st, bool accept, const char* what)
    {
        if (accept) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although it is valid", what, STN(st)); return; }
        CHECK(ZYAN_FAILED(st), "%s was accepted (%s) although it is invalid", what, STN(st)); LABEL("refused operation");
    }
    void expect_room(ZyanStatus st, const char* what)
    {
        if (fits(m.size() + 1)) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although a slot is free (%zu of %zu used)", what, STN(st), m.size(), slots); return; }
        CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s on a full fixed buffer (%zu slots) returned %s", what, slots, STN(st));
        LABEL("fixed buffer full");
    }
#define LUNCHANGED [&] { verify("after a refused allocation"); }
    void added(bool front, const std::string& x)
    {
        const ZyanListNode* n = front ? head() : tail(); CHECK(n, "no node after an insertion");
        if (m.size() < 1000) for (auto& e : m) CHECK(e.node != n, "the new node has the address of a live node");
        if (front) m.insert(m.begin(), El{x, n}); else m.push_back(El{x, n});
    }
    void op_push(Src& s)
    {
        bool front = s.flip(); std::string x = value(s); Guarded g; g.assign(x.data(), es);
        OP(front ? "PushFront" : "PushBack", x);
        ZyanStatus st = call(s, [&] { return front ? A.ZyanListPushFront(l, g.p) : A.ZyanListPushBack(l, g.p); }, LUNCHANGED);
        if (skipped(st)) return;
        expect_room(st, "push");
        if (ZYAN_SUCCESS(st)) added(front, x);
        verify("after push");
    }
    void op_emplace(Src& s)
    {
        bool front = s.flip(); int how = (int)s.weighted({3, 2, 2}); std::string x = value(s);
        ctor_value() = x; ctor_status() = how == 2 ? ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 0x30u, 0x12u) : ZYAN_STATUS_SUCCESS; ctor_calls() = 0;
        void* e = nullptr; ZyanMemberFunction ctor = how == 1 ? nullptr : &construct;
        OP(front ? "EmplaceFront" : "EmplaceBack", how, x);
        ZyanStatus st = call(s, [&] { return front ? A.ZyanListEmplaceFront(l, &e, ctor) : A.ZyanListEmplaceBack(l, &e, ctor); }, [&] { CHECK(!ctor_calls(), "constructor called although no memory was available"); verify("after a refused allocation"); });
        if (skipped(st)) return;
        if (!fits(m.size() + 1)) { expect_room(st, "emplacement"); CHECK(!ctor_calls(), "constructor called by a refused emplacement"); }
        else if (how == 2)
        {
            CHECK(ctor_calls() == 1, "constructor called %u times", ctor_calls());
            CHECK(st == ctor_status(), "constructor failed with 0x%08x but emplacement returned %s", (unsigned)ctor_status(), STN(st));
            LABEL("constructor failure");
        }
        else
        {
            expect_room(st, "emplacement");
            CHECK(ctor_calls() == (how == 0 ? 1u : 0u), "constructor called %u times", ctor_calls());
            if (how == 0) CHECK(ctor_arg() == e, "constructor got another address than the caller");
            if (how == 1) { CHECK(e, "no element address"); memcpy(e, x.data(), es); }
            added(front, x);
            CHECK(e == A.ZyanListGetNodeData(front ? head() : tail()), "emplacement reported a wrong element address");
            LABEL("emplacement");
        }
        verify("after emplacement");
    }
    void op_pop(Src& s)
    {
        bool front = s.flip();
        OP(front ? "PopFront" : "PopBack");
        ZyanStatus st = front ? A.ZyanListPopFront(l) : A.ZyanListPopBack(l);
        std::vector<std::string> d;
        if (m.empty()) expect(st, false, "pop of an empty list");
        else
        {
            expect(st, true, "pop");
            if (front) { d.push_back(m.front().data); m.erase(m.begin()); } else { d.push_back(m.back().data); m.pop_back(); }
        }
        verify("after pop", d);
    }
    void op_remove(Src& s)
    {
        if (m.empty()) return;
        size_t i = s.below(m.size()), n = s.flip() ? 1 : 1 + s.below(m.size() - i);
        bool one = n == 1 && s.flip();
        OP(one ? "Remove" : "RemoveRange", i, n);
        ZyanStatus st = one ? A.ZyanListRemove(l, m[i].node) : A.ZyanListRemoveRange(l, m[i].node, m[i + n - 1].node);
        expect(st, true, "removal");
        std::vector<std::string> d; for (size_t k = i; k < i + n; ++k) d.push_back(m[k].data);
        m.erase(m.begin() + i, m.begin() + i + n);
        LABEL_IF(i > 0 && i < m.size(), "removal from the middle"); LABEL_IF(n > 1, "range removal");
        verify("after removal", d);
    }
    void op_set(Src& s)
    {
        if (m.empty()) return;
        size_t i = s.below(m.size()); std::string x = value(s); if (s.chance(1, 8)) { x = m[i].data; LABEL("an element replaced by an equal one"); } Guarded g; g.assign(x.data(), es);
        std::vector<std::string> d;
        if (s.flip())
        {
            OP("SetNodeData", i, x);
            ZyanStatus st = A.ZyanListSetNodeData(l, m[i].node, g.p); expect(st, true, "SetNodeData");
            d.push_back(m[i].data);
        }
        else { OP("write through GetNodeDataMutable", i, x); memcpy(A.ZyanListGetNodeDataMutable(m[i].node), x.data(), es); }
        m[i].data = x;
        verify("after data update", d);
    }
    // brings the model up to date with nodes appended by a growing resize
    void sync_growth(Src& s, size_t target, const std::string& x, bool init)
    {
        size_t n = size();
        CHECK(n >= m.size() && n <= target, "size is %zu after growing from %zu to %zu", n, m.size(), target);
        auto f = walk(true, "after growth");
        CHECK(f.size() == n, "the forward walk visits %zu nodes, size is %zu", f.size(), n);
        for (size_t i = m.size(); i < n; ++i)
        {
            std::string y = x;
            if (!init) { y = value(s); memcpy(A.ZyanListGetNodeDataMutable(f[i]), y.data(), es); }
            if (n < 1000) for (auto& e : m) CHECK(e.node != f[i], "a new node has the address of a live node");
            m.push_back(El{y, f[i]});
        }
    }
    void op_resize(Src& s, size_t max)
    {
        int how = (int)s.weighted({3, 3, 1});
        op_resize_to(s, how == 2 ? 0 : s.size(max), how);
    }
    void op_resize_to(Src& s, size_t n, int how)
    {
        LABEL_IF(n >= 250, "more than 250 elements"); LABEL_IF(n > 32000, "more than 32000 elements");
        bool init = how == 1; std::string x = value(s); Guarded g; g.assign(x.data(), es);
        OP(how == 0 ? "Resize" : how == 1 ? "ResizeEx" : "Clear", n, x);
        ZyanStatus st = call(s, [&] { return how == 0 ? A.ZyanListResize(l, n) : how == 1 ? A.ZyanListResizeEx(l, n, g.p) : A.ZyanListClear(l); },
            [&] { if (n > m.size()) sync_growth(s, n - 1, x, init); verify("after a refused allocation"); });
        if (skipped(st)) return;
        std::vector<std::string> d;
        if (n <= m.size())
        {
            expect(st, true, "shrinking resize");
            for (size_t i = n; i < m.size(); ++i) d.push_back(m[i].data);
            LABEL_IF(d.size(), "shrinking resize");
            m.resize(n);
        }
        else if (fits(n))
        {
            expect(st, true, "growing resize"); sync_growth(s, n, x, init);
            CHECK(m.size() == n, "size is %zu after a successful resize to %zu", m.size(), n);
            LABEL("growing resize");
        }
        else
        {
            CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "resize to %zu on a fixed buffer with %zu slots returned %s", n, slots, STN(st));
            sync_growth(s, slots, x, init); LABEL("fixed buffer full");
        }
        verify("after resize", d);
    }
    // A removal during which the allocator refuses to take a node back. Whether the node concerned stays in the list or not, the list must
    // remain a list of the remaining elements, each destroyed element must be gone, and the refusal must be reported.
    uint64_t refused_releases = 0;
    void op_refused_release(Src& s)
    {
        if (kind != RECORDED) return;
        if (m.empty() || s.chance(1, 6))
        {
            // a failing constructor: the node goes back to the allocator, which refuses it
            bool front = s.flip(); std::string x = value(s); void* e = nullptr;
            ctor_value() = x; ctor_status() = ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 0x30u, 0x12u); ctor_calls() = 0;
            OP(front ? "EmplaceFront" : "EmplaceBack", x);
            note("the constructor fails and the allocator refuses to take the node back");
            ra->free_fail_from = ra->free_calls + 1; ra->free_fail_to = ra->free_fail_from + 1000000;
            ZyanStatus st = front ? A.ZyanListEmplaceFront(l, &e, &construct) : A.ZyanListEmplaceBack(l, &e, &construct);
            ra->free_fail_from = 0;
            CHECK(st == ctor_status() || st == INJECTED_STATUS, "the constructor and the release failed, and the emplacement returned %s", STN(st));
            refused_releases++; LABEL("refused release after a failed constructor");
            verify("after a failed constructor and a refused release");
            return;
        }
        int how = (int)s.weighted({2, 2, 2, 3, 4, 3});
        size_t a = 0, b = m.size();           // the elements the operation may remove
        switch (how)
        {
        case 0: b = 1; break;
        case 1: a = b - 1; break;
        case 2: a = s.below(m.size()); b = a + 1; break;
        case 3: a = s.below(m.size()); b = a + 1 + s.below(m.size() - a); break;
        case 4: a = s.below(m.size()); break;
        }
        uint64_t k = 1 + s.below(b - a), len = s.chance(1, 3) ? 1000000 : 1;
        static const char* const names[] = {"PopFront", "PopBack", "Remove", "RemoveRange", "Resize", "Clear"};
        OP(names[how], a, b, k, len);
        note("the allocator refuses release %zu%s of this operation", (size_t)k, len > 1 ? " and all following" : "");
        ra->free_fail_from = ra->free_calls + k; ra->free_fail_to = ra->free_fail_from + len;
        ZyanStatus st = how == 0 ? A.ZyanListPopFront(l) : how == 1 ? A.ZyanListPopBack(l) : how == 2 ? A.ZyanListRemove(l, m[a].node) :
            how == 3 ? A.ZyanListRemoveRange(l, m[a].node, m[b - 1].node) : how == 4 ? A.ZyanListResize(l, a) : A.ZyanListClear(l);
        uint64_t hit = ra->free_calls >= ra->free_fail_from; ra->free_fail_from = 0;
        CHECK(hit, "the operation released fewer than %zu nodes although it removes %zu", (size_t)k, b - a);
        CHECK(st == INJECTED_STATUS, "the allocator refused to release a node and %s returned %s", names[how], STN(st));
        refused_releases++; LABEL("refused release");
        // which elements are left?
        size_t n = size();
        CHECK(n < m.size() || dtor == false || destroyed.empty(), "elements were destroyed but none was removed");
        CHECK(n <= m.size(), "size is %zu after a removal from %zu elements", n, m.size());
        auto f = walk(true, "after a refused release");
        CHECK(f.size() == n, "after a refused release the forward walk visits %zu nodes, the size is %zu", f.size(), n);
        std::vector<El> left; std::vector<std::string> d; size_t j = 0;
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (j < n && f[j] == m[i].node) { left.push_back(m[i]); ++j; continue; }
            CHECK(i >= a && i < b, "after a refused release element %zu is missing although [%zu, %zu) was to be removed", i, a, b);
            d.push_back(m[i].data);
        }
        CHECK(j == n, "after a refused release the list contains a node that is none of its elements");
        m = left;
        verify("after a refused release", d);
    }
    void step(Src& s, size_t max)
    {
        switch (s.weighted({9, 5, 5, 6, 3, 2}))
        {
        case 0: op_push(s); break;
        case 1: op_emplace(s); break;
        case 2: op_pop(s); break;
        case 3: op_remove(s); break;
        case 4: op_set(s); break;
        default: op_resize(s, max); break;
        }
    }
};
