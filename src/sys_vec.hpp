// Model-based vector system.
#pragma once
#include "sys.hpp"

struct VecSys;
inline VecSys* g_vec_active = nullptr;

struct VecSys : SysBase
{
    enum Kind { RECORDED, DEFAULT_ALLOC, FIXED };
    // configuration
    Kind kind = RECORDED;
    size_t es = 1;
    bool dtor = false;
    bool check_cap = false;       // capacity policy (C02)
    bool exact_alloc_calls = false;
    unsigned growth = 2, shrink = 4;
    // state
    ZyanVector* v = nullptr;
    Guarded buf;                  // fixed buffer
    std::vector<std::string> m;
    size_t mcap = 0;              // modelled capacity
    uint64_t next_id = 1;
    unsigned alphabet = 0;        // 0: unique elements, else few distinct values
    // destructor log
    std::vector<std::string> destroyed;
    uint64_t total_destroyed = 0;
    static std::vector<VecSys*>& all() { static thread_local std::vector<VecSys*> a; return a; }
    // constructor behaviour
    static std::string& ctor_value() { static thread_local std::string s; return s; }
    static ZyanStatus& ctor_status() { static thread_local ZyanStatus s; return s; }
    static unsigned& ctor_calls() { static thread_local unsigned n; return n; }
    static void*& ctor_arg() { static thread_local void* p; return p; }

    explicit VecSys(const Api& a) : SysBase(a) { v = (ZyanVector*)malloc(sizeof(ZyanVector)); memset(v, 0xCC, sizeof *v); all().push_back(this); }
    ~VecSys() { free(v); all().erase(std::find(all().begin(), all().end(), this)); }
    VecSys(const VecSys&) = delete;

    // ---- callbacks
    static void on_destroy(void* p)
    {
        for (int pass = 0; pass < 2; ++pass)
            for (VecSys* s : all())
                if (s->dtor && (s->kind == DEFAULT_ALLOC) == (pass == 1) && s->owns(p)) { s->destroyed.push_back(std::string((char*)p, s->es)); s->total_destroyed++; memset(p, 0xDD, s->es); return; }
        FAIL("destructor called with an address outside every container");
    }
    bool owns(void* p) const
    {
        if (kind == FIXED) return inside(buf.p, buf.n, p);
        if (kind == RECORDED) { for (auto& b : ra->live) if (b.second.elem == es && inside((uint8_t*)b.first, b.second.elem * b.second.n, p)) return true; return false; }
        return true;
    }
    bool inside(const uint8_t* b, size_t n, void* p) const { uintptr_t d = (uintptr_t)p - (uintptr_t)b; return d < n && d % es == 0 && n - d >= es; }
    static ZyanStatus construct(void* p)
    {
        ctor_calls()++; ctor_arg() = p;
        if (ZYAN_SUCCESS(ctor_status())) memcpy(p, ctor_value().data(), ctor_value().size());
        else memset(p, 0xEE, ctor_value().size());
        return ctor_status();
    }
    ZyanMemberProcedure dt() const { return dtor ? &on_destroy : nullptr; }

    // ---- values
    std::string value(Src& s)
    {
        std::string r(es, 0);
        uint64_t id = alphabet ? s.below(alphabet) : next_id++;
        for (size_t i = 0; i < es; ++i) r[i] = i < 4 ? (char)(id >> (8 * i)) : (char)(id * 31 + i * 7 + (i >> 8) * 13 + 0x40);
        return r;
    }
    // ---- observation
    size_t size() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanVectorGetSize(v, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "VectorGetSize returned %s", STN(st)); return n; }
    size_t capacity() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanVectorGetCapacity(v, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "VectorGetCapacity returned %s", STN(st)); return n; }
    void check_contents(const char* when) const
    {
        size_t n = size();
        CHECK(n == m.size(), "%s: size is %zu, expected %zu", when, n, m.size());
        for (size_t i = 0; i < n; ++i)
        {
            const void* p = A.ZyanVectorGet(v, i);
            CHECK(p, "%s: VectorGet(%zu) of %zu returned NULL", when, i, n);
            CHECK(!memcmp(p, m[i].data(), es), "%s: element %zu of %zu differs from the model", when, i, n);
        }
    }
    void check_accessors(size_t i) const
    {
        const void* a = A.ZyanVectorGet(v, i); void* b = A.ZyanVectorGetMutable(v, i);
        const void* c = (void*)1; void* d = (void*)1;
        ZyanStatus s1 = A.ZyanVectorGetPointer(v, i, &c), s2 = A.ZyanVectorGetPointerMutable(v, i, &d);
        if (i < m.size())
        {
            CHECK(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS, "GetPointer(%zu) of %zu returned %s / %s", i, m.size(), STN(s1), STN(s2));
            CHECK(a && a == b && a == c && a == d, "accessors of element %zu disagree: %p %p %p %p", i, a, b, c, d);
        }
        else
        {
            CHECK(!a && !b, "Get(%zu) of a vector with %zu elements returned a pointer", i, m.size());
            CHECK(ZYAN_FAILED(s1) && ZYAN_FAILED(s2), "GetPointer(%zu) of %zu elements returned %s / %s", i, m.size(), STN(s1), STN(s2));
        }
    }
    void check_capacity(const char* when) const
    {
        size_t c = capacity();
        CHECK(c >= m.size() && c >= 1, "%s: capacity %zu with %zu elements", when, c, m.size());
        if (kind == FIXED) CHECK(c == mcap, "%s: capacity of a fixed buffer changed from %zu to %zu", when, mcap, c);
        if (check_cap) CHECK(c == mcap, "%s: capacity is %zu, policy says %zu (size %zu, growth factor %u, shrink threshold %u)", when, c, mcap, m.size(), growth, shrink);
        if (kind == RECORDED)
            for (auto& b : ra->live)
                if (m.size() && inside((uint8_t*)b.first, b.second.elem * b.second.n, (void*)A.ZyanVectorGet(v, 0)))
                    CHECK(b.second.n == c, "%s: capacity is %zu but the block holds %zu elements", when, c, b.second.n);
    }
    // the destructor log must equal exactly this list of elements (any order)
    void check_destroyed(std::vector<std::string> exp, const char* when)
    {
        if (!dtor) { CHECK(destroyed.empty(), "destructor log"); return; }
        std::vector<std::string> got = destroyed;
        std::sort(exp.begin(), exp.end()); std::sort(got.begin(), got.end());
        CHECK(got == exp, "%s: %zu destructor call(s) %s, expected %zu", when, got.size(), got.size() == exp.size() ? "with other elements than expected" : "were made", exp.size());
        destroyed.clear();
    }
    void verify(const char* when, std::vector<std::string> exp_destroyed = {}) { check_destroyed(exp_destroyed, when); check_contents(when); check_capacity(when); }

    // ---- capacity policy
    void grow(size_t need) { if (kind != FIXED && need > mcap) mcap = need * growth; }
    void maybe_shrink(size_t n) { if (kind != FIXED && shrink && n * shrink < mcap) { size_t c = std::max<size_t>(1, n * growth); if (c < mcap && !shrink_refused) mcap = c; } }
    bool fits(size_t n) const { return kind != FIXED || n <= mcap; }

    // ---- life cycle
    void configure(Src& s, RecAlloc* r)
    {
        ra = r;
        growth = (unsigned)s.weighted({4, 6, 2, 1, 1}) + 1;
        if (s.chance(1, 20)) growth = s.pick<unsigned>({7, 16, 255});
        shrink = s.pick<unsigned>({4, 0, 1, 2, 3, 4, 8, 255});
    }
    ZyanStatus init(Src& s, size_t cap)
    {
        ZyanStatus st = ZYAN_STATUS_SUCCESS;
        garble(s, v, sizeof *v);
        if (kind == RECORDED)
        {
            OP("InitEx", es, cap, growth, shrink);
            st = call(s, [&] { return A.ZyanVectorInitEx(v, es, cap, dt(), ra, (ZyanU8)growth, (ZyanU8)shrink); }, [&] { CHECK(ra->live.empty(), "failed initialisation left memory allocated"); });
        }
        else if (kind == DEFAULT_ALLOC)
        {
            OP("Init", es, cap); growth = ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR; shrink = ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD;
            st = call(s, [&] { return A.ZyanVectorInit(v, es, cap, dt()); }, [] {});
        }
        else
        {
            if (!cap) cap = 1;
            OP("InitCustomBuffer", es, cap); growth = 1; shrink = 0;
            buf.alloc(es * cap);
            st = A.ZyanVectorInitCustomBuffer(v, es, buf.p, cap, dt());
        }
        if (skipped(st)) return st;
        CHECK(st == ZYAN_STATUS_SUCCESS, "vector initialisation returned %s", STN(st));
        mcap = std::max<size_t>(ZYAN_VECTOR_MIN_CAPACITY, cap);
        verify("after init");
        return st;
    }
    void destroy()
    {
        OP("Destroy");
        ZyanStatus st = A.ZyanVectorDestroy(v);
        CHECK(st == ZYAN_STATUS_SUCCESS, "VectorDestroy returned %s", STN(st));
        check_destroyed(m, "VectorDestroy");
        m.clear();
        if (kind == FIXED) { free(buf.p); buf.p = nullptr; buf.n = 0; }
    }

    // an index below n; in big vectors often one close to the begin or the end, so that most elements have to move
    size_t index(Src& s, size_t n) { if (n > 1000 && s.flip()) { size_t i = s.below(4); return s.flip() ? n - 1 - i : i; } return s.below(n); }
    // ---- operations. `accept` = model says it must be accepted.
    void expect(ZyanStatus st, bool accept, const char* what)
    {
        if (accept) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although it is valid", what, STN(st)); return; }
        CHECK(ZYAN_FAILED(st), "%s was accepted (%s) although it is invalid", what, STN(st));
        LABEL("refused operation");
    }
    void expect_room(ZyanStatus st, size_t need, const char* what)
    {
        if (fits(need)) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although it fits (%zu of %zu)", what, STN(st), need, mcap); return; }
        CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s needs %zu of %zu elements of a fixed buffer but returned %s", what, need, mcap, STN(st));
        LABEL("fixed buffer full");
    }
#define UNCHANGED [&] { verify("after a refused allocation"); }

    void op_push(Src& s)
    {
        std::string x = value(s); Guarded g; g.assign(x.data(), es);
        OP("PushBack", x);
        ZyanStatus st = call(s, [&] { return A.ZyanVectorPushBack(v, g.p); }, UNCHANGED);
        if (skipped(st)) return;
        expect_room(st, m.size() + 1, "PushBack");
        if (ZYAN_SUCCESS(st)) { grow(m.size() + 1); m.push_back(x); }
        verify("after PushBack");
    }
    void op_insert(Src& s, size_t max_count, bool wild)
    {
        bool one = s.flip();
        size_t n = one ? 1 : s.size(max_count), idx = wild ? s.wild_index(m.size()) : index(s, m.size() + 1);
        std::string all; std::vector<std::string> xs;
        for (size_t i = 0; i < n; ++i) { xs.push_back(value(s)); all += xs.back(); }
        Guarded g; g.assign(all.data(), all.size());
        OP(one ? "Insert" : "InsertRange", idx, n, all);
        ZyanStatus st = call(s, [&] { return one ? A.ZyanVectorInsert(v, idx, g.p) : A.ZyanVectorInsertRange(v, idx, g.p, n); }, UNCHANGED);
        if (skipped(st)) return;
        if (idx > m.size()) expect(st, false, "insertion beyond the end");
        else if (n == 0) { if (ZYAN_FAILED(st)) LABEL("refused operation"); }
        else
        {
            expect_room(st, m.size() + n, "insertion");
            if (ZYAN_SUCCESS(st)) { LABEL_IF(idx < m.size(), "insertion before the end"); grow(m.size() + n); m.insert(m.begin() + idx, xs.begin(), xs.end()); }
        }
        verify("after insertion");
    }
    void op_emplace(Src& s, bool wild)
    {
        bool end = s.flip(); int how = (int)s.weighted({3, 2, 2}); // constructor / none / failing constructor
        size_t idx = end ? m.size() : wild ? s.wild_index(m.size()) : index(s, m.size() + 1);
        std::string x = value(s);
        ctor_value() = x; ctor_status() = how == 2 ? ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 0x30u, 0x11u) : ZYAN_STATUS_SUCCESS; ctor_calls() = 0;
        void* e = nullptr;
        OP(end ? "Emplace" : "EmplaceEx", idx, how, x);
        ZyanMemberFunction ctor = how == 1 ? nullptr : &construct;
        ZyanStatus st = call(s, [&] { return end ? A.ZyanVectorEmplace(v, &e, ctor) : A.ZyanVectorEmplaceEx(v, idx, &e, ctor); }, [&] { CHECK(!ctor_calls(), "constructor called although no memory was available"); verify("after a refused allocation"); });
        if (skipped(st)) return;
        if (idx > m.size()) { expect(st, false, "emplacement beyond the end"); CHECK(!ctor_calls(), "constructor called by a refused emplacement"); }
        else if (!fits(m.size() + 1)) { expect_room(st, m.size() + 1, "emplacement"); CHECK(!ctor_calls(), "constructor called by a refused emplacement"); }
        else if (how == 2)
        {
            grow(m.size() + 1);
            if (!check_cap) mcap = kind == FIXED ? mcap : capacity();
            CHECK(st == ctor_status(), "constructor failed with 0x%08x but emplacement returned %s", (unsigned)ctor_status(), STN(st));
            CHECK(ctor_calls() == 1, "constructor called %u times", ctor_calls());
            LABEL("constructor failure");
        }
        else
        {
            expect_room(st, m.size() + 1, "emplacement");
            grow(m.size() + 1);
            CHECK(ctor_calls() == (how == 0 ? 1u : 0u), "constructor called %u times", ctor_calls());
            if (how == 0) CHECK(ctor_arg() == e, "constructor got another address than the caller");
            CHECK(e && e == A.ZyanVectorGet(v, idx), "emplacement reported a wrong element address");
            if (how == 1) memcpy(e, x.data(), es);
            m.insert(m.begin() + idx, x);
            LABEL("emplacement");
        }
        verify("after emplacement");
    }
    void op_set(Src& s, bool wild)
    {
        size_t idx = wild ? s.wild_index(m.size()) : index(s, m.size());
        std::string x = value(s); if (idx < m.size() && s.chance(1, 8)) { x = m[idx]; LABEL("an element replaced by an equal one"); } Guarded g; g.assign(x.data(), es);
        OP("Set", idx, x);
        ZyanStatus st = A.ZyanVectorSet(v, idx, g.p);
        std::vector<std::string> d;
        if (idx >= m.size()) expect(st, false, "Set beyond the end");
        else { expect(st, true, "Set"); d.push_back(m[idx]); m[idx] = x; }
        verify("after Set", d);
    }
    void op_poke(Src& s)
    {
        if (m.empty()) return;
        size_t idx = index(s, m.size()); std::string x = value(s);
        OP("write through GetMutable", idx, x);
        void* p = A.ZyanVectorGetMutable(v, idx); CHECK(p, "GetMutable returned NULL");
        memcpy(p, x.data(), es); m[idx] = x;
        verify("after write");
    }
    void op_swap(Src& s, bool wild)
    {
        size_t a = wild ? s.wild_index(m.size()) : s.below(m.size()), b = s.below(m.size() + (wild ? 1 : 0));
        OP("SwapElements", a, b);
        size_t cap = capacity();
        ZyanStatus st = A.ZyanVectorSwapElements(v, a, b);
        if (a >= m.size() || b >= m.size()) expect(st, false, "swap beyond the end");
        else if (m.size() == cap) { if (ZYAN_SUCCESS(st)) std::swap(m[a], m[b]); else CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "swap without spare capacity returned %s", STN(st)); }
        else { expect(st, true, "swap"); std::swap(m[a], m[b]); LABEL_IF(a != b, "swap"); }
        verify("after swap");
    }
    void op_delete(Src& s, bool wild)
    {
        bool one = s.flip();
        size_t idx, n;
        if (one) { idx = wild ? s.wild_index(m.size()) : index(s, m.size()); n = 1; }
        else if (wild) { idx = s.wild_index(m.size()); n = s.wild_index(m.size()); }
        else { idx = index(s, m.size() + 1); n = s.size(m.size() - idx); }
        OP(one ? "Delete" : "DeleteRange", idx, n);
        bool valid = idx <= m.size() && n <= m.size() - idx;
        ZyanStatus st = call(s, [&] { return one ? A.ZyanVectorDelete(v, idx) : A.ZyanVectorDeleteRange(v, idx, n); }, UNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        std::vector<std::string> d;
        if (!valid) expect(st, false, "deletion beyond the end");
        else if (n == 0) { if (ZYAN_SUCCESS(st)) maybe_shrink(m.size()); if (check_cap) mcap = capacity() < mcap ? capacity() : mcap; }
        else
        {
            expect(st, true, "deletion");
            d.assign(m.begin() + idx, m.begin() + idx + n);
            m.erase(m.begin() + idx, m.begin() + idx + n);
            maybe_shrink(m.size());
            LABEL_IF(idx < m.size(), "deletion before the end");
        }
        verify("after deletion", d);
    }
    void op_pop(Src& s)
    {
        OP("PopBack");
        ZyanStatus st = call(s, [&] { return A.ZyanVectorPopBack(v); }, UNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        std::vector<std::string> d;
        if (m.empty()) expect(st, false, "PopBack of an empty vector");
        else { expect(st, true, "PopBack"); d.push_back(m.back()); m.pop_back(); maybe_shrink(m.size()); }
        verify("after PopBack", d);
    }
    void op_resize(Src& s, size_t max)
    {
        int how = (int)s.weighted({3, 3, 1}); // Resize, ResizeEx, Clear
        size_t n = how == 2 ? 0 : s.size(max);
        std::string x = value(s); Guarded g; g.assign(x.data(), es);
        bool init = how == 1;
        OP(how == 0 ? "Resize" : how == 1 ? "ResizeEx" : "Clear", n, x);
        bool smaller = n < m.size();
        ZyanStatus st = call(s, [&] { return how == 0 ? A.ZyanVectorResize(v, n) : how == 1 ? A.ZyanVectorResizeEx(v, n, g.p) : A.ZyanVectorClear(v); }, UNCHANGED,
            MAY_SUCCEED);
        if (skipped(st)) return;
        std::vector<std::string> d;
        expect_room(st, n, "resize");
        if (ZYAN_SUCCESS(st))
        {
            if (shrink_refused) CHECK(n <= mcap, "resize to %zu succeeded although the allocator refused memory (capacity %zu)", n, mcap);
            size_t old = m.size();
            if (n != old) { grow(n); maybe_shrink(n); }
            for (size_t i = n; i < old; ++i) d.push_back(m[i]);
            CHECK(size() == n, "size is %zu after a resize to %zu", size(), n);
            m.resize(n);
            for (size_t i = old; i < n; ++i)
            {
                m[i] = x;
                if (!init) { x = value(s); m[i] = x; void* p = A.ZyanVectorGetMutable(v, i); CHECK(p, "GetMutable of a resized element returned NULL"); memcpy(p, x.data(), es); }
            }
            LABEL_IF(smaller, "shrinking resize"); LABEL_IF(n > old && init, "growing resize with initializer");
        }
        verify("after resize", d);
    }
    void op_reserve(Src& s, size_t max)
    {
        if (s.chance(3, 4))
        {
            size_t n = s.size(max);
            OP("Reserve", n);
            ZyanStatus st = call(s, [&] { return A.ZyanVectorReserve(v, n); }, UNCHANGED);
            if (skipped(st)) return;
            expect_room(st, n, "Reserve");
            if (ZYAN_SUCCESS(st))
            {
                size_t c = capacity();
                CHECK(c >= n, "Reserve(%zu) succeeded with capacity %zu", n, c);
                if (kind != FIXED && n > mcap) mcap = c;
            }
            verify("after Reserve");
        }
        else
        {
            OP("ShrinkToFit");
            ZyanStatus st = call(s, [&] { return A.ZyanVectorShrinkToFit(v); }, UNCHANGED);
            if (skipped(st)) return;
            expect(st, true, "ShrinkToFit");
            if (kind != FIXED) { mcap = std::max<size_t>(1, m.size()); if (!m.empty() || capacity() == 1) {} }
            verify("after ShrinkToFit");
        }
    }
    // many elements at once
    void op_bulk(Src& s, size_t n)
    {
        std::string all; std::vector<std::string> xs; size_t idx = s.below(m.size() + 1), a = alphabet; alphabet = 0;
        for (size_t i = 0; i < n; ++i) { xs.push_back(value(s)); all += xs.back(); }
        alphabet = (unsigned)a; Guarded g; g.assign(all.data(), all.size());
        OP("InsertRange of many", idx, n);
        ZyanStatus st = A.ZyanVectorInsertRange(v, idx, g.p, n);
        expect_room(st, m.size() + n, "insertion");
        if (ZYAN_SUCCESS(st)) { grow(m.size() + n); m.insert(m.begin() + idx, xs.begin(), xs.end()); LABEL_IF(n >= 250, "more than 250 elements"); LABEL_IF(n > 32000, "more than 32000 elements"); }
        verify("after insertion of many");
    }
    // one random operation
    void step(Src& s, bool wild, size_t max)
    {
        switch (s.weighted({8, 6, 4, 3, 2, 3, 5, 4, 4, 2}))
        {
        case 0: op_push(s); break;
        case 1: op_insert(s, 12, wild && s.chance(1, 6)); break;
        case 2: op_emplace(s, wild && s.chance(1, 6)); break;
        case 3: if (m.empty() && !wild) op_push(s); else op_set(s, wild && s.chance(1, 4)); break;
        case 4: op_poke(s); break;
        case 5: op_swap(s, wild && s.chance(1, 6)); break;
        case 6: op_delete(s, wild && s.chance(1, 4)); break;
        case 7: op_pop(s); break;
        case 8: op_resize(s, max); break;
        default: op_reserve(s, max * 2); break;
        }
    }
    // duplicates `src` into this (uninitialised) system; returns false if refused
    bool duplicate_from(Src& s, VecSys& src, size_t cap)
    {
        es = src.es; dtor = src.dtor; alphabet = src.alphabet; m.clear(); next_id = src.next_id + 1000000;
        ZyanStatus st;
        if (kind == RECORDED)
        {
            OP("DuplicateEx", cap, growth, shrink);
            st = call(s, [&] { return A.ZyanVectorDuplicateEx(v, src.v, cap, ra, (ZyanU8)growth, (ZyanU8)shrink); }, [&] { CHECK(ra->live.empty(), "failed duplication left memory allocated"); });
            if (skipped(st)) return false;
            CHECK(st == ZYAN_STATUS_SUCCESS, "DuplicateEx returned %s", STN(st));
            mcap = std::max<size_t>(1, std::max(cap, src.m.size()));
        }
        else if (kind == DEFAULT_ALLOC)
        {
            OP("Duplicate", cap); growth = ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR; shrink = ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD;
            st = call(s, [&] { return A.ZyanVectorDuplicate(v, src.v, cap); }, [] {});
            if (skipped(st)) return false;
            CHECK(st == ZYAN_STATUS_SUCCESS, "Duplicate returned %s", STN(st));
            mcap = std::max<size_t>(1, std::max(cap, src.m.size()));
        }
        else
        {
            if (!cap) cap = 1;
            growth = 1; shrink = 0;
            OP("DuplicateCustomBuffer", cap);
            buf.alloc(cap * es);
            st = A.ZyanVectorDuplicateCustomBuffer(v, src.v, buf.p, cap);
            if (cap < src.m.size())
            {
                CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "DuplicateCustomBuffer of %zu elements into %zu returned %s", src.m.size(), cap, STN(st));
                for (size_t i = 0; i < buf.n; ++i) CHECK(buf.p[i] == 0xC3, "refused duplication wrote into the buffer");
                LABEL("fixed buffer full");
                return false;
            }
            CHECK(st == ZYAN_STATUS_SUCCESS, "DuplicateCustomBuffer returned %s", STN(st));
            mcap = cap;
        }
        m = src.m;
        LABEL_IF(!m.empty(), "duplicate");
        verify("duplicate");
        return true;
    }
};
