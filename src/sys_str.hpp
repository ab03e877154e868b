// Model-based string system, views of equal text over different memory, number and format oracles.
#pragma once
#include "sys.hpp"

// Text generator. kind: 0 two letters, 1 mixed-case letters, 2 printable, 3 any byte
inline char gen_char(Src& s, unsigned kind)
{
    switch (kind)
    {
    case 0: return "ab"[s.below(2)];
    case 1: return "abABzZyY"[s.below(8)];
    case 2: return s.pick<char>({'a', 'A', 'z', 'Z', '@', '[', '`', '{', '0', '9', ' ', '_', 'k', 'K', '-', '~'});
    default:
        if (s.chance(1, 3)) return s.pick<char>({0, 'a', 'A', 'z', 'Z', '@', '[', '`', '{', (char)0x80, (char)0xFF, (char)0xC1, (char)0xE1, 0x1F, 0x7F});
        return (char)s.byte();
    }
}
// a long text from few choices
inline std::string big_text(Src& s, unsigned kind, size_t n)
{
    Src q; q.gen = false; uint64_t x = s.raw(4) * 2654435761u + 1; q.buf.resize(n * 2 + 16);
    for (auto& b : q.buf) { x = x * 6364136223846793005ull + 1442695040888963407ull; b = (uint8_t)(x >> 33); }
    std::string r(n, 0); for (auto& c : r) c = gen_char(q, kind);
    LABEL_IF(n >= 250, "more than 250 characters"); LABEL_IF(n > 32000, "more than 32000 characters");
    return r;
}
inline std::string gen_text(Src& s, unsigned kind, size_t max)
{
    std::string r; size_t n = s.size(max);
    if (size_t big = max > 3 ? s.large(600, 16000) : 0) return big_text(s, kind, big);
    for (size_t i = 0; i < n; ++i) r.push_back(gen_char(s, kind));
    return r;
}
inline char ascii_lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline char ascii_upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
inline std::string lower(std::string t) { for (auto& c : t) c = ascii_lower(c); return t; }

// A view of `text` made in one of several ways; the memory around it is exact or poisoned with look-alikes.
struct ViewBox
{
    const Api& A;
    ZyanStringView view;
    Guarded mem; std::string before; // memory the view lives in, and its expected bytes
    ZyanString owner;
    std::string text;
    unsigned mode = 0;
    std::unique_ptr<RecAlloc> oa; uint64_t oa_total = 0; const char* odata = nullptr; // allocator of a dynamic owner
    explicit ViewBox(const Api& a) : A(a) { memset(&view, 0xCD, sizeof view); memset(&owner, 0xCD, sizeof owner); }
    ~ViewBox() { if (oa && odata) A.ZyanStringDestroy(&owner); }
    ViewBox(const ViewBox&) = delete;
    const ZyanStringView* get() const { return mode == DYNAMIC ? ZYAN_STRING_TO_VIEW(&owner) : &view; }
    enum { EXACT, CSTRING, SUBVIEW, COPY, STRING, SUBSTRING, DYNAMIC, DYNVIEW, N_MODES };
    static const char* mode_name(unsigned m) { static const char* n[] = {"exact buffer", "C string", "sub-view", "view of view", "string", "sub-view of string", "allocated string", "view of an allocated string"}; return n[m]; }
    std::string owner_bytes() const { ZyanUSize c = 0; A.ZyanStringGetCapacity(&owner, &c); return std::string(odata, c + 1); }
    void make(Src& s, const std::string& t) { make(s, t, (unsigned)s.below(N_MODES)); }
    void make(Src& s, const std::string& t, unsigned m)
    {
        text = t; mode = m;
        if (t.empty() && (mode == EXACT || mode == COPY)) mode = SUBVIEW;
        if (t.find('\0') != std::string::npos && mode == CSTRING) mode = EXACT;
        ZyanStatus st = ZYAN_STATUS_SUCCESS;
        if (mode == DYNAMIC || mode == DYNVIEW)
        {
            mem.alloc(0); oa.reset(new RecAlloc); oa->name = "allocator of a source string";
            st = A.ZyanStringInitEx(&owner, s.flip() ? t.size() : s.size(80), oa.get(), (ZyanU8)s.range(1, 3), (ZyanU8)s.pick<int>({0, 4}));
            if (st == ZYAN_STATUS_SUCCESS) st = A.ZyanStringGetData(&owner, &odata);
            if (st == ZYAN_STATUS_SUCCESS) st = A.ZyanStringResize(&owner, t.size());
            for (size_t i = 0; i < t.size() && st == ZYAN_STATUS_SUCCESS; ++i) st = A.ZyanStringSetChar(&owner, i, t[i]);
            if (st == ZYAN_STATUS_SUCCESS) st = A.ZyanStringGetData(&owner, &odata);
            if (st == ZYAN_STATUS_SUCCESS && mode == DYNVIEW) st = A.ZyanStringViewInsideView(&view, ZYAN_STRING_TO_VIEW(&owner));
            CHECK(st == ZYAN_STATUS_SUCCESS, "creating a string of %zu characters returned %s", t.size(), STN(st));
            oa_total = oa->total(); before = owner_bytes();
            return;
        }
        if (mode == EXACT || mode == COPY)
        {
            mem.assign(t.data(), t.size());
            st = A.ZyanStringViewInsideBufferEx(&view, (const char*)mem.p, t.size());
            if (mode == COPY && st == ZYAN_STATUS_SUCCESS) { ZyanStringView v2 = view; memset(&view, 0xCD, sizeof view); st = A.ZyanStringViewInsideView(&view, &v2); }
        }
        else if (mode == CSTRING)
        {
            mem.assign(t.c_str(), t.size() + 1);
            st = A.ZyanStringViewInsideBuffer(&view, (const char*)mem.p);
        }
        else
        {
            bool sub = mode != STRING;
            std::string pre = sub ? gen_text(s, (unsigned)s.below(4), 6) : "", post = sub ? gen_text(s, (unsigned)s.below(4), 6) : "";
            if (mode == SUBVIEW && pre.empty() && post.empty() && t.empty()) pre = "x";
            std::string all = pre + t + post;
            if (mode == SUBVIEW)
            {
                mem.assign(all.data(), all.size());
                ZyanStringView w; memset(&w, 0xCD, sizeof w);
                st = A.ZyanStringViewInsideBufferEx(&w, (const char*)mem.p, all.size());
                if (st == ZYAN_STATUS_SUCCESS) st = A.ZyanStringViewInsideViewEx(&view, &w, pre.size(), t.size());
            }
            else
            {
                mem.alloc(all.size() + 1);
                st = A.ZyanStringInitCustomBuffer(&owner, (char*)mem.p, all.size() + 1);
                if (st == ZYAN_STATUS_SUCCESS) st = A.ZyanStringResize(&owner, all.size());
                memcpy(mem.p, all.data(), all.size());
                if (st == ZYAN_STATUS_SUCCESS) st = sub ? A.ZyanStringViewInsideViewEx(&view, ZYAN_STRING_TO_VIEW(&owner), pre.size(), t.size()) : A.ZyanStringViewInsideView(&view, ZYAN_STRING_TO_VIEW(&owner));
            }
        }
        CHECK(st == ZYAN_STATUS_SUCCESS, "creating a view (%s) of %zu characters returned %s", mode_name(mode), t.size(), STN(st));
        before.assign((const char*)mem.p, mem.n);
    }
    void intact(const char* when) const
    {
        if (oa)
        {
            const char* p = nullptr; A.ZyanStringGetData(&owner, &p);
            CHECK(oa->total() == oa_total && p == odata && owner_bytes() == before, "%s: the source string was modified, or its allocator was used", when);
            return;
        }
        CHECK(!memcmp(mem.p, before.data(), mem.n), "%s: the memory of a view was modified", when);
    }
};

inline std::string dec_of(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
inline std::string hex_of(uint64_t v, bool up) { char b[32]; snprintf(b, sizeof b, up ? "%llX" : "%llx", (unsigned long long)v); return b; }
inline std::string zero_padded(std::string d, size_t w) { return d.size() < w ? std::string(w - d.size(), '0') + d : d; }

struct StrSys : SysBase
{
    enum Kind { RECORDED, DEFAULT_ALLOC, FIXED };
    Kind kind = RECORDED;
    unsigned growth = 2, shrink = 4;
    ZyanString* str = nullptr;
    Guarded buf;
    std::string m;
    unsigned alpha = 3;

    explicit StrSys(const Api& a) : SysBase(a) { str = (ZyanString*)malloc(sizeof *str); memset(str, 0xCC, sizeof *str); }
    ~StrSys() { free(str); }
    StrSys(const StrSys&) = delete;

    size_t size() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanStringGetSize(str, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "StringGetSize returned %s", STN(st)); return n; }
    size_t capacity() const { ZyanUSize n = 0x5A5A; ZyanStatus st = A.ZyanStringGetCapacity(str, &n); CHECK(st == ZYAN_STATUS_SUCCESS, "StringGetCapacity returned %s", STN(st)); return n; }
    const char* data() const { const char* p = nullptr; ZyanStatus st = A.ZyanStringGetData(str, &p); CHECK(st == ZYAN_STATUS_SUCCESS && p, "StringGetData returned %s", STN(st)); return p; }
    void verify(const char* when) const
    {
        size_t n = size(), c = capacity(); const char* p = data();
        CHECK(n == m.size(), "%s: size is %zu, expected %zu", when, n, m.size());
        CHECK(!memcmp(p, m.data(), n), "%s: the characters differ from the model", when);
        CHECK(p[n] == 0, "%s: the string is not NUL-terminated (0x%02x follows)", when, (unsigned char)p[n]);
        CHECK(c >= n, "%s: capacity %zu is below the size %zu", when, c, n);
        if (kind == FIXED)
        {
            CHECK(c + 1 == buf.n, "%s: capacity is %zu with a buffer of %zu bytes", when, c, buf.n);
            CHECK((const uint8_t*)p == buf.p, "%s: the string left its buffer", when);
        }
        if (kind == RECORDED)
        {
            auto it = ra->live.find((void*)p);
            CHECK(it != ra->live.end(), "%s: the characters are not in a live block", when);
            CHECK(it->second.elem * it->second.n == c + 1, "%s: capacity is %zu but the block has %zu bytes", when, c, it->second.elem * it->second.n);
        }
    }
    void check_char(size_t i) const
    {
        char c = 'Q', *pc = nullptr;
        ZyanStatus s1 = A.ZyanStringGetChar(ZYAN_STRING_TO_VIEW(str), i, &c), s2 = A.ZyanStringGetCharMutable(str, i, &pc);
        if (i < m.size()) CHECK(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS && c == m[i] && pc == data() + i, "character access at %zu of %zu: %s / %s", i, m.size(), STN(s1), STN(s2));
        else CHECK(ZYAN_FAILED(s1) && ZYAN_FAILED(s2), "character access at %zu of %zu was accepted", i, m.size());
    }
    bool fits(size_t n) const { return kind != FIXED || n + 1 <= buf.n; }
    void expect(ZyanStatus st, bool accept, const char* what)
    {
        if (accept) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although it is valid", what, STN(st)); return; }
        CHECK(ZYAN_FAILED(st), "%s was accepted (%s) although it is invalid", what, STN(st)); LABEL("refused edit");
    }
    void expect_room(ZyanStatus st, size_t n, const char* what)
    {
        if (fits(n)) { CHECK(ZYAN_SUCCESS(st), "%s was refused with %s although %zu characters fit", what, STN(st), n); return; }
        CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s: %zu characters do not fit into %zu bytes but the result is %s", what, n, buf.n, STN(st));
        LABEL("fixed buffer full");
    }
#define SUNCHANGED [&] { verify("after a refused allocation"); }

    // ---- life cycle
    void configure(Src& s, RecAlloc* r)
    {
        ra = r;
        growth = (unsigned)s.weighted({4, 6, 2, 1}) + 1;
        shrink = s.pick<unsigned>({4, 0, 1, 2, 3, 8, 255});
        alpha = (unsigned)s.below(4);
    }
    void set_default_policy() { growth = ZYAN_STRING_DEFAULT_GROWTH_FACTOR; shrink = ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD; }
    // the initial capacity of an allocated string is never below the documented minimum
    void check_min_capacity() const { if (kind != FIXED) CHECK(capacity() >= ZYAN_STRING_MIN_CAPACITY, "the initial capacity of an allocated string is %zu, below the minimum %d", capacity(), ZYAN_STRING_MIN_CAPACITY); }
    ZyanStatus init(Src& s, size_t cap)
    {
        ZyanStatus st;
        garble(s, str, sizeof *str);
        m.clear();
        if (kind == RECORDED)
        {
            OP("StringInitEx", cap, growth, shrink);
            st = call(s, [&] { return A.ZyanStringInitEx(str, cap, ra, (ZyanU8)growth, (ZyanU8)shrink); }, [&] { CHECK(ra->live.empty(), "failed initialisation left memory allocated"); });
            if (skipped(st)) return st;
        }
        else if (kind == DEFAULT_ALLOC) { OP("StringInit", cap); st = call(s, [&] { return A.ZyanStringInit(str, cap); }, [] {}); if (skipped(st)) return st; }
        else { OP("StringInitCustomBuffer", cap + 1); buf.alloc(cap + 1); st = A.ZyanStringInitCustomBuffer(str, (char*)buf.p, cap + 1); }
        CHECK(st == ZYAN_STATUS_SUCCESS, "string initialisation returned %s", STN(st));
        CHECK(capacity() >= cap, "capacity is %zu after initialisation with %zu", capacity(), cap);
        check_min_capacity();
        verify("after init");
        return st;
    }
    void destroy()
    {
        OP("StringDestroy");
        ZyanStatus st = A.ZyanStringDestroy(str);
        CHECK(st == ZYAN_STATUS_SUCCESS, "StringDestroy returned %s", STN(st));
    }
    // creates this string as duplicate (t2 == null) or concatenation; false if refused
    bool build_from(Src& s, const std::string& t1, const std::string* t2, size_t cap)
    {
        ViewBox v1(A), v2(A); v1.make(s, t1); if (t2) v2.make(s, *t2);
        std::string r = t1 + (t2 ? *t2 : "");
        ZyanStatus st;
        garble(s, str, sizeof *str);
        if (kind == RECORDED)
        {
            OP(t2 ? "ConcatEx" : "DuplicateEx", t1, t2 ? *t2 : "", cap);
            st = call(s, [&] { return t2 ? A.ZyanStringConcatEx(str, v1.get(), v2.get(), cap, ra, (ZyanU8)growth, (ZyanU8)shrink) : A.ZyanStringDuplicateEx(str, v1.get(), cap, ra, (ZyanU8)growth, (ZyanU8)shrink); },
                [&] { CHECK(ra->live.empty(), "failed duplication left memory allocated"); });
            if (skipped(st)) return false;
        }
        else if (kind == DEFAULT_ALLOC) { OP(t2 ? "Concat" : "Duplicate", t1, t2 ? *t2 : "", cap); st = call(s, [&] { return t2 ? A.ZyanStringConcat(str, v1.get(), v2.get(), cap) : A.ZyanStringDuplicate(str, v1.get(), cap); }, [] {}); if (skipped(st)) return false; }
        else
        {
            OP(t2 ? "ConcatCustomBuffer" : "DuplicateCustomBuffer", t1, t2 ? *t2 : "", cap + 1);
            buf.alloc(cap + 1);
            st = t2 ? A.ZyanStringConcatCustomBuffer(str, v1.get(), v2.get(), (char*)buf.p, cap + 1) : A.ZyanStringDuplicateCustomBuffer(str, v1.get(), (char*)buf.p, cap + 1);
            if (!fits(r.size()))
            {
                CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%zu characters do not fit into %zu bytes but the result is %s", r.size(), buf.n, STN(st));
                v1.intact("duplication"); LABEL("fixed buffer full");
                return false;
            }
        }
        CHECK(st == ZYAN_STATUS_SUCCESS, "%s returned %s", t2 ? "concatenation" : "duplication", STN(st));
        m = r;
        CHECK(capacity() >= cap, "capacity is %zu, requested %zu", capacity(), cap);
        check_min_capacity();
        v1.intact("duplication"); if (t2) v2.intact("concatenation");
        verify(t2 ? "concatenation" : "duplicate");
        LABEL_IF(!t2, "duplicate"); LABEL_IF(t2, "concatenation");
        return true;
    }

    // ---- edits
    size_t pick_index(Src& s, bool wild, size_t n) { return wild && s.chance(1, 4) ? s.wild_index(n) : s.below(n + 1); }
    void op_insert(Src& s, bool wild, size_t max)
    {
        ViewBox v(A); std::string t = gen_text(s, alpha, max); v.make(s, t);
        int how = (int)s.below(4); // Append, AppendEx, Insert, InsertEx
        size_t at = how >= 2 ? pick_index(s, wild, m.size()) : m.size();
        bool part = how & 1;
        size_t si = 0, n = t.size();
        if (part) { si = pick_index(s, wild, t.size()); n = si <= t.size() && !(wild && s.chance(1, 5)) ? s.below(t.size() - si + 1) : s.wild_index(t.size()); }
        static const char* names[] = {"Append", "AppendEx", "Insert", "InsertEx"};
        OP(names[how], at, t, si, n, v.mode);
        ZyanStatus st = call(s, [&] {
            switch (how)
            {
            case 0: return A.ZyanStringAppend(str, v.get());
            case 1: return A.ZyanStringAppendEx(str, v.get(), si, n);
            case 2: return A.ZyanStringInsert(str, at, v.get());
            default: return A.ZyanStringInsertEx(str, at, v.get(), si, n);
            } }, SUNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        v.intact("insertion");
        bool valid = at <= m.size() && si <= t.size() && n <= t.size() - si;
        if (!valid) expect(st, false, "insertion with an invalid index or range");
        else if (n == 0) { LABEL("empty insertion"); }
        else
        {
            expect_room(st, m.size() + n, "insertion");
            if (ZYAN_SUCCESS(st)) { LABEL_IF(at < m.size(), "insertion before the end"); m.insert(at, t, si, n); }
        }
        verify("after insertion");
    }
    void op_delete(Src& s, bool wild)
    {
        bool trunc = s.chance(1, 3);
        size_t at = pick_index(s, wild, m.size()), n = 0;
        if (!trunc) n = at <= m.size() && !(wild && s.chance(1, 5)) ? s.size(m.size() - at) : s.wild_index(m.size());
        OP(trunc ? "Truncate" : "Delete", at, n);
        ZyanStatus st = call(s, [&] { return trunc ? A.ZyanStringTruncate(str, at) : A.ZyanStringDelete(str, at, n); }, SUNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        bool valid = at <= m.size() && n <= m.size() - at;
        if (!valid) expect(st, false, "deletion with an invalid index or range");
        else
        {
            size_t k = trunc ? m.size() - at : n;
            if (k) { expect(st, true, "deletion"); LABEL_IF(at + k < m.size(), "deletion before the end"); m.erase(at, k); }
        }
        verify("after deletion");
    }
    void op_setchar(Src& s, bool wild)
    {
        size_t i = pick_index(s, wild, m.size()); char c = gen_char(s, alpha);
        if (s.flip())
        {
            OP("SetChar", i, (unsigned char)c);
            ZyanStatus st = A.ZyanStringSetChar(str, i, c);
            expect(st, i < m.size(), "SetChar");
        }
        else
        {
            OP("write through GetCharMutable", i, (unsigned char)c);
            char* p = nullptr; ZyanStatus st = A.ZyanStringGetCharMutable(str, i, &p);
            expect(st, i < m.size(), "GetCharMutable");
            if (ZYAN_SUCCESS(st)) { CHECK(p == data() + i, "GetCharMutable returned a wrong address"); *p = c; }
        }
        if (i < m.size()) m[i] = c;
        verify("after SetChar");
    }
    void op_resize(Src& s, size_t max)
    {
        bool clear = s.chance(1, 6); size_t n = clear ? 0 : s.size(max);
        OP(clear ? "Clear" : "Resize", n);
        ZyanStatus st = call(s, [&] { return clear ? A.ZyanStringClear(str) : A.ZyanStringResize(str, n); }, SUNCHANGED, MAY_SUCCEED);
        if (skipped(st)) return;
        expect_room(st, n, "resize");
        if (ZYAN_SUCCESS(st))
        {
            size_t old = m.size(); CHECK(size() == n, "size is %zu after a resize to %zu", size(), n);
            CHECK(data()[n] == 0, "not NUL-terminated after a resize to %zu", n);
            m.resize(n);
            for (size_t i = old; i < n; ++i) { m[i] = gen_char(s, alpha); ZyanStatus t = A.ZyanStringSetChar(str, i, m[i]); CHECK(t == ZYAN_STATUS_SUCCESS, "SetChar in the grown part returned %s", STN(t)); }
        }
        verify("after resize");
    }
    void op_reserve(Src& s, size_t max)
    {
        if (s.chance(2, 3))
        {
            size_t n = s.size(max);
            OP("Reserve", n);
            ZyanStatus st = call(s, [&] { return A.ZyanStringReserve(str, n); }, SUNCHANGED);
            if (skipped(st)) return;
            expect_room(st, n, "Reserve");
            if (ZYAN_SUCCESS(st)) CHECK(capacity() >= n, "capacity is %zu after Reserve(%zu)", capacity(), n);
        }
        else
        {
            OP("ShrinkToFit");
            ZyanStatus st = call(s, [&] { return A.ZyanStringShrinkToFit(str); }, SUNCHANGED);
            if (skipped(st)) return;
            expect(st, true, "ShrinkToFit");
            if (kind != FIXED) CHECK(capacity() == m.size(), "capacity is %zu after ShrinkToFit of %zu characters", capacity(), m.size());
        }
        verify("after Reserve/ShrinkToFit");
    }
    void op_case(Src& s, bool wild)
    {
        bool up = s.flip(), ex = s.flip();
        size_t i = 0, n = m.size();
        if (ex) { i = pick_index(s, wild, m.size()); n = i <= m.size() && !(wild && s.chance(1, 5)) ? s.below(m.size() - i + 1) : s.wild_index(m.size()); }
        OP(up ? "ToUpperCaseEx" : "ToLowerCaseEx", ex, i, n);
        ZyanStatus st = up ? (ex ? A.ZyanStringToUpperCaseEx(str, i, n) : A.ZyanStringToUpperCase(str)) : (ex ? A.ZyanStringToLowerCaseEx(str, i, n) : A.ZyanStringToLowerCase(str));
        bool valid = i <= m.size() && n <= m.size() - i;
        expect(st, valid, "case conversion");
        if (valid) for (size_t k = i; k < i + n; ++k) m[k] = up ? ascii_upper(m[k]) : ascii_lower(m[k]);
        verify("after case conversion");
    }
    // ---- numbers
    struct Num { bool sign, hex, up, force; uint64_t v; unsigned pad; bool has_prefix; std::string prefix; };
    static Num gen_num(Src& s)
    {
        Num q; q.sign = s.flip(); q.hex = s.flip(); q.up = s.flip(); q.force = s.flip();
        q.v = s.u64();
        switch (s.below(4))
        {
        case 0: { uint64_t p = 1; for (unsigned k = (unsigned)s.below(20); k; --k) p *= 10; q.v = p - s.below(2); break; }       // powers of ten
        case 1: { unsigned k = (unsigned)s.below(64); q.v = (1ull << k) - s.below(3) + 1; break; }                            // powers of two
        default: break;
        }
        if (q.sign && s.flip()) q.v = 0 - q.v;
        q.pad = s.flip() ? 0 : (unsigned)(s.chance(1, 5) ? s.below(256) : s.below(24));
        q.has_prefix = q.sign && s.flip();
        if (q.has_prefix) q.prefix = s.flip() ? "0x" : s.chance(1, 5) ? gen_text(s, (unsigned)s.below(4), 40) : gen_text(s, 2, 6);
        return q;
    }
    // parts: sign, prefix, digits
    static void parts_of(const Num& q, std::string out[3])
    {
        uint64_t mag = q.v; out[0] = out[1] = "";
        if (q.sign)
        {
            if ((int64_t)q.v < 0) { out[0] = "-"; mag = 0 - q.v; } else if (q.force) out[0] = "+";
            if (q.has_prefix) out[1] = q.prefix;
        }
        out[2] = zero_padded(q.hex ? hex_of(mag, q.up) : dec_of(mag), q.pad);
    }
    // returns true if the number was appended
    bool op_number(Src& s, const Num& q)
    {
        std::string p[3]; parts_of(q, p);
        std::string all = p[0] + p[1] + p[2];
        ViewBox pv(A); if (q.has_prefix) pv.make(s, q.prefix);
        OP(q.hex ? q.sign ? "AppendHexS" : "AppendHexU" : q.sign ? "AppendDecS" : "AppendDecU", q.v, q.pad, q.up, q.force, q.prefix);
        const ZyanStringView* pp = q.has_prefix ? pv.get() : nullptr;
        // a refused multi-part append may keep completed parts
        auto sync = [&] {
            size_t n = size(); bool ok = n == m.size();
            if (!ok && n == m.size() + p[0].size()) { m += p[0]; ok = true; }
            else if (!ok && n == m.size() + p[0].size() + p[1].size()) { m += p[0] + p[1]; ok = true; }
            CHECK(ok, "a refused number append changed the size from %zu to %zu", m.size(), n);
            verify("after a refused number append");
        };
        std::string before = m; ZyanStatus st;
        st = call_parts(s, [&] {
            if (q.hex) return q.sign ? A.ZyanStringAppendHexS(str, (ZyanI64)q.v, (ZyanU8)q.pad, q.up, q.force, pp) : A.ZyanStringAppendHexU(str, q.v, (ZyanU8)q.pad, q.up);
            return q.sign ? A.ZyanStringAppendDecS(str, (ZyanI64)q.v, (ZyanU8)q.pad, q.force, pp) : A.ZyanStringAppendDecU(str, q.v, (ZyanU8)q.pad); }, sync);
        if (skipped(st)) return false;
        if (q.has_prefix) pv.intact("number append");
        if (!fits(m.size() + all.size()))
        {
            CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "a number of %zu characters does not fit but the result is %s", all.size(), STN(st));
            sync(); LABEL("fixed buffer full");
            return false;
        }
        expect(st, true, "number append");
        if (data()[m.size()] != all[0] || size() != m.size() + all.size() || memcmp(data() + m.size(), all.data(), all.size()))
        {
            size_t n = size();
            FAIL("appended \"%.*s\", expected \"%s\"", (int)(n > m.size() ? n - m.size() : 0), data() + m.size(), all.c_str());
        }
        m += all;
        verify("after number append");
        return true;
    }
    // like call(), but without a retry after a partial append
    template <class F, class U> ZyanStatus call_parts(Src& s, F f, U sync)
    {
        Injector* ra = injector(); refused = false;
        if (inject && ra && s.chance(1, 3))
        {
            uint64_t b = ra->n_failed; unsigned k = (unsigned)s.below(3) + 1;
            ra->inject(k, 100);
            ZyanStatus st = f();
            ra->no_inject();
            if (ra->n_failed > b && ZYAN_FAILED(st))
            {
                ++injected; LABEL("allocation refused during an operation");
                CHECK(st == ra->status, "the allocator refused but the operation returned %s", STN(st));
                sync(); refused = true;
                return st;
            }
            return st;
        }
        return f();
    }
    // ---- formatted append. Returns true if it was appended.
    struct Fmt { std::string fmt; int order; int w, prec; long long ll; std::string s; double d; unsigned u; int c; };
    static Fmt gen_fmt(Src& s, size_t maxs)
    {
        Fmt f;
        f.order = (int)s.below(3);
        f.w = (int)s.below(30) - 8; f.prec = (int)s.below(14) - 2; f.ll = (long long)s.u64(); f.u = (unsigned)s.u64(); f.c = s.chance(1, 12) ? 0 : 1 + (int)s.below(255);
        f.s = gen_text(s, s.chance(1, 6) ? 3 : 2, maxs);
        switch (s.below(4)) { case 0: f.d = (double)f.ll / 1000; break; case 1: f.d = (double)(int)s.u64() * 1e-3; break; case 2: f.d = s.pick<double>({0.0, -0.0, 1.0 / 3, 1e300, 1e-300, __builtin_inf(), __builtin_nan("")}); break; default: f.d = (double)s.below(1000) / 8; }
        auto lit = [&] { std::string t; for (size_t n = s.size(6); n; --n) { char c = gen_char(s, 2); t += c; } if (s.chance(1, 6)) t += "%%"; return t; };
        std::string I = s.pick<std::string>({"%*.*lld", "%*.*llx", "%-*.*lld", "%+*.*lld", "%0*.*llu"}), S = s.pick<std::string>({"%s", "%12s", "%-9s", "%.4s"}),
                    D = s.pick<std::string>({"%f", "%g", "%.3e", "%10.2f", "%a", "%+.0f"}), U = s.pick<std::string>({"%u", "%x", "%08X", "%#o", "%5u"}), C = s.pick<std::string>({"%c", "%3c"});
        std::vector<std::string> d;
        if (f.order == 0) d = {I, S, D, U, C};
        else if (f.order == 1) d = {S, U, C, I, D};
        else d = {D, C, S, U, I};
        size_t n = s.below(6);
        f.fmt = lit();
        for (size_t i = 0; i < n; ++i) f.fmt += d[i] + lit();
        return f;
    }
    template <class F> static auto with_args(const Fmt& f, F call)
    {
        if (f.order == 0) return call(f.w, f.prec, f.ll, f.s.c_str(), f.d, f.u, f.c);
        if (f.order == 1) return call(f.s.c_str(), f.u, f.c, f.w, f.prec, f.ll, f.d);
        return call(f.d, f.c, f.s.c_str(), f.u, f.w, f.prec, f.ll);
    }
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wformat-security"
#pragma clang diagnostic ignored "-Wformat-nonliteral"
    bool op_format(Src& s, const Fmt& f)
    {
        std::string out; int n = with_args(f, [&](auto... a) { return snprintf(nullptr, 0, f.fmt.c_str(), a...); });
        CHECK(n >= 0, "harness: reference formatting failed");
        out.resize((size_t)n + 1);
        with_args(f, [&](auto... a) { return snprintf(&out[0], out.size(), f.fmt.c_str(), a...); });
        out.resize((size_t)n);
        OP("AppendFormat", f.fmt, out);
        ZyanStatus st = call(s, [&] { return with_args(f, [&](auto... a) { return A.ZyanStringAppendFormat(str, f.fmt.c_str(), a...); }); }, SUNCHANGED);
        if (skipped(st)) return false;
        expect_room(st, m.size() + out.size(), "formatted append");
        if (ZYAN_SUCCESS(st))
        {
            size_t k = size();
            CHECK(k == m.size() + out.size() && !memcmp(data() + m.size(), out.data(), out.size()), "formatted append of \"%s\" (size %zu -> %zu) differs from snprintf", f.fmt.c_str(), m.size(), k);
            m += out;
        }
        verify("after formatted append");
        return ZYAN_SUCCESS(st);
    }
    // an encoding error makes the C library's formatting fail: nothing may change
    void op_format_error(Src& s)
    {
        std::string t = gen_text(s, 2, 20);
        OP("AppendFormat with an encoding error", t);
        char probe[64]; if (snprintf(probe, sizeof probe, "%s%lc", t.c_str(), (wint_t)0xD800) >= 0) return;
        ZyanStatus st = A.ZyanStringAppendFormat(str, "%s%lc", t.c_str(), (wint_t)0xD800);
        CHECK(ZYAN_FAILED(st), "formatting failed but the append returned %s", STN(st));
        LABEL("encoding error"); verify("after a failed formatted append");
    }
#pragma clang diagnostic pop
    void step(Src& s, bool wild, size_t max)
    {
        switch (s.weighted({12, 5, 3, 3, 3, 2}))
        {
        case 0: op_insert(s, wild, max / 2 + 1); break;
        case 1: op_delete(s, wild); break;
        case 2: op_setchar(s, wild); break;
        case 3: op_resize(s, max); break;
        case 4: op_reserve(s, max * 2); break;
        default: op_case(s, wild); break;
        }
    }
};
