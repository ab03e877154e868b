// technique: property testing against a naive reference search (text and needle biased to near matches), ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_str.hpp"
#include "vast.hpp"
#include "locales.hpp"

PropertyInfo PROPERTY = {"C14", "exploration",
    "A case is a text (alphabets from two letters to all byte values), several needles (cut from the text, mutated, extended across the "
    "range end, case-flipped, or random) and ranges (whole, random, invalid); all eight search functions are compared with a naive "
    "search over the range (rarely at the end of a text of about 2^32 characters); non-trivial: a needle of at least 2 characters was found at least once and missed at least once",
    1500000, 18000000, 3000, 3, 3,
    {"the result for an empty needle is not constrained (apart from being no crash)",
     "backward search over (index, count) covers the count characters before index, as documented"}};

static long ref(const std::string& t, const std::string& n, size_t lo, size_t hi, bool ci, bool last)
{
    std::string a = ci ? lower(t) : t, b = ci ? lower(n) : n; long r = -1;
    for (size_t i = lo; i + b.size() <= hi; ++i) if (!a.compare(i, b.size(), b)) { r = (long)i; if (!last) return r; }
    return r;
}

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_text(s);
    InLocale locale(s);
    const Api& A = native_api();
    unsigned kind = (unsigned)s.below(4);
    std::string t = gen_text(s, kind, s.pick<size_t>({10, 30, 120}));
    ViewBox h(A); h.make(s, t);
    OP("text", t, h.mode);
    unsigned found = 0, missed = 0;
    do
    {
        std::string n;
        size_t at = s.below(t.size() + 1), len;
        if (t.size() > 1000 && s.flip()) at = t.size() - s.below(60);
        len = s.size(std::min<size_t>(t.size() - at, t.size() > 1000 ? s.pick<size_t>({12, 50, 300, 70000}) : 12));
        switch (s.weighted({5, 2, 2, 1}))
        {
        case 0: n = t.substr(at, len); break;
        case 1: n = t.substr(at, len); if (n.size()) n[s.below(n.size())] = gen_char(s, kind); break;
        case 2: n = t.substr(t.size() - std::min<size_t>(len, t.size())) + gen_text(s, kind, 3); break;
        default: n = gen_text(s, kind, 5);
        }
        if (s.chance(1, 3)) for (auto& c : n) if (s.flip()) c = s.flip() ? ascii_upper(c) : ascii_lower(c);
        if (s.chance(1, 10)) for (auto& c : n) if (s.chance(1, 4)) c ^= 32; // non-letters that differ only in the case bit must not match
        ViewBox v(A); ZyanStringView inner; const ZyanStringView* np = nullptr;
        // the needle may be the searched text itself, or a view of a part of it
        if (s.chance(1, 12)) { if (s.chance(1, 4)) { n = t; at = 0; np = h.get(); } else { n = t.substr(at, std::min<size_t>(len, t.size() - at)); if (at + n.size() <= t.size() && ZYAN_SUCCESS(A.ZyanStringViewInsideViewEx(&inner, h.get(), at, n.size()))) np = &inner; } LABEL("needle inside the text"); }
        if (!np) { v.make(s, n); np = v.get(); }
        bool right = s.flip(), ci = s.flip(), ex = s.chance(2, 3);
        size_t i = right ? t.size() : 0, c = t.size();
        if (ex)
        {
            if (s.chance(1, 6)) { i = s.wild_index(t.size()); c = s.wild_index(t.size()); }
            else if (s.flip() && at + n.size() <= t.size())
            {
                // a range whose border is near the border of an occurrence
                size_t lo = at - std::min<size_t>(at, s.below(3)) , hi = std::min<size_t>(t.size(), at + n.size() + s.below(3)); if (s.chance(1, 3) && hi > lo) --hi; if (s.chance(1, 4) && lo < hi) ++lo;
                i = right ? hi : lo; c = hi - lo;
            }
            else if (right) { i = s.below(t.size() + 1); c = s.below(i + 1); }
            else { i = s.below(t.size() + 1); c = s.below(t.size() - i + 1); }
        }
        ZyanISize pos = 4711; ZyanStatus st;
        OP(right ? "RPos" : "LPos", ci, ex, n, i, c, np == v.get() ? v.mode : 99);
        if (!ex) st = right ? (ci ? A.ZyanStringRPosI(h.get(), np, &pos) : A.ZyanStringRPos(h.get(), np, &pos)) : (ci ? A.ZyanStringLPosI(h.get(), np, &pos) : A.ZyanStringLPos(h.get(), np, &pos));
        else st = right ? (ci ? A.ZyanStringRPosIEx(h.get(), np, &pos, i, c) : A.ZyanStringRPosEx(h.get(), np, &pos, i, c)) : (ci ? A.ZyanStringLPosIEx(h.get(), np, &pos, i, c) : A.ZyanStringLPosEx(h.get(), np, &pos, i, c));
        h.intact("search"); if (np == v.get()) v.intact("search");
        bool valid = right ? i <= t.size() && c <= i : i <= t.size() && c <= t.size() - i;
        if (!valid) { CHECK(ZYAN_FAILED(st), "search in the invalid range (%zu, %zu) of %zu characters returned %s", i, c, t.size(), STN(st)); LABEL("invalid range"); continue; }
        CHECK(ZYAN_SUCCESS(st), "search in the valid range (%zu, %zu) of %zu characters returned %s", i, c, t.size(), STN(st));
        if (n.empty()) { LABEL("empty needle"); continue; }
        size_t lo = right ? i - c : i, hi = right ? i : i + c;
        long e = ref(t, n, lo, hi, ci, right);
        CHECK(st == (e >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && pos == (ZyanISize)e, "search returned %s and %ld, expected %ld (needle of %zu characters in [%zu, %zu) of %zu)", STN(st), (long)pos, e, n.size(), lo, hi, t.size());
        if (n.size() >= 2) { if (e >= 0) ++found; else ++missed; }
        LABEL_IF(e >= 0, "found"); LABEL_IF(e < 0, "not found"); LABEL_IF(e >= 0 && ref(t, n, 0, t.size(), ci, !right) != e, "several occurrences");
        LABEL_IF(e < 0 && ref(t, n, 0, t.size(), ci, right) >= 0, "occurrence outside the range only");
    } while (s.more(10));
    if (found && missed) mark_nontrivial();
}
