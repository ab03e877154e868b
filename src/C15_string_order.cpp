// technique: property testing of algebraic laws (antisymmetry, transitivity, consistency) and a reference order, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_str.hpp"
#include "locales.hpp"

PropertyInfo PROPERTY = {"C15", "exploration",
    "A case is a set of 3 to 6 related texts (common prefixes, single-character mutations, case flips, all byte values) as views made in "
    "six ways: every ordered pair is compared in both variants with the reference order (first mismatching character, then length), "
    "antisymmetry and transitivity are checked over all triples; then case mappings of whole strings and sub-ranges are compared with "
    "the reference and repeated; non-trivial: at least two texts differ behind a common prefix and one has letters of both cases",
    1800000, 21600000, 4000, 3, 3,
    {"characters are ordered by their unsigned value, the case-insensitive variant by that of the lower-case letters"}};

static int sgn(long v) { return (v > 0) - (v < 0); }
static int ref_cmp(const std::string& a, const std::string& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}

void run_case(Src& s)
{
    InLocale locale(s);
    const Api& A = native_api();
    unsigned kind = (unsigned)s.below(4);
    size_t k = 3 + s.below(4);
    std::vector<std::string> t; std::vector<std::unique_ptr<ViewBox>> v;
    t.push_back(gen_text(s, kind, 16));
    auto at = [&](const std::string& x) { return x.size() > 1000 && s.flip() ? x.size() - 1 - s.below(5) : s.below(x.size()); };
    while (t.size() < k)
    {
        std::string x = s.pick(t);
        switch (s.below(6))
        {
        case 0: x = gen_text(s, kind, 16); break;
        case 1: x.resize(s.below(x.size() + 1)); break;
        case 2: x += gen_text(s, kind, 3); break;
        case 3: for (auto& c : x) if (s.flip()) c = s.flip() ? ascii_upper(c) : ascii_lower(c); break;
        case 4: if (x.size()) x[at(x)] ^= 32; break;
        default: if (x.size()) x[at(x)] = gen_char(s, kind);
        }
        t.push_back(x);
    }
    for (auto& x : t) { v.emplace_back(new ViewBox(A)); v.back()->make(s, x); OP("text", x, v.back()->mode); }
    bool prefix = false, both = false;
    for (int ci = 0; ci < 2; ++ci)
    {
        std::vector<std::vector<int>> c(k, std::vector<int>(k));
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j)
            {
                ZyanI32 r = 4711; ZyanStatus st = ci ? A.ZyanStringCompareI(v[i]->get(), v[j]->get(), &r) : A.ZyanStringCompare(v[i]->get(), v[j]->get(), &r);
                CHECK(ZYAN_SUCCESS(st), "comparison returned %s", STN(st));
                int e = ci ? ref_cmp(lower(t[i]), lower(t[j])) : ref_cmp(t[i], t[j]);
                CHECK(sgn(r) == e, "%s of texts %zu and %zu gives %d, expected sign %d", ci ? "CompareI" : "Compare", i, j, r, e);
                CHECK(st == (e == 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "comparison of texts %zu and %zu returned %s with result %d", i, j, STN(st), r);
                c[i][j] = sgn(r);
                if (!ci && i != j && t[i].size() && t[j].size() && t[i][0] == t[j][0] && t[i] != t[j]) prefix = true;
            }
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j)
            {
                CHECK(c[i][j] == -c[j][i], "comparison of texts %zu and %zu is not antisymmetric", i, j);
                for (size_t l = 0; l < k; ++l) CHECK(!(c[i][j] <= 0 && c[j][l] <= 0) || c[i][l] <= 0, "comparison of texts %zu, %zu, %zu is not transitive", i, j, l);
            }
    }
    for (auto& b : v) b->intact("comparison");
    // case mapping
    RecAlloc ra; StrSys x(A); x.kind = s.flip() ? StrSys::RECORDED : StrSys::FIXED; x.configure(s, &ra);
    if (x.build_from(s, t[0], &t[1], t[0].size() + t[1].size()))
    {
        bool lo = false, up = false; for (char ch : x.m) { lo |= ascii_upper(ch) != ch; up |= ascii_lower(ch) != ch; } both |= lo && up;
        for (int i = 0; i < 3; ++i)
        {
            x.op_case(s, i == 2);
            if (s.flip()) // idempotence on a whole string
            {
                bool up = s.flip(); OP(up ? "ToUpperCase twice" : "ToLowerCase twice");
                ZyanStatus a = up ? A.ZyanStringToUpperCase(x.str) : A.ZyanStringToLowerCase(x.str); for (auto& ch : x.m) ch = up ? ascii_upper(ch) : ascii_lower(ch);
                x.verify("after case mapping");
                ZyanStatus b = up ? A.ZyanStringToUpperCase(x.str) : A.ZyanStringToLowerCase(x.str);
                CHECK(a == ZYAN_STATUS_SUCCESS && b == ZYAN_STATUS_SUCCESS, "case mapping returned %s / %s", STN(a), STN(b));
                x.verify("after repeating the case mapping");
            }
        }
        x.destroy();
    }
    if (prefix && both) mark_nontrivial();
}
