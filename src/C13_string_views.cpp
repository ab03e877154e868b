// technique: metamorphic property testing (equal text over different memory must give equal results) with exact-size guarded buffers, ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_str.hpp"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C13", "exploration",
    "Either a random chain of views (of buffers, C strings, strings, other views, valid and invalid sub-ranges) whose size, data pointer "
    "and every character are compared with the designated characters; or one view-taking operation executed twice on views of equal "
    "text over different memory (no terminator, look-alike bytes around it, six kinds of views), requiring equal results, untouched "
    "source memory and no access outside the view; rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: a chain of at least 2 sub-ranges of at least 2 characters, or a text of "
    "at least 2 characters in two different kinds of views",
    3000000, 36000000, 3000, 3, 3,
    {"a view of a raw buffer of length 0 is refused by the library and not required"}};

static const Api& A() { return native_api(); }

static void check_view(const ZyanStringView* v, const char* base, size_t n, Src& s)
{
    ZyanUSize z = 77; ZyanStatus st = A().ZyanStringViewGetSize(v, &z);
    CHECK(st == ZYAN_STATUS_SUCCESS && z == n, "the view of %zu characters reports %s and size %zu", n, STN(st), (size_t)z);
    const char* d = nullptr; st = A().ZyanStringViewGetData(v, &d);
    CHECK(st == ZYAN_STATUS_SUCCESS && d == base, "the data pointer of the view is wrong");
    for (size_t i = 0; i < n; ++i)
    {
        char c = (char)~base[i]; st = A().ZyanStringGetChar(v, i, &c);
        CHECK(st == ZYAN_STATUS_SUCCESS && c == base[i], "reading character %zu of a view of %zu returned %s", i, n, STN(st));
    }
    for (size_t i : {n, n + 1, s.wild_index(n)})
        if (i >= n) { char c = 'Q'; st = A().ZyanStringGetChar(v, i, &c); CHECK(ZYAN_FAILED(st), "reading character %zu of a view of %zu was accepted", i, n); }
}

static void chain(Src& s)
{
    std::string text = gen_text(s, (unsigned)s.below(4), 60);
    ViewBox b(A()); b.make(s, text);
    OP("view", b.mode, text);
    const char* base = nullptr; ZyanStatus st = A().ZyanStringViewGetData(b.get(), &base);
    CHECK(st == ZYAN_STATUS_SUCCESS, "ViewGetData returned %s", STN(st));
    CHECK(text.empty() || !memcmp(base, text.data(), text.size()), "the view does not designate the text");
    check_view(b.get(), base, text.size(), s);
    ZyanStringView cur = *b.get(); size_t n = text.size(); unsigned subs = 0;
    while (s.more(5))
    {
        ZyanStringView nv; memset(&nv, 0xCD, sizeof nv); ZyanStringView saved = nv;
        if (s.chance(1, 5))
        {
            OP("ViewInsideView"); st = A().ZyanStringViewInsideView(&nv, &cur);
            CHECK(st == ZYAN_STATUS_SUCCESS, "ViewInsideView returned %s", STN(st));
        }
        else
        {
            bool wild = s.chance(1, 3);
            size_t i = wild ? s.wild_index(n) : s.below(n + 1), k = wild ? s.wild_index(n) : s.below(n - i + 1);
            OP("ViewInsideViewEx", i, k);
            st = A().ZyanStringViewInsideViewEx(&nv, &cur, i, k);
            if (i > n || k > n - i)
            {
                CHECK(ZYAN_FAILED(st), "sub-range [%zu, +%zu) of a view of %zu characters was accepted", i, k, n);
                CHECK(!memcmp(&nv, &saved, sizeof nv), "a refused view creation wrote to the view");
                LABEL("invalid sub-range"); check_view(&cur, base, n, s);
                continue;
            }
            CHECK(st == ZYAN_STATUS_SUCCESS, "sub-range [%zu, +%zu) of a view of %zu characters was refused with %s", i, k, n, STN(st));
            base += i; n = k; if (n >= 2) ++subs;
        }
        cur = nv;
        check_view(&cur, base, n, s);
    }
    b.intact("view operations");
    if (subs >= 2) mark_nontrivial();
    LABEL("chain of views");
}

// one operation on views; the result is serialised
static std::string observe(Src& s, unsigned op, const std::string& t1, const std::string& t2, unsigned m1, unsigned m2, size_t i, size_t n)
{
    ViewBox a(A()), b(A()); a.make(s, t1, m1); b.make(s, t2, m2);
    StrSys d(A()); d.kind = StrSys::FIXED; d.init(s, 200);
    std::string start = "0123456789";
    { Guarded g; g.assign(start.data(), start.size()); ZyanStringView v; A().ZyanStringViewInsideBufferEx(&v, (const char*)g.p, g.n); ZyanStatus st = A().ZyanStringAppend(d.str, &v); CHECK(st == ZYAN_STATUS_SUCCESS, "Append returned %s", STN(st)); d.m = start; }
    ZyanStatus st = 0; ZyanISize pos = 4711; ZyanI32 cmp = 4711; Guarded out(200); ZyanString ds; memset(&ds, 0, sizeof ds); bool has_ds = false;
    switch (op)
    {
    case 0: st = A().ZyanStringAppend(d.str, a.get()); break;
    case 1: st = A().ZyanStringAppendEx(d.str, a.get(), i, n); break;
    case 2: st = A().ZyanStringInsert(d.str, 3, a.get()); break;
    case 3: st = A().ZyanStringInsertEx(d.str, 3, a.get(), i, n); break;
    case 4: st = A().ZyanStringDuplicateCustomBuffer(&ds, a.get(), (char*)out.p, out.n); has_ds = true; break;
    case 5: st = A().ZyanStringConcatCustomBuffer(&ds, a.get(), b.get(), (char*)out.p, out.n); has_ds = true; break;
    case 6: st = A().ZyanStringLPos(a.get(), b.get(), &pos); break;
    case 7: st = A().ZyanStringLPosEx(a.get(), b.get(), &pos, i, n); break;
    case 8: st = A().ZyanStringLPosI(a.get(), b.get(), &pos); break;
    case 9: st = A().ZyanStringLPosIEx(a.get(), b.get(), &pos, i, n); break;
    case 10: st = A().ZyanStringRPos(a.get(), b.get(), &pos); break;
    case 11: st = A().ZyanStringRPosEx(a.get(), b.get(), &pos, i, n); break;
    case 12: st = A().ZyanStringRPosI(a.get(), b.get(), &pos); break;
    case 13: st = A().ZyanStringRPosIEx(a.get(), b.get(), &pos, i, n); break;
    case 14: st = A().ZyanStringCompare(a.get(), b.get(), &cmp); cmp = (cmp > 0) - (cmp < 0); break;
    case 15: st = A().ZyanStringCompareI(a.get(), b.get(), &cmp); cmp = (cmp > 0) - (cmp < 0); break;
    case 16: st = A().ZyanStringAppendDecS(d.str, -42, 0, ZYAN_FALSE, a.get()); break;
    case 17: st = A().ZyanStringAppendHexS(d.str, 42, 4, ZYAN_TRUE, ZYAN_TRUE, a.get()); break;
    case 18: st = A().ZyanStringDuplicate(&ds, a.get(), n % 50); has_ds = true; break;
    case 19: st = A().ZyanStringConcat(&ds, a.get(), b.get(), n % 50); has_ds = true; break;
    default: { ZyanStringView v; memset(&v, 0, sizeof v); st = A().ZyanStringViewInsideViewEx(&v, a.get(), i, n); if (ZYAN_SUCCESS(st)) { ZyanUSize z = 0; const char* p = nullptr; A().ZyanStringViewGetSize(&v, &z); A().ZyanStringViewGetData(&v, &p); CHECK(z == n, "sub-view of %zu characters has size %zu", n, (size_t)z); std::string r(p, z); CHECK(r == t1.substr(i, n), "sub-view designates other characters"); pos = (ZyanISize)(op_arg(r), z); } break; }
    }
    a.intact("operation on a view"); b.intact("operation on a view");
    std::string r = st_name(st) + "/" + std::to_string(pos) + "/" + std::to_string(cmp) + "/";
    r.append(d.data(), d.size());
    CHECK(d.data()[d.size()] == 0, "the destination is not NUL-terminated");
    if (has_ds && ZYAN_SUCCESS(st))
    {
        ZyanUSize z = 0; const char* p = nullptr; A().ZyanStringGetSize(&ds, &z); A().ZyanStringGetData(&ds, &p);
        r += "/"; r.append(p, z); CHECK(p[z] == 0, "the new string is not NUL-terminated");
        std::string e = (op == 5 || op == 19) ? t1 + t2 : t1; CHECK(e == std::string(p, z), "the new string has other characters than its sources");
        A().ZyanStringDestroy(&ds);
    }
    return r;
}

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_text(s);
    if (s.chance(1, 3)) { chain(s); return; }
    unsigned kind = (unsigned)s.below(4), op = (unsigned)s.below(21);
    std::string t1 = gen_text(s, kind, 24), t2;
    switch (s.below(4))
    {
    case 0: t2 = gen_text(s, kind, 6); break;
    case 1: t2 = t1; break;
    default: { size_t i = s.below(t1.size() + 1); t2 = t1.substr(i, s.below(t1.size() - i + 1)); if (s.chance(1, 3) && t2.size()) t2[s.below(t2.size())] = gen_char(s, kind); if (s.chance(1, 4)) t2.push_back(gen_char(s, kind)); }
    }
    size_t i = s.chance(1, 6) ? s.wild_index(t1.size()) : s.below(t1.size() + 1), n = s.chance(1, 6) ? s.wild_index(t1.size()) : i <= t1.size() ? s.below(t1.size() - i + 1) : 0;
    if (op == 11 || op == 13) n = s.chance(1, 6) ? n : s.below(std::min(i, t1.size()) + 1);
    unsigned m1 = (unsigned)s.below(ViewBox::N_MODES), m2 = (unsigned)s.below(ViewBox::N_MODES), m3 = (unsigned)s.below(ViewBox::N_MODES), m4 = (unsigned)s.below(ViewBox::N_MODES);
    OP("operation on two views of equal text", op, t1, t2, i, n, m1, m2, m3, m4);
    std::string r1 = observe(s, op, t1, t2, m1, m2, i, n), r2 = observe(s, op, t1, t2, m3, m4, i, n);
    CHECK(r1 == r2, "operation %u gives \"%s\" on %s/%s but \"%s\" on %s/%s", op, r1.c_str(), ViewBox::mode_name(m1), ViewBox::mode_name(m2), r2.c_str(), ViewBox::mode_name(m3), ViewBox::mode_name(m4));
    if (t1.size() >= 2 && m1 != m3) mark_nontrivial();
    LABEL("operation on views of equal text");
}
