#include "sys_str.hpp"
#include "vast.hpp"
#include "locales.hpp"
#define VARIANT v32_
#define VARIANT_LIBC 0
#define VARIANT_NAME "32-bit code paths"
#include "variant.inc"

PropertyInfo PROPERTY = {"C16", "exploration",
    "A case appends several numbers (decimal or hexadecimal, signed or unsigned; values biased to extremes, powers of two and ten; every "
    "padding 0..255; every flag combination; prefixes as views made in six ways) to a string with random contents and remaining "
    "capacity, for the native and the 32-bit code paths, and compares the appended characters with an independent formatter and with "
    "the value parsed back; rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: at least two numbers were appended, one of them with padding, sign or prefix",
    3000000, 36000000, 3000, 3, 3,
    {"padding applies to the digits only, sign and prefix precede them"}};

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_append(s, false);
    InLocale locale(s);
    bool v32 = s.flip();
    const Api& A = v32 ? v32_api() : native_api();
    RecAlloc ra;
    StrSys t(A);
    t.kind = v32 ? (s.chance(1, 3) ? StrSys::FIXED : StrSys::RECORDED) : (StrSys::Kind)s.weighted({4, 2, 3});
    t.configure(s, &ra);
    if (t.kind == StrSys::RECORDED) t.A.ZyanAllocatorInit(&ra, &RecAlloc::do_alloc, &RecAlloc::do_realloc, &RecAlloc::do_free);
    t.init(s, (t.kind == StrSys::FIXED ? s.size(330) : s.size(60)) + s.large(300, 8000));
    size_t fill = s.chance(1, 2) ? s.size(t.capacity()) : 0;
    if (fill)
    {
        std::string x(fill, 'x'); for (auto& c : x) c = gen_char(s, t.alpha);
        ViewBox v(A); v.make(s, x);
        OP("Append", x);
        ZyanStatus st = A.ZyanStringAppend(t.str, v.get()); CHECK(st == ZYAN_STATUS_SUCCESS, "Append returned %s", STN(st));
        t.m += x;
        if (t.kind != StrSys::FIXED && s.flip()) { OP("ShrinkToFit"); st = A.ZyanStringShrinkToFit(t.str); CHECK(st == ZYAN_STATUS_SUCCESS, "ShrinkToFit returned %s", STN(st)); }
    }
    unsigned appended = 0; bool special = false;
    do
    {
        StrSys::Num q = StrSys::gen_num(s);
        if (t.kind == StrSys::FIXED && s.flip()) { size_t room = t.buf.n - 1 - t.m.size(); q.pad = (unsigned)std::min<size_t>(255, room + s.below(3) - (s.chance(1, 2) && room > 0)); }
        size_t at = t.m.size();
        if (t.op_number(s, q))
        {
            ++appended;
            std::string p[3]; StrSys::parts_of(q, p);
            if (q.pad > 1 || p[0].size() || p[1].size()) special = true;
            // parse back
            std::string digits = t.m.substr(at + p[0].size() + p[1].size());
            uint64_t v = strtoull(digits.c_str(), nullptr, q.hex ? 16 : 10);
            if (p[0] == "-") v = 0 - v;
            CHECK(v == q.v, "parsing \"%s\" back yields another value", digits.c_str());
            LABEL_IF(q.v > UINT32_MAX, "value above 32 bits"); LABEL_IF(q.v == 0, "zero"); LABEL_IF(p[0] == "-", "negative");
            LABEL_IF(q.hex, "hexadecimal"); LABEL_IF(v32, "32-bit code path"); LABEL_IF(q.pad > 20, "wide padding");
        }
    } while (s.more(4));
    if (appended >= 2 && special) mark_nontrivial();
    t.destroy();
    ra.check_empty("after destruction");
}
