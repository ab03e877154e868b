#include "sys_str.hpp"
#include "vast.hpp"
#include "locales.hpp"

PropertyInfo PROPERTY = {"C17", "exploration",
    "A case makes several formatted appends (generated formats with literals, %%, integer, string, character and floating conversions, "
    "star widths and precisions, three argument orders) to a string of random contents, size and capacity over a recording, default or "
    "fixed-buffer storage, and compares the appended characters with snprintf of the same arguments; allocation failures and "
    "encoding errors are injected; rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: two appends succeeded of which one did not fit the capacity at hand, or an append was "
    "refused or failed with earlier characters present",
    1500000, 18000000, 4000, 3, 3,
    {"the oracle is the C library's snprintf in the C locale"}};

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_append(s, true);
    InLocale locale(s);
    const Api& A = native_api();
    RecAlloc ra;
    StrSys t(A);
    t.kind = (StrSys::Kind)s.weighted({4, 2, 3});
    t.configure(s, &ra);
    t.inject = s.flip();
    if (t.init(s, t.kind == StrSys::FIXED ? s.size(120) : s.size(60)) != ZYAN_STATUS_SUCCESS) return;
    unsigned ok = 0; bool grew = false, refused = false;
    do
    {
        if (s.chance(1, 4)) { t.step(s, false, 60); continue; }
        if (s.chance(1, 12)) { if (!t.m.empty()) refused = true; t.op_format_error(s); continue; }
        StrSys::Fmt f = StrSys::gen_fmt(s, s.chance(1, 6) ? 600 : 30);
        if (t.capacity() - t.m.size() < 1500 && s.chance(1, 4)) // around the exact limit
        {
            size_t room = t.capacity() - t.m.size();
            f.fmt = s.flip() ? "%s" : "%s%%"; f.order = 1;
            f.s = std::string(room + s.below(3) - (s.chance(1, 2) && room > 0), 'f');
            LABEL("length around the exact limit");
        }
        size_t cap = t.capacity(), n0 = t.m.size();
        if (t.op_format(s, f)) { ++ok; if (t.m.size() > cap) grew = true; LABEL_IF(t.m.size() > cap, "grew"); }
        else if (n0) refused = true;
    } while (s.more(6));
    if ((ok >= 2 && grew) || refused) mark_nontrivial();
    t.destroy();
    ra.check_empty("after destruction");
}
