#include "sys_str.hpp"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C12", "exploration",
    "A case is a random history of edits, duplicates, concatenations, number and formatted appends on a string over a caller-provided "
    "buffer of exact size (1..90 bytes, red zones at both ends, allocator calls impossible), with lengths driven to the exact limit; an "
    "edit must be accepted iff its result with the terminator fits; rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: at least one edit filled the buffer exactly and at "
    "least one was refused for lack of space",
    1200000, 14400000, 6000, 3, 3,
    {"a refused signed number append may keep its completed sign and prefix"}};

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_string(s);
    const Api& A = native_api();
    StrSys t(A);
    t.kind = StrSys::FIXED;
    t.configure(s, nullptr);
    size_t max = s.pick<size_t>({0, 4, 12, 30, 89}), cap = s.below(max + 1) + s.large(300, 8000);
    bool exact = false, refused = false, up = true;
    if (s.chance(1, 2))
    {
        std::string a = gen_text(s, t.alpha, cap + 2), b = gen_text(s, t.alpha, cap + 2); bool cc = s.flip();
        up = t.build_from(s, a, cc ? &b : nullptr, cap);
        if (!up) refused = true;
    }
    else t.init(s, cap);
    if (up)
    {
        bool wild = s.flip();
        while (s.more(25))
        {
            size_t room = cap - t.m.size(), n0 = t.m.size(); std::string before = t.m;
            switch (s.weighted({6, 4, 2, 2}))
            {
            case 0: t.step(s, wild, cap + 2); break;
            case 1: // insertion around the exact limit
            {
                size_t n = room + s.below(3) - (s.chance(1, 3) && room > 0);
                std::string x(n, 'q'); for (auto& c : x) c = gen_char(s, t.alpha);
                ViewBox v(A); v.make(s, x); size_t at = s.flip() ? n0 : s.below(n0 + 1);
                OP("Insert at the limit", at, x);
                ZyanStatus st = A.ZyanStringInsert(t.str, at, v.get());
                if (n) { t.expect_room(st, n0 + n, "insertion"); if (ZYAN_SUCCESS(st)) t.m.insert(at, x); else refused = true; }
                t.verify("after insertion at the limit");
                break;
            }
            case 2:
            {
                StrSys::Num q = StrSys::gen_num(s);
                if (s.flip()) q.pad = (unsigned)std::min<size_t>(255, room + s.below(3));
                if (!t.op_number(s, q)) refused = true;
                break;
            }
            default:
            {
                StrSys::Fmt f = StrSys::gen_fmt(s, room + 2);
                if (s.flip()) { f.fmt = "%s"; f.order = 1; f.s = std::string(room + s.below(3) - (s.chance(1, 3) && room > 0), 'f'); }
                if (s.chance(1, 8)) t.op_format_error(s);
                else if (!t.op_format(s, f)) refused = true;
                break;
            }
            }
            if (t.m.size() == cap && before != t.m) exact = true;
        }
        t.destroy();
    }
    LABEL_IF(cap == 0, "buffer for the terminator only");
    if (exact && refused) mark_nontrivial();
}
