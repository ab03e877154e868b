#include "sys_str.hpp"
#include "vast.hpp"

PropertyInfo PROPERTY = {"C11", "exploration",
    "A case is a random history of string edits (append, insert, delete, truncate, character writes, resize, clear, reserve, shrink, "
    "case conversion; sources are views made in six ways; indices and ranges valid and invalid) on a string over a recording, default or "
    "fixed-buffer storage, started empty, as a duplicate or as a concatenation, compared with a character sequence after every edit; "
    "rarely the object has about 2^32 characters or elements over a lazily backed mapping; non-trivial: at least 4 edits changed the characters and an edit happened before the end of the string",
    1500000, 18000000, 6000, 3, 3,
    {"sources do not alias the edited string"}};

void run_case(Src& s)
{
    if (s.raw(2) >= 65536 - 12) return vast_string(s);
    const Api& A = native_api();
    RecAlloc ra;
    StrSys t(A);
    t.kind = (StrSys::Kind)s.weighted({5, 2, 2});
    t.configure(s, &ra);
    size_t max = s.pick<size_t>({8, 20, 40, 90});
    bool up = true;
    if (s.chance(1, 3))
    {
        std::string a = gen_text(s, t.alpha, max), b = gen_text(s, t.alpha, max);
        bool cc = s.flip();
        up = t.build_from(s, a, cc ? &b : nullptr, s.flip() ? s.size(40) : a.size() + (cc ? b.size() : 0) + s.below(3) - (s.chance(1, 3) && a.size() > 0));
    }
    else t.init(s, s.size(t.kind == StrSys::FIXED ? max : 50));
    if (!up) return;
    unsigned changed = 0; bool wild = s.flip(), inner = false;
    while (s.more(25))
    {
        std::string before = t.m;
        t.step(s, wild, max);
        if (before != t.m) { ++changed; if (!before.empty() && t.m.compare(0, before.size(), before) && before.compare(0, t.m.size(), t.m)) inner = true; }
        if (s.chance(1, 6)) t.check_char(s.wild_index(t.m.size()));
    }
    for (size_t i = 0; i < t.m.size() + 2; ++i) t.check_char(i);
    if (changed >= 4 && inner) mark_nontrivial();
    LABEL_IF(t.m.find('\0') != std::string::npos, "embedded NUL");
    t.destroy();
    ra.check_empty("after destruction");
}
