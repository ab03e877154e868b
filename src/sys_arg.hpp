// Argument-parser cases: generator, independent reference parser, comparison.
#pragma once
#include "sys.hpp"

struct ArgCase
{
    struct Def { std::string name; bool boolean, required; };
    struct Exp { int def; bool has_value; const char* value; size_t len; };
    std::vector<Def> defs;
    std::vector<std::string> tok;
    size_t minu = 0, maxu = 0;
    bool null_table = false;
    // materialised
    std::vector<std::unique_ptr<Guarded>> mem, dmem;
    std::vector<const char*> argv;
    std::vector<ZyanArgParseDefinition> table;
    ZyanArgParseConfig cfg;
    // expectation
    ZyanStatus est = ZYAN_STATUS_SUCCESS;
    const char* etok = nullptr; bool tok_known = false;
    std::vector<Exp> exp;
    bool saw_cluster = false, saw_value = false, saw_ddash = false;

    void generate(Src& s)
    {
        static const char* longs[] = {"--help", "--out", "--verbose", "--n", "--outfile", "--a", "--version", "--dash-name", "--x1"};
        static const char* shorts[] = {"-a", "-b", "-n", "-o", "-v", "-x", "-1", "-=", "-h"};
        size_t nd = s.below(7); std::vector<std::string> pool;
        for (auto p : longs) pool.push_back(p);
        for (auto p : shorts) pool.push_back(p);
        for (size_t i = 0; i < nd; ++i)
        {
            size_t k = s.below(pool.size());
            defs.push_back(Def{pool[k], s.chance(3, 5), s.chance(1, 6)});
            pool.erase(pool.begin() + k);
        }
        if (s.chance(1, 14)) { Def d{s.pick<std::string>({"-", "x", "help", "-ab", "", "n", "-long", "xy", "x-", "x-long", "/h", " -", " -a", "a--"}), s.flip(), false};
            if (s.chance(1, 3)) { d.name.clear(); for (size_t k = s.below(5); k; --k) d.name.push_back(s.pick<char>({'-', 'a', '-', 'o', ' ', '=', '\x80', '\xFF'})); bool dup = d.name == "--"; for (auto& e : defs) dup |= e.name == d.name; if (dup) d.name = "x-"; }
            defs.insert(defs.begin() + s.below(defs.size() + 1), d); }
        null_table = defs.empty() && s.flip();
        minu = s.weighted({6, 2, 1}); maxu = s.pick<size_t>({0, 1, 2, 3, 100, SIZE_MAX}); if (maxu < minu && !s.chance(1, 10)) maxu = minu;
        size_t nt = s.size(12);
        if (!s.chance(1, 20)) tok.push_back("prog"); else nt = s.flip() ? 0 : nt;
        std::string sh = "z"; for (auto& d : defs) if (d.name.size() == 2) sh.push_back(d.name[1]);
        for (size_t i = 0; i < nt; ++i)
        {
            switch (s.weighted({5, 6, 3, 2, 1, 1, 1}))
            {
            case 0: if (defs.size()) { tok.push_back(s.pick(defs).name); break; } // fall through
            case 1: // cluster
            {
                std::string t = "-"; size_t n = 1 + s.below(4);
                for (size_t k = 0; k < n; ++k) t.push_back(sh[sh.size() > 1 && !s.chance(1, 12) ? 1 + s.below(sh.size() - 1) : 0]);
                if (s.chance(1, 4)) t += s.pick<std::string>({"42", "=v", "-", "file", "a"});
                tok.push_back(t); break;
            }
            case 2: tok.push_back(s.pick<std::string>({"file", "x", "", "a-b", "value"})); break;
            case 3: tok.push_back(s.pick<std::string>({"--unknown", "--ou", "--outfil", "--outfilee", "--help=1", "---", "--out "})); break;
            case 4: tok.push_back("--"); break;
            case 5: tok.push_back("-"); break;
            default: { std::string t; for (size_t k = s.below(5); k; --k) t.push_back(s.pick<char>({'-', 'a', 'n', '-', 'o', ' ', '='})); tok.push_back(t); }
            }
        }
        if (size_t big = s.large(150, 15000))
        {
            LABEL("long or many arguments"); size_t pos = tok.empty() ? 0 : 1 + s.below(tok.size());
            switch (s.below(4))
            {
            case 0: // long names, of which one is the beginning of the other or which differ late
            {
                std::string a = "--" + std::string(big, 'x'), b = a; if (s.flip()) b += s.pick<std::string>({"y", "xx"}); else b[b.size() - 1 - s.below(3)] = 'y';
                defs.push_back(Def{a, s.flip(), false}); if (s.flip()) defs.push_back(Def{b, s.flip(), false});
                tok.insert(tok.begin() + pos, {s.flip() ? a : b, "value", s.flip() ? a : b, "value"}); maxu = SIZE_MAX; break;
            }
            case 1: // a long value or unnamed argument
                if (s.flip()) { std::string n = "--long-value"; defs.push_back(Def{n, false, false}); tok.insert(tok.begin() + pos, {n, std::string(big, 'v')}); } else tok.insert(tok.begin() + pos, s.flip() ? std::string(big, 'u') : "-" + std::string(big, sh.back()));
                break;
            case 2: { std::vector<std::string> many(big, "file"); tok.insert(tok.begin() + pos, many.begin(), many.end()); maxu = s.flip() ? SIZE_MAX : big + (size_t)s.below(3) - 1; minu = s.flip() ? 0 : std::min(maxu, big + (size_t)s.below(2)); break; }
            default: if (sh.size() > 1) { std::string t = "-" + std::string(big, sh[1 + s.below(sh.size() - 1)]); if (s.flip()) t.push_back(sh.back()); tok.insert(tok.begin() + pos, t); }
            }
        }
        // near misses: one bit of a character differs, which also makes characters beyond ASCII
        auto tweak = [&](std::string x) { size_t i = s.below(x.size()); char c = (char)(x[i] ^ s.pick<int>({0x80, 0x20, 1})); if (c) x[i] = c; return x; };
        if (s.chance(1, 8))
        {
            for (auto& d : defs) if (d.name.size() && s.chance(1, 3)) { std::string x = tweak(d.name); if (x != "--" && find(x) < 0) { if (s.flip()) tok.push_back(d.name); d.name = x; } }
            for (size_t k = s.below(3); k && tok.size() > 1; --k) { std::string& x = tok[1 + s.below(tok.size() - 1)]; if (x.size()) x = tweak(x); }
            LABEL("near misses");
        }
        if (defs.size()) null_table = false;
        materialise();
        reference();
    }
    void materialise()
    {
        for (auto& t : tok) { mem.emplace_back(new Guarded); mem.back()->assign(t.c_str(), t.size() + 1); argv.push_back((const char*)mem.back()->p); }
        for (auto& d : defs) { dmem.emplace_back(new Guarded); dmem.back()->assign(d.name.c_str(), d.name.size() + 1); table.push_back(ZyanArgParseDefinition{(const char*)dmem.back()->p, (ZyanBool)d.boolean, (ZyanBool)d.required}); }
        table.push_back(ZyanArgParseDefinition{nullptr, 0, 0});
        cfg.argv = argv.data(); cfg.argc = argv.size(); cfg.min_unnamed_args = minu; cfg.max_unnamed_args = maxu; cfg.args = null_table ? nullptr : table.data();
    }
    void fail(ZyanStatus st, const char* t = nullptr) { est = st; etok = t; tok_known = t != nullptr; exp.clear(); }
    int find(const std::string& n) const { for (size_t i = 0; i < defs.size(); ++i) if (defs[i].name == n) return (int)i; return -1; }
    void reference()
    {
        if (minu > maxu) return fail(ZYAN_STATUS_INVALID_ARGUMENT);
        for (auto& d : defs) { if (d.name.size() < 2 || d.name[0] != '-' || (d.name[1] != '-' && d.name.size() != 2)) return fail(ZYAN_STATUS_INVALID_ARGUMENT); }
        bool options = true; size_t unnamed = 0;
        for (size_t i = 1; i < tok.size(); ++i)
        {
            const std::string& t = tok[i];
            auto value_of_next = [&](int d) -> bool {
                if (i + 1 >= tok.size()) { fail(ZYAN_STATUS_ARG_MISSES_VALUE, argv[i]); return false; }
                ++i; exp.push_back(Exp{d, true, argv[i], tok[i].size()}); saw_value = true; return true; };
            if (options && t == "--") { options = false; saw_ddash = true; continue; }
            if (options && t.substr(0, 2) == "--")
            {
                int d = find(t); if (d < 0) return fail(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, argv[i]);
                if (defs[d].boolean) exp.push_back(Exp{d, false, nullptr, 0}); else if (!value_of_next(d)) return;
                continue;
            }
            if (options && t.size() > 1 && t[0] == '-')
            {
                size_t n = 0;
                for (size_t k = 1; k < t.size(); ++k)
                {
                    int d = find(std::string("-") + t[k]); if (d < 0) return fail(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, argv[i]);
                    ++n;
                    if (defs[d].boolean) { exp.push_back(Exp{d, false, nullptr, 0}); continue; }
                    if (k + 1 < t.size()) { exp.push_back(Exp{d, true, argv[i] + k + 1, t.size() - k - 1}); saw_value = true; }
                    else if (!value_of_next(d)) return;
                    break;
                }
                if (n > 1) saw_cluster = true;
                continue;
            }
            if (++unnamed > maxu) return fail(ZYAN_STATUS_TOO_MANY_ARGS, argv[i]);
            exp.push_back(Exp{-1, true, argv[i], t.size()});
        }
        if (unnamed < minu) return fail(ZYAN_STATUS_TOO_FEW_ARGS);
        for (size_t k = 0; k < defs.size(); ++k)
        {
            if (!defs[k].required) continue;
            bool f = false; for (auto& e : exp) if (e.def == (int)k) f = true;
            if (!f) return fail(ZYAN_STATUS_REQUIRED_ARG_MISSING, table[k].name);
        }
    }
    void trace() const
    {
        for (auto& d : defs) OP("option", d.name, d.boolean, d.required);
        OP("unnamed arguments", minu, maxu);
        for (auto& t : tok) OP("token", t);
    }
    void check_memory(const char* when) const
    {
        for (size_t i = 0; i < tok.size(); ++i) CHECK(!memcmp(mem[i]->p, tok[i].c_str(), tok[i].size() + 1), "%s: token %zu was modified", when, i);
    }
    // compares the result of a parser run with the expectation; the parsed vector is destroyed
    void compare(const Api& A, ZyanStatus st, ZyanVector* parsed, const char* error_token) const
    {
        check_memory("argument parsing");
        CHECK(st == est, "parsing returned %s, expected %s", STN(st), STN(est));
        if (ZYAN_FAILED(st))
        {
            if (tok_known) CHECK(error_token == etok, "parsing failed with the error token \"%s\", expected \"%s\"", error_token ? error_token : "(null)", etok);
            return;
        }
        ZyanUSize n = 0; ZyanStatus t = A.ZyanVectorGetSize(parsed, &n);
        CHECK(t == ZYAN_STATUS_SUCCESS && n == exp.size(), "parsing yields %zu entries, expected %zu", (size_t)n, exp.size());
        for (size_t i = 0; i < n; ++i)
        {
            const ZyanArgParseArg* a = (const ZyanArgParseArg*)A.ZyanVectorGet(parsed, i); const Exp& e = exp[i];
            CHECK(a, "no entry %zu", i);
            CHECK(a->def == (e.def < 0 ? nullptr : &table[e.def]), "entry %zu is bound to %s, expected %s", i, a->def ? a->def->name : "no option", e.def < 0 ? "no option" : table[e.def].name);
            CHECK((bool)a->has_value == e.has_value, "entry %zu %s a value", i, a->has_value ? "has" : "has not");
            if (e.has_value)
            {
                ZyanUSize z = 0; const char* d = nullptr;
                ZyanStatus s1 = A.ZyanStringViewGetSize(&a->value, &z), s2 = A.ZyanStringViewGetData(&a->value, &d);
                CHECK(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS && d == e.value && z == e.len, "entry %zu has the value \"%.*s\", expected \"%s\"", i, (int)z, d, e.value);
            }
        }
        t = A.ZyanVectorDestroy(parsed);
        CHECK(t == ZYAN_STATUS_SUCCESS, "destroying the parsed arguments returned %s", STN(t));
    }
};
