// Foreign locales (built by build.sh where that is possible): what a call does must not depend on the locale of the process.
#pragma once
#include "engine.hpp"
#include <climits>
#include <clocale>
#include <locale.h>
#include <unistd.h>
inline const std::vector<locale_t>& foreign_locales()
{
    static const std::vector<locale_t> all = [] {
        std::vector<locale_t> r; char cwd[PATH_MAX - 16]; const char* old = getenv("LOCPATH"); std::string keep = old ? old : "";
        if (!getcwd(cwd, sizeof cwd)) return r;
        for (const char* n : {"tr9", "de1"})
            for (const char* d : {"/locales", "/../locales"})
            {
                setenv("LOCPATH", (std::string(cwd) + d).c_str(), 1);
                if (locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0)) { r.push_back(l); break; }
            }
        if (old) setenv("LOCPATH", keep.c_str(), 1); else unsetenv("LOCPATH");
        return r;
    }();
    return all;
}
struct InLocale
{
    locale_t old = (locale_t)0;
    explicit InLocale(size_t i) { if (i && i <= foreign_locales().size()) old = uselocale(foreign_locales()[i - 1]); } // 0: the locale of the process
    explicit InLocale(Src& s, unsigned den = 4) : InLocale(s.chance(1, den) ? 1 + s.below(2) : 0) { LABEL_IF(old, "foreign locale"); }
    ~InLocale() { if (old) uselocale(old); }
    InLocale(const InLocale&) = delete;
};
