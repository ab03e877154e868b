// technique: property-based differential testing of every C-library name and substitute against the C library, exact-size guarded buffers under AddressSanitizer, three builds of the substitutes; coverage-guided in thorough
#include "zy.hpp"
#include <cstdio>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <unistd.h>

PropertyInfo PROPERTY = {"C20", "exploration",
    "A case calls 1 to 8 of the 21 substitutes (built by clang with AddressSanitizer, by clang -O0 and by gcc -O2, and the names that stand for the C library's own functions) on generated "
    "strings of 0 to 70, sometimes 5000 bytes in blocks of exactly the permitted size (full byte range, few-letter alphabets, near-equal pairs, "
    "unterminated arrays at length limits, overlapping moves, strtok sequences) and compares result and memory with the C library, or uses the names for streams, memory, environment and error number; "
    "non-trivial: some call had arguments of at least 2 bytes and a result that is neither null, zero nor the first position",
    1500000, 18000000, 4000, 3, 3,
    {"the installed C library in the C locale is the reference"}};

typedef size_t U;
struct Fns
{
    const char* name;
    void* (*memchr)(const void*, int, U); int (*memcmp)(const void*, const void*, U); void* (*memcpy)(void*, const void*, U);
    void* (*memmove)(void*, const void*, U); void* (*memset)(void*, int, U); char* (*strcat)(char*, const char*); char* (*strchr)(const char*, int);
    int (*strcmp)(const char*, const char*); int (*strcoll)(const char*, const char*); char* (*strcpy)(char*, const char*); U (*strcspn)(const char*, const char*);
    U (*strlen)(const char*); char* (*strncat)(char*, const char*, U); int (*strncmp)(const char*, const char*, U); char* (*strncpy)(char*, const char*, U);
    char* (*strpbrk)(const char*, const char*); char* (*strrchr)(const char*, int); U (*strspn)(const char*, const char*); char* (*strstr)(const char*, const char*);
    char* (*strtok)(char*, const char*); U (*strxfrm)(char*, const char*, U); int (*varargs)(int, ...);
};
#define DECL(P) extern "C" { \
    void* P##memchr(const void*, int, U); int P##memcmp(const void*, const void*, U); void* P##memcpy(void*, const void*, U); \
    void* P##memmove(void*, const void*, U); void* P##memset(void*, int, U); char* P##strcat(char*, const char*); char* P##strchr(const char*, int); \
    int P##strcmp(const char*, const char*); int P##strcoll(const char*, const char*); char* P##strcpy(char*, const char*); U P##strcspn(const char*, const char*); \
    U P##strlen(const char*); char* P##strncat(char*, const char*, U); int P##strncmp(const char*, const char*, U); char* P##strncpy(char*, const char*, U); \
    char* P##strpbrk(const char*, const char*); char* P##strrchr(const char*, int); U P##strspn(const char*, const char*); char* P##strstr(const char*, const char*); \
    char* P##strtok(char*, const char*); U P##strxfrm(char*, const char*, U); int P##varargs(int, ...); } \
    static const Fns P = {#P, P##memchr, P##memcmp, P##memcpy, P##memmove, P##memset, P##strcat, P##strchr, P##strcmp, P##strcoll, P##strcpy, P##strcspn, \
        P##strlen, P##strncat, P##strncmp, P##strncpy, P##strpbrk, P##strrchr, P##strspn, P##strstr, P##strtok, P##strxfrm, P##varargs};
DECL(fa_) DECL(fg_) DECL(fz_) DECL(fl_)
extern "C" {
int fl_fputs(const char*, FILE*); int fl_fputc(int, FILE*); int fl_putc(int, FILE*); int fl_fprintf(FILE*, const char*, int); int fl_printf(const char*, int); int fl_puts(const char*);
int fl_scanf(int*, char*); int fl_sscanf(const char*, int*, char*); int fl_vsnprintf(char*, U, const char*, ...); FILE* fl_stream(int);
void* fl_calloc(U, U); void* fl_malloc(U); void* fl_realloc(void*, U); void fl_free(void*); char* fl_getenv(const char*); int fl_get_errno(void); void fl_set_errno(int);
}

static unsigned char gen_chr(Src& s, int alpha)
{
    switch (alpha) { case 0: return "ab"[s.below(2)]; case 1: return "abcA \x80\xff"[s.below(7)]; case 2: { unsigned char c = s.byte(); return c ? c : 1; } default: return 'a'; }
}
static std::string gen(Src& s, int alpha, size_t max, bool nul = false)
{
    std::string r; size_t n = s.size(max);
    for (size_t i = 0; i < n; ++i) r += nul && s.chance(1, 8) ? '\0' : (char)gen_chr(s, alpha);
    return r;
}
// a string derived from `a`: equal, prefix, extension, one byte changed, or unrelated
static std::string near_(Src& s, const std::string& a, int alpha, size_t max, bool nul = false)
{
    std::string r = a;
    switch (s.weighted({2, 2, 2, 5, 3}))
    {
    case 0: return r;
    case 1: return r.substr(0, s.below(r.size() + 1));
    case 2: return r + gen(s, alpha, 5, nul);
    case 3: if (r.empty()) return r; { size_t i = s.below(r.size()); unsigned char c = gen_chr(s, alpha); if (s.chance(1, 3)) c = (unsigned char)r[i] ^ 0x80; if (!c) c = 1; r[i] = (char)c; } return r;
    default: return gen(s, alpha, max, nul);
    }
}
static int sgn(int x) { return (x > 0) - (x < 0); }
// exact-size copies: terminated / raw
struct Z : Guarded { explicit Z(const std::string& x) { assign(x.c_str(), x.size() + 1); } char* c() { return (char*)p; } };
struct R : Guarded { explicit R(const std::string& x) { assign(x.data(), x.size()); } char* c() { return (char*)p; } };
static std::string bytes(const Guarded& g) { return std::string((const char*)g.p, g.n); }
static long off(const void* q, const void* base) { return q ? (const char*)q - (const char*)base : -1; }

// with a C library: the remaining names stand for the C library's functions and objects
static void hosted(Src& s)
{
    std::string a = gen(s, 1, 40), b = gen(s, 0, 9); int n = (int)s.raw(4), c = s.byte();
    switch (s.below(6))
    {
    case 0: case 1: // streams
    {
        struct File { FILE* f = tmpfile(); ~File() { if (f) fclose(f); } } t; if (!t.f) { LABEL("no temporary file"); return; }
        bool std_ = s.flip(); int fd = s.flip() ? 1 : 2, keep = -1; FILE* f = t.f; LABEL("streams");
        if (std_) { fflush(stdout); fflush(stderr); f = fl_stream(fd); keep = fcntl(fd, F_DUPFD_CLOEXEC, 50); dup2(fileno(t.f), fd); }
        std::string want; int r[6] = {0}; bool bin = true;
        unsigned k = 1 + (unsigned)s.below(5); for (unsigned i = 0; i < k; ++i) switch (s.below(std_ && fd == 1 ? 6 : 4))
        {
        case 0: OP("fputs", a); r[0] |= fl_fputs(a.c_str(), f) < 0; want += a; break;
        case 1: OP("fputc", c); r[1] |= fl_fputc(c, f) != c; want += (char)c; break;
        case 2: OP("putc", c); r[2] |= fl_putc(c, f) != c; want += (char)c; break;
        case 3: { OP("fprintf", a, n); std::string x = "<" + a + "|" + std::to_string(n) + ">"; r[3] |= fl_fprintf(f, a.c_str(), n) != (int)x.size(); want += x; break; }
        case 4: { OP("printf", a, n); std::string x = "<" + a + "|" + std::to_string(n) + ">"; r[4] |= fl_printf(a.c_str(), n) != (int)x.size(); want += x; break; }
        default: OP("puts", a); r[5] |= fl_puts(a.c_str()) < 0; want += a + "\n"; break;
        }
        (void)bin; fflush(f); if (std_) { fflush(stdout); fflush(stderr); dup2(keep, fd); close(keep); }
        std::string got(want.size() + 100, 0); rewind(t.f); got.resize(fread(&got[0], 1, got.size(), t.f));
        CHECK(!r[0] && !r[1] && !r[2] && !r[3] && !r[4] && !r[5], "an output function returned a wrong value"); CHECK(got == want, "an output function wrote %zu other characters instead of %zu to stream %d", got.size(), want.size(), std_ ? fd : -1);
        break;
    }
    case 2: // input
    {
        std::string text = std::to_string(n) + " " + b + "\n"; char w[10]; memset(w, 0, sizeof w); int v = 0, r; bool in = s.flip(); OP(in ? "scanf" : "sscanf", text); LABEL("input");
        if (!in) r = fl_sscanf(text.c_str(), &v, w);
        else
        {
            CHECK(fl_stream(0) == stdin, "wrong standard input"); FILE* t = tmpfile(); if (!t) return; fputs(text.c_str(), t); rewind(t); int keep = fcntl(0, F_DUPFD_CLOEXEC, 50); dup2(fileno(t), 0); __fpurge(stdin); clearerr(stdin);
            r = fl_scanf(&v, w); __fpurge(stdin); clearerr(stdin); if (keep >= 0) { dup2(keep, 0); close(keep); } else close(0); fclose(t);
        }
        CHECK(r == (b.empty() ? 1 : 2) && v == n && b == w, "formatted input read %d values from another text", r);
        break;
    }
    case 3: // formatted text
    {
        size_t lim = s.below(60); Guarded g(lim, 0x5A); char e[200]; OP("vsnprintf", a, n, lim); int er = snprintf(e, sizeof e, "%s:%d:%c", a.c_str(), n, 'a' + c % 26), r = fl_vsnprintf((char*)g.p, lim, "%s:%d:%c", a.c_str(), n, 'a' + c % 26);
        CHECK(r == er, "vsnprintf returned %d, expected %d", r, er); if (lim) CHECK(std::string((char*)g.p) == std::string(e).substr(0, lim - 1), "vsnprintf stored another text"); LABEL("formatted text"); break;
    }
    case 4: // memory
    {
        size_t x = s.below(300), y = 1 + s.below(9), z = 1 + s.below(3000); OP("memory", x, y, z); unsigned char* p = (unsigned char*)fl_malloc(x + 1); memset(p, 0xAA, x + 1); fl_free(p);
        p = (unsigned char*)fl_calloc(x, y); CHECK(p || !x, "calloc failed"); bool zero = true; for (size_t i = 0; i < x * y; ++i) zero &= !p[i]; CHECK(zero, "calloc does not clear the memory");
        for (size_t i = 0; i < x * y; ++i) p[i] = (unsigned char)(i * 7 + 3); p = (unsigned char*)fl_realloc(p, z); CHECK(p, "realloc failed"); bool ok = true; for (size_t i = 0; i < std::min<size_t>(z, x * y); ++i) ok &= p[i] == (unsigned char)(i * 7 + 3); CHECK(ok, "realloc does not keep the contents"); p[z - 1] = 1; fl_free(p); LABEL("memory"); break;
    }
    default: // environment and error number
    {
        std::string name = "ZYC20_" + b; OP("getenv", name); setenv(name.c_str(), a.c_str(), 1); const char* g = fl_getenv(name.c_str()); CHECK(g && a == g, "getenv found another value"); unsetenv(name.c_str()); CHECK(!fl_getenv(name.c_str()), "getenv found a variable that does not exist");
        int e = 1 + (int)s.below(100); errno = e; CHECK(fl_get_errno() == e, "the error number is read wrongly"); fl_set_errno(e + 1); CHECK(errno == e + 1, "the error number is set wrongly"); for (int i = 0; i < 3; ++i) CHECK(fl_stream(i) == (i == 0 ? stdin : i == 1 ? stdout : stderr), "standard stream %d is another one", i); LABEL("environment"); break;
    }
    }
}
void run_case(Src& s)
{
    const Fns* const all[] = {&fa_, &fg_, &fz_, &fl_};
    if (s.chance(1, 40)) { hosted(s); mark_nontrivial(); return; }
    bool interesting = false;
    do
    {
        const Fns& f = *all[s.weighted({6, 1, 1, 1})];
        int alpha = (int)s.weighted({4, 4, 3, 1}), fn = (int)s.below(22); size_t max = s.chance(1, 60) ? s.pick<size_t>({600, 5000}) : s.pick<size_t>({8, 20, 70});
        OP("build", std::string(f.name)); 
        static const char* const names[] = {"memchr", "memcmp", "memcpy", "memmove", "memset", "strcat", "strchr", "strcmp", "strcoll", "strcpy", "strcspn", "strlen", "strncat",
            "strncmp", "strncpy", "strpbrk", "strrchr", "strspn", "strstr", "strtok", "strxfrm", "varargs"};
        label_hit(label_id(names[fn]));
        std::string a = gen(s, alpha, max, fn <= 4);
        switch (fn)
        {
        case 0:
        {
            int c = a.size() && s.chance(2, 3) ? (unsigned char)a[s.below(a.size())] : s.byte(); c += (int)s.pick<int>({0, 0, 256, -256, 0x10000});
            size_t n = s.below(a.size() + 1), hit = a.find((char)c);
            if (hit != a.npos && hit < n && s.flip()) a.resize(hit + 1), n += s.below(20); // the search stops at the match, nothing behind it may be read
            OP("memchr", a, c, n); R g(a);
            // the C library itself may be asked only within the block
            long e = off(memchr(g.p, c, std::min(n, g.n)), g.p), r = off(f.memchr(g.p, c, n), g.p);
            CHECK(e == r, "memchr: %ld, expected %ld", r, e); if (e > 0) interesting = true; break;
        }
        case 1:
        {
            std::string b = near_(s, a, alpha, max, true); size_t n = s.chance(1, 3) ? s.below(std::min(a.size(), b.size()) + 1) : std::min(a.size(), b.size());
            OP("memcmp", a, b, n); R x(a), y(b); int e = sgn(memcmp(x.p, y.p, n)), r = sgn(f.memcmp(x.p, y.p, n));
            CHECK(e == r, "memcmp: sign %d, expected %d", r, e); if (e && n > 1) interesting = true; break;
        }
        case 2: case 3: case 4:
        {
            std::string buf = gen(s, 2, max, true); size_t n, d, q = 0; void *e, *r; R x(buf), y(buf);
            n = s.below(buf.size() + 1); d = s.below(buf.size() - n + 1);
            if (fn == 2)
            {
                std::string src = gen(s, alpha, max, true); n = std::min(src.size(), n); R w(src); OP("memcpy", buf, d, src, n);
                e = memcpy(x.p + d, w.p, n); r = f.memcpy(y.p + d, w.p, n); CHECK(bytes(w) == src, "memcpy changed its source");
            }
            else if (fn == 3)
            {
                q = s.flip() ? s.below(buf.size() - n + 1) : std::min<size_t>(buf.size() - n, d + s.below(3)); OP("memmove", buf, d, q, n);
                e = memmove(x.p + d, x.p + q, n); r = f.memmove(y.p + d, y.p + q, n);
                LABEL_IF(d > q && d < q + n, "move up with overlap"); LABEL_IF(d < q && q < d + n, "move down with overlap");
            }
            else { int v = s.byte() + s.pick<int>({0, 256, -256}); OP("memset", buf, d, v, n); e = memset(x.p + d, v, n); r = f.memset(y.p + d, v, n); }
            CHECK(off(e, x.p) == off(r, y.p), "%s returned offset %ld, expected %ld", names[fn], off(r, y.p), off(e, x.p));
            CHECK(bytes(x) == bytes(y), "%s left different memory", names[fn]); if (n > 1) interesting = true; break;
        }
        case 5: case 9: case 12: case 14: case 20:
        {
            // destination: exactly the permitted size, filled with other bytes
            std::string d = gen(s, alpha, max); size_t n = s.size(max); size_t need;
            bool limited = fn == 12 || fn == 14 || fn == 20; bool unterm = (fn == 12 || fn == 14) && n <= a.size() && s.flip();
            std::string src = unterm ? a.substr(0, n) : a; Guarded w; if (unterm) w.assign(src.data(), src.size()); else w.assign(src.c_str(), src.size() + 1);
            size_t sl = limited ? std::min(n, a.size()) : a.size();
            need = fn == 5 ? d.size() + a.size() + 1 : fn == 9 ? a.size() + 1 : fn == 12 ? d.size() + sl + 1 : n;
            need += s.below(3);
            Guarded x(need, 0x5A), y(need, 0x5A);
            if (fn == 5 || fn == 12) { memcpy(x.p, d.c_str(), d.size() + 1); memcpy(y.p, d.c_str(), d.size() + 1); }
            OP(names[fn], d, src, n, need, (int)unterm);
            char *X = (char*)x.p, *Y = (char*)y.p, *S = (char*)w.p, *e = nullptr, *r = nullptr;
            if (fn == 5) e = strcat(X, S), r = f.strcat(Y, S);
            else if (fn == 9) e = strcpy(X, S), r = f.strcpy(Y, S);
            else if (fn == 12) e = strncat(X, S, n), r = f.strncat(Y, S, n);
            else if (fn == 14) e = strncpy(X, S, n), r = f.strncpy(Y, S, n);
            else
            {
                bool null = n == 0 && s.flip(); size_t le = strlen(S), lr = f.strxfrm(null ? nullptr : Y, S, n);
                CHECK(le == lr, "strxfrm returned %zu, expected %zu", lr, le);
                if (le < n) CHECK(!memcmp(Y, S, le + 1), "strxfrm stored other characters"); // otherwise the destination is indeterminate
                for (size_t i = std::max(n, le < n ? le + 1 : n); i < need; ++i) CHECK(y.p[i] == 0x5A, "strxfrm wrote behind the limit");
                if (le > 1) interesting = true;
                break;
            }
            CHECK(e == X && r == Y, "%s returned another pointer than its destination", names[fn]);
            CHECK(bytes(x) == bytes(y), "%s left different memory", names[fn]); CHECK(bytes(w) == (unterm ? src : std::string(src.c_str(), src.size() + 1)), "%s changed its source", names[fn]);
            if (sl > 1) interesting = true; break;
        }
        case 6: case 16:
        {
            int c = s.chance(1, 5) ? 0 : a.size() && s.chance(2, 3) ? (unsigned char)a[s.below(a.size())] : s.byte(); c += s.pick<int>({0, 0, 256, -256}); if (s.chance(1, 4)) c = (signed char)c;
            OP(names[fn], a, c); Z x(a); long e = off(fn == 6 ? strchr(x.c(), c) : strrchr(x.c(), c), x.p), r = off(fn == 6 ? f.strchr(x.c(), c) : f.strrchr(x.c(), c), x.p);
            CHECK(e == r, "%s: %ld, expected %ld", names[fn], r, e); if (e > 0) interesting = true; break;
        }
        case 7: case 8:
        {
            std::string b = near_(s, a, alpha, max); OP(names[fn], a, b); Z x(a), y(b); int e = sgn(strcmp(x.c(), y.c())), r = sgn(fn == 7 ? f.strcmp(x.c(), y.c()) : f.strcoll(x.c(), y.c()));
            CHECK(e == r, "%s: sign %d, expected %d", names[fn], r, e); if (e && a.size() > 1) interesting = true; break;
        }
        case 13:
        {
            std::string b = near_(s, a, alpha, max); size_t n = s.size(max); bool ua = n <= a.size() && s.flip(), ub = n <= b.size() && s.flip();
            OP("strncmp", a, b, n, (int)ua, (int)ub); Guarded x, y; if (ua) x.assign(a.data(), n); else x.assign(a.c_str(), a.size() + 1); if (ub) y.assign(b.data(), n); else y.assign(b.c_str(), b.size() + 1);
            int e = sgn(strncmp((char*)x.p, (char*)y.p, n)), r = sgn(f.strncmp((char*)x.p, (char*)y.p, n));
            CHECK(e == r, "strncmp: sign %d, expected %d", r, e); if (e && n > 1) interesting = true; break;
        }
        case 10: case 15: case 17:
        {
            std::string b = gen(s, alpha, 6); if (s.flip() && a.size()) b += a[s.below(a.size())]; OP(names[fn], a, b); Z x(a), y(b); long e, r;
            if (fn == 10) e = (long)strcspn(x.c(), y.c()), r = (long)f.strcspn(x.c(), y.c());
            else if (fn == 17) e = (long)strspn(x.c(), y.c()), r = (long)f.strspn(x.c(), y.c());
            else e = off(strpbrk(x.c(), y.c()), x.p), r = off(f.strpbrk(x.c(), y.c()), x.p);
            CHECK(e == r, "%s: %ld, expected %ld", names[fn], r, e); if (e > 0) interesting = true; break;
        }
        case 11: { OP("strlen", a); Z x(a); size_t r = f.strlen(x.c()); CHECK(r == a.size(), "strlen: %zu, expected %zu", r, a.size()); if (r > 1) interesting = true; break; }
        case 18:
        {
            std::string b = a; if (s.chance(3, 4) && a.size()) { size_t i = s.below(a.size()); b = a.substr(i, s.below(a.size() - i + 1)); if (s.chance(1, 4)) b += (char)gen_chr(s, alpha); } else b = gen(s, alpha, 6);
            OP("strstr", a, b); Z x(a), y(b); long e = off(strstr(x.c(), y.c()), x.p), r = off(f.strstr(x.c(), y.c()), x.p);
            CHECK(e == r, "strstr: %ld, expected %ld", r, e); if (e > 0) interesting = true; break;
        }
        case 19:
        {
            Z x(a), y(a); std::string delim = gen(s, alpha, 4); bool first = true; char* keep = nullptr; size_t calls = 0;
            do
            {
                if (s.chance(1, 5)) delim = s.flip() && a.size() ? std::string(1, a[s.below(a.size())]) : gen(s, alpha, 4);
                Z d(delim); OP("strtok", first ? a : std::string("-"), delim);
                char *e = strtok_r(first ? x.c() : nullptr, d.c(), &keep), *r = f.strtok(first ? y.c() : nullptr, d.c()); first = false;
                CHECK(off(e, x.p) == off(r, y.p), "strtok call %zu: token at %ld, expected %ld", calls, off(r, y.p), off(e, x.p));
                CHECK(bytes(x) == bytes(y), "strtok call %zu left different memory", calls);
                if (e && calls) interesting = true; ++calls;
                if (!e) { if (s.chance(1, 3)) { CHECK(!f.strtok(nullptr, d.c()), "strtok found a token after the last one"); } break; }
            } while (s.more(8));
            break;
        }
        default:
        {
            int v[5], n = (int)s.below(6), r; long x = 0;
            for (int i = 0; i < 5; ++i) { v[i] = (int)s.below(16); if (i < n) x = x * 31 + v[i]; } // small: the wrapper's arithmetic must not overflow
            OP("varargs", n); r = f.varargs(n, v[0], v[1], v[2], v[3], v[4]);
            CHECK(r == ((int)x ^ (int)(x * 7)), "variable arguments were read wrongly"); break;
        }
        }
    } while (s.more(4));
    if (interesting) mark_nontrivial();
}
