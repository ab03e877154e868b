// technique: property-based testing: generated operands (boundary values of every integer type, mixed widths, expressions of low precedence) evaluated through nine builds of the macros and inline functions against their definitions in 128-bit arithmetic; coverage-guided in thorough
#include "zy.hpp"
#include <Zycore/Comparison.h>
#include <Zycore/Zycore.h>
#include <set>
#include "C25_shim.h"
extern "C" { void macro_ops_gcc_o2(MacroOps*); void macro_ops_gcc_o0(MacroOps*); void macro_ops_clang_san(MacroOps*); void macro_ops_clang_nolibc(MacroOps*); void macro_ops_gcc_32(MacroOps*); void macro_ops_gxx(MacroOps*); void macro_ops_clangxx(MacroOps*); void macro_ops_gcc_bare(MacroOps*); void macro_ops_gcc_32bare(MacroOps*); }

PropertyInfo PROPERTY = {"C25", "exploration",
    "A case picks one of nine builds (gcc and clang, C and C++, with and without a C library, 32-bit branches, with and without the compiler's type macros) and evaluates about 24 "
    "generated calls of the arithmetic, alignment, bit, status, version and comparison macros and functions with boundary-biased "
    "operands of all twelve integer types; non-trivial: at least one alignment of a value needing rounding, a comparison of different "
    "values and a status with the error flag occurred",
    2000000, 24000000, 1500, 3, 3,
    {"bit-counting macros are judged for ordinals below 2^32 (they are defined over unsigned long, which may have 32 bits)",
     "alignments are powers of two and results representable in the common type of the operands"}};

static std::vector<MacroOps> g_ops;
static void tables()
{
    if (!g_ops.empty()) return;
    static const char* names[] = {"gcc -O2", "gcc -O0 C99", "clang -O1", "clang no C library", "gcc 32-bit branches", "g++ -O2", "clang++ -O3 no C library", "gcc no type macros", "gcc 32-bit branches, no type macros"};
    void (*get[])(MacroOps*) = {macro_ops_gcc_o2, macro_ops_gcc_o0, macro_ops_clang_san, macro_ops_clang_nolibc, macro_ops_gcc_32, macro_ops_gxx, macro_ops_clangxx, macro_ops_gcc_bare, macro_ops_gcc_32bare};
    for (int i = 0; i < 9; ++i) { MacroOps o; memset(&o, 0, sizeof o); get[i](&o); o.name = names[i]; g_ops.push_back(o); }
}
static const unsigned WORD = sizeof(void*);
static const unsigned SZ[NT] = {1, 2, 4, 8, 1, 2, 4, 8, WORD, WORD, WORD, WORD}; static const bool SG[NT] = {false, false, false, false, true, true, true, true, false, true, false, true};
static const char* const TN[NT] = {"U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "USize", "ISize", "UPointer", "IPointer"};
#ifdef __LP64__
typedef __int128 W; typedef unsigned __int128 UW;
#else
typedef _BitInt(128) W; typedef unsigned _BitInt(128) UW;
#endif
static W wide(SW v) { return v < 0 ? -(W)(unsigned long long)-v : (W)(unsigned long long)v; }
static W tmin(int t) { return SG[t] ? -((W)1 << (SZ[t] * 8 - 1)) : 0; }
static W tmax(int t) { return ((W)1 << (SZ[t] * 8 - (SG[t] ? 1 : 0))) - 1; }
static std::string dec(W v) { if (v == 0) return "0"; bool n = v < 0; UW u = n ? -(UW)v : (UW)v; std::string r; while (u) { r.insert(r.begin(), char('0' + (int)(u % 10))); u /= 10; } return n ? "-" + r : r; }
#define D(v) dec(v).c_str()
static W gen(Src& s, int t)
{
    W lo = tmin(t), hi = tmax(t), v;
    switch (s.below(5))
    {
    case 0: v = (W)s.below(10) - (SG[t] ? 5 : 0); break;
    case 1: v = hi - (W)s.below(6); break;
    case 2: v = lo + (W)s.below(6); break;
    case 3: v = ((W)1 << s.below(SZ[t] * 8)) + (W)s.below(3) - 1; if (SG[t] && s.flip()) v = -v; break;
    default: v = (W)s.u64(); if (SG[t] && s.flip()) v = -v; break;
    }
    if (v < lo || v > hi) { UW m = (((UW)1) << (SZ[t] * 8)) - 1; UW u = (UW)v & m; v = (W)u; if (v > hi) v -= (W)m + 1; }
    return v;
}
// the common type of an operand pair after the usual arithmetic conversions
static void common(unsigned b1, bool s1, unsigned b2, bool s2, W& lo, W& hi)
{
    if (b1 < 32) { b1 = 32; s1 = true; } if (b2 < 32) { b2 = 32; s2 = true; }
    unsigned b = std::max(b1, b2); bool sg = b1 == b2 ? s1 && s2 : b1 > b2 ? s1 : s2;
    lo = sg ? -((W)1 << (b - 1)) : 0; hi = ((W)1 << (b - (sg ? 1 : 0))) - 1;
}
static W floor_to(W x, W a) { W r = x % a; if (r < 0) r += a; return x - r; }
static unsigned bitlen(uint64_t v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }
static int sgn(W v) { return (v > 0) - (v < 0); }

void run_case(Src& s)
{
    tables(); const MacroOps& o = g_ops[s.below(g_ops.size())]; OP("build", o.name); bool rounded = false, differ = false, error = false;
    while (s.more(24))
    {
        int t = (int)s.below(NT);
        switch (s.below(12))
        {
        case 0: // minimum and maximum
        {
            W a = gen(s, t), b = s.chance(1, 5) ? a : gen(s, t); OP("min/max", TN[t], dec(a), dec(b));
            W mn = wide(o.min(t, (uint64_t)a, (uint64_t)b)), mx = wide(o.max(t, (uint64_t)a, (uint64_t)b));
            CHECK(mn == std::min(a, b), "%s: ZYAN_MIN(%s, %s) over %s is %s", o.name, D(a), D(b), TN[t], D(mn)); CHECK(mx == std::max(a, b), "%s: ZYAN_MAX(%s, %s) over %s is %s", o.name, D(a), D(b), TN[t], D(mx));
            break;
        }
        case 1: // absolute value
        {
            W a = gen(s, t); if (SZ[t] >= 4 && SG[t] && a == tmin(t)) break;
            OP("abs", TN[t], dec(a)); W r = wide(o.abs(t, (uint64_t)a)); CHECK(r == (a < 0 ? -a : a), "%s: ZYAN_ABS(%s) over %s is %s", o.name, D(a), TN[t], D(r)); break;
        }
        case 2: // powers of two
        {
            W a = gen(s, t); if (a < 0) break;
            OP("power", TN[t], dec(a)); bool want = a == 0 || __builtin_popcountll((uint64_t)a) == 1; int r = o.pow2(t, (uint64_t)a); CHECK(!!r == want, "%s: ZYAN_IS_POWER_OF_2(%s) over %s is %d", o.name, D(a), TN[t], r); break;
        }
        case 3: case 4: // alignment
        {
            static const unsigned AB[NA] = {32, 32, 64, 8}; static const bool AS[NA] = {false, true, false, false}; int at = (int)s.below(NA); unsigned maxlog = at == 2 ? 62 : at == 3 ? 7 : 30; unsigned lg = (unsigned)(s.chance(1, 3) ? s.below(maxlog + 1) : s.below(std::min(13u, maxlog + 1)));
            W al = (W)1 << lg, x = s.chance(1, 3) ? floor_to(gen(s, t), al) : gen(s, t), lo, hi; if (x < tmin(t) || x > tmax(t)) x = 0;
            common(SZ[t] * 8, SG[t], AB[at], AS[at], lo, hi); if (x < lo || al > hi || floor_to(x, al) < lo) break;
            W down = floor_to(x, al), up = floor_to(x + al - 1, al); bool up_ok = x + al <= hi || (x + al - 1 <= hi && x + al - 1 >= lo); if (SG[t] && x + al > hi) up_ok = false;
            OP("align", TN[t], at, dec(x), dec(al));
            W r = wide(o.down(t, at, (uint64_t)x, (uint64_t)al)); CHECK(r == down, "%s: ZYAN_ALIGN_DOWN(%s, %s) over %s is %s", o.name, D(x), D(al), TN[t], D(r));
            if (up_ok) { r = wide(o.up(t, at, (uint64_t)x, (uint64_t)al)); CHECK(r == up, "%s: ZYAN_ALIGN_UP(%s, %s) over %s is %s", o.name, D(x), D(al), TN[t], D(r)); }
            int q = o.aligned(t, at, (uint64_t)x, (uint64_t)al); CHECK(!!q == (down == x), "%s: ZYAN_IS_ALIGNED_TO(%s, %s) over %s is %d", o.name, D(x), D(al), TN[t], q); rounded |= down != x;
            break;
        }
        case 5: // bits
        {
            W a = gen(s, t); if (a < 0 || a > 0xFFFFFFFFll) break;
            unsigned b = (unsigned)s.below(32); OP("bits", TN[t], dec(a), b); unsigned want = bitlen((uint64_t)a), r = o.bits(t, (uint64_t)a); CHECK(r == want, "%s: ZYAN_BITS_TO_REPRESENT(%s) over %s is %u", o.name, D(a), TN[t], r);
            int n = o.needs(t, (uint64_t)a, b); CHECK(!!n == (b < want), "%s: ZYAN_NEEDS_BIT(%s, %u) over %s is %d", o.name, D(a), b, TN[t], n);
            uint64_t x = s.u64(), d = s.u64(); if (d) { OP("div", x, d); CHECK(o.div64(x, d) == x / d, "%s: ZYAN_DIV64 is wrong", o.name); }
            break;
        }
        case 6: // status
        {
            uint32_t e = (uint32_t)s.below(3), m = s.chance(1, 2) ? (uint32_t)s.below(0x800) : (uint32_t)s.u64(), c = s.chance(1, 2) ? (uint32_t)s.below(0x100000) : (uint32_t)s.u64(); if (s.flip()) { e &= 1; m &= 0x7FF; c &= 0xFFFFF; }
            OP("status", e, m, c); uint32_t x = o.make(e, m, c); e &= 1; m &= 0x7FF; c &= 0xFFFFF; error |= e == 1;
            CHECK(o.module(x) == m && o.code(x) == c, "%s: status 0x%x does not return module 0x%x and code 0x%x but 0x%x and 0x%x", o.name, x, m, c, o.module(x), o.code(x));
            CHECK(o.success(x) == !e && !!o.failed(x) == !!e, "%s: status 0x%x with error flag %u: success %d failure %d", o.name, x, e, o.success(x), o.failed(x)); CHECK(x == ((e << 31) | (m << 20) | c), "%s: status has the layout 0x%x", o.name, x);
            uint32_t n = 0; int passed = 0; uint32_t r = o.check(x, &n, &passed); CHECK(n == 1, "%s: ZYAN_CHECK evaluated its argument %u times", o.name, n); CHECK(e ? r == x && !passed : passed == 1, "%s: ZYAN_CHECK(0x%x) %s", o.name, x, passed ? "went on" : "returned");
            break;
        }
        case 7: // predefined codes
        {
            OP("predefined"); std::set<uint32_t> all; for (int i = 0; i < NS; ++i) { uint32_t x = o.status[i]; CHECK(all.insert(x).second, "%s: predefined status code %d (0x%x) is not distinct", o.name, i, x); CHECK(!!o.success(x) == (i < 3), "%s: predefined status code %d (0x%x) has a wrong error flag", o.name, i, x); CHECK(o.module(x) == (i < 14 ? o.module_id[0] : o.module_id[1]), "%s: predefined status code %d (0x%x) belongs to another module", o.name, i, x); CHECK(x == g_ops[0].status[i], "predefined status code %d differs between builds", i); }
            CHECK(o.module_id[0] != o.module_id[1] && o.module_id[2] > o.module_id[0] && o.module_id[2] > o.module_id[1] && o.module_id[2] <= 0x7FF, "module ids collide");
            for (int i = 0; i < NT; ++i) CHECK(o.size[i] == SZ[i] && !!o.sign[i] == SG[i], "%s: type %s has %u bytes, signed %d", o.name, TN[i], o.size[i], o.sign[i]);
            for (int i = 0; i < 4; ++i) { CHECK(wide(o.limit[i]) == tmin(4 + i) && wide(o.limit[4 + i]) == tmax(4 + i), "%s: limits of %s are %s and %s", o.name, TN[4 + i], D(wide(o.limit[i])), D(wide(o.limit[4 + i]))); CHECK(wide(o.limit[8 + i]) == tmax(i), "%s: limit of %s is %s", o.name, TN[i], D(wide(o.limit[8 + i]))); }
            CHECK(o.logic[0] == 0 && o.logic[1] == 1 && o.logic[2] == -1 && o.logic[3] == 0 && o.logic[4] == 1, "%s: logic constants are wrong", o.name); CHECK(o.array_length[0] == 1 && o.array_length[1] == 7 && o.array_length[2] == 300, "%s: ZYAN_ARRAY_LENGTH is wrong", o.name);
            break;
        }
        case 8: // version
        {
            uint64_t v = s.u64(); OP("version", v); for (int p = 0; p < 4; ++p) CHECK(o.part(v, p) == ((v >> (48 - 16 * p)) & 0xFFFF), "%s: part %d of version %llx is %llx", o.name, p, (unsigned long long)v, (unsigned long long)o.part(v, p));
            CHECK(ZycoreGetVersion() == o.version, "the library's version %llx is not that of the headers", (unsigned long long)ZycoreGetVersion());
            break;
        }
        case 9: case 10: // comparison functions
        {
            int k = (int)s.below(14); static const int CT[14] = {10, 0, 0, 1, 2, 3, 4, 5, 6, 7, 0, 5, 2, 7}; int u = CT[k]; W a = gen(s, u), b = s.chance(1, 3) ? a : s.chance(1, 3) ? a ^ ((W)1 << s.below(SZ[u] * 8)) : gen(s, u);
            if (b > tmax(u)) b -= (W)1 << (SZ[u] * 8); if (b < tmin(u)) b += (W)1 << (SZ[u] * 8);
            OP("compare", k, dec(a), dec(b)); size_t off = k >= 10 ? o.field_offset[k - 10] : 0, sz = k >= 10 ? o.field_size[k - 10] : SZ[u]; Guarded x(sz, (int)s.byte()), y(sz, (int)s.byte()); memcpy(x.p + off, &a, SZ[u]); memcpy(y.p + off, &b, SZ[u]); differ |= a != b;
            int e = o.equals(k, x.p, y.p), c = o.compare(k, x.p, y.p); CHECK(!!e == (a == b), "%s: equality %d of %s and %s is %d", o.name, k, D(a), D(b), e); CHECK(sgn(c) == sgn(a < b ? -1 : a > b), "%s: comparison %d of %s and %s is %d", o.name, k, D(a), D(b), c);
            break;
        }
        default: // operands that are expressions
        {
            int sel = (int)s.below(2); int64_t a = (int64_t)s.below(1 << 20), b = (int64_t)s.below(1 << 20); OP("expressions", sel, a, b); int64_t v = sel ? a : b, al = sel ? 16 : 8, w = sel ? b : a;
            CHECK(wide(o.xmin(sel, a, b)) == std::min(v, w) && wide(o.xmax(sel, a, b)) == std::max(v, w) && wide(o.xabs(sel, -a, -b)) == v, "%s: minimum, maximum or absolute value of expressions is wrong", o.name);
            CHECK(wide(o.xdown(sel, a, b)) == v - v % al && wide(o.xup(sel, a, b)) == (v + al - 1) / al * al && o.xaligned(sel, a, b) == (v % al == 0), "%s: aligning an expression is wrong", o.name);
            CHECK(o.xpow2(sel, a, b) == ((v & (v - 1)) == 0) && o.xbits(sel, a, b) == bitlen((uint64_t)v) && o.xneeds(sel, a, b) == (v >> (sel ? 3 : 9) > 0), "%s: bit macros with expressions are wrong", o.name);
            uint64_t p = s.u64(), q = s.u64(), z = sel ? p : q; for (int k = 0; k < 4; ++k) CHECK(o.xversion(sel, p, q, k) == ((z >> (48 - 16 * k)) & 0xFFFF), "%s: version part %d of an expression is wrong", o.name, k);
            uint32_t c = (uint32_t)p, d = (uint32_t)q, y = sel ? c : d, n = sel ? d : c; CHECK(o.xstatus(sel, c, d, 0) == ((y >> 20) & 0x7FF) && o.xstatus(sel, c, d, 1) == (y & 0xFFFFF) && o.xstatus(sel, c, d, 2) == !(y >> 31) && o.xstatus(sel, c, d, 3) == y >> 31, "%s: status macros with expressions are wrong", o.name);
            CHECK((uint32_t)o.xstatus(sel, c, d, 4) == (((y & 1) << 31) | ((n & 0x7FF) << 20) | (y & 0xFFFFF)), "%s: making a status from expressions is wrong", o.name);
            break;
        }
        }
    }
    if (rounded && differ && error) mark_nontrivial();
}
