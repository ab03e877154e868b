// Property-based testing engine: choice sequences, forked workers, shrinking, replay, evidence.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <initializer_list>
#include <type_traits>

// ------------------------------------------------------------------------------------------------
// Choice source
// ------------------------------------------------------------------------------------------------
struct Src
{
    std::vector<uint8_t> buf;      // replay input, or the bytes generated so far
    size_t pos = 0;
    bool gen = false;
    uint64_t st = 0;
    size_t cap = 16384;

    uint8_t byte();
    uint64_t raw(unsigned nbytes) { uint64_t v = 0; while (nbytes--) v = (v << 8) | byte(); return v; }
    // uniform-ish in [0, n)
    uint64_t below(uint64_t n)
    {
        if (n <= 1) return 0;
        if (n <= 0x80) return byte() % n;
        if (n <= 0x8000) return raw(2) % n;
        if (n <= 0x80000000ull) return raw(4) % n;
        return raw(8) % n;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + (hi - lo == UINT64_MAX ? raw(8) : below(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 => false
    bool flip() { return byte() & 1; }
    // continue a sequence of average length `avg`; exhausted input => false
    bool more(unsigned avg) { return raw(2) >= 65536u / (avg + 1); }
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned t = 0; for (unsigned x : w) t += x;
        uint64_t r = below(t); size_t i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    template <class T> T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // sizes skewed to small values, max inclusive
    uint64_t size(uint64_t max)
    {
        switch (byte() & 3)
        {
        case 0: return below(std::min<uint64_t>(max, 4) + 1);
        case 1: return below(std::min<uint64_t>(max, 12) + 1);
        case 2: return below(std::min<uint64_t>(max, 40) + 1);
        default: return below(max + 1);
        }
    }
    // 64-bit value with interesting magnitudes
    uint64_t u64();
    // rarely a size beyond the range of 8-bit (1 in `a`) or 16-bit (1 in `b`) counters, otherwise 0
    size_t large(unsigned a = 100, unsigned b = 3000)
    {
        uint64_t r = raw(2);
        if (r >= 65536 - 65536 / b) switch (below(4)) { case 0: return 65530 + below(14); case 1: return 32760 + below(14); case 2: return 300 + below(65000); default: return 65537 + below(7000); }
        return r >= 65536 - 65536 / b - 65536 / a ? (flip() ? 250 + below(12) : 240 + below(300)) : 0;
    }
    // rarely (1 in `a`) an element size beyond the range of 8-bit or 16-bit sizes, otherwise 0
    size_t wide(unsigned a = 2000)
    {
        if (raw(2) < 65536 - 65536 / a) return 0;
        switch (below(5)) { case 0: return 250 + below(12); case 1: return 4090 + below(12); case 2: return 32760 + below(14); case 3: return 65530 + below(14); default: return 65536 * (1 + below(2)) + below(5000); }
    }
    // an index-like value from the whole range of size_t, biased to boundaries around n
    size_t wild_index(size_t n);
};

// ------------------------------------------------------------------------------------------------
// Property definition (each property file defines these)
// ------------------------------------------------------------------------------------------------
struct PropertyInfo
{
    const char* id;
    const char* level;            // evidence level
    const char* rule;             // how cases are made and what makes one non-trivial
    uint64_t quick_cases;
    uint64_t thorough_cases;
    size_t max_bytes;             // cap on generated choice bytes per case
    unsigned replays;             // confirmation replays
    unsigned replays_needed;      // how many of them must fail
    std::vector<std::string> assumptions;
};
extern PropertyInfo PROPERTY;
void run_case(Src& s);

// ------------------------------------------------------------------------------------------------
// Reporting from inside a case
// ------------------------------------------------------------------------------------------------
extern bool g_trace;                      // print operations
extern uint64_t g_hash;                   // hash of the executed history
extern thread_local bool g_mute;          // this thread records no history, labels or trace
[[noreturn]] void fail_case(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define FAIL(...) fail_case(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) fail_case(__FILE__, __LINE__, __VA_ARGS__); } while (0)

void trace_begin(const char* name);
void trace_arg(unsigned long long v, bool is_signed);
void trace_arg_s(const char* s);
void trace_arg_b(const void* p, size_t n);
void trace_end();

inline void hash_fold(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }
struct Bytes { const void* p; size_t n; };
inline void op_arg(const char* s) { uint64_t h = 1469598103934665603ull; for (const char* q = s; *q; ++q) h = (h ^ (uint8_t)*q) * 1099511628211ull; hash_fold(h); if (g_trace) trace_arg_s(s); }
inline void op_arg(Bytes b) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < b.n; ++i) h = (h ^ ((const uint8_t*)b.p)[i]) * 1099511628211ull; hash_fold(h ^ b.n); if (g_trace) trace_arg_b(b.p, b.n); }
inline void op_arg(const std::string& s) { op_arg(Bytes{s.data(), s.size()}); }
template <class T, class = std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value>>
inline void op_arg(T v) { hash_fold((uint64_t)v); if (g_trace) trace_arg((unsigned long long)v, std::is_signed<T>::value); }
template <class... A> inline void op_trace(const char* name, A... a)
{
    if (g_mute) return;
    uint64_t h = 1469598103934665603ull; for (const char* q = name; *q; ++q) h = (h ^ (uint8_t)*q) * 1099511628211ull;
    hash_fold(h);
    if (g_trace) trace_begin(name);
    (void)std::initializer_list<int>{(op_arg(a), 0)...};
    if (g_trace) trace_end();
}
#define OP(...) op_trace(__VA_ARGS__)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // only printed when tracing

int label_id(const char* name);
void label_hit(int id);
#define LABEL(name) do { if (!g_mute) { static int l_ = label_id(name); label_hit(l_); } } while (0)
#define LABEL_IF(c, name) do { if (c) LABEL(name); } while (0)
void mark_nontrivial();
