// technique: property-based testing: random sequential histories against an arithmetic model, random concurrent programs run many times on real threads with a linearizability search over the recorded results, and bulk runs with conservation oracles; the operations are compiled by both compilers at several optimisation levels
#include "engine.hpp"
#include "C21_shim.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <unistd.h>
extern "C" { extern const AtomicOps atomic_ops_gcc_o2, atomic_ops_gcc_o0, atomic_ops_clang_o2, atomic_ops_clang_o0, atomic_ops_gxx_o2, atomic_ops_clangxx_o3, atomic_ops_msvc_o2, atomic_ops_msvc_o0; }

PropertyInfo PROPERTY = {"C21", "exploration",
    "A case picks one of eight builds of the operations (gcc and clang, C and C++, -O0 to -O3, Microsoft's intrinsics simulated; functions or macros) and a width, then runs "
    "either a sequential history of up to about 25 operations with boundary values against a model, or a concurrent program of 2 to 4 "
    "threads with up to 5 operations each, executed 40 to 150 times, every execution's results explained by an interleaving search, or "
    "a bulk run of up to 3000 updates per thread whose results must be conserved and distinct; non-trivial: a concurrent case, or a "
    "sequential one with at least one successful and one refused exchange or a wrap-around",
    60000, 3000000, 2000, 60, 1,
    {"the interleavings are those the machine produces (x86-64, real threads); a schedule-dependent failure is replayed 60 times",
     "only the __sync implementation for GNU compilers can be compiled here; the MSVC header is out of reach"}};

static const AtomicOps* const TABLES[] = {&atomic_ops_gcc_o2, &atomic_ops_gcc_o0, &atomic_ops_clang_o2, &atomic_ops_clang_o0, &atomic_ops_gxx_o2, &atomic_ops_clangxx_o3, &atomic_ops_msvc_o2, &atomic_ops_msvc_o0};
static const char* const NAMES[] = {"gcc -O2", "gcc -O0", "clang -O2", "clang -O0", "g++ -O2", "clang++ -O3", "simulated MSVC -O2", "simulated MSVC -O0"};

// ---- a small pool of helper threads per process
struct Pool
{
    static const int MAX = 4;
    pid_t pid = 0; std::atomic<uint64_t> epoch{0}; std::atomic<int> done{0}, ready{0}; void (*fn)(int, void*) = nullptr; void* arg = nullptr; int n = 0;
    static void* main_(void* a) { auto p = (std::pair<Pool*, int>*)a; p->first->loop(p->second); return nullptr; }
    void loop(int id)
    {
        uint64_t seen = 0;
        for (;;)
        {
            unsigned spins = 0; while (epoch.load(std::memory_order_acquire) == seen) if (++spins > 200) sched_yield();
            ++seen; if (id < n) fn(id, arg); done.fetch_add(1);
        }
    }
    void start()
    {
        if (pid == getpid()) return;
        pid = getpid(); epoch = 0; done = 0;
        for (int i = 1; i < MAX; ++i) { pthread_t t; pthread_create(&t, nullptr, main_, new std::pair<Pool*, int>(this, i)); pthread_detach(t); }
    }
    void run(int threads, void (*f)(int, void*), void* a)
    {
        start(); fn = f; arg = a; n = threads; done = 0; ready = 0; epoch.fetch_add(1, std::memory_order_release);
        f(0, a); while (done.load() != MAX - 1) sched_yield();
    }
    void line_up() { ready.fetch_add(1); unsigned s = 0; while (ready.load() < n) if (++s > 300) sched_yield(); }
};
static Pool pool;

struct Op { int kind; uint64_t a, b; };   // 0 increment, 1 decrement, 2 compare-exchange
struct Prog
{
    const AtomicOps* t; int f; int threads; std::vector<Op> ops[4]; uint64_t res[4][8]; void* cell;
    static void body(int id, void* p)
    {
        auto g = (Prog*)p; pool.line_up(); size_t k = 0;
        for (auto& o : g->ops[id]) g->res[id][k++] = o.kind == 0 ? g->t->inc[g->f](g->cell) : o.kind == 1 ? g->t->dec[g->f](g->cell) : g->t->cas[g->f](g->cell, o.a, o.b);
    }
};
static size_t size_of(int f) { return f % 3 == 0 ? 4 : f % 3 == 1 ? 8 : sizeof(void*); } // the third width is that of a pointer
static uint64_t mask_of(int f) { return UINT64_MAX >> (64 - 8 * size_of(f)); }
static uint64_t load(const void* p, int f) { return size_of(f) == 4 ? *(const volatile uint32_t*)p : *(const volatile uint64_t*)p; }
static void store(void* p, int f, uint64_t v) { if (size_of(f) == 4) *(volatile uint32_t*)p = (uint32_t)v; else *(volatile uint64_t*)p = v; }

// is there an interleaving (respecting every thread's order) that yields all results and the final value?
struct Explain
{
    const Prog& g; uint64_t m, fin; std::set<std::vector<uint64_t>> dead;
    bool go(std::vector<uint64_t>& st) // positions..., value
    {
        bool end = true;
        for (int t = 0; t < g.threads; ++t) if (st[t] < g.ops[t].size()) end = false;
        if (end) return st[4] == fin;
        if (dead.count(st)) return false;
        for (int t = 0; t < g.threads; ++t)
        {
            if (st[t] >= g.ops[t].size()) continue;
            const Op& o = g.ops[t][st[t]]; uint64_t r = g.res[t][st[t]], v = st[4], nv, want;
            if (o.kind == 2) { want = v; nv = v == (o.a & m) ? (o.b & m) : v; } else { nv = (o.kind == 0 ? v + 1 : v - 1) & m; want = nv; }
            if (r != want) continue;
            std::vector<uint64_t> nx = st; ++nx[t]; nx[4] = nv;
            if (go(nx)) return true;
        }
        dead.insert(st); return false;
    }
};
struct Bulk
{
    const AtomicOps* t; int w; int threads; uint64_t n[4], add[4]; int kind[4]; std::vector<uint64_t> out[4]; void* cell;
    static void body(int id, void* p)
    {
        auto g = (Bulk*)p; pool.line_up();
        switch (g->kind[id]) { case 0: g->t->loop_inc[g->w](g->cell, g->n[id], g->out[id].data()); break; case 1: g->t->loop_dec[g->w](g->cell, g->n[id], g->out[id].data()); break; default: g->t->loop_cas[g->w](g->cell, g->n[id], g->add[id]); }
    }
};
static uint64_t gen_value(Src& s) { return s.chance(1, 3) ? s.pick<uint64_t>({0, 1, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, UINT64_MAX, UINT64_MAX - 1, 1ull << 63, 0xFFFFFFFE}) : s.chance(1, 2) ? s.below(5) : s.u64(); }

void run_case(Src& s)
{
    int ti = (int)s.below(8); const AtomicOps* t = TABLES[ti]; int f = (int)s.below(6); uint64_t m = mask_of(f);
    // the cell sits between guard bytes; every position allowed by the alignment of its type
    alignas(64) unsigned char mem[192]; size_t es = size_of(f), off = 64 + es * s.below(64 / es); unsigned char g0 = (unsigned char)s.byte();
    memset(mem, g0, sizeof mem); void* cell = mem + off;
    auto guards = [&] { for (size_t i = 0; i < sizeof mem; ++i) if (i < off || i >= off + es) CHECK(mem[i] == g0, "neighbouring memory changed at offset %ld (%s)", (long)i - (long)off, NAMES[ti]); };
    uint64_t v0 = gen_value(s) & m; store(cell, f, v0);
    OP("build", NAMES[ti], f, v0);
    switch (s.weighted({3, 3, 2}))
    {
    case 0:
    {
        uint64_t v = v0; bool hit = false, miss = false, wrap = false;
        while (s.more(12))
        {
            int k = (int)s.below(4); uint64_t a = s.chance(1, 2) ? v : s.chance(1, 4) ? v ^ (1ull << s.below(64)) : gen_value(s) & m, b = gen_value(s); uint64_t r, nv, want; a &= m; b &= m;
            OP("op", k, a, b);
            if (k == 0) { nv = want = (v + 1) & m; wrap |= nv == 0; r = t->inc[f](cell); }
            else if (k == 1) { nv = want = (v - 1) & m; wrap |= v == 0; r = t->dec[f](cell); }
            else { want = v; nv = v == a ? b : v; (v == a ? hit : miss) = true; r = t->cas[f](cell, a, b); }
            CHECK(r == want, "operation %d on %llx returned %llx instead of %llx (%s)", k, (unsigned long long)v, (unsigned long long)r, (unsigned long long)want, NAMES[ti]);
            CHECK(load(cell, f) == nv, "operation %d on %llx left %llx instead of %llx (%s)", k, (unsigned long long)v, (unsigned long long)load(cell, f), (unsigned long long)nv, NAMES[ti]);
            v = nv; guards();
        }
        LABEL("sequential"); LABEL_IF(wrap, "wrap-around");
        if ((hit && miss) || wrap) mark_nontrivial();
        break;
    }
    case 1:
    {
        Prog g; g.t = t; g.f = f; g.threads = 2 + (int)s.below(3); g.cell = cell; unsigned rounds = 40 + (unsigned)s.below(110);
        for (int i = 0; i < g.threads; ++i)
        {
            size_t n = 1 + s.below(5); OP("thread", i);
            for (size_t k = 0; k < n; ++k)
            {
                Op o{(int)s.below(3), 0, 0}; o.a = (v0 + s.below(7) - 3) & m; o.b = (v0 + s.below(7) - 3) & m; g.ops[i].push_back(o); OP("op", o.kind, o.a, o.b);
            }
        }
        for (unsigned r = 0; r < rounds; ++r)
        {
            store(cell, f, v0); memset(g.res, 0x55, sizeof g.res); pool.run(g.threads, Prog::body, &g);
            Explain e{g, m, load(cell, f), {}}; std::vector<uint64_t> st(5, 0); st[4] = v0;
            if (!e.go(st))
            {
                std::string d; char b[64];
                for (int i = 0; i < g.threads; ++i) { d += "; thread " + std::to_string(i) + ":"; for (size_t k = 0; k < g.ops[i].size(); ++k) { snprintf(b, sizeof b, " %s->%llx", g.ops[i][k].kind == 0 ? "inc" : g.ops[i][k].kind == 1 ? "dec" : "cas", (unsigned long long)g.res[i][k]); d += b; } }
                FAIL("no interleaving of the operations explains the results of a concurrent run (%s): initial %llx final %llx%s", NAMES[ti], (unsigned long long)v0, (unsigned long long)load(cell, f), d.c_str());
            }
            guards();
        }
        LABEL("concurrent"); mark_nontrivial();
        break;
    }
    default:
    {
        Bulk g; g.t = t; g.w = f % 3; g.threads = 2 + (int)s.below(3); g.cell = cell; uint64_t sum = 0; int only = (int)s.below(4); bool same = true;
        for (int i = 0; i < g.threads; ++i)
        {
            g.kind[i] = only < 3 ? only : (int)s.below(3); g.n[i] = 50 + s.below(2950); g.add[i] = g.kind[i] == 0 ? 1 : g.kind[i] == 1 ? UINT64_MAX : 1 + s.below(3); same &= g.kind[i] == g.kind[0];
            g.out[i].assign(g.kind[i] < 2 ? g.n[i] : 0, 0); sum += g.n[i] * g.add[i]; OP("bulk", i, g.kind[i], g.n[i], g.add[i]);
        }
        pool.run(g.threads, Bulk::body, &g);
        CHECK(load(cell, f) == ((v0 + sum) & m), "updates were lost or repeated in a bulk run (%s): %llx instead of %llx", NAMES[ti], (unsigned long long)load(cell, f), (unsigned long long)((v0 + sum) & m));
        if (same && g.kind[0] < 2)
        {
            std::vector<uint64_t> all; bool up = g.kind[0] == 0;
            for (int i = 0; i < g.threads; ++i)
                for (size_t k = 0; k < g.out[i].size(); ++k) { uint64_t d = up ? (g.out[i][k] - v0) & m : (v0 - g.out[i][k]) & m; CHECK(!k || d > all.back(), "results of one thread do not advance (%s)", NAMES[ti]); all.push_back(d); }
            std::sort(all.begin(), all.end());
            for (size_t k = 0; k < all.size(); ++k) CHECK(all[k] == k + 1, "concurrent results are not distinct consecutive values (%s): %llu at place %zu", NAMES[ti], (unsigned long long)all[k], k);
        }
        guards(); LABEL("bulk"); mark_nontrivial();
        break;
    }
    }
}
