// technique: property-based testing with real threads under ThreadSanitizer (happens-before analysis): random programs pass plain data between threads through the atomic operations only; any race or wrong value is a missing ordering
#include "engine.hpp"
#include "C33_shim.h"
#include <pthread.h>
#include <set>
#include <unistd.h>
extern "C" { extern const PubOps pub_ops_c_o0, pub_ops_c_o2, pub_ops_macro_o1, pub_ops_cxx_o2; }

PropertyInfo PROPERTY = {"C33", "exploration",
    "A case builds a random program for 2 to 4 threads that share plain data and synchronise through increments, decrements and "
    "compare-exchanges of one width only - a token passed on over up to 40 steps with up to 6 accesses each, an arrival count whose last "
    "thread reads what the others wrote, or a lock - in one of four builds (C and C++, -O0 to -O2, functions or macros), with the "
    "threads' accesses checked for happens-before order and their values against the model; non-trivial: data written by one thread was read or overwritten by another",
    36000, 432000, 4000, 5, 1,
    {"on this machine every locked instruction is a full fence, so a missing order can show only as a compiler reordering; the happens-before analysis judges what the operations promise to the compiler",
     "the order of plain accesses is judged, not the order of operations on different atomics"}};
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0:symbolize=0:history_size=4"; }

static const PubOps* const TABLES[] = {&pub_ops_c_o0, &pub_ops_c_o2, &pub_ops_macro_o1, &pub_ops_cxx_o2};
static const char* const NAMES[] = {"C -O0", "C -O2", "macros -O1", "C++ -O2"};

struct Team
{
    void (*f)(void*, int); void* a; int id; pthread_t t;
    static void* main_(void* p) { auto q = (Team*)p; q->f(q->a, q->id); return nullptr; }
    static void run(int n, void (*f)(void*, int), void* a)
    {
        Team m[4]; for (int i = 0; i < n; ++i) { m[i] = {f, a, i, 0}; if (pthread_create(&m[i].t, nullptr, main_, &m[i])) _exit(2); }
        for (int i = 0; i < n; ++i) pthread_join(m[i].t, nullptr);
    }
};
struct Mem { unsigned char* p; Mem() { if (posix_memalign((void**)&p, 64, 512)) _exit(2); memset(p, 0, 512); } ~Mem() { free(p); } };
static void put(void* p, int w, uint64_t v) { if (w == 0) *(uint32_t*)p = (uint32_t)v; else *(uint64_t*)p = v; }
static uint64_t get(void* p, int w) { return w == 0 ? *(uint32_t*)p : *(uint64_t*)p; }

void run_case(Src& s)
{
    int ti = (int)s.below(4), w = (int)s.below(3), T = 2 + (int)s.below(3); const PubOps* t = TABLES[ti]; uint64_t m = w == 0 ? 0xFFFFFFFFu : UINT64_MAX; Mem atom, plain; uint64_t* data = (uint64_t*)plain.p;
    struct Call { void* f; void* a; };
    switch (s.weighted({6, 2, 2}))
    {
    case 0:
    {
        std::vector<Step> st; uint64_t v = s.chance(1, 3) ? s.pick<uint64_t>({0, UINT64_MAX, 0x7FFFFFFF, 0xFFFFFFFF, 0x100000000ull}) & m : s.u64() & m, v0 = v; std::set<uint64_t> used{v}; uint64_t model[8] = {0}; int owner[8]; for (int& o : owner) o = -1; bool shared = false;
        unsigned n = 2 + (unsigned)s.below(39); OP("relay", NAMES[ti], w, T, v0);
        for (unsigned i = 0; i < n; ++i)
        {
            Step x{}; x.thread = (int)s.below((uint64_t)T); x.wait = v; x.probe = s.flip() ? v : (v + 1 + s.below(9)) & m; x.n = (int)s.below(7);
            for (int k = 0; k < x.n; ++k) { unsigned c = (unsigned)s.below(8); x.acc[k].cell = c; x.acc[k].write = s.flip(); if (x.acc[k].write) model[c] = i * 8 + (unsigned)k + 1; x.acc[k].value = model[c]; shared |= owner[c] >= 0 && owner[c] != x.thread; if (x.acc[k].write) owner[c] = x.thread; }
            x.pass = (int)s.below(3); uint64_t nv = x.pass == 0 ? (v + 1) & m : x.pass == 1 ? (v - 1) & m : s.u64() & m;
            while (used.count(nv)) { x.pass = 2; nv = (nv + 0x9E3779B1u) & m; }
            x.next = nv; used.insert(nv); v = nv; st.push_back(x); OP("step", x.thread, x.n, x.pass);
        }
        Relay r{atom.p, data, st.data(), (int)st.size(), 0}; put(atom.p, w, v0); struct C { const PubOps* t; int w; Relay* r; } c{t, w, &r};
        Team::run(T, [](void* a, int id) { auto q = (C*)a; q->t->relay[q->w](q->r, id); }, &c);
        CHECK(!r.bad, r.bad == 1 ? "a thread read an outdated value after it received the token (%s)" : "handing the token on failed (%s)", NAMES[ti]);
        for (int k = 0; k < 8; ++k) CHECK(data[k] == model[k], "plain data was lost (%s)", NAMES[ti]); CHECK(get(atom.p, w) == v, "wrong final value of the token (%s)", NAMES[ti]);
        LABEL("relay"); if (shared) mark_nontrivial();
        break;
    }
    case 1:
    {
        Gather g{atom.p, data, T, (int)s.flip(), s.chance(1, 2) ? s.u64() & m : s.below(20), 1 + (unsigned)s.below(12), 0}; if (w == 0) g.start = std::min<uint64_t>(std::max<uint64_t>(g.start, 100), 0xFFFFFF00u); else g.start = std::max<uint64_t>(g.start, 100); if (g.start > UINT64_MAX - 100) g.start -= 100;
        OP("gather", NAMES[ti], w, T, g.down, g.start, g.rounds); put(atom.p, w, g.start); put(atom.p + 64, w, 0); put(atom.p + 128, w, g.start); struct C { const PubOps* t; int w; Gather* g; } c{t, w, &g};
        Team::run(T, [](void* a, int id) { auto q = (C*)a; q->t->gather[q->w](q->g, id); }, &c);
        CHECK(!g.bad, "a thread did not see what the others had written before they counted (%s)", NAMES[ti]); LABEL("gather"); mark_nontrivial();
        break;
    }
    default:
    {
        Lock l{atom.p, data, 1 + (int)s.below(8), (int)s.flip(), 1 + (unsigned)s.below(200)}; OP("lock", NAMES[ti], w, T, l.cells, l.release, l.n); put(atom.p, w, 0); struct C { const PubOps* t; int w; Lock* l; } c{t, w, &l};
        Team::run(T, [](void* a, int id) { auto q = (C*)a; q->t->lock[q->w](q->l, id); }, &c);
        for (int k = 0; k < l.cells; ++k) CHECK(data[k] == (uint64_t)T * l.n * (1 + (unsigned)k), "an update under the lock was lost (%s)", NAMES[ti]); CHECK(get(atom.p, w) == 0, "the lock is not free in the end (%s)", NAMES[ti]);
        LABEL("lock"); mark_nontrivial();
    }
    }
}
