// technique: stateful property-based testing with a scheduler driving real threads step by step against an ownership model (blocked calls must stay blocked, admitted ones must return), stress runs with unprotected counters as oracle, and injected refusals of the operating system
#include "zy.hpp"
#include "threads.hpp"
#include <Zycore/API/Synchronization.h>
#include <errno.h>
#include "win/win32.hpp"

PropertyInfo PROPERTY = {"C22", "exploration",
    "A case uses one or two critical sections and 1 to 4 threads and either drives them step by step (enter, nested enter, try-enter, "
    "leave, foreign leave, delete and re-initialise; average 25 steps; calls that must block are observed to stay blocked, exactly one "
    "waiter is admitted per release; the operating system may refuse a call; a fifth of the cases runs the Windows branch over a fake of its locks) or lets 2 to 4 threads run 20 to 400 random nested "
    "sections each over plain counters; non-trivial: a thread had to wait, a try-enter was refused, or a concurrent stress run",
    120000, 5000000, 2000, 30, 1,
    {"the interleavings are those produced by the scheduler and the machine", "deadlock is concluded after 10 s without an admission",
     "a call expected to block is observed for a bounded time (it never raises an alarm on its own)"}};

// ---- stand-ins for the system calls: refuse when armed
static thread_local int t_arm = 0, t_err = 0; static thread_local bool t_fired = false;
static int refuse(int which) { if (t_arm != which) return 0; t_arm = 0; t_fired = true; return t_err; }
extern "C" {
int hk_mutexattr_init(pthread_mutexattr_t* a) { if (int e = refuse(1)) return e; return pthread_mutexattr_init(a); }
int hk_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (int e = refuse(2)) return e; return pthread_mutex_init(m, a); }
int hk_mutex_lock(pthread_mutex_t* m) { if (int e = refuse(3)) return e; return pthread_mutex_lock(m); }
int hk_mutex_trylock(pthread_mutex_t* m) { if (int e = refuse(4)) return e; return pthread_mutex_trylock(m); }
int hk_mutex_unlock(pthread_mutex_t* m) { if (int e = refuse(5)) return e; return pthread_mutex_unlock(m); }
int hk_mutex_destroy(pthread_mutex_t* m) { if (int e = refuse(6)) return e; return pthread_mutex_destroy(m); }
}
// the implementation under test: the native one, or the Windows one over a fake system
static bool g_win = false;
#ifndef NO_WIN
static_assert(sizeof(win::Section) <= sizeof(ZyanCriticalSection), "");
#define CS(f, c) (g_win ? win_ZyanCriticalSection##f(c) : ZyanCriticalSection##f(c))
#else
#define CS(f, c) ZyanCriticalSection##f(c)
#endif
static ZyanStatus cs_Initialize(ZyanCriticalSection* c) { return CS(Initialize, c); }
static ZyanStatus cs_Enter(ZyanCriticalSection* c) { return CS(Enter, c); }
static ZyanBool cs_TryEnter(ZyanCriticalSection* c) { return CS(TryEnter, c); }
static ZyanStatus cs_Leave(ZyanCriticalSection* c) { return CS(Leave, c); }
static ZyanStatus cs_Delete(ZyanCriticalSection* c) { return CS(Delete, c); }
struct Sec { ZyanCriticalSection* cs = nullptr; int owner = -1, depth = 0; std::vector<int> waiters; long plain = 0; bool live = false; };
struct Result { ZyanStatus st = 0; ZyanBool b = 9; bool fired = false; };
static Result results[5];

static void stress(Src& s)
{
    int T = 2 + (int)s.below(3), S = 1 + (int)s.below(2); unsigned N = 20 + (unsigned)s.below(380);
    struct Shared { ZyanCriticalSection cs[2]; long a[2] = {0, 0}, b[2] = {0, 0}; int inside[2] = {0, 0}; } sh;
    struct Plan { int sec, depth, leave_order; bool use_try; unsigned spin; }; std::vector<std::vector<Plan>> plans((size_t)T);
    OP("stress", T, S, N);
    for (int i = 0; i < S; ++i) { memset(&sh.cs[i], 0xCC, sizeof sh.cs[i]); CHECK(ZYAN_SUCCESS(cs_Initialize(&sh.cs[i])), "initialisation failed"); }
    uint64_t seed = s.raw(4); long expect[2] = {0, 0};
    for (auto& p : plans) for (unsigned k = 0; k < N; ++k)
    {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull; unsigned r = (unsigned)(seed >> 33);
        Plan q{(int)(r % (unsigned)S), 1 + (int)(r / 7 % 3), 0, (r / 31) % 3 == 0, r / 64 % 40}; p.push_back(q); ++expect[q.sec];
    }
    std::atomic<int> bad{0}; std::atomic<int> gate{0};
    for (int t = 0; t < T; ++t) hand(t).give([&, t] {
        gate.fetch_add(1); while (gate.load() < T) sched_yield();
        for (auto& q : plans[(size_t)t])
        {
            ZyanCriticalSection* c = &sh.cs[q.sec];
            if (q.use_try) { while (!cs_TryEnter(c)) sched_yield(); } else if (ZYAN_FAILED(cs_Enter(c))) bad |= 1;
            for (int d = 1; d < q.depth; ++d) if (d & 1 ? !cs_TryEnter(c) : ZYAN_FAILED(cs_Enter(c))) bad |= 2;
            volatile long* a = &sh.a[q.sec]; volatile long* b = &sh.b[q.sec]; volatile int* in = &sh.inside[q.sec];
            if (*in) bad |= 4; *in = 1;
            if (*a != *b) bad |= 8;
            long v = *a; for (unsigned k = 0; k < q.spin; ++k) __asm__ volatile("pause"); *a = v + 1;
            for (int d = 1; d < q.depth; ++d) if (ZYAN_FAILED(cs_Leave(c))) bad |= 16;
            v = *b; for (unsigned k = 0; k < q.spin / 2; ++k) __asm__ volatile("pause"); *b = v + 1;
            *in = 0;
            if (ZYAN_FAILED(cs_Leave(c))) bad |= 16;
        }
    });
    for (int t = 0; t < T; ++t) CHECK(hand(t).wait(30), "a thread of a stress run never finished");
    int b = bad.load();
    CHECK(!(b & 1), "entering failed in a stress run"); CHECK(!(b & 2), "a nested enter of the owner failed"); CHECK(!(b & 4), "two threads were inside a critical section at the same time");
    CHECK(!(b & 8), "an effect made inside the section was not visible to the next owner"); CHECK(!(b & 16), "leaving failed for the owner");
    for (int i = 0; i < S; ++i)
    {
        CHECK(sh.a[i] == expect[i] && sh.b[i] == expect[i], "updates protected by a critical section were lost: %ld and %ld of %ld", sh.a[i], sh.b[i], expect[i]);
        CHECK(ZYAN_SUCCESS(cs_Delete(&sh.cs[i])), "deleting a free section failed");
    }
    LABEL("stress"); mark_nontrivial();
}

static void run_one(Src& s)
{
    if (s.chance(1, 3)) { stress(s); return; }
    int T = 1 + (int)s.below(4), S = 1 + (int)s.below(2); Sec sec[2]; int waiting_for[5]; for (int& w : waiting_for) w = -1;
    std::vector<std::unique_ptr<Guarded>> mem;
    OP("scheduled", T, S);
    auto init = [&](int k) {
        mem.emplace_back(new Guarded); mem.back()->alloc(sizeof(ZyanCriticalSection), 0xCC); auto c = (ZyanCriticalSection*)mem.back()->p;
        while (s.chance(1, 12)) { t_arm = 1 + (int)s.below(2); t_err = s.pick<int>({ENOMEM, EAGAIN, EPERM, EINVAL, EBUSY, ENOSYS}); t_fired = false; OP("initialise with refusal", t_arm, t_err); ZyanStatus st = cs_Initialize(c); t_arm = 0; CHECK(!t_fired || ZYAN_FAILED(st), "initialisation reported success although the system refused"); if (!t_fired) { cs_Delete(c); memset(c, 0xCC, sizeof *c); } }
        OP("initialise", k); CHECK(ZYAN_SUCCESS(cs_Initialize(c)), "initialisation failed");
        sec[k].cs = c; sec[k].live = true; sec[k].owner = -1; sec[k].depth = 0; sec[k].plain = 0; };
    for (int k = 0; k < S; ++k) init(k);
    // no waiting thread may have returned
    auto still_blocked = [&](const char* after) { for (int t = 0; t < T; ++t) if (waiting_for[t] >= 0) CHECK(!hand(t).idle(), "thread %d entered a section owned by thread %d (after %s)", t, sec[waiting_for[t]].owner, after); };
    auto released = [&](int k) { // the section was left for the last time
        Sec& x = sec[k]; x.owner = -1; x.depth = 0; if (x.waiters.empty()) return;
        double t0 = mono(); int who = -1; unsigned spin = 0;
        while (who < 0) { for (int w : x.waiters) if (hand(w).idle()) { who = w; break; } if (who < 0) { CHECK(mono() - t0 < 10, "a released section admitted none of its %zu waiting threads", x.waiters.size()); if (++spin > 200) nap(30); else sched_yield(); } }
        hand(who).wait(); CHECK(ZYAN_SUCCESS(results[who].st), "entering returned %s to an admitted thread", STN(results[who].st));
        x.waiters.erase(std::find(x.waiters.begin(), x.waiters.end(), who)); waiting_for[who] = -1; x.owner = who; x.depth = 1; LABEL("handover"); OP("admitted", k);
    };
    auto leave = [&](int t, int k) {
        OP("leave", t, k); auto c = sec[k].cs;
        CHECK(hand(t).run([t, c] { results[t].st = cs_Leave(c); }), "leaving never returned");
        CHECK(ZYAN_SUCCESS(results[t].st), "leaving returned %s to the owner at depth %d", STN(results[t].st), sec[k].depth);
        if (--sec[k].depth == 0) released(k); };
    auto touch = [&](int t, int k) { // work inside: the protected value passes from owner to owner
        long* p = &sec[k].plain; long expect = *p; long seen = 0; hand(t).run([p, &seen] { seen = *p; *p = seen + 1; }); CHECK(seen == expect, "protected value is stale"); };
    int steps = 0;
    while (s.more(25) && ++steps < 150)
    {
        int t = (int)s.below((uint64_t)T), k = (int)s.below((uint64_t)S); Sec& x = sec[k];
        if (waiting_for[t] >= 0) { for (int q = 0; q < T; ++q) if (waiting_for[(t + q) % T] < 0) { t = (t + q) % T; break; } }
        if (waiting_for[t] >= 0) break; // cannot happen: cycles are avoided
        auto c = x.cs; int kind = (int)s.weighted({6, 4, 6, 1, 1, 2});
        if (kind == 2 && x.owner != t) kind = 3;
        if (kind == 0 && x.owner >= 0 && x.owner != t)
        {
            int o = x.owner; bool cycle = false; for (int n = 0; n < 5 && waiting_for[o] >= 0; ++n) { o = sec[waiting_for[o]].owner; if (o == t) { cycle = true; break; } }
            if (cycle || o == t) kind = 1;
        }
        switch (kind)
        {
        case 0:
            OP("enter", t, k);
            if (x.owner < 0 || x.owner == t)
            {
                CHECK(hand(t).run([t, c] { results[t].st = cs_Enter(c); }), "entering a %s section never returned", x.owner < 0 ? "free" : "owned");
                CHECK(ZYAN_SUCCESS(results[t].st), "entering returned %s (depth %d)", STN(results[t].st), x.depth);
                x.owner = t; ++x.depth; LABEL_IF(x.depth > 1, "nested enter"); touch(t, k);
            }
            else
            {
                hand(t).give([t, c] { results[t].st = cs_Enter(c); }); waiting_for[t] = k; x.waiters.push_back(t); LABEL("blocked"); mark_nontrivial();
                long us = s.chance(1, 6) ? 600 : 40; double t0 = mono(); while (mono() - t0 < (double)us * 1e-6) { if (hand(t).idle()) break; sched_yield(); }
                still_blocked("enter");
            }
            break;
        case 1:
        {
            OP("try", t, k); CHECK(hand(t).run([t, c] { results[t].b = cs_TryEnter(c); }), "try-enter never returned");
            bool want = x.owner < 0 || x.owner == t;
            CHECK((results[t].b != ZYAN_FALSE) == want, "try-enter returned %u (owner %d, caller %d)", results[t].b, x.owner, t);
            if (want) { x.owner = t; ++x.depth; touch(t, k); } else { LABEL("try refused"); mark_nontrivial(); }
            break;
        }
        case 2: leave(t, k); break;
        case 3:
            if (x.owner == t || g_win) break; // undefined on Windows
            OP("foreign leave", t, k); CHECK(hand(t).run([t, c] { results[t].st = cs_Leave(c); }), "leaving never returned");
            CHECK(ZYAN_FAILED(results[t].st), "leaving a section the caller does not own returned %s (owner %d, caller %d)", STN(results[t].st), x.owner, t); LABEL("foreign leave");
            break;
        case 4:
            if (x.owner >= 0 || !x.waiters.empty()) break;
            OP("delete", k); CHECK(ZYAN_SUCCESS(cs_Delete(c)), "deleting a free section failed"); init(k); LABEL("deleted and initialised again");
            break;
        default: // the system refuses a call: it fails and changes nothing
        {
            int which = 3 + (int)s.below(4), err = s.pick<int>({EINVAL, EAGAIN, EDEADLK, EPERM, EBUSY, ENOTRECOVERABLE}); if ((which == 3 && x.owner >= 0 && x.owner != t) || (which == 5 && x.owner != t) || (which == 6 && x.owner >= 0)) break;
            OP("refused", which, err, t, k);
            CHECK(hand(t).run([t, c, which, err] {
                t_arm = which; t_err = err; t_fired = false; Result& r = results[t]; r.b = 9;
                switch (which) { case 3: r.st = cs_Enter(c); break; case 4: r.b = cs_TryEnter(c); break; case 5: r.st = cs_Leave(c); break; default: r.st = cs_Delete(c); }
                t_arm = 0; r.fired = t_fired; }), "a refused call never returned");
            Result& r = results[t];
            if (r.fired) { LABEL("system refusal"); if (which == 4) CHECK(r.b == ZYAN_FALSE, "try-enter reported success although the system refused"); else CHECK(ZYAN_FAILED(r.st), "call %d reported %s although the system refused with error %d", which, STN(r.st), err); }
            else if (which == 3 || which == 4) { if (which == 4 ? r.b != ZYAN_FALSE : ZYAN_SUCCESS(r.st)) { x.owner = t; ++x.depth; } }
            else if (which == 5 && ZYAN_SUCCESS(r.st)) { if (--x.depth == 0) released(k); }
            else if (which == 6) init(k);
            break;
        }
        }
        still_blocked("a step");
    }
    // everybody leaves
    for (bool any = true; any;)
    {
        any = false;
        for (int k = 0; k < S; ++k) if (sec[k].owner >= 0 && waiting_for[sec[k].owner] < 0) { leave(sec[k].owner, k); any = true; still_blocked("a leave"); break; }
    }
    for (int k = 0; k < S; ++k) { CHECK(sec[k].owner < 0 && sec[k].waiters.empty(), "harness error"); OP("delete", k); CHECK(ZYAN_SUCCESS(cs_Delete(sec[k].cs)), "deleting a free section failed"); }
}

void run_case(Src& s)
{
    g_win = s.chance(1, 5);
#ifdef NO_WIN
    g_win = false; run_one(s);
#else
    if (g_win) { OP("Windows branch"); LABEL("Windows branch"); win::misuse = 0; win::locks = 0; }
    run_one(s);
    int m = g_win ? win::misuse.load() : 0; CHECK(!(m & 1), "a critical section that was not initialised was given to the system"); CHECK(!(m & 2), "a section was left that the caller does not own"); CHECK(!(m & 4), "a section was deleted while it was in use");
    CHECK(!g_win || !win::locks, "a deleted section was not returned to the system");
#endif
}
