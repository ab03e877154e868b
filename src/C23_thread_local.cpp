// technique: stateful property-based testing: a scheduler lets real threads store, load, allocate and release thread-local slots, start and exit, against a (slot, thread) -> value model with the expected destructor calls; concurrent rounds and injected refusals of the operating system
#include "zy.hpp"
#include "threads.hpp"
#include <Zycore/API/Thread.h>
#include <errno.h>
#include "win/win32.hpp"
#include <limits.h>
#include <map>
#include <set>

PropertyInfo PROPERTY = {"C23", "exploration",
    "A case drives the initial thread and up to 4 started threads through a random history (average 30 steps) of slot allocation (with "
    "either of two destructors or none, refused by the system, or until none is left), release, store, load, thread start, thread exit "
    "and identity queries, with up to 12 slots alive (a fifth of the cases runs the Windows branch over a fake of its services), or lets 2 to 4 threads use their own and common slots or allocate up to 200 slots each concurrently, or keeps up to 61 threads with small stacks and up to 100 slots each alive at once; non-trivial: "
    "a value was stored in the same slot by two threads, a slot was allocated anew after a release, or a destructor was due",
    150000, 6000000, 2000, 60, 1,
    {"slots above the limit of the system are refused by the system itself", "the interleavings are those the machine produces"}};

static thread_local int t_arm = 0, t_err = 0; static thread_local bool t_fired = false;
static int refuse(int which) { if (t_arm != which) return 0; t_arm = 0; t_fired = true; return t_err; }
extern "C" {
int hk_key_create(pthread_key_t* k, void (*d)(void*)) { if (int e = refuse(1)) return e; return pthread_key_create(k, d); }
int hk_key_delete(pthread_key_t k) { if (int e = refuse(2)) return e; return pthread_key_delete(k); }
int hk_setspecific(pthread_key_t k, const void* v) { if (int e = refuse(3)) return e; return pthread_setspecific(k, v); }
}
// the implementation under test: the native one, or the Windows one over a fake system
static bool g_win = false;
#ifndef NO_WIN
#define ON_WIN(call) if (g_win) return call
#else
#define ON_WIN(call)
#endif
static ZyanStatus tls_Alloc(ZyanThreadTlsIndex* i, ZyanThreadTlsCallback d) { ON_WIN(win_ZyanThreadTlsAlloc(i, d)); return ZyanThreadTlsAlloc(i, d); }
static ZyanStatus tls_Free(ZyanThreadTlsIndex i) { ON_WIN(win_ZyanThreadTlsFree(i)); return ZyanThreadTlsFree(i); }
static ZyanStatus tls_Get(ZyanThreadTlsIndex i, void** p) { ON_WIN(win_ZyanThreadTlsGetValue(i, p)); return ZyanThreadTlsGetValue(i, p); }
static ZyanStatus tls_Set(ZyanThreadTlsIndex i, void* p) { ON_WIN(win_ZyanThreadTlsSetValue(i, p)); return ZyanThreadTlsSetValue(i, p); }
static ZyanStatus cur_Thread(ZyanThread* t)
{
#ifndef NO_WIN
    if (g_win) { void* h = nullptr; ZyanStatus st = win_ZyanThreadGetCurrentThread(&h); *t = (ZyanThread)h; return st; }
#endif
    return ZyanThreadGetCurrentThread(t);
}
static ZyanStatus cur_Id(ZyanThreadId* i)
{
#ifndef NO_WIN
    if (g_win) { unsigned v = 0; ZyanStatus st = win_ZyanThreadGetCurrentThreadId(&v); *i = v; return st; }
#endif
    return ZyanThreadGetCurrentThreadId(i);
}
#ifndef NO_WIN
static void arm(int which, int err) { t_arm = g_win ? 0 : which; t_err = err; t_fired = false; win::arm = g_win ? which : 0; win::fired = false; }
static bool disarm() { t_arm = 0; win::arm = 0; return t_fired || win::fired; }
#else
static void arm(int which, int err) { t_arm = which; t_err = err; t_fired = false; }
static bool disarm() { t_arm = 0; return t_fired; }
#endif
static pthread_mutex_t g_dm = PTHREAD_MUTEX_INITIALIZER; static std::multiset<std::pair<int, uintptr_t>> g_destroyed;
static void d_log(int which, void* p) { pthread_mutex_lock(&g_dm); g_destroyed.insert({which, (uintptr_t)p}); pthread_mutex_unlock(&g_dm); }
static void d_one(void* p) { d_log(1, p); }
static void d_two(void* p) { d_log(2, p); }
static ZyanThreadTlsCallback dtor(int k) { return k == 1 ? d_one : k == 2 ? d_two : nullptr; }

struct Slot { ZyanThreadTlsIndex ix; int dt; std::map<int, uintptr_t> val; };
struct Me { ZyanThread th{}; ZyanThreadId id = 0; bool known = false; };

static void concurrent(Src& s)
{
    int T = 2 + (int)s.below(3); unsigned N = 5 + (unsigned)s.below(60); ZyanThreadTlsIndex common[2];
    OP("concurrent", T, N);
    for (auto& c : common) CHECK(ZYAN_SUCCESS(tls_Alloc(&c, nullptr)), "allocating a slot failed");
    CHECK(common[0] != common[1], "two live slots share an index");
    std::atomic<int> bad{0}, gate{0}; std::vector<std::vector<ZyanThreadTlsIndex>> own((size_t)T); ZyanThreadId ids[5]; ZyanThread ths[5];
    for (int t = 0; t < T; ++t) hand(t).give([&, t] {
        gate.fetch_add(1); while (gate.load() < T) sched_yield();
        std::vector<ZyanThreadTlsIndex>& mine = own[(size_t)t]; uintptr_t base = (uintptr_t)(t + 1) << 4 * sizeof(uintptr_t); cur_Id(&ids[t]); cur_Thread(&ths[t]);
        std::vector<uintptr_t> v; uintptr_t cv[2] = {0, 0};
        for (unsigned k = 0; k < N; ++k)
        {
            if (mine.size() < 6) { ZyanThreadTlsIndex ix = 0; if (ZYAN_FAILED(tls_Alloc(&ix, k & 1 ? d_one : nullptr))) { bad |= 1; break; } void* p = &ix; if (ZYAN_FAILED(tls_Get(ix, &p)) || p) bad |= 2; mine.push_back(ix); v.push_back(0); }
            for (int j = 0; j < 2; ++j) { cv[j] = base + k * 2 + (unsigned)j; if (ZYAN_FAILED(tls_Set(common[j], (void*)cv[j]))) bad |= 4; }
            size_t i = k % mine.size(); v[i] = base + 1000000 + k; if (ZYAN_FAILED(tls_Set(mine[i], (void*)v[i]))) bad |= 4;
            for (size_t j = 0; j < mine.size(); ++j) { void* p = nullptr; if (ZYAN_FAILED(tls_Get(mine[j], &p)) || (uintptr_t)p != v[j]) bad |= 8; }
            for (int j = 0; j < 2; ++j) { void* p = nullptr; if (ZYAN_FAILED(tls_Get(common[j], &p)) || (uintptr_t)p != cv[j]) bad |= 16; }
            ZyanThreadId id; ZyanThread th; cur_Id(&id); cur_Thread(&th); if (id != ids[t] || !pthread_equal(th, ths[t])) bad |= 32;
            if (k % 5 == 4 && mine.size() > 1) { if (ZYAN_FAILED(tls_Set(mine.back(), nullptr)) || ZYAN_FAILED(tls_Free(mine.back()))) bad |= 64; mine.pop_back(); v.pop_back(); }
        }
    });
    for (int t = 0; t < T; ++t) CHECK(hand(t).wait(30), "a thread never finished");
    int b = bad.load();
    CHECK(!(b & 1), "allocating a slot failed"); CHECK(!(b & 2), "a fresh slot does not read as null"); CHECK(!(b & 4), "storing a value failed"); CHECK(!(b & 8), "a thread's own slot lost its value under concurrency");
    CHECK(!(b & 16), "a common slot returned another thread's or an old value"); CHECK(!(b & 32), "the identity of a thread changed"); CHECK(!(b & 64), "releasing a slot failed");
    std::set<ZyanThreadTlsIndex> all(common, common + 2); size_t n = 2;
    for (auto& o : own) for (auto ix : o) { all.insert(ix); ++n; }
    CHECK(all.size() == n, "concurrently allocated slots share an index");
    for (int t = 0; t < T; ++t) { CHECK(pthread_equal(ths[t], hand(t).id), "wrong handle of the current thread"); for (int u = 0; u < t; ++u) CHECK(ids[t] != ids[u], "two live threads share an id"); }
    for (auto ix : all) CHECK(ZYAN_SUCCESS(tls_Free(ix)), "releasing a slot failed");
    pthread_mutex_lock(&g_dm); size_t nd = g_destroyed.size(); g_destroyed.clear(); pthread_mutex_unlock(&g_dm); CHECK(!nd, "a destructor ran although no thread exited");
    LABEL("concurrent"); mark_nontrivial();
}

// all threads allocate as fast as they can, at the same time
static void storm(Src& s)
{
    int T = 2 + (int)s.below(3); unsigned N = 20 + (unsigned)s.below(180), R = 1 + (unsigned)s.below(6); OP("storm", T, N, R);
    static ZyanThreadTlsIndex got[4][200]; std::atomic<int> bad{0};
    for (unsigned r = 0; r < R; ++r)
    {
        std::atomic<int> gate{0}, half{0};
        for (int t = 0; t < T; ++t) hand(t).give([&, t] {
            gate.fetch_add(1); while (gate.load() < T) sched_yield();
            for (unsigned k = 0; k < N; ++k) if (ZYAN_FAILED(tls_Alloc(&got[t][k], nullptr))) { bad |= 1; got[t][k] = 0; }
            for (unsigned k = 0; k < N; ++k) if (ZYAN_FAILED(tls_Set(got[t][k], &got[t][k]))) bad |= 2;
            half.fetch_add(1); while (half.load() < T) sched_yield();
            for (unsigned k = 0; k < N; ++k) { void* p = nullptr; if (ZYAN_FAILED(tls_Get(got[t][k], &p)) || p != &got[t][k]) bad |= 4; }
            half.fetch_add(1); while (half.load() < 2 * T) sched_yield();
            for (unsigned k = 0; k < N; ++k) if (ZYAN_FAILED(tls_Free(got[t][k]))) bad |= 8; });
        for (int t = 0; t < T; ++t) CHECK(hand(t).wait(30), "a thread never finished");
        int b = bad.load(); CHECK(!(b & 1), "allocating a slot failed under concurrency"); CHECK(!(b & 4), "a slot allocated under concurrency lost its value or is shared"); CHECK(!(b & 2), "storing failed under concurrency"); CHECK(!(b & 8), "releasing failed under concurrency");
    }
    LABEL("allocation storm"); mark_nontrivial();
}

// many threads with small stacks alive at the same time, each with a value in many slots; then all exit
static void crowd(Src& s)
{
    unsigned T = 2 + (unsigned)s.below(s.chance(1, 8) ? 60 : 10), rounds = 1 + (unsigned)s.below(s.chance(1, 4) ? 30 : 3); size_t stack = (size_t)PTHREAD_STACK_MIN + 4096 * s.pick<size_t>({0, 0, 1, 2, 4, 12}) ; OP("crowd", T, rounds, stack);
    struct Sh { std::atomic<unsigned> here{0}; std::atomic<int> go{0}, bad{0}; std::vector<ZyanThreadTlsIndex> ix; } sh;
    struct One { Sh* sh; unsigned k; ZyanThreadId id; ZyanThread th; pthread_t p; };
    struct F { static void* main_(void* q) { One& o = *(One*)q; Sh& sh = *o.sh; if (ZYAN_FAILED(cur_Id(&o.id)) || ZYAN_FAILED(cur_Thread(&o.th))) sh.bad |= 1;
        for (size_t j = 0; j < sh.ix.size(); ++j) { void* v = &o; if (ZYAN_FAILED(tls_Get(sh.ix[j], &v)) || v) sh.bad |= 2; if (ZYAN_FAILED(tls_Set(sh.ix[j], (void*)(uintptr_t)(1 + o.k * 1000 + j)))) sh.bad |= 4; }
        sh.here.fetch_add(1); while (!sh.go.load()) nap(20);
        for (size_t j = 0; j < sh.ix.size(); ++j) { void* v = nullptr; if (ZYAN_FAILED(tls_Get(sh.ix[j], &v)) || (uintptr_t)v != 1 + o.k * 1000 + j) sh.bad |= 8; }
        return nullptr; } };
    for (unsigned r = 0; r < rounds; ++r)
    {
        unsigned n = r ? 1 + (unsigned)s.below(3) : T, slots = 1 + (unsigned)s.below(s.chance(1, 3) ? 100 : 10); std::vector<One> os(n); std::vector<int> dt;
        sh.here = 0; sh.go = 0; sh.ix.clear();
        for (unsigned j = 0; j < slots; ++j) { ZyanThreadTlsIndex ix = 0; int d = (int)s.below(3); CHECK(ZYAN_SUCCESS(tls_Alloc(&ix, dtor(d))), "allocating slot %u failed", j); sh.ix.push_back(ix); dt.push_back(d); }
        unsigned started = 0; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, stack);
        for (unsigned k = 0; k < n; ++k) { os[k] = {&sh, k, 0, 0, 0}; if (pthread_create(&os[k].p, &a, F::main_, &os[k])) break; ++started; }
        pthread_attr_destroy(&a);
        double t0 = mono(); while (sh.here.load() < started && mono() - t0 < 20) sched_yield();
        bool all = sh.here.load() == started; sh.go = 1; for (unsigned k = 0; k < started; ++k) pthread_join(os[k].p, nullptr);
        CHECK(all, "a thread never got ready"); if (started < n) LABEL("no more threads available");
        int b = sh.bad.load(); CHECK(!(b & 1), "identity query failed"); CHECK(!(b & 2), "a fresh slot does not read as null"); CHECK(!(b & 4), "storing failed"); CHECK(!(b & 8), "a slot lost its value");
        std::set<ZyanThreadId> ids; for (unsigned k = 0; k < started; ++k) { ids.insert(os[k].id); CHECK(pthread_equal(os[k].th, os[k].p), "wrong handle of the current thread"); } CHECK(ids.size() == started, "of %u live threads %zu share an id", started, started - ids.size());
        std::multiset<std::pair<int, uintptr_t>> want; for (unsigned k = 0; k < started; ++k) for (unsigned j = 0; j < slots; ++j) if (dt[j]) want.insert({dt[j], (uintptr_t)(1 + k * 1000 + j)});
        pthread_mutex_lock(&g_dm); auto got = g_destroyed; g_destroyed.clear(); pthread_mutex_unlock(&g_dm);
        CHECK(got == want, "the exit of %u threads with %u slots ran %zu destructor calls (or other ones) instead of %zu", started, slots, got.size(), want.size());
        for (auto ix : sh.ix) CHECK(ZYAN_SUCCESS(tls_Free(ix)), "releasing a slot failed");
    }
    LABEL("crowd"); mark_nontrivial();
}

void run_case(Src& s)
{
    g_destroyed.clear(); g_win = s.chance(1, 5);
#ifdef NO_WIN
    g_win = false;
#endif
    if (g_win) { OP("Windows branch"); LABEL("Windows branch"); }
    switch (s.weighted({72, 24, 3, 2})) { case 1: concurrent(s); return; case 2: storm(s); return; case 3: crowd(s); return; default: break; }
    std::vector<Slot> slots; std::map<int, std::unique_ptr<Hand>> live; std::map<int, Me> me; int next = 1; uintptr_t unique = 0x1000; bool freed = false;
    auto on = [&](int t, std::function<void()> f) { if (t == 0) f(); else CHECK(live[t]->run(std::move(f)), "a call never returned"); };
    auto who = [&]() { size_t k = s.below(live.size() + 1); int t = 0; if (k) { auto it = live.begin(); std::advance(it, k - 1); t = it->first; } return t; };
    auto identity = [&](int t) {
        ZyanThread th; ZyanThreadId id = 0; ZyanStatus a = 0, b = 0; memset(&th, 0xCC, sizeof th);
        on(t, [&] { a = cur_Thread(&th); b = cur_Id(&id); });
        CHECK(ZYAN_SUCCESS(a) && ZYAN_SUCCESS(b), "identity query failed"); CHECK(pthread_equal(th, t ? live[t]->id : pthread_self()), "the handle is not that of the calling thread");
        Me& m = me[t]; CHECK(!m.known || (m.id == id && pthread_equal(m.th, th)), "the identity of a thread changed"); m.known = true; m.id = id; m.th = th;
        for (auto& o : me) if (o.first != t && o.second.known) CHECK(o.second.id != id, "two live threads share an id"); };
    auto check_slot = [&](int t, Slot& x) {
        void* p = (void*)(uintptr_t)0xDEAD; ZyanStatus st = 0; on(t, [&] { st = tls_Get(x.ix, &p); });
        uintptr_t want = x.val.count(t) ? x.val[t] : 0; CHECK(ZYAN_SUCCESS(st), "loading returned %s", STN(st)); CHECK((uintptr_t)p == want, "slot holds %lx for thread %d instead of %lx", (unsigned long)(uintptr_t)p, t, (unsigned long)want); };
    auto exit_thread = [&](int t) {
        std::multiset<std::pair<int, uintptr_t>> want; for (auto& x : slots) { auto it = x.val.find(t); if (it != x.val.end()) { if (it->second && x.dt) { want.insert({x.dt, it->second}); LABEL("destructor due"); mark_nontrivial(); } x.val.erase(it); } }
        OP("exit", t); live[t]->stop(); live.erase(t); me.erase(t);
        pthread_mutex_lock(&g_dm); auto got = g_destroyed; g_destroyed.clear(); pthread_mutex_unlock(&g_dm);
        CHECK(got == want, "thread exit ran %zu destructor calls (or other ones) instead of %zu", got.size(), want.size()); };
    identity(0);
    while (s.more(30))
    {
        switch (s.weighted({3, 8, 8, 4, 2, 2, 2, 1, 1}))
        {
        case 0: // allocate
        {
            if (slots.size() >= 12) break;
            int t = who(), d = (int)s.below(3); Slot x{(ZyanThreadTlsIndex)0xCCCCCCCC, d, {}}; ZyanStatus st = 0; OP("alloc", t, d); on(t, [&] { st = tls_Alloc(&x.ix, dtor(d)); });
            CHECK(ZYAN_SUCCESS(st), "allocating a slot returned %s", STN(st)); for (auto& y : slots) CHECK(y.ix != x.ix, "two live slots share an index");
            slots.push_back(x); LABEL_IF(freed, "allocated after a release"); if (freed) mark_nontrivial();
            check_slot(0, slots.back()); for (auto& l : live) check_slot(l.first, slots.back());
            break;
        }
        case 1: // store
        {
            if (slots.empty()) break;
            int t = who(); Slot& x = slots[s.below(slots.size())]; uintptr_t v = s.chance(1, 6) ? 0 : unique++; ZyanStatus st = 0; OP("store", t, (unsigned)(&x - slots.data()), v != 0); on(t, [&] { st = tls_Set(x.ix, (void*)v); });
            CHECK(ZYAN_SUCCESS(st), "storing returned %s", STN(st)); x.val[t] = v; if (x.val.size() > 1) { LABEL("slot used by several threads"); mark_nontrivial(); }
            break;
        }
        case 2: // load
        {
            if (slots.empty()) break;
            int t = who(); OP("load", t); Slot& x = slots[s.below(slots.size())]; check_slot(t, x);
            break;
        }
        case 3: if (live.size() < 4) { int t = next++; OP("start", t); live[t].reset(new Hand); live[t]->start(); identity(t); for (auto& x : slots) if (s.flip()) check_slot(t, x); } break;
        case 4: if (!live.empty()) { int t = who(); if (t) exit_thread(t); } break;
        case 5: // release
        {
            if (slots.empty()) break;
            int t = who(); size_t k = s.below(slots.size()); ZyanStatus st = 0; OP("free", t, k); on(t, [&] { st = tls_Free(slots[k].ix); }); CHECK(ZYAN_SUCCESS(st), "releasing returned %s", STN(st));
            if (s.chance(1, 4)) { ZyanThreadTlsIndex ix = slots[k].ix; on(t, [&] { st = tls_Set(ix, &slots); }); CHECK(ZYAN_FAILED(st), "storing into a released slot returned %s", STN(st)); on(t, [&] { st = tls_Free(ix); }); CHECK(ZYAN_FAILED(st), "releasing a slot twice returned %s", STN(st)); LABEL("released slot"); }
            slots.erase(slots.begin() + (long)k); freed = true;
            break;
        }
        case 6: identity(who()); break;
        case 7: // refusal
        {
            int which = 1 + (int)s.below(3), err = s.pick<int>({EAGAIN, ENOMEM, EINVAL, ENOSYS}), t = who(); if (which > 1 && slots.empty()) break;
            size_t k = which > 1 ? s.below(slots.size()) : 0; ZyanThreadTlsIndex ix = 0; ZyanStatus st = 0; bool fired = false; OP("refused", which, err, t, k);
            on(t, [&] { arm(which, err); st = which == 1 ? tls_Alloc(&ix, d_one) : which == 2 ? tls_Free(slots[k].ix) : tls_Set(slots[k].ix, (void*)(unique + 7)); fired = disarm(); });
            if (fired) { LABEL("system refusal"); CHECK(ZYAN_FAILED(st), "call %d reported %s although the system refused with error %d", which, STN(st), err); if (which == 3) check_slot(t, slots[k]); }
            else if (which == 1 && ZYAN_SUCCESS(st)) tls_Free(ix); else if (which == 2 && ZYAN_SUCCESS(st)) slots.erase(slots.begin() + (long)k); else if (which == 3 && ZYAN_SUCCESS(st)) slots[k].val[t] = unique + 7;
            unique += 16;
            break;
        }
        default: // allocate until none is left
        {
            if (!s.chance(1, 10)) break;
            OP("exhaust"); std::vector<ZyanThreadTlsIndex> many; ZyanThreadTlsIndex ix; ZyanStatus st = 0; while (many.size() < 5000 && ZYAN_SUCCESS(st = tls_Alloc(&ix, nullptr))) many.push_back(ix);
            CHECK(many.size() + slots.size() >= 128 - 8, "only %zu slots are available", many.size() + slots.size()); if (many.size() < 5000) CHECK(st == ZYAN_STATUS_OUT_OF_RESOURCES, "allocating beyond the limit returned %s", STN(st));
            std::set<ZyanThreadTlsIndex> all(many.begin(), many.end()); for (auto& x : slots) all.insert(x.ix); CHECK(all.size() == many.size() + slots.size(), "live slots share an index");
            for (size_t k = 0; k < many.size(); k += 17) CHECK(ZYAN_SUCCESS(tls_Set(many[k], (void*)(uintptr_t)(k + 1))), "storing failed");
            for (size_t k = 0; k < many.size(); ++k) { void* p = &ix; tls_Get(many[k], &p); CHECK((uintptr_t)p == (k % 17 ? 0 : k + 1), "slot %zu of %zu holds a wrong value", k, many.size()); }
            for (auto i : many) CHECK(ZYAN_SUCCESS(tls_Free(i)), "releasing failed");
            freed = true; LABEL("exhausted");
            break;
        }
        }
        CHECK(g_destroyed.empty(), "a destructor ran although no thread exited");
    }
    for (auto& x : slots) { check_slot(0, x); for (auto& l : live) check_slot(l.first, x); }
    while (!live.empty()) exit_thread(live.begin()->first);
    for (auto& x : slots) { check_slot(0, x); CHECK(ZYAN_SUCCESS(tls_Free(x.ix)), "releasing failed"); }
}
