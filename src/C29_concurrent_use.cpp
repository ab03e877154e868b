// technique: property-based testing with real threads under ThreadSanitizer (happens-before race detection in the library's code): random histories on private objects in several threads and random readers of one shared object, against sequential models
#include "diff.hpp"
#include "sys_bits.hpp"
#include "sys_list.hpp"
#include "sys_vec.hpp"
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>
#include <Zycore/Zycore.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

PropertyInfo PROPERTY = {"C29", "exploration",
    "A case lets 2 to 4 threads either run random histories on objects of their own (vector, list, string with number and formatted "
    "appends, bitset, argument parsing; recording, default allocator or fixed buffer; some threads run the same history) or read one "
    "shared object (searches, comparisons, accessors, aggregates, walks, copies from it), each against its model, with the library "
    "instrumented for data races; every history also runs alone first, and the threads may be the first of the process to use the library; non-trivial: at least two threads ran at least 5 operations",
    18000, 216000, 4000, 5, 1,
    {"the interleavings are those of the machine; races are found by happens-before analysis, which needs no unlucky timing",
     "the library's own code is judged, not the C library's"}};

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0:symbolize=0:history_size=4"; }

// ---- the library's statics: a copy from before its first use, to begin anew as a fresh process would
struct Statics
{
    struct Part { char* at; std::vector<char> was; }; std::vector<Part> parts; unsigned resets = 0;
    Statics() { dl_iterate_phdr(&Statics::see, this); }
    static int see(dl_phdr_info* i, size_t, void* p)
    {
        if (!i->dlpi_name || !strstr(i->dlpi_name, "libunder_test.so")) return 0;
        uintptr_t ro0 = 0, ro1 = 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; ro1 = (ro0 + i->dlpi_phdr[k].p_memsz + 4095) & ~(uintptr_t)4095; }
        for (int k = 0; k < i->dlpi_phnum; ++k)
        {
            auto& h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
            uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz; if (ro0 <= a && a < ro1) a = ro1;
            if (a < e) ((Statics*)p)->parts.push_back({(char*)a, std::vector<char>((char*)a, (char*)e)});
        }
        return 0;
    }
    // bounded, in case something of the system is held by a static
    bool reset() { if (++resets > 600) return false; for (auto& q : parts) memcpy(q.at, q.was.data(), q.was.size()); return true; }
};
static Statics g_statics;

std::vector<std::pair<const Api*, Env>> World::builds() { return {{&native_api(), Env()}}; }

// ---- a history on private objects, a function of its bytes
static unsigned private_history(Src& s, std::string& seen)
{
    const Api& A = native_api(); RecAlloc ra; unsigned steps = 0;
    switch (s.weighted({3, 2, 5, 2, 2, 1, 6}))
    {
    case 6: // every function: what it sees alone it must see among the other threads
    {
        g_seen = &seen; switch (s.weighted({4, 2, 6, 3})) { case 0: vectors(s); break; case 1: lists(s); break; case 2: strings(s); break; default: bitsets(s); }
        g_seen = nullptr; steps = seen.size() > 500 ? 5 : 0; break;
    }
    case 0:
    {
        VecSys v(A); v.es = s.pick<size_t>({1, 4, 8, 24}); v.kind = (VecSys::Kind)s.below(3); v.alphabet = 5; v.configure(s, &ra); v.init(s, s.size(20));
        while (s.more(16) && ++steps < 60) v.step(s, s.chance(1, 5), 20);
        v.destroy(); break;
    }
    case 1:
    {
        ListSys l(A); l.es = s.pick<size_t>({1, 4, 8, 24}); l.ra = &ra; l.kind = (ListSys::Kind)s.below(3); l.init(s, s.size(12), 0);
        while (s.more(16) && ++steps < 60) l.step(s, 12);
        l.destroy(); break;
    }
    case 2:
    {
        StrSys t(A); t.kind = (StrSys::Kind)s.below(3); t.configure(s, &ra);
        if (s.chance(1, 3)) { std::string a = gen_text(s, t.alpha, 30), b = gen_text(s, t.alpha, 30); if (!t.build_from(s, a, s.flip() ? &b : nullptr, 80)) return steps; }
        else t.init(s, s.size(60));
        while (s.more(16) && ++steps < 60)
            switch (s.weighted({4, 4, 2}))
            {
            case 0: t.step(s, s.chance(1, 5), 60); break;
            case 1: { StrSys::Num q = StrSys::gen_num(s); t.op_number(s, q); break; }
            default: { StrSys::Fmt f = StrSys::gen_fmt(s, 30); t.op_format(s, f); }
            }
        t.destroy(); break;
    }
    case 3:
    {
        BitSys b(A); b.kind = (BitSys::Kind)s.below(3); b.configure(s, &ra); if (b.init(s, s.size(60), 8) != ZYAN_STATUS_SUCCESS) return steps;
        while (s.more(16) && ++steps < 60) { b.step(s, s.chance(1, 5), 60); b.check_aggregates("after a step"); }
        b.destroy(); break;
    }
    case 4:
    {
        while (s.more(5) && ++steps < 20)
        {
            ArgCase c; c.generate(s); c.trace(); Guarded pv(sizeof(ZyanVector), 0xCC); ZyanVector* p = (ZyanVector*)pv.p; const char* et = nullptr;
            bool ex = s.flip(); OP(ex ? "ArgParseEx" : "ArgParse"); ZyanStatus st = ex ? ZyanArgParseEx(&c.cfg, p, &et, &ra) : ZyanArgParse(&c.cfg, p, &et);
            c.compare(A, st, p, et);
        }
        break;
    }
    default:
    {
        while (s.more(5) && ++steps < 20)
        {
            OP("services"); ZyanThreadTlsIndex k; ZyanThreadId id = 0, id2 = 0; int x;
            CHECK(ZyanMemoryGetSystemPageSize() && ZyanMemoryGetSystemAllocationGranularity() && ZyanAllocatorDefault(), "a system service failed");
            CHECK(ZycoreGetVersion() == ZYCORE_VERSION, "the reported version is wrong");
            CHECK(ZYAN_SUCCESS(ZyanThreadGetCurrentThreadId(&id)) && ZYAN_SUCCESS(ZyanThreadGetCurrentThreadId(&id2)) && id == id2, "the thread identity is not stable");
            CHECK(ZYAN_SUCCESS(ZyanThreadTlsAlloc(&k, nullptr)) && ZYAN_SUCCESS(ZyanThreadTlsSetValue(k, &x)), "a thread-local slot failed"); void* got = nullptr;
            CHECK(ZYAN_SUCCESS(ZyanThreadTlsGetValue(k, &got)) && got == &x && ZYAN_SUCCESS(ZyanThreadTlsFree(k)), "a thread-local slot lost its value");
        }
    }
    }
    ra.check_empty("after destruction");
    return steps;
}

// ---- readers of shared objects
struct Shared
{
    RecAlloc ra, rl, rs, rb; VecSys v; ListSys l; StrSys t; BitSys b; ArgCase c; std::vector<uint32_t> sorted; std::string lowt;
    explicit Shared(const Api& A) : v(A), l(A), t(A), b(A) {}
};
static ZyanI32 cmp_u32(const void* a, const void* b) { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static ZyanBool eq_u32(const void* a, const void* b) { return !memcmp(a, b, 4); }
static unsigned reader(Src& s, const Shared& h)
{
    const Api& A = native_api(); unsigned steps = 0;
    auto tf = [](bool x) { return x ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE; };
    while (s.more(30) && ++steps < 100)
        switch (s.below(9))
        {
        case 0: { OP("read vector"); h.v.check_contents("shared vector"); (void)h.v.capacity(); break; }
        case 1:
        {
            uint32_t q = h.sorted.size() && s.flip() ? s.pick(h.sorted) : (uint32_t)s.below(60); OP("search", q);
            ZyanUSize bi = 0; ZyanISize fi = 0; ZyanStatus s1 = A.ZyanVectorBinarySearch(h.v.v, &q, &bi, &cmp_u32), s2 = A.ZyanVectorFind(h.v.v, &q, &fi, &eq_u32);
            size_t lo = (size_t)(std::lower_bound(h.sorted.begin(), h.sorted.end(), q) - h.sorted.begin()); bool f = lo < h.sorted.size() && h.sorted[lo] == q;
            CHECK(s1 == tf(f) && s2 == tf(f) && bi == lo && fi == (f ? (ZyanISize)lo : -1), "searching the shared vector gave %s/%zu and %s/%ld", STN(s1), (size_t)bi, STN(s2), (long)fi);
            break;
        }
        case 2: { OP("walk list"); h.l.check_contents("shared list"); break; }
        case 3: { OP("read string"); h.t.verify("shared string"); h.t.check_char(s.below(h.t.m.size() + 1)); break; }
        case 4:
        {
            size_t at = s.below(h.t.m.size() + 1), n = s.below(std::min<size_t>(h.t.m.size() - at, 5) + 1); std::string needle = h.t.m.substr(at, n); if (needle.empty()) break;
            bool ci = s.flip(), right = s.flip(); ViewBox v(A); v.make(s, ci ? lower(needle) : needle); OP("find in string", needle, ci, right); ZyanISize pos = 0;
            const ZyanStringView* hay = ZYAN_STRING_TO_VIEW(h.t.str); ZyanStatus st = right ? (ci ? A.ZyanStringRPosI(hay, v.get(), &pos) : A.ZyanStringRPos(hay, v.get(), &pos)) : (ci ? A.ZyanStringLPosI(hay, v.get(), &pos) : A.ZyanStringLPos(hay, v.get(), &pos));
            const std::string& m = ci ? h.lowt : h.t.m; size_t e = right ? m.rfind(v.text) : m.find(v.text);
            CHECK(st == ZYAN_STATUS_TRUE && pos == (ZyanISize)e, "searching the shared string gave %s and %ld, expected %ld", STN(st), (long)pos, (long)e);
            break;
        }
        case 5:
        {
            ViewBox v(A); bool same = s.flip(); v.make(s, same ? h.t.m : gen_text(s, 1, 20)); OP("compare", same); ZyanI32 r = 77, ri = 77; const ZyanStringView* a = ZYAN_STRING_TO_VIEW(h.t.str);
            CHECK(ZYAN_SUCCESS(A.ZyanStringCompare(a, v.get(), &r)) && ZYAN_SUCCESS(A.ZyanStringCompareI(a, v.get(), &ri)), "comparison failed");
            CHECK((r == 0) == (h.t.m == v.text) && (ri == 0) == (h.lowt == lower(v.text)), "comparison with the shared string gave %d and %d", r, ri);
            break;
        }
        case 6:
        {
            OP("copy from shared string"); RecAlloc ra; ZyanString d; ZyanStatus st = A.ZyanStringDuplicateEx(&d, ZYAN_STRING_TO_VIEW(h.t.str), 0, &ra, 2, 0); CHECK(ZYAN_SUCCESS(st), "duplication returned %s", STN(st));
            if (!h.t.m.empty()) { st = A.ZyanStringAppend(&d, ZYAN_STRING_TO_VIEW(h.t.str)); CHECK(ZYAN_SUCCESS(st), "append returned %s", STN(st)); }
            const char* p = nullptr; ZyanUSize n = 0; A.ZyanStringGetData(&d, &p); A.ZyanStringGetSize(&d, &n); CHECK(std::string(p, n) == h.t.m + h.t.m, "a copy of the shared string is wrong");
            A.ZyanStringDestroy(&d); ra.check_empty("copy");
            break;
        }
        case 7: { OP("read bitset"); h.b.verify("shared bitset"); h.b.check_aggregates("shared bitset"); break; }
        default:
        {
            OP("parse shared arguments"); RecAlloc ra; Guarded pv(sizeof(ZyanVector), 0xCC); const char* et = nullptr;
            ZyanStatus st = ZyanArgParseEx(&h.c.cfg, (ZyanVector*)pv.p, &et, &ra); h.c.compare(A, st, (ZyanVector*)pv.p, et); ra.check_empty("parsed arguments");
        }
        }
    return steps;
}

struct Run { pthread_t id; std::vector<uint8_t> bytes; const Shared* sh; volatile int* gate; int n; std::string alone; };
static void* body(void* p)
{
    Run& r = *(Run*)p; g_mute = true;
    __atomic_fetch_add(r.gate, 1, __ATOMIC_RELAXED); for (int i = 0; __atomic_load_n(r.gate, __ATOMIC_RELAXED) < r.n && i < 20000; ++i) if (i > 200) sched_yield();
    Src s; s.buf = r.bytes;
    if (r.sh) { reader(s, *r.sh); return nullptr; }
    std::string seen; private_history(s, seen);
    CHECK(seen == r.alone, "a history of operations on private objects had other results among other threads than alone");
    return nullptr;
}
void run_case(Src& s)
{
    const Api& A = native_api(); int T = 2 + (int)s.below(3); bool readers = s.chance(1, 3); std::unique_ptr<Shared> sh;
    OP(readers ? "readers of shared objects" : "private objects", T);
    if (readers)
    {
        sh.reset(new Shared(A)); Shared& h = *sh;
        h.v.es = 4; h.v.configure(s, &h.ra); h.v.init(s, 8); size_t n = s.size(30); for (size_t i = 0; i < n; ++i) h.sorted.push_back((uint32_t)s.below(60)); std::sort(h.sorted.begin(), h.sorted.end());
        for (uint32_t x : h.sorted) { CHECK(ZYAN_SUCCESS(A.ZyanVectorPushBack(h.v.v, &x)), "push failed"); h.v.m.push_back(std::string((char*)&x, 4)); }
        h.l.es = 8; h.l.ra = &h.rl; h.l.init(s, 0, 0); for (size_t k = s.size(12); k; --k) h.l.op_push(s);
        h.t.configure(s, &h.rs); h.t.init(s, 20); for (int k = 0; k < 3; ++k) h.t.op_insert(s, false, 30); h.lowt = lower(h.t.m);
        h.b.configure(s, &h.rb); h.b.init(s, s.size(60), 0); for (int k = 0; k < 8; ++k) h.b.op_bit(s, false);
        h.c.generate(s); h.c.trace();
    }
    std::vector<Run> runs((size_t)T); volatile int gate = 0; unsigned busy = 0; size_t len = s.pick<size_t>({60, 200, 500});
    for (int t = 0; t < T; ++t)
    {
        Run& r = runs[(size_t)t]; r.sh = sh.get(); r.gate = &gate; r.n = T;
        if (t && s.chance(1, 3)) r.bytes = runs[(size_t)t - 1].bytes; // the same history again
        else { bool gen = s.gen; (void)gen; for (size_t i = 0; i < len; ++i) r.bytes.push_back(s.byte()); while (!r.bytes.empty() && !r.bytes.back()) r.bytes.pop_back(); }
        // alone first: the history, and an oracle without concurrency
        OP("history of thread", t); Src q; q.buf = r.bytes; unsigned n = sh ? reader(q, *sh) : private_history(q, r.alone); busy += n >= 5;
    }
    // what ran alone has also set up whatever the library sets up at its first use: sometimes the threads are the first to use it
    if (s.chance(1, 4) && g_statics.reset()) LABEL("first use by several threads");
    OP("all threads at once"); g_mute = true;
    for (auto& r : runs) if (pthread_create(&r.id, nullptr, body, &r)) _exit(2);
    for (auto& r : runs) pthread_join(r.id, nullptr);
    g_mute = false;
    if (sh) { Shared& h = *sh; h.v.destroy(); h.l.destroy(); h.t.destroy(); h.b.destroy(); LABEL("shared readers"); } else LABEL("private objects");
    if (busy >= 2) mark_nontrivial();
}
