// technique: stateful property-based testing: random histories of protect, release and flush calls on a private mapping against a per-page model that is verified by actual accesses (system-call probes and execution), random bindings of the standard streams (pseudo terminal, pipe, file, device, socket, closed) against the terminal ioctl, and injected refusals
#include "zy.hpp"
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>
#include <array>
#include <errno.h>
#include "win/win32.hpp"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <termios.h>
#include <unistd.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif

PropertyInfo PROPERTY = {"C24", "exploration",
    "A case either runs a history (average 12 steps) of protection changes, releases, cache flushes, code generation and refused calls "
    "on a private mapping of 12 or 80 pages between two 8-page guard zones, checking after each step for every page whether it is mapped, "
    "readable, writable and executable and that its contents survived, or binds the three standard streams to random objects and "
    "queries them, or applies them to a range of more than 4 GiB, or interprets a random text with colour sequences, or runs the Windows branches over fake services (memory, streams, consoles, refusals); non-trivial: at least two pages differ in rights, a page was released, "
    "a stream is a terminal or closed, or two colour sequences",
    60000, 1600000, 2000, 3, 3,
    {"on x86 an execute-only page may be readable; it is judged by the rights the kernel lists for it (/proc/self/maps)", "the Windows implementation is run over fakes of the system services it calls",
     "addresses that are not page-aligned are outside the documented domain and not generated"}};

// weak: a missing C linkage shows at run time instead of failing the link
extern __attribute__((weak)) decltype(ZyanMemoryGetSystemPageSize) ZyanMemoryGetSystemPageSize;
extern __attribute__((weak)) decltype(ZyanMemoryGetSystemAllocationGranularity) ZyanMemoryGetSystemAllocationGranularity;
extern __attribute__((weak)) decltype(ZyanMemoryVirtualProtect) ZyanMemoryVirtualProtect;
extern __attribute__((weak)) decltype(ZyanMemoryVirtualFree) ZyanMemoryVirtualFree;
extern __attribute__((weak)) decltype(ZyanProcessFlushInstructionCache) ZyanProcessFlushInstructionCache;
extern __attribute__((weak)) decltype(ZyanTerminalIsTTY) ZyanTerminalIsTTY;
extern __attribute__((weak)) decltype(ZyanTerminalEnableVT100) ZyanTerminalEnableVT100;
static bool callable() { return ZyanMemoryGetSystemPageSize && ZyanMemoryGetSystemAllocationGranularity && ZyanMemoryVirtualProtect && ZyanMemoryVirtualFree && ZyanProcessFlushInstructionCache && ZyanTerminalIsTTY && ZyanTerminalEnableVT100; }

static int t_arm = 0, t_err = 0; static bool t_fired = false;
static bool refuse(int which) { if (t_arm != which) return false; t_arm = 0; t_fired = true; errno = t_err; return true; }
extern "C" {
int hk_mprotect(void* a, size_t n, int p) { return refuse(1) ? -1 : mprotect(a, n, p); }
int hk_munmap(void* a, size_t n) { return refuse(2) ? -1 : munmap(a, n); }
int hk_msync(void* a, size_t n, int f) { return refuse(3) ? -1 : msync(a, n, f); }
}
static const int G = 8, MAXALL = 80 + 2 * G;
static sigjmp_buf g_jmp; static volatile sig_atomic_t g_try = 0;
static struct sigaction g_old;
static void on_segv(int sig, siginfo_t*, void*) { if (g_try) siglongjmp(g_jmp, 1); sigaction(SIGSEGV, &g_old, nullptr); raise(sig); }

struct Pages
{
    size_t ps = (size_t)sysconf(_SC_PAGESIZE); unsigned char* base = nullptr; const int N, ALL; int prot[MAXALL]; bool mapped[MAXALL]; uint32_t code[MAXALL]; std::vector<unsigned char> want; int pipefd[2];
    unsigned char* at(int i) { return base + (size_t)i * ps; }
    void put_code(unsigned char* p, uint32_t v) { p[0] = 0xB8; memcpy(p + 1, &v, 4); p[5] = 0xC3; } // mov eax, v; ret
    Pages(Src& s) : N(s.chance(1, 30) ? 80 : 12), ALL(N + 2 * G)
    {
        base = (unsigned char*)mmap(nullptr, ALL * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED || pipe2(pipefd, O_NONBLOCK)) _exit(2);
        want.resize(ALL * ps); uint32_t x = (uint32_t)s.raw(2) + 1; for (size_t i = 0; i < want.size(); i += 4) { x = x * 1664525u + 1013904223u; memcpy(&want[i], &x, 4); }
        for (int i = 0; i < ALL; ++i) { code[i] = 0x1000u + (uint32_t)i; put_code(&want[(size_t)i * ps], code[i]); prot[i] = PROT_READ | PROT_WRITE; mapped[i] = true; }
        memcpy(base, want.data(), want.size());
        for (int i = 0; i < ALL; ++i) if (i < G || i >= N + G) { prot[i] = PROT_READ; mprotect(at(i), ps, PROT_READ); }
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, &g_old);
    }
    ~Pages() { munmap(base, ALL * ps); close(pipefd[0]); close(pipefd[1]); sigaction(SIGSEGV, &g_old, nullptr); }
    bool readable(int i) { char b; bool r = write(pipefd[1], at(i) + 7, 1) == 1; if (r && read(pipefd[0], &b, 1) != 1) _exit(2); return r; }
    bool writable(int i) { char b = (char)want[(size_t)i * ps + 9]; if (write(pipefd[1], &b, 1) != 1) _exit(2); bool r = read(pipefd[0], at(i) + 9, 1) == 1; while (read(pipefd[0], &b, 1) == 1) {} return r; }
    __attribute__((noinline)) bool runs(int i, uint32_t& v)
    {
        g_try = 1; bool ok = false;
        if (!sigsetjmp(g_jmp, 1)) { v = ((uint32_t (*)())at(i))(); ok = true; }
        g_try = 0; return ok;
    }
    // the holes are kept occupied between the calls so that nobody else's mapping lands there
    void open_holes() { for (int i = 0; i < ALL; ++i) if (!mapped[i]) munmap(at(i), ps); }
    bool actual[MAXALL];
    void look_and_close() // no allocation may happen between open_holes and here
    {
        unsigned char v; for (int i = 0; i < ALL; ++i) actual[i] = mincore(at(i), ps, &v) == 0;
        for (int i = 0; i < ALL; ++i) if (!actual[i]) mmap(at(i), ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    }
    // what the kernel recorded for the pages: the only way to tell execute-only from execute-and-read on this hardware
    void verify_kernel(const char* after)
    {
        static int usable = -1; // does this kernel list an execute-only page as such?
        if (usable < 0) { usable = 0; void* x = mmap(nullptr, ps, PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); FILE* f = fopen("/proc/self/maps", "r"); char l[512]; unsigned long lo, hi; char r[5]; while (f && fgets(l, sizeof l, f)) if (sscanf(l, "%lx-%lx %4s", &lo, &hi, r) == 3 && lo <= (uintptr_t)x && (uintptr_t)x < hi) usable = !strncmp(r, "--x", 3); if (f) fclose(f); if (x != MAP_FAILED) munmap(x, ps); }
        if (!usable) { LABEL("the kernel does not list execute-only pages"); return; }
        static char buf[1 << 20]; size_t n = 0; int fd = open("/proc/self/maps", O_RDONLY); if (fd < 0) { LABEL("no map of the address space"); return; }
        for (ssize_t k; n < sizeof buf - 1 && (k = ::read(fd, buf + n, sizeof buf - 1 - n)) > 0;) n += (size_t)k;
        close(fd); buf[n] = 0; if (n == sizeof buf - 1) return;
        int seen[MAXALL]; for (int& x : seen) x = -1;
        for (char* l = buf; *l; )
        {
            char* e; uintptr_t lo = strtoull(l, &e, 16); uintptr_t hi = *e == '-' ? strtoull(e + 1, &e, 16) : 0; uintptr_t b = (uintptr_t)base;
            if (hi > b && lo < b + ALL * ps && *e == ' ') for (int i = 0; i < ALL; ++i) if ((uintptr_t)at(i) >= lo && (uintptr_t)at(i) < hi) seen[i] = (e[1] == 'r' ? PROT_READ : 0) | (e[2] == 'w' ? PROT_WRITE : 0) | (e[3] == 'x' ? PROT_EXEC : 0);
            l = strchr(l, '\n'); if (!l) break; ++l;
        }
        for (int i = 0; i < ALL; ++i) if (mapped[i]) { CHECK(seen[i] == prot[i], "page %d with rights %d has rights %d after %s", i - G, prot[i], seen[i], after); LABEL_IF(prot[i] == PROT_EXEC, "execute-only page judged"); }
    }
    void verify(Src& s, const char* after)
    {
        bool x = false; for (int i = 0; i < ALL; ++i) x |= mapped[i] && prot[i] == PROT_EXEC;
        if (x ? s.chance(1, 4) : s.chance(1, 40)) verify_kernel(after);
        for (int i = 0; i < ALL; ++i)
        {
            CHECK(actual[i] == mapped[i], "page %d is %s after %s", i - G, actual[i] ? "still mapped" : "not mapped any more", after);
            if (!mapped[i]) continue;
            if (prot[i] != PROT_EXEC) CHECK(readable(i) == !!(prot[i] & PROT_READ), "page %d with rights %d is %sreadable after %s", i - G, prot[i], prot[i] & PROT_READ ? "not " : "", after);
            CHECK(writable(i) == !!(prot[i] & PROT_WRITE), "page %d with rights %d is %swritable after %s", i - G, prot[i], prot[i] & PROT_WRITE ? "not " : "", after);
            if (prot[i] & PROT_READ) CHECK(!memcmp(at(i), &want[(size_t)i * ps], ps), "contents of page %d changed after %s", i - G, after);
        }
        int k = (int)s.below(ALL);
        for (int i : {k, (k + 5) % ALL, G, N + G - 1}) if (mapped[i]) { uint32_t v = 0; bool r = runs(i, v); CHECK(r == !!(prot[i] & PROT_EXEC), "page %d with rights %d is %sexecutable after %s", i - G, prot[i], prot[i] & PROT_EXEC ? "not " : "", after); if (r) CHECK(v == code[i], "page %d runs old code after %s", i - G, after); }
    }
};
static void memory(Src& s)
{
    Pages P(s); const int N = P.N, ALL = P.ALL; LABEL_IF(N > 12, "large range"); bool released = false;
    CHECK(ZyanMemoryGetSystemPageSize() == P.ps, "wrong page size"); CHECK(ZyanMemoryGetSystemAllocationGranularity() == P.ps, "wrong allocation granularity");
    static const ZyanMemoryPageProtection PR[] = {ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE};
    static const int WANT[] = {PROT_READ, PROT_READ | PROT_WRITE, PROT_EXEC, PROT_EXEC | PROT_READ, PROT_EXEC | PROT_READ | PROT_WRITE};
    while (s.more(12))
    {
        int i = G + (int)s.below(N), n = 1 + (int)s.below((uint64_t)std::min(N > 12 && s.flip() ? N : 5, N + G - i)); size_t size = (size_t)n * P.ps - (s.flip() ? s.below(P.ps) : 0); int k = (int)s.below(5);
        bool hole = false; for (int j = i; j < i + n; ++j) hole |= !P.mapped[j];
        ZyanStatus st; const char* what = "";
        switch (s.weighted({8, 2, 4, 3, 2, 1}))
        {
        case 0:
            what = "protecting"; OP(what, i - G, size, k); P.open_holes(); st = ZyanMemoryVirtualProtect(P.at(i), size, PR[k]); P.look_and_close();
            if (hole) { CHECK(ZYAN_FAILED(st), "protecting a range with unmapped pages returned %s", STN(st)); LABEL("range with a hole"); for (int j = i; j < i + n; ++j) if (P.mapped[j]) mprotect(P.at(j), P.ps, P.prot[j]); }
            else { CHECK(ZYAN_SUCCESS(st), "protecting returned %s", STN(st)); for (int j = i; j < i + n; ++j) P.prot[j] = WANT[k]; LABEL("protected"); }
            break;
        case 1:
            what = "releasing"; OP(what, i - G, size); P.open_holes(); st = ZyanMemoryVirtualFree(P.at(i), size); P.look_and_close();
            CHECK(ZYAN_SUCCESS(st) || hole, "releasing returned %s", STN(st));
            if (ZYAN_SUCCESS(st)) for (int j = i; j < i + n; ++j) P.mapped[j] = false; else for (int j = i; j < i + n; ++j) P.mapped[j] = P.actual[j];
            released = true; LABEL("released");
            break;
        case 2:
            what = "flushing"; OP(what, i - G, size); P.open_holes(); st = ZyanProcessFlushInstructionCache(P.at(i), size); P.look_and_close();
            if (hole) CHECK(ZYAN_FAILED(st), "flushing a range with unmapped pages returned %s", STN(st)); else CHECK(ZYAN_SUCCESS(st), "flushing returned %s", STN(st));
            LABEL("flushed");
            break;
        case 3: // generate code: make it writable, write, make it executable, flush, run
        {
            if (!P.mapped[i]) continue;
            what = "generating code"; uint32_t v = (uint32_t)s.raw(2); int a = s.flip() ? 1 : 4, b = a == 4 && s.flip() ? 4 : 3; OP(what, i - G, v, a, b);
            CHECK(ZYAN_SUCCESS(ZyanMemoryVirtualProtect(P.at(i), P.ps, PR[a])), "protecting failed"); P.put_code(P.at(i), v); P.put_code(&P.want[(size_t)i * P.ps], v); P.code[i] = v;
            CHECK(ZYAN_SUCCESS(ZyanMemoryVirtualProtect(P.at(i), P.ps, PR[b])), "protecting failed"); CHECK(ZYAN_SUCCESS(ZyanProcessFlushInstructionCache(P.at(i), 6)), "flushing failed"); P.prot[i] = WANT[b];
            uint32_t r = 0; CHECK(P.runs(i, r) && r == v, "generated code does not run after it was made executable and flushed"); P.open_holes(); P.look_and_close(); LABEL("generated code");
            break;
        }
        case 4:
        {
            int which = 1 + (int)s.below(3); t_err = s.pick<int>({ENOMEM, EINVAL, EACCES, EBUSY}); what = "a refused call"; OP(what, which, t_err, i - G); if (hole) continue;
            t_arm = which; t_fired = false; P.open_holes(); st = which == 1 ? ZyanMemoryVirtualProtect(P.at(i), size, PR[k]) : which == 2 ? ZyanMemoryVirtualFree(P.at(i), size) : ZyanProcessFlushInstructionCache(P.at(i), size); P.look_and_close(); t_arm = 0;
            if (t_fired) { CHECK(ZYAN_FAILED(st), "call %d returned %s although the system refused", which, STN(st)); LABEL("system refusal"); }
            else if (ZYAN_SUCCESS(st)) for (int j = i; j < i + n; ++j) { if (which == 1) P.prot[j] = WANT[k]; if (which == 2) P.mapped[j] = false; }
            break;
        }
        default: // addresses outside of any mapping
        {
            what = "an invalid address"; int which = (int)s.below(3); void* a = s.flip() && sizeof(void*) > 4 ? (void*)0xFFFF800000000000ull : (void*)(uintptr_t)P.ps; OP(what, which, (uint64_t)(uintptr_t)a); if (which == 1 && a == (void*)(uintptr_t)P.ps) continue; // releasing what is not mapped may succeed
            st = which == 0 ? ZyanMemoryVirtualProtect(a, size, PR[k]) : which == 1 ? ZyanMemoryVirtualFree(a, size) : ZyanProcessFlushInstructionCache(a, size);
            CHECK(ZYAN_FAILED(st), "call %d on an invalid address returned %s", which, STN(st)); P.open_holes(); P.look_and_close(); LABEL("invalid address");
            break;
        }
        }
        P.verify(s, what);
    }
    bool differ = released; for (int j = G + 1; j < N + G; ++j) differ |= P.prot[j] != P.prot[G];
    if (differ) mark_nontrivial();
    // contents survive every sequence of protections
    for (int j = 0; j < ALL; ++j) if (P.mapped[j]) { mprotect(P.at(j), P.ps, PROT_READ); CHECK(!memcmp(P.at(j), &P.want[(size_t)j * P.ps], P.ps), "contents of page %d changed", j - G); }
}
// ranges of more than 4 GiB (256 MiB in a 32-bit program); the memory itself is never populated
static void huge(Src& s)
{
    size_t ps = (size_t)sysconf(_SC_PAGESIZE), lead = ps * s.below(3), size = (size_t)((uint64_t)1 << (sizeof(size_t) > 4 ? 32 : 28)) + ps * s.below(40), all = lead + size + 4 * ps;
    unsigned char* b = (unsigned char*)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { LABEL("no huge mapping available"); return; }
    OP("huge", lead, size); int pf[2]; if (pipe2(pf, O_NONBLOCK)) _exit(2);
    auto readable = [&](size_t o) { char c; bool r = write(pf[1], b + o, 1) == 1; if (r && read(pf[0], &c, 1) != 1) _exit(2); return r; };
    auto mapped = [&](size_t o) { unsigned char v; return mincore(b + o, ps, &v) == 0; };
    size_t at[] = {lead, lead + ps * (size_t)s.below(size / ps), lead + size - ps}; size_t cut = s.flip() ? s.below(ps) : 0;
    std::string bad;
    if (ZYAN_FAILED(ZyanMemoryVirtualProtect(b + lead, size - cut, ZYAN_PAGE_READONLY))) bad = "protecting a huge range failed";
    for (size_t o : at) if (bad.empty() && !readable(o)) bad = "part of a huge range was not protected";
    if (bad.empty() && (readable(lead + size) || (lead && readable(lead - ps)))) bad = "a page outside of a huge range was protected";
    if (bad.empty() && ZYAN_FAILED(ZyanProcessFlushInstructionCache(b + lead, size - cut))) bad = "flushing a huge range failed";
    if (bad.empty() && ZYAN_FAILED(ZyanMemoryVirtualFree(b + lead, size - cut))) bad = "releasing a huge range failed";
    for (size_t o : at) if (bad.empty() && mapped(o)) bad = "part of a huge range was not released";
    if (bad.empty() && (!mapped(lead + size) || (lead && !mapped(lead - ps)))) bad = "a page outside of a huge range was released";
    // nothing that matters can have been mapped into the hole: this process is single-threaded and allocated nothing large
    munmap(b, all); close(pf[0]); close(pf[1]); if (!bad.empty()) FAIL("%s", bad.c_str());
    LABEL("huge range"); mark_nontrivial();
}
static void terminal(Src& s)
{
    static const char* KIND[] = {"pseudo terminal", "closed", "pipe", "null device", "file", "socket", "terminal master"};
    int kind[3], fd[3] = {-1, -1, -1}, saved[3], other[3] = {-1, -1, -1}; bool expect[3], master_ok = true; (void)master_ok;
    for (int i = 0; i < 3; ++i) { kind[i] = (int)s.below(7); OP("bind", i, KIND[kind[i]]); }
    int noise = s.pick<int>({0, EBADF, ENOTTY, EINVAL, EIO}), extra = s.pick<int>({3, 4, 17, -1}); unsigned rounds = 1 + (unsigned)s.below(3);
    int order[6]; for (int& o : order) o = (int)s.below(3);
    for (int i = 0; i < 3; ++i)
    {
        int p[2] = {-1, -1};
        switch (kind[i])
        {
        case 0: case 6: { int m = posix_openpt(O_RDWR | O_NOCTTY); char nm[64]; if (m < 0 || grantpt(m) || unlockpt(m) || ptsname_r(m, nm, sizeof nm)) { if (m >= 0) close(m); LABEL("no pseudo terminal available"); kind[i] = 3; fd[i] = open("/dev/null", O_RDWR); break; } p[0] = open(nm, O_RDWR | O_NOCTTY); if (p[0] < 0) { close(m); kind[i] = 3; fd[i] = open("/dev/null", O_RDWR); break; } fd[i] = kind[i] ? m : p[0]; other[i] = kind[i] ? p[0] : m; break; }
        case 1: break;
        case 2: if (pipe(p)) _exit(2); fd[i] = i ? p[1] : p[0]; other[i] = i ? p[0] : p[1]; break;
        case 3: fd[i] = open("/dev/null", O_RDWR); break;
        case 4: { FILE* t = tmpfile(); if (!t) _exit(2); fd[i] = dup(fileno(t)); fclose(t); break; }
        default: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(2); fd[i] = p[0]; other[i] = p[1]; break;
        }
        struct termios t; expect[i] = fd[i] >= 0 && ioctl(fd[i], TCGETS, &t) == 0;
        if (fd[i] >= 0 && fd[i] < 20) { int h = fcntl(fd[i], F_DUPFD, 20); close(fd[i]); fd[i] = h; }
        if (other[i] >= 0 && other[i] < 20) { int h = fcntl(other[i], F_DUPFD, 20); close(other[i]); other[i] = h; }
    }
    ZyanStatus is[3][6], vt[3], vx; struct termios before[3], after[3]; bool have[3];
    for (int i = 0; i < 3; ++i) saved[i] = fcntl(i, F_DUPFD, 100);
    for (int i = 0; i < 3; ++i) { close(i); if (fd[i] >= 0) dup2(fd[i], i); }
    for (int i = 0; i < 3; ++i) have[i] = tcgetattr(i, &before[i]) == 0;
    for (unsigned r = 0; r < rounds; ++r) for (int k = 0; k < 3; ++k) { int i = (order[r] + k) % 3; errno = noise; is[i][r] = ZyanTerminalIsTTY((ZyanStandardStream)(ZYAN_STDSTREAM_IN + i)); }
    for (int i = 0; i < 3; ++i) { errno = noise; vt[i] = ZyanTerminalEnableVT100((ZyanStandardStream)(ZYAN_STDSTREAM_IN + i)); }
    vx = ZyanTerminalEnableVT100((ZyanStandardStream)extra);
    bool same = true, quiet = true; for (int i = 0; i < 3; ++i) if (have[i]) same &= tcgetattr(i, &after[i]) == 0 && before[i].c_lflag == after[i].c_lflag && before[i].c_iflag == after[i].c_iflag && before[i].c_oflag == after[i].c_oflag;
    for (int i = 0; i < 3; ++i) { if (other[i] >= 0 && kind[i] == 0) { char c; fcntl(other[i], F_SETFL, O_NONBLOCK); if (read(other[i], &c, 1) > 0) quiet = false; } close(i); if (saved[i] >= 0) { dup2(saved[i], i); close(saved[i]); } if (fd[i] >= 0) close(fd[i]); if (other[i] >= 0) close(other[i]); }
    for (int i = 0; i < 3; ++i)
    {
        for (unsigned r = 0; r < rounds; ++r)
        {
            if (kind[i] == 1) { CHECK(ZYAN_FAILED(is[i][r]), "a closed stream (%d) is reported as %s", i, STN(is[i][r])); LABEL("closed"); mark_nontrivial(); }
            else CHECK(is[i][r] == (expect[i] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "stream %d bound to a %s is reported as %s (errno before: %d)", i, KIND[kind[i]], STN(is[i][r]), noise);
        }
        if (expect[i]) { LABEL("terminal"); mark_nontrivial(); }
        CHECK(i == 0 ? ZYAN_FAILED(vt[i]) : ZYAN_SUCCESS(vt[i]), "enabling escape sequences for stream %d (%s) returned %s", i, KIND[kind[i]], STN(vt[i]));
    }
    CHECK(ZYAN_FAILED(vx), "enabling escape sequences for stream number %d returned %s", extra, STN(vx));
    CHECK(same, "the terminal settings changed"); CHECK(quiet, "something was written to the terminal");
}
// the colour sequences, judged by an interpreter of ECMA-48 / aixterm select-graphic-rendition sequences
static void colours(Src& s)
{
    LABEL("colours");
#define COL(n, v) {"FG_" #n, ZYAN_VT100SGR_FG_##n, 0, v}, {"BG_" #n, ZYAN_VT100SGR_BG_##n, 1, v}
    static const struct { const char *name, *text; int which, value; } TOKEN[] = {
        {"RESET", ZYAN_VT100SGR_RESET, 2, -1}, COL(DEFAULT, -1), COL(BLACK, 0), COL(RED, 1), COL(GREEN, 2), COL(YELLOW, 3), COL(BLUE, 4), COL(MAGENTA, 5), COL(CYAN, 6), COL(WHITE, 7),
        COL(BRIGHT_BLACK, 8), COL(BRIGHT_RED, 9), COL(BRIGHT_GREEN, 10), COL(BRIGHT_YELLOW, 11), COL(BRIGHT_BLUE, 12), COL(BRIGHT_MAGENTA, 13), COL(BRIGHT_CYAN, 14), COL(BRIGHT_WHITE, 15)};
    std::string text; std::vector<std::array<int, 3>> want; int st[2] = {-1, -1}; unsigned tokens = 0;
    while (s.more(8))
    {
        if (s.chance(1, 3)) { char c = s.pick<char>({'a', 'm', '0', '[', ';', ' '}); text += c; want.push_back({c, st[0], st[1]}); OP("character", (int)c); continue; }
        auto& k = TOKEN[s.below(sizeof TOKEN / sizeof *TOKEN)]; text += k.text; ++tokens; OP(k.name);
        if (k.which == 2) st[0] = st[1] = -1; else st[k.which] = k.value;
        text += 'x'; want.push_back({'x', st[0], st[1]});
    }
    int is[2] = {-1, -1}; size_t n = 0;
    for (size_t i = 0; i < text.size(); ++i)
    {
        if (text[i] == '\033')
        {
            CHECK(i + 1 < text.size() && text[i + 1] == '[', "a colour sequence is not a control sequence"); i += 2; unsigned v = 0; bool digits = false;
            for (;; ++i)
            {
                CHECK(i < text.size(), "a colour sequence does not end");
                if (text[i] >= '0' && text[i] <= '9') { v = v * 10 + (unsigned)(text[i] - '0'); digits = true; CHECK(v < 1000, "a colour sequence has a parameter that is too large"); continue; }
                CHECK(text[i] == ';' || text[i] == 'm', "a colour sequence contains the character 0x%02x", (unsigned char)text[i]);
                if (!digits || v == 0) is[0] = is[1] = -1; else if (v >= 30 && v <= 37) is[0] = (int)v - 30; else if (v == 39) is[0] = -1; else if (v >= 40 && v <= 47) is[1] = (int)v - 40; else if (v == 49) is[1] = -1;
                else if (v >= 90 && v <= 97) is[0] = (int)v - 82; else if (v >= 100 && v <= 107) is[1] = (int)v - 92; else FAIL("a colour sequence has the parameter %u, which is no colour", v);
                if (text[i] == 'm') break;
                v = 0; digits = false;
            }
            continue;
        }
        CHECK(n < want.size() && text[i] == want[n][0], "the colour sequences print characters"); CHECK(is[0] == want[n][1] && is[1] == want[n][2], "a character is printed with colours %d on %d, expected %d on %d", is[0], is[1], want[n][1], want[n][2]); ++n;
    }
    CHECK(n == want.size(), "the colour sequences swallow characters");
    if (tokens >= 2) mark_nontrivial();
}
// the Windows branches over fake services: what they ask of the system, and what they report about its answers
static void on_windows(Src& s)
{
#ifdef NO_WIN
    LABEL("the Windows branches cannot be judged"); (void)s;
#else
    LABEL("Windows branch"); OP("Windows branch");
    if (s.flip())
    {
        auto& m = win::memory; m.page = (size_t)1 << s.range(12, 16); m.gran = m.page << s.below(5); m.base = m.gran * (1 + s.below(1000)); m.pages = 1 + s.below(40); m.live = true; for (auto& p : m.prot) p = 4;
        unsigned want[64]; for (auto& p : want) p = 4; static const unsigned RIGHTS[] = {2, 4, 0x10, 0x20, 0x40}; bool live = true;
        CHECK(win_ZyanMemoryGetSystemPageSize() == m.page, "wrong page size"); CHECK(win_ZyanMemoryGetSystemAllocationGranularity() == m.gran, "wrong allocation granularity");
        while (s.more(8))
        {
            size_t i = s.below(m.pages), n = 1 + s.below(m.pages - i), from = m.base + i * m.page + (s.flip() ? s.below(m.page) : 0), to = m.base + (i + n) * m.page - (s.flip() ? s.below(m.page) : 0), k = s.below(5); if (to <= from) to = from + 1;
            bool outside = s.chance(1, 8); if (outside) { if (s.flip()) from = m.base + m.pages * m.page + s.below(9); to = m.base + m.pages * m.page + 10; }
            win::fired = false; win::arm = s.chance(1, 6) ? 1 + (int)s.below(3) : 0; ZyanStatus st; bool fired, ok;
            switch (s.weighted({5, 1, 3}))
            {
            case 0:
                OP("protect", from - m.base, to - from, k); st = win_ZyanMemoryVirtualProtect((void*)from, to - from, win_consts[k]); fired = win::fired; ok = live && !fired && !outside;
                if (ok) { for (size_t j = (from - m.base) / m.page; j <= (to - 1 - m.base) / m.page; ++j) want[j] = RIGHTS[k]; mark_nontrivial(); }
                CHECK(ZYAN_SUCCESS(st) == ok, "protecting returned %s (%s)", STN(st), ok ? "done by the system" : "refused by the system");
                break;
            case 1:
                OP("release", live, from - m.base); st = win_ZyanMemoryVirtualFree((void*)(outside ? from : m.base), m.pages * m.page); fired = win::fired; ok = live && !fired && (!outside || from == m.base); if (ok) { live = false; LABEL("released"); mark_nontrivial(); }
                CHECK(ZYAN_SUCCESS(st) == ok, "releasing returned %s (%s)", STN(st), ok ? "done by the system" : "refused by the system");
                break;
            default:
                OP("flush", from - m.base, to - from); m.flushes = 0; st = win_ZyanProcessFlushInstructionCache((void*)from, to - from); fired = win::fired;
                CHECK(ZYAN_SUCCESS(st) == !fired, "flushing returned %s (%s)", STN(st), fired ? "refused by the system" : "done by the system");
                if (!fired) CHECK(m.flushes >= 1 && m.flushed_at <= from && m.flushed_at + m.flushed_n >= to, "a range was reported as flushed that was not");
                break;
            }
            win::arm = 0; LABEL_IF(fired, "system refusal");
            CHECK(m.live == live, "the region is %s", m.live ? "not released" : "released although that was not reported");
            for (size_t j = 0; j < m.pages && live; ++j) CHECK(m.prot[j] == want[j], "page %zu has the rights %x instead of %x", j, m.prot[j], want[j]);
        }
        return;
    }
    for (int i = 0; i < 3; ++i) { auto& x = win::stream[i]; x.open = !s.chance(1, 4); x.console = s.chance(1, 2); x.device = x.console || s.chance(1, 6); x.refuse_mode = s.chance(1, 6); x.mode = (unsigned)s.below(32); OP("stream", x.open, x.console, x.device, x.refuse_mode, x.mode); }
    while (s.more(6))
    {
        win::Stream before[3]; for (int i = 0; i < 3; ++i) before[i] = win::stream[i];
        int i = (int)s.below(3); auto& x = win::stream[i]; errno = s.pick<int>({0, EBADF, ENOTTY, EINVAL});
        if (s.flip())
        {
            OP("is a terminal", i, errno); int e = errno; ZyanStatus st = win_ZyanTerminalIsTTY(win_consts[5 + i]);
            if (!x.open) { CHECK(ZYAN_FAILED(st), "a closed stream (%d) is reported as %s", i, STN(st)); LABEL("closed"); mark_nontrivial(); }
            else CHECK(st == (x.device ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "stream %d, %s terminal, is reported as %s (errno before: %d)", i, x.device ? "a" : "no", STN(st), e);
        }
        else
        {
            bool can = i && x.open && x.console && (!x.refuse_mode || (x.mode & 4)); OP("enable sequences", i); ZyanStatus st = win_ZyanTerminalEnableVT100(win_consts[5 + i]);
            if (!(x.console && x.open && i && x.refuse_mode)) CHECK(ZYAN_SUCCESS(st) == can, "enabling sequences for stream %d (%s) returned %s", i, !x.open ? "closed" : x.console ? "a console" : "no console", STN(st));
            else CHECK(ZYAN_FAILED(st) || (x.mode & 4), "enabling sequences reported success although the system refused");
            if (ZYAN_SUCCESS(st)) { CHECK(x.mode == (before[i].mode | 4), "the mode of the console is %x after %x", x.mode, before[i].mode); LABEL("sequences enabled"); mark_nontrivial(); before[i].mode = x.mode; }
        }
        for (int k = 0; k < 3; ++k) CHECK(win::stream[k].mode == before[k].mode, "the mode of stream %d changed from %x to %x", k, before[k].mode, win::stream[k].mode);
    }
#endif
}
void run_case(Src& s) { CHECK(callable(), "a service function declared in the headers cannot be called from C++ (no C linkage)"); switch (s.weighted({200, 80, 20, 1, 40})) { case 0: memory(s); break; case 1: terminal(s); break; case 2: colours(s); break; case 3: huge(s); break; default: on_windows(s); } }
