#include "engine.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return sizeof(size_t) < 8
         ? "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=120:exitcode=88:"
           "quarantine_size_mb=8:malloc_context_size=6:detect_stack_use_after_return=0:"
           "handle_abort=0:print_summary=1:symbolize=0:allocator_release_to_os_interval_ms=-1:"
           "max_free_fill_size=256:strict_memcmp=0"
         : "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:exitcode=88:"
           "quarantine_size_mb=8:malloc_context_size=6:detect_stack_use_after_return=0:"
           "handle_abort=0:print_summary=1:symbolize=0:allocator_release_to_os_interval_ms=-1:"
           "max_free_fill_size=256:strict_memcmp=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=88"; }

namespace
{
const size_t MAX_REC = 1 << 20;
const size_t MAX_HASH = sizeof(void*) > 4 ? 16u << 20 : 4u << 20; // a 32-bit address space is small
const int MAX_WORKERS = 64;
const int MAX_LABELS = 512;
const unsigned CPU_LIMIT_S = 20;
const uint64_t CHUNK = 16; const uint32_t MAX_CHUNKS = sizeof(void*) > 4 ? 1 << 20 : 1 << 16;

struct WorkerSlot
{
    volatile uint64_t cur;      // case index + 1 while running, 0 otherwise
    volatile uint64_t done;
    volatile int failed;        // set by fail_case / hang handler
    char msg[2048];
    // the cases this process has executed so far (blocks of CHUNK indices), for failures that need their history
    uint32_t nchunks; uint32_t chunk[MAX_CHUNKS];
};
struct LabelSlot { char name[80]; std::atomic<uint64_t> n; };
struct Shared
{
    WorkerSlot w[MAX_WORKERS + 1];
    LabelSlot labels[MAX_LABELS];
    std::atomic<int> nlabels;
    std::atomic<int> lock;
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> evaluations, nontrivial;
    std::atomic<uint64_t> nhash;
    std::atomic<uint64_t> sample_idx[8]; // lowest-ish non-trivial indices (+1)
    std::atomic<uint64_t> rec_len;
    uint8_t rec[MAX_REC];
    uint64_t hashes[MAX_HASH];
};
Shared* sh;
WorkerSlot* slot;       // current process' slot
bool recording = false; // record generated bytes into sh->rec
bool fuzz_mode = false;
bool stats_on = false;
uint64_t case_labels[MAX_LABELS / 64];
bool case_nontrivial;
std::string g_out;      // trace text when tracing to memory
int trace_fd = 2;

uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
void on_prof(int)
{
    if (slot) { slot->failed = 2; snprintf(slot->msg, sizeof slot->msg, "case used more than %u s of CPU time (no termination)", CPU_LIMIT_S); }
    _exit(87);
}
void arm_cpu(unsigned s)
{
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
} // namespace

bool g_trace = false;
thread_local bool g_mute = false;
uint64_t g_hash = 0;

uint8_t Src::byte()
{
    if (pos < buf.size()) return buf[pos++];
    if (!gen || pos >= cap) { ++pos; return 0; }
    // one PRNG step per byte keeps the stream independent of how it is grouped
    uint8_t b = (uint8_t)(splitmix(st) >> 24);
    buf.push_back(b); ++pos;
    if (recording)
    {
        uint64_t n = sh->rec_len.load(std::memory_order_relaxed);
        if (n < MAX_REC) { sh->rec[n] = b; sh->rec_len.store(n + 1, std::memory_order_relaxed); }
    }
    return b;
}

uint64_t Src::u64()
{
    switch (below(8))
    {
    case 0: return below(16);
    case 1: return below(300);
    case 2: { unsigned k = (unsigned)below(64); uint64_t b = 1ull << k; return b - 1 + below(3); }
    case 3: { uint64_t p = 1; for (unsigned k = (unsigned)below(20); k; --k) p *= 10; return p - 1 + below(3); }
    case 4: return ~0ull - below(4);
    case 5: return (1ull << 63) - 2 + below(4);
    case 6: { unsigned k = (unsigned)below(65); uint64_t v = raw(8); return k == 64 ? v : v & ((1ull << k) - 1); }
    default: return raw(8);
    }
}

size_t Src::wild_index(size_t n)
{
    switch (below(9))
    {
    case 0: case 1: case 2: return (size_t)below((uint64_t)n + 1);
    case 3: return n;
    case 4: return n + 1 + below(3);
    case 5: return SIZE_MAX - below(4);
    case 6: return SIZE_MAX - (size_t)below((uint64_t)n + 2);
    case 7: return (size_t)1 << below(8 * sizeof(size_t));
    default: return (size_t)raw(8);
    }
}

// ------------------------------------------------------------------------------------------------
[[noreturn]] void fail_case(const char* file, int line, const char* fmt, ...)
{
    char b[1800];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    const char* base = strrchr(file, '/'); base = base ? base + 1 : file;
    if (slot) { snprintf(slot->msg, sizeof slot->msg, "%s [%s:%d]", b, base, line); slot->failed = 1; }
    if (g_trace || fuzz_mode) { dprintf(trace_fd, "PROPERTY FAILED: %s [%s:%d]\n", b, base, line); }
    if (fuzz_mode) abort();
    _exit(86);
}
static std::string tline;
void trace_begin(const char* name) { tline = "  "; tline += name; }
void trace_arg(unsigned long long v, bool sg)
{
    char b[40];
    if (sg) snprintf(b, sizeof b, " %lld", (long long)v);
    else if (v > (1ull << 48)) snprintf(b, sizeof b, " 0x%llx", v);
    else snprintf(b, sizeof b, " %llu", v);
    tline += b;
}
void trace_arg_s(const char* s) { tline += " "; tline += s; }
void trace_arg_b(const void* p, size_t n)
{
    tline += " \"";
    for (size_t i = 0; i < n && i < 64; ++i)
    {
        unsigned char c = ((const unsigned char*)p)[i]; char b[8];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') { b[0] = (char)c; b[1] = 0; } else snprintf(b, sizeof b, "\\x%02x", c);
        tline += b;
    }
    tline += n > 64 ? "\"..." : "\"";
}
void trace_end() { tline += "\n"; (void)!write(trace_fd, tline.data(), tline.size()); }
void note(const char* fmt, ...)
{
    if (!g_trace || g_mute) return;
    char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dprintf(trace_fd, "    # %s\n", b);
}

int label_id(const char* name)
{
    if (!sh) return 0;
    while (sh->lock.exchange(1)) usleep(10);
    int n = sh->nlabels.load(), r = -1;
    for (int i = 0; i < n; ++i) if (!strncmp(sh->labels[i].name, name, sizeof sh->labels[i].name - 1)) { r = i; break; }
    if (r < 0 && n < MAX_LABELS) { snprintf(sh->labels[n].name, sizeof sh->labels[n].name, "%s", name); sh->nlabels.store(n + 1); r = n; }
    sh->lock.store(0);
    return r < 0 ? MAX_LABELS - 1 : r;
}
void label_hit(int id) { case_labels[id >> 6] |= 1ull << (id & 63); }
void mark_nontrivial() { if (!g_mute) case_nontrivial = true; }

// ------------------------------------------------------------------------------------------------
static void one_case(Src& s)
{
    memset(case_labels, 0, sizeof case_labels); case_nontrivial = false; g_hash = 0x1234567;
    static const char* unbuildable = getenv("ENGINE_UNBUILDABLE"); // set by run_check.sh
    if (unbuildable) FAIL("%s", unbuildable);
    run_case(s);
}

static uint64_t case_seed(uint64_t seed, uint64_t index)
{
    uint64_t h = 0xcbf29ce484222325ull;
    for (const char* p = PROPERTY.id; *p; ++p) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
    h ^= seed * 0x9E3779B97F4A7C15ull; (void)splitmix(h);
    h ^= index * 0xD1B54A32D192ED03ull; (void)splitmix(h);
    return h;
}

static void finish_stats(uint64_t index)
{
    for (int i = 0; i < MAX_LABELS / 64; ++i)
        for (uint64_t m = case_labels[i]; m; m &= m - 1) sh->labels[i * 64 + __builtin_ctzll(m)].n.fetch_add(1, std::memory_order_relaxed);
    sh->evaluations.fetch_add(1, std::memory_order_relaxed);
    if (case_nontrivial)
    {
        sh->nontrivial.fetch_add(1, std::memory_order_relaxed);
        uint64_t k = sh->nhash.fetch_add(1, std::memory_order_relaxed);
        if (k < MAX_HASH) sh->hashes[k] = g_hash;
        // keep a few indices spread over the run as samples (power-of-two spaced buckets)
        int b = index < 10 ? 0 : index < 100 ? 1 : index < 1000 ? 2 : index < 10000 ? 3 : index < 100000 ? 4 : 5;
        uint64_t cur = sh->sample_idx[b].load(std::memory_order_relaxed);
        while ((cur == 0 || cur > index + 1) && !sh->sample_idx[b].compare_exchange_weak(cur, index + 1)) {}
    }
}

static void redirect_stderr(const std::string& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

[[noreturn]] static void worker(int wi, uint64_t seed, uint64_t total, const std::string& log)
{
    slot = &sh->w[wi];
    redirect_stderr(log);
    signal(SIGPROF, on_prof);
    const uint64_t CH = CHUNK;
    while (!sh->stop.load())
    {
        uint64_t b = sh->next.fetch_add(CH);
        if (b >= total) break;
        if (slot->nchunks < MAX_CHUNKS) { slot->chunk[slot->nchunks] = (uint32_t)(b / CH); slot->nchunks = slot->nchunks + 1; }
        for (uint64_t i = b; i < b + CH && i < total; ++i)
        {
            if (sh->stop.load() == 2) _exit(0);
            Src s; s.gen = true; s.st = case_seed(seed, i); s.cap = PROPERTY.max_bytes;
            slot->cur = i + 1;
            arm_cpu(CPU_LIMIT_S);
            one_case(s);
            arm_cpu(0);
            slot->cur = 0; slot->done = slot->done + 1;
            finish_stats(i);
        }
    }
    _exit(0);
}

// CPU ticks used by a child, or ~0 if unknown
static uint64_t cpu_ticks(pid_t p)
{
    char path[64], b[1024]; snprintf(path, sizeof path, "/proc/%d/stat", (int)p);
    FILE* f = fopen(path, "r"); if (!f) return ~0ull;
    size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
    char* q = strrchr(b, ')'); if (!q) return ~0ull;
    unsigned long ut = 0, stt = 0; char stc;
    if (sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &stc, &ut, &stt) != 3) return ~0ull;
    return ut + stt;
}

enum Outcome { PASS, FAILED, CRASHED, HUNG, BROKEN };
static const double STALL_S = 25; // no CPU progress for so long => deadlock
static std::string last_msg;

static std::string status_text(int st)
{
    char b[100];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
    return b;
}
static std::string log_summary(const std::string& path)
{
    FILE* f = fopen(path.c_str(), "r"); if (!f) return "";
    std::string r; char b[600];
    while (fgets(b, sizeof b, f))
        if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "Assertion") || strstr(b, "SUMMARY") || strstr(b, "PROPERTY FAILED") || strstr(b, "WARNING: ThreadSanitizer"))
        { std::string l(b); if (!l.empty() && l.back() == '\n') l.pop_back(); if (r.size() < 700) { if (!r.empty()) r += " | "; r += l; } }
    fclose(f);
    return r;
}

// Waits for a child; kills it on deadlock.
static int wait_child(pid_t p, bool& stalled)
{
    stalled = false; int st = 0;
    double last = now(); uint64_t t0 = cpu_ticks(p); unsigned us = 50;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) return st;
        usleep(us); if (us < 20000) us = us * 5 / 4 + 1;
        if (now() - last > 1)
        {
            uint64_t t = cpu_ticks(p);
            if (t != t0) { t0 = t; last = now(); }
            else if (now() - last > STALL_S) { stalled = true; kill(p, SIGKILL); waitpid(p, &st, 0); return st; }
        }
    }
}

// Runs one case from bytes in a fresh process
static Outcome run_bytes(const std::vector<uint8_t>& bytes, const std::string& log, int tfd = -1, uint64_t gen_seed = 0, bool gen = false)
{
    WorkerSlot* ws = &sh->w[MAX_WORKERS];
    ws->failed = 0; ws->msg[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        slot = ws;
        redirect_stderr(log);
        signal(SIGPROF, on_prof);
        if (tfd >= 0) { g_trace = true; trace_fd = tfd; }
        Src s;
        if (gen) { s.gen = true; s.st = gen_seed; s.cap = PROPERTY.max_bytes; recording = true; sh->rec_len = 0; }
        else s.buf = bytes;
        arm_cpu(CPU_LIMIT_S);
        one_case(s);
        _exit(0);
    }
    if (p < 0) return BROKEN;
    bool stalled; int st = wait_child(p, stalled);
    if (stalled) { last_msg = "deadlock: no thread makes progress"; return HUNG; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return PASS;
    if (ws->failed == 2) { last_msg = ws->msg; return HUNG; }
    if (ws->failed == 1) { last_msg = ws->msg; return FAILED; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return BROKEN; // out of memory: no verdict
    last_msg = "crash: " + status_text(st) + " " + log_summary(log);
    return CRASHED;
}
static bool bad(Outcome o) { return o == FAILED || o == CRASHED || o == HUNG; }

// Runs several generated cases one after another in one fresh process; `fail_at` is the position of the failing one
static Outcome run_seq(const std::vector<uint64_t>& seeds, const std::string& log, size_t& fail_at, int tfd = -1)
{
    WorkerSlot* ws = &sh->w[MAX_WORKERS];
    ws->failed = 0; ws->msg[0] = 0; ws->done = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        slot = ws; redirect_stderr(log); signal(SIGPROF, on_prof);
        for (size_t i = 0; i < seeds.size(); ++i)
        {
            if (tfd >= 0 && i + 1 == seeds.size()) { g_trace = true; trace_fd = tfd; }
            Src s; s.gen = true; s.st = seeds[i]; s.cap = PROPERTY.max_bytes;
            arm_cpu(CPU_LIMIT_S); one_case(s); arm_cpu(0); ws->done = i + 1;
        }
        _exit(0);
    }
    if (p < 0) return BROKEN;
    bool stalled; int st = wait_child(p, stalled); fail_at = ws->done;
    if (stalled) { last_msg = "deadlock: no thread makes progress"; return HUNG; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return PASS;
    if (ws->failed == 2) { last_msg = ws->msg; return HUNG; }
    if (ws->failed == 1) { last_msg = ws->msg; return FAILED; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return BROKEN;
    last_msg = "crash: " + status_text(st) + " " + log_summary(log);
    return CRASHED;
}

static std::vector<uint8_t> shrink(std::vector<uint8_t> cur, const std::string& log, unsigned tries_each)
{
    unsigned budget = 4000; double t0 = now();
    auto fails = [&](const std::vector<uint8_t>& c) {
        for (unsigned k = 0; k < tries_each; ++k)
        {
            if (!budget || now() - t0 > 90) return false;
            --budget;
            Outcome o = run_bytes(c, log);
            if (o == FAILED || o == CRASHED) return true;
        }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back(); // trailing zeros are implied
    bool progress = true;
    while (progress && budget && now() - t0 < 90)
    {
        progress = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len = len / 2)
        {
            for (size_t i = 0; i + len <= cur.size();)
            {
                std::vector<uint8_t> c(cur); c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (fails(c)) { cur = c; progress = true; } else i += len;
                if (!budget) break;
            }
            if (len == 1) break;
        }
        for (size_t len = 8; len >= 1; len /= 2)
            for (size_t i = 0; i + len <= cur.size(); i += len)
            {
                bool z = true; for (size_t k = 0; k < len; ++k) z &= cur[i + k] == 0;
                if (z) continue;
                std::vector<uint8_t> c(cur); for (size_t k = 0; k < len; ++k) c[i + k] = 0;
                if (fails(c)) { cur = c; progress = true; }
            }
        for (size_t i = 0; i < cur.size(); ++i)
        {
            for (unsigned step : {128u, 64u, 16u, 4u, 1u})
                while (cur[i] >= step) { std::vector<uint8_t> c(cur); c[i] = (uint8_t)(c[i] - step); if (fails(c)) { cur = c; progress = true; } else break; }
        }
        while (!cur.empty() && cur.back() == 0) cur.pop_back();
    }
    return cur;
}

// ------------------------------------------------------------------------------------------------
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static std::string read_file(const std::string& p, size_t max = 1 << 20)
{
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return "";
    std::string r; char b[4096]; size_t n;
    while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f); return r;
}
static void write_file(const std::string& p, const void* d, size_t n)
{
    FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); return; }
    fwrite(d, 1, n, f); fclose(f);
}
static std::string trace_of(const std::vector<uint8_t>& bytes, const std::string& dir, bool gen, uint64_t gseed, Outcome* out = nullptr)
{
    std::string tf = dir + "/trace.tmp";
    int fd = open(tf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    Outcome o = run_bytes(bytes, dir + "/trace.log", fd, gseed, gen);
    close(fd);
    if (out) *out = o;
    std::string t = read_file(tf);
    unlink(tf.c_str());
    return t;
}

static std::vector<std::string> known_lines(const std::string& verif)
{
    std::vector<std::string> r;
    std::string t = read_file(verif + "/KNOWN_FINDINGS.txt"), l;
    for (char c : t + "\n")
        if (c == '\n')
        {
            std::string pre = std::string("known: property=") + PROPERTY.id + " ";
            if (l.compare(0, pre.size(), pre) == 0) r.push_back(l.substr(pre.size()));
            l.clear();
        }
        else l += c;
    return r;
}

static const bool ARCH32 = sizeof(void*) < 8;
struct RunInfo { uint64_t seed; std::string also32; std::string tier, verif, dir; double t0; uint64_t fuzz_execs; uint64_t unreproduced; uint64_t corpus_replayed; };

static void write_evidence(const RunInfo& ri, int violations, const std::string& viol_text)
{
    uint64_t nh = std::min<uint64_t>(sh->nhash.load(), MAX_HASH);
    std::sort(sh->hashes, sh->hashes + nh);
    uint64_t distinct = (uint64_t)(std::unique(sh->hashes, sh->hashes + nh) - sh->hashes);
    std::string j = "{\n";
    char b[512];
    auto kv = [&](const char* k, const std::string& v, bool q) { j += std::string(" \"") + k + "\": " + (q ? "\"" + jesc(v) + "\"" : v) + ",\n"; };
    kv("property", PROPERTY.id, true); kv("tier", ri.tier, true); kv("seed", std::to_string(ri.seed), false);
    kv("level", PROPERTY.level, true);
    j += " \"coverage\": {\n";
    snprintf(b, sizeof b, "  \"evaluations\": %llu,\n  \"nontrivial_cases\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)sh->evaluations.load(), (unsigned long long)sh->nontrivial.load(), (unsigned long long)distinct);
    j += b;
    if (ri.fuzz_execs) { snprintf(b, sizeof b, "  \"coverage_guided_executions\": %llu,\n", (unsigned long long)ri.fuzz_execs); j += b; }
    if (!ri.also32.empty()) j += ri.also32;
    if (ri.unreproduced) { snprintf(b, sizeof b, "  \"unreproduced_candidates\": %llu,\n", (unsigned long long)ri.unreproduced); j += b; }
    j += std::string("  \"rule\": \"") + jesc(PROPERTY.rule) + "\",\n  \"classes\": {";
    int nl = sh->nlabels.load(); bool first = true;
    std::vector<std::pair<std::string, uint64_t>> ls;
    for (int i = 0; i < nl; ++i) ls.push_back({sh->labels[i].name, sh->labels[i].n.load()});
    std::sort(ls.begin(), ls.end());
    for (auto& l : ls) { snprintf(b, sizeof b, "%s\n   \"%s\": %llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); j += b; first = false; }
    j += "\n  },\n  \"samples\": [";
    first = true;
    if (!violations)
    {
        for (int k = 0; k < 6; ++k)
        {
            uint64_t idx = sh->sample_idx[k].load(); if (!idx) continue;
            std::string t = trace_of({}, ri.dir, true, case_seed(ri.seed, idx - 1));
            if (t.size() > 1500) t = t.substr(0, 1500) + "\n  ...";
            j += first ? "\n" : ",\n"; first = false;
            j += "   \"case " + std::to_string(idx - 1) + ":\\n" + jesc(t) + "\"";
        }
    }
    else { j += "\n   \"" + jesc(viol_text.substr(0, 3000)) + "\""; }
    j += "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto& a : PROPERTY.assumptions) { j += std::string(first ? "" : ", ") + "\"" + jesc(a) + "\""; first = false; }
    snprintf(b, sizeof b, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - ri.t0, violations);
    j += b;
    if (ARCH32 && !violations)
    {
        snprintf(b, sizeof b, "  \"evaluations_as_32bit_program\": %llu,\n  \"distinct_nontrivial_as_32bit_program\": %llu,\n", (unsigned long long)sh->evaluations.load(), (unsigned long long)distinct);
        write_file(ri.dir + "/counts", b, strlen(b)); return;
    }
    mkdir((ri.verif + "/evidence").c_str(), 0755);
    write_file(ri.verif + "/evidence/" + PROPERTY.id + ".json", j.data(), j.size());
}

// Confirms, shrinks and reports a failing byte string. Returns true if a violation was reported.
static bool confirm_and_report(RunInfo& ri, const std::vector<uint8_t>& bytes, const char* origin)
{
    std::string log = ri.dir + "/replay.log";
    unsigned f = 0; bool hung = false; std::string msg;
    for (unsigned k = 0; k < PROPERTY.replays && f < PROPERTY.replays_needed; ++k)
    {
        Outcome o = run_bytes(bytes, log);
        if (o == BROKEN) continue;
        if (bad(o)) { ++f; msg = last_msg; hung |= o == HUNG; }
        else if (PROPERTY.replays == PROPERTY.replays_needed) break;
    }
    if (f < PROPERTY.replays_needed) { printf("note: a candidate failure (%s) did not reproduce (%u of %u replays): %s\n", origin, f, PROPERTY.replays, msg.c_str()); ri.unreproduced++; return false; }
    std::vector<uint8_t> m = bytes;
    if (!hung)
    {
        m = shrink(bytes, log, PROPERTY.replays == PROPERTY.replays_needed ? 1 : 5);
        unsigned g = 0;
        for (unsigned k = 0; k < PROPERTY.replays && g < PROPERTY.replays_needed; ++k) if (bad(run_bytes(m, log))) { ++g; msg = last_msg; }
        if (g < PROPERTY.replays_needed) m = bytes;
    }
    Outcome o = PASS; std::string t;
    for (int k = 0; k < 20 && !bad(o); ++k) t = trace_of(m, ri.dir, false, 0, &o);
    if (bad(o)) msg = last_msg;
    std::string rd = ri.verif + "/out/" + PROPERTY.id; mkdir((ri.verif + "/out").c_str(), 0755); mkdir(rd.c_str(), 0755);
    uint64_t h = 1469598103934665603ull; for (uint8_t x : m) h = (h ^ x) * 1099511628211ull;
    char nm[64]; snprintf(nm, sizeof nm, "/replay%s-%016llx.bin", ARCH32 ? "32" : "", (unsigned long long)h);
    std::string rp = rd + nm;
    write_file(rp, m.data(), m.size());
    std::string txt = std::string("property ") + PROPERTY.id + "\nfound by: " + origin + (ARCH32 ? "\nbuilt as a 32-bit program" : "") + "\nfailure: " + msg + "\nreplay: bash run_check.sh " + PROPERTY.id + " --replay " + rp + "\nhistory (" + std::to_string(m.size()) + " choice bytes, shrunk from " + std::to_string(bytes.size()) + "):\n" + t;
    write_file(rp + ".txt", txt.data(), txt.size());
    printf("%s\n", txt.c_str());
    write_evidence(ri, 1, txt);
    printf("VIOLATION property=%s replay=%s\n", PROPERTY.id, rp.c_str());
    fflush(stdout);
    return true;
}

// A failure that a single case in a fresh process does not show: replays everything its process had executed before.
static const char SEQ_MAGIC[] = "SEQUENCE OF CASES\n";
static bool confirm_sequence(RunInfo& ri, std::vector<uint64_t> seq, const char* origin)
{
    std::string log = ri.dir + "/replay.log"; size_t at = 0, full = seq.size(); int f = 0; double t0 = now(); bool hung = false; std::string msg;
    const bool flaky = PROPERTY.replays != PROPERTY.replays_needed; const int runs = flaky ? 8 : 3, need = flaky ? 1 : 2;
    for (int k = 0; k < runs && f < need && f + runs - k >= need; ++k)
    {
        Outcome o = run_seq(seq, log, at);
        if (bad(o)) { ++f; msg = last_msg; hung |= o == HUNG; if (at + 1 < seq.size()) seq.resize(at + 1); }
        if (now() - t0 > 200) break;
    }
    if (f < need) { printf("note: the candidate does not reproduce with the %zu cases before it either\n", full - 1); return false; }
    t0 = now();
    auto still = [&](const std::vector<uint64_t>& c) {
        size_t a = 0; if (now() - t0 > 90) return false;
        if (!bad(run_seq(c, log, a))) return false;
        std::vector<uint64_t> r(c); r.resize(std::min(r.size(), a + 1)); size_t b = 0;
        if (!flaky && !bad(run_seq(r, log, b))) return false;
        if (flaky) b = a;
        msg = last_msg; r.resize(std::min(r.size(), b + 1)); seq = r; return true; };
    if (!hung)
        for (size_t len = std::max<size_t>(1, seq.size() / 2); len >= 1 && now() - t0 < 90; len /= 2)
        {
            for (size_t i = 0; i + len <= seq.size() && seq.size() > 1 && now() - t0 < 90;)
            {
                std::vector<uint64_t> c(seq); c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (!still(c)) i += len;
            }
            if (len == 1) break;
        }
    std::string tf = ri.dir + "/trace.tmp"; int fd = open(tf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (bad(run_seq(seq, log, at, fd))) msg = last_msg;
    close(fd); std::string t = read_file(tf); unlink(tf.c_str());
    std::string d = SEQ_MAGIC; char l[32]; for (uint64_t x : seq) { snprintf(l, sizeof l, "%016llx\n", (unsigned long long)x); d += l; }
    std::string rd = ri.verif + "/out/" + PROPERTY.id; mkdir((ri.verif + "/out").c_str(), 0755); mkdir(rd.c_str(), 0755);
    uint64_t h = 1469598103934665603ull; for (unsigned char x : d) h = (h ^ x) * 1099511628211ull;
    char nm[64]; snprintf(nm, sizeof nm, "/replay%s-%016llx.seq", ARCH32 ? "32" : "", (unsigned long long)h); std::string rp = rd + nm; write_file(rp, d.data(), d.size());
    std::string txt = std::string("property ") + PROPERTY.id + "\nfound by: " + origin + (ARCH32 ? "\nbuilt as a 32-bit program" : "") + "\nfailure: " + msg + "\nneeds the history of " + std::to_string(seq.size() - 1) + " earlier cases in the same process (shrunk from " + std::to_string(full - 1) + ")\nreplay: bash run_check.sh " + PROPERTY.id + " --replay " + rp + "\nlast case:\n" + t;
    write_file(rp + ".txt", txt.data(), txt.size());
    printf("%s\n", txt.c_str());
    write_evidence(ri, 1, txt);
    printf("VIOLATION property=%s replay=%s\n", PROPERTY.id, rp.c_str());
    fflush(stdout);
    return true;
}

#ifdef ENGINE_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    fuzz_mode = true;
    Src s; s.buf.assign(d, d + n);
    one_case(s);
    return 0;
}
#else
int main(int argc, char** argv)
{
    RunInfo ri; ri.t0 = now(); ri.fuzz_execs = 0; ri.unreproduced = 0; ri.corpus_replayed = 0;
    const char* e = getenv("VERIF_SEED"); ri.seed = e && *e ? strtoull(e, nullptr, 10) : 1;
    ri.tier = "quick"; ri.verif = "/verif"; ri.dir = ".";
    std::string replay, fuzzdir; uint64_t cases = 0; double cap_s = 0; int nworkers = 0; bool dump = false;
    std::vector<std::string> seeds;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") ri.tier = nx();
        else if (a == "--verif") ri.verif = nx();
        else if (a == "--dir") ri.dir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--cases") cases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cap") cap_s = atof(nx().c_str());
        else if (a == "--workers") nworkers = atoi(nx().c_str());
        else if (a == "--fuzz-artifacts") fuzzdir = nx();
        else if (a == "--fuzz-execs") ri.fuzz_execs = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--also32") ri.also32 = read_file(nx());
        else if (a == "--dump") dump = true;
        else if (a == "--seed") ri.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--input") seeds.push_back(nx());
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }

    if (!replay.empty())
    {
        std::string d = read_file(replay, 64 << 20);
        if (d.compare(0, sizeof SEQ_MAGIC - 1, SEQ_MAGIC) == 0)
        {
            std::vector<uint64_t> q; const char* c = d.c_str() + sizeof SEQ_MAGIC - 1; char* e2;
            while (*c) { q.push_back(strtoull(c, &e2, 16)); if (e2 == c) break; c = e2; while (*c == '\n') ++c; }
            std::string tf = ri.dir + "/trace.tmp"; int fd = open(tf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); size_t at = 0;
            Outcome o = run_seq(q, ri.dir + "/replay.log", at, fd); close(fd); printf("%s", read_file(tf).c_str());
            if (bad(o)) { printf("failure in case %zu of %zu: %s\nVIOLATION property=%s replay=%s\n", at + 1, q.size(), last_msg.c_str(), PROPERTY.id, replay.c_str()); return 1; }
            printf("replay passed\n"); return 0;
        }
        std::vector<uint8_t> b(d.begin(), d.end());
        Outcome o; std::string t = trace_of(b, ri.dir, false, 0, &o);
        printf("%s", t.c_str());
        if (bad(o)) { printf("failure: %s\n", last_msg.c_str()); printf("%s\n", read_file(ri.dir + "/trace.log").c_str()); printf("VIOLATION property=%s replay=%s\n", PROPERTY.id, replay.c_str()); return 1; }
        printf("replay passed\n"); return 0;
    }
    for (auto& l : known_lines(ri.verif)) printf("KNOWN-FINDING: property=%s %s\n", PROPERTY.id, l.c_str());

    // inputs found by a coverage-guided campaign
    for (auto& p : seeds)
    {
        std::string d = read_file(p); std::vector<uint8_t> b(d.begin(), d.end());
        if (bad(run_bytes(b, ri.dir + "/replay.log"))) { if (confirm_and_report(ri, b, "coverage-guided fuzzing")) return 1; }
    }

    bool thorough = ri.tier == "thorough";
    if (!cases && ARCH32) cases = (thorough ? PROPERTY.thorough_cases : PROPERTY.quick_cases) / 6 + 1;
    if (!cases) cases = thorough ? PROPERTY.thorough_cases : PROPERTY.quick_cases;
    if (cap_s <= 0) cap_s = thorough ? 3000 : 500;
    if (!nworkers) { nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (nworkers > MAX_WORKERS) nworkers = MAX_WORKERS; if (nworkers < 1) nworkers = 1; }
    (void)dump;

    uint64_t start = 0;
    sh->next = 0;
    std::set<uint64_t> skip;
    std::map<pid_t, int> kids;
    std::vector<std::string> wlog(MAX_WORKERS);
    auto spawn = [&](int w) {
        sh->w[w].cur = 0; sh->w[w].failed = 0; sh->w[w].msg[0] = 0; sh->w[w].nchunks = 0;
        wlog[w] = ri.dir + "/worker" + std::to_string(w) + ".log";
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) worker(w, ri.seed, cases, wlog[w]);
        if (p > 0) kids[p] = w;
    };
    (void)start;
    for (int w = 0; w < nworkers; ++w) spawn(w);
    struct Cand { uint64_t idx; std::string msg; std::vector<uint64_t> before; };
    auto history = [&](int w, uint64_t idx) { std::vector<uint64_t> r; for (uint32_t k = 0; k < sh->w[w].nchunks; ++k) for (uint64_t i = sh->w[w].chunk[k] * CHUNK, n = 0; n < CHUNK && i < cases; ++i, ++n) { r.push_back(case_seed(ri.seed, i)); if (i == idx) return r; } return r; };
    int sequences = 0; unsigned solid = 0; Cand last_solid{};
    std::vector<Cand> cands;
    std::vector<uint64_t> last_cur(MAX_WORKERS, 0), last_tick(MAX_WORKERS, 0); std::vector<double> last_t(MAX_WORKERS, now());
    unsigned total_cands = 0;
    while (!kids.empty())
    {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && kids.count(p))
        {
            int w = kids[p]; kids.erase(p);
            bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!clean)
            {
                uint64_t cur = sh->w[w].cur;
                bool oom = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                if (cur && !oom)
                {
                    std::string m = sh->w[w].failed ? sh->w[w].msg : "crash: " + status_text(st) + " " + log_summary(wlog[w]);
                    cands.push_back({cur - 1, m, history(w, cur - 1)}); ++total_cands;
                    sh->stop = 1; // let the others finish their current case
                }
                else if (oom) { printf("note: a worker was killed (out of memory?), continuing\n"); if (total_cands < 50) { ++total_cands; spawn(w); } }
                else { printf("worker died outside a case: %s %s\n", status_text(st).c_str(), log_summary(wlog[w]).c_str()); return 2; }
            }
        }
        else
        {
            usleep(5000);
            for (auto& k : kids)
            {
                int w = k.second; uint64_t c = sh->w[w].cur * 1000003ull + sh->w[w].done;
                if (c != last_cur[w]) { last_cur[w] = c; last_t[w] = now(); last_tick[w] = 0; }
                else if (now() - last_t[w] > 2)
                {
                    uint64_t t = cpu_ticks(k.first);
                    if (t != last_tick[w]) { last_tick[w] = t; last_t[w] = now() - 1.9; }
                    else if (now() - last_t[w] > STALL_S && sh->w[w].cur)
                    {
                        cands.push_back({sh->w[w].cur - 1, "deadlock: no thread makes progress", history(w, sh->w[w].cur - 1)}); ++total_cands;
                        kill(k.first, SIGKILL); sh->stop = 1; last_t[w] = now() + 1e9;
                        sh->w[w].cur = 0;
                    }
                }
            }
            if (now() - ri.t0 > cap_s && !sh->stop.load()) { printf("note: wall-clock cap of %.0f s reached after %llu of %llu cases (inconclusive beyond them)\n", cap_s, (unsigned long long)sh->evaluations.load(), (unsigned long long)cases); sh->stop = 1; }
        }
        if (kids.empty() && !cands.empty())
        {
            std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
            for (auto& c : cands)
            {
                // regenerate its bytes
                (void)run_bytes({}, ri.dir + "/replay.log", -1, case_seed(ri.seed, c.idx), true);
                size_t n = std::min<uint64_t>(sh->rec_len.load(), MAX_REC);
                std::vector<uint8_t> b(sh->rec, sh->rec + n);
                printf("candidate failure in case %llu: %s\n", (unsigned long long)c.idx, c.msg.c_str());
                if (confirm_and_report(ri, b, ("random search, case " + std::to_string(c.idx) + " of seed " + std::to_string(ri.seed)).c_str())) return 1;
                if (sequences < 4 && now() - ri.t0 < 450 && c.before.size() > 1)
                {
                    ++sequences;
                    if (confirm_sequence(ri, c.before, ("random search, a history of cases ending with case " + std::to_string(c.idx) + " of seed " + std::to_string(ri.seed)).c_str())) return 1;
                }
            }
            // a wrong result is a wrong result, even if it depends on more than a replay can repeat: one is dropped, twenty are reported
            for (auto& c : cands) if (c.msg.find("never") == c.msg.npos && c.msg.find("deadlock") == c.msg.npos && c.msg.find("CPU time") == c.msg.npos) { ++solid; last_solid = c; }
            if (solid >= 20)
            {
                std::string d = SEQ_MAGIC; char l[32]; for (uint64_t x : last_solid.before) { snprintf(l, sizeof l, "%016llx\n", (unsigned long long)x); d += l; }
                std::string rd = ri.verif + "/out/" + PROPERTY.id; mkdir((ri.verif + "/out").c_str(), 0755); mkdir(rd.c_str(), 0755);
                std::string rp = rd + (ARCH32 ? "/replay32-many.seq" : "/replay-many.seq"); write_file(rp, d.data(), d.size());
                std::string txt = std::string("property ") + PROPERTY.id + "\nfound by: random search; " + std::to_string(solid) + " cases failed, none of them in every replay\nfailure: " + last_solid.msg + "\nreplay (may need several attempts): bash run_check.sh " + PROPERTY.id + " --replay " + rp + "\n";
                printf("%s\n", txt.c_str()); write_evidence(ri, 1, txt); printf("VIOLATION property=%s replay=%s\n", PROPERTY.id, rp.c_str()); return 1;
            }
            cands.clear();
            if (total_cands > 40) { printf("note: too many unreproducible candidates, stopping\n"); break; }
            sh->stop = 0;
            for (int w = 0; w < nworkers; ++w) spawn(w);
        }
    }
    write_evidence(ri, 0, "");
    uint64_t nh = std::min<uint64_t>(sh->nhash.load(), MAX_HASH); (void)nh;
    printf("%s%s: held on %llu cases (%llu non-trivial), %.1f s\n", PROPERTY.id, ARCH32 ? ", 32-bit" : "", (unsigned long long)sh->evaluations.load(), (unsigned long long)sh->nontrivial.load(), now() - ri.t0);
    return 0;
}
#endif
