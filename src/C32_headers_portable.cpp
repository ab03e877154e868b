// technique: property testing over generated translation units: random sequences of the public headers, uses of what they declare, language modes, compilers, platforms, architectures and options (cross compilation by clang); the oracle is that each compiles with every static assertion about sizes and detection macros, and that random subsets of the declared functions link and run; shrinking
#include "engine.hpp"
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <spawn.h>
#include <sys/wait.h>
extern char** environ;

PropertyInfo PROPERTY = {"C32", "exploration",
    "A case is one translation unit: a random sequence (with repetitions) of public headers for a random compiler, language mode, platform, "
    "architecture and set of options, followed by uses of what the headers declare and static assertions on type sizes and detection macros; "
    "or one of the library's sources for such a configuration; or a C or C++ program that takes the addresses of a random subset of all "
    "declared functions and is linked with the static or shared library or what a DLL exports, with or without the C library; or a program that uses an assertion, annotation or naming macro and must be "
    "accepted, diagnosed, stopped or give a certain result; or the macros some compiler (here or not) predefines for a platform, an architecture and a kind of build, from which detection must conclude exactly those; non-trivial: at least two headers, a macro, a "
    "source for a foreign platform, or at least five functions",
    2500, 50000, 400, 2, 2,
    {"foreign POSIX platforms other than Apple are compiled with this machine's C library headers, other foreign platforms only without a C library; nothing foreign is run"}};

static const char* REPO() { static std::string r; if (r.empty()) { const char* e = getenv("REPO"); r = e && *e ? e : "/repo"; } return r.c_str(); }

// ---- running tools
static int run_tool(const std::vector<std::string>& a, const std::string& in, std::string& err)
{
    int pi[2], pe[2]; if (pipe2(pi, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) { fprintf(stderr, "pipe failed\n"); _exit(2); }
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, pi[0], 0); posix_spawn_file_actions_adddup2(&fa, pe[1], 1); posix_spawn_file_actions_adddup2(&fa, pe[1], 2);
    std::vector<char*> av; for (auto& x : a) av.push_back(const_cast<char*>(x.c_str())); av.push_back(nullptr);
    pid_t pid; int r = posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa);
    close(pi[0]); close(pe[1]);
    if (r) { fprintf(stderr, "cannot run %s\n", av[0]); _exit(2); }
    signal(SIGPIPE, SIG_IGN);
    size_t o = 0; while (o < in.size()) { ssize_t w = write(pi[1], in.data() + o, in.size() - o); if (w <= 0) break; o += w; }
    close(pi[1]); err.clear(); char b[4096]; ssize_t n; while ((n = read(pe[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n);
    close(pe[0]); int st; while (waitpid(pid, &st, 0) < 0) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static std::string first_error(const std::string& e)
{
    size_t i = e.find("error: "); if (i == std::string::npos) i = e.find("undefined"); if (i == std::string::npos) i = 0;
    size_t b = e.rfind('\n', i); b = b == std::string::npos ? 0 : b + 1; size_t n = e.find('\n', i); return e.substr(b, n == std::string::npos ? std::string::npos : n - b);
}

static void named(const char* n) { if (!g_mute) label_hit(label_id(n)); }

// ---- configurations
struct Target { const char *triple, *arch, *platform; bool posix; int bits; const char* compiler = "CLANG"; };
static const Target TARGETS[] = {
    {nullptr, "X64", "LINUX", true, 64},
    {"x86_64-linux-gnu", "X64", "LINUX", true, 64}, {"i386-linux-gnu", "X86", "LINUX", true, 32}, {"aarch64-linux-gnu", "AARCH64", "LINUX", true, 64},
    {"armv7-linux-gnueabihf", "ARM", "LINUX", true, 32}, {"riscv64-linux-gnu", "RISCV64", "LINUX", true, 64}, {"powerpc64le-linux-gnu", "PPC64", "LINUX", true, 64},
    {"powerpc-linux-gnu", "PPC", "LINUX", true, 32}, {"loongarch64-linux-gnu", "LOONGARCH", "LINUX", true, 64},
    {"x86_64-apple-darwin", "X64", "APPLE", true, 64}, {"arm64-apple-darwin", "AARCH64", "APPLE", true, 64}, {"x86_64-freebsd", "X64", "FREEBSD", true, 64},
    {"aarch64-netbsd", "AARCH64", "NETBSD", true, 64}, {"x86_64-openbsd", "X64", "UNIX", true, 64}, {"x86_64-haiku", "X64", "HAIKU", true, 64}, {"x86_64-solaris", "X64", "SOLARIS", true, 64},
    {"x86_64-w64-windows-gnu", "X64", "WINDOWS", false, 64}, {"i386-w64-windows-gnu", "X86", "WINDOWS", false, 32}, {"wasm32-unknown-emscripten", "WASM", "EMSCRIPTEN", false, 32},
    {"x86_64-pc-windows-msvc", "X64", "WINDOWS", false, 64, "MSVC"}, {"i686-pc-windows-msvc", "X86", "WINDOWS", false, 32, "MSVC"}, {"aarch64-pc-windows-msvc", "AARCH64", "WINDOWS", false, 64, "MSVC"}, {"armv7-pc-windows-msvc", "ARM", "WINDOWS", false, 32, "MSVC"},
    {"x86_64-pc-windows-msvc", "X64", "WINDOWS", false, 64}, {"i686-pc-windows-msvc", "X86", "WINDOWS", false, 32}, {"aarch64-pc-windows-msvc", "AARCH64", "WINDOWS", false, 64},
    {"wasm32-wasi", "WASM", "WASI", false, 32}, {"armv7-none-eabi", "ARM", "UNKNOWN_PLATFORM", false, 32}, {"thumbv7m-none-eabi", "ARM", "UNKNOWN_PLATFORM", false, 32},
};
static bool windows(const Target& t) { return !strcmp(t.platform, "WINDOWS"); }
static bool msvc(const Target& t) { return !strcmp(t.compiler, "MSVC"); }
// Microsoft's compiler is clang's emulation of it without clang's own macros; Windows' headers are the stand-ins in ./win.
// The headers of this machine's C library serve the foreign POSIX platforms too (with the word size corrected by ./sys); nothing is linked.
static void foreign(std::vector<std::string>& a, const Target& t, bool libc)
{
    a.push_back(std::string("--target=") + t.triple); a.push_back("-nostdlibinc");
    if (msvc(t)) a.push_back("-U__clang__");
    if (windows(t)) { a.insert(a.end(), {"-isystem", "win/include"}); if (libc) a.insert(a.end(), {"-isystem", "win/crt"}); return; }
    if (libc) a.insert(a.end(), {"-isystem", "sys", "-idirafter", "/usr/include", "-idirafter", "/usr/include/x86_64-linux-gnu", "-D__regparm__(x)=__unused__"});
}
static bool has_libc(const Target& t) { return windows(t) || (t.posix && strcmp(t.platform, "APPLE")); }
static const Target& some_target(Src& s, bool libc) { for (;;) { const Target& t = TARGETS[s.below(sizeof TARGETS / sizeof *TARGETS)]; if (!libc || has_libc(t)) return t; if (s.chance(1, 8)) return TARGETS[0]; } }
static const char *ARCHS[] = {"X64", "X86", "AARCH64", "ARM", "WASM", "LOONGARCH", "PPC64", "PPC", "RISCV64"},
    *PLATFORMS[] = {"WINDOWS", "EMSCRIPTEN", "WASI", "APPLE", "LINUX", "FREEBSD", "NETBSD", "SOLARIS", "HAIKU", "UNIX", "UNKNOWN_PLATFORM"},
    *COMPILERS[] = {"CLANG", "GCC", "ICC", "MSVC", "BORLAND", "UNKNOWN_COMPILER"};
struct Header { const char *name, *use; bool libc; };
static const Header HEADERS[] = {
    {"Zycore/Allocator.h", "ZyanStatus u_alloc(ZyanAllocator* a) { return ZyanAllocatorInit(a, 0, 0, 0); }\n", false},
    {"Zycore/ArgParse.h", "ZyanStatus u_arg(ZyanArgParseConfig* c, ZyanVector* v, const char** t, ZyanAllocator* a) { ZyanArgParseDefinition d = {\"-x\", ZYAN_TRUE, ZYAN_FALSE}; ZyanArgParseArg x; (void)x; c->args = &d; return ZyanArgParseEx(c, v, t, a); }\n", false},
    {"Zycore/Atomic.h", "ZyanU32 u_atomic(ZyanAtomic32* p) { return ZYAN_ATOMIC_COMPARE_EXCHANGE32(*p, 1, 2) + ZYAN_ATOMIC_INCREMENT32(*p) + ZYAN_ATOMIC_DECREMENT32(*p); }\n", false},
    {"Zycore/Bitset.h", "ZyanStatus u_bits(ZyanBitset* b, ZyanAllocator* a) { return ZyanBitsetInitEx(b, 9, a, 2, 2); }\n", false},
    {"Zycore/Comparison.h", "ZyanBool u_cmp(const ZyanU32* a, const ZyanU32* b) { ZyanComparison c = (ZyanComparison)&ZyanCompareNumeric32; return c(a, b) == 0 && ZyanEqualsNumeric32(a, b); }\n", false},
    {"Zycore/Defines.h", "int u_def[ZYAN_ARRAY_LENGTH(\"abc\")]; int u_max(int a, int b) { return ZYAN_MAX(a, b) + ZYAN_MIN(a, b) + ZYAN_ABS(a); }\n", false},
    {"Zycore/Format.h", "ZyanStatus u_fmt(ZyanString* s) { ZYAN_CHECK(ZyanStringAppendDecU(s, 12, 0)); return ZyanStringAppendHexS(s, -3, 2, ZYAN_TRUE, ZYAN_FALSE, 0); }\n", false},
    {"Zycore/LibC.h", "unsigned long u_libc(char* d, const char* s) { ZYAN_MEMSET(d, 0, 1); ZYAN_MEMCPY(d, s, 1); ZYAN_MEMMOVE(d, s, 1); return (unsigned long)ZYAN_STRLEN(s) + (unsigned long)ZYAN_MEMCMP(d, s, 1); }\n", false},
    {"Zycore/List.h", "typedef struct { ZyanU16 a; ZyanU8 b[3]; } u_lr; typedef const u_lr* u_lp; ZyanUSize u_lget(const ZyanListNode* n, int i) { return (ZyanUSize)ZYAN_LIST_GET(u_lr, n).a + ZYAN_LIST_GET(u_lr, i ? n : n + 0).b[1] + ZYAN_LIST_GET(u_lp, n)->a + ZYAN_LIST_GET(u_lp, n)[1].a; } ZyanList u_li = ZYAN_LIST_INITIALIZER; ZyanStatus u_list(ZyanList* l, ZyanAllocator* a) { const ZyanListNode* n; ZYAN_CHECK(ZyanListInitEx(l, 4, 0, a)); ZYAN_CHECK(ZyanListGetHeadNode(l, &n)); return (ZyanStatus)ZYAN_LIST_GET(ZyanU32, n); }\n", false},
    {"Zycore/Object.h", "void u_obj(ZyanMemberProcedure p, ZyanMemberFunction f, ZyanConstMemberProcedure c, ZyanConstMemberFunction g, void* o) { p(o); (void)f(o); c(o); (void)g(o); }\n", false},
    {"Zycore/Status.h", "ZyanBool u_status(ZyanStatus s) { return ZYAN_SUCCESS(s) && !ZYAN_FAILED(s) && ZYAN_STATUS_MODULE(s) == ZYAN_MODULE_ZYCORE && ZYAN_STATUS_CODE(s) == 1; }\n", false},
    {"Zycore/String.h", "ZyanString u_si = ZYAN_STRING_INITIALIZER; static const ZyanStringView u_view = ZYAN_DEFINE_STRING_VIEW(\"view\"); ZyanStatus u_str(ZyanString* s, ZyanAllocator* a) { ZyanStringView v = ZYAN_DEFINE_STRING_VIEW(\"x\"); ZYAN_CHECK(ZyanStringInitEx(s, 3, a, 2, 2)); ZYAN_CHECK(ZyanStringAppend(s, &v)); return ZyanStringAppend(s, ZYAN_STRING_TO_VIEW(s)); }\n", false},
    {"Zycore/Types.h", "ZyanU64 u_types(ZyanUSize n, ZyanI16 i, ZyanBool b, ZyanVoidPointer p) { return n + (ZyanU64)i + b + (ZyanUPointer)p + (ZyanU64)(ZyanIPointer)p; }\n", false},
    {"Zycore/Vector.h", "typedef struct { ZyanU16 a; ZyanU8 b[3]; } u_vr; typedef const u_vr* u_vp; ZyanUSize u_vget(const ZyanVector* v, ZyanUSize i) { return (ZyanUSize)ZYAN_VECTOR_GET(u_vr, v, i).a + ZYAN_VECTOR_GET(u_vr, v, i ? 0 : 1).b[1] + ZYAN_VECTOR_GET(u_vp, v, i)->a + ZYAN_VECTOR_GET(u_vp, i ? v : v, 0)[1].a; } ZyanVector u_vi = ZYAN_VECTOR_INITIALIZER; ZyanUSize u_vec(ZyanVector* v) { ZyanUSize n = 0; ZYAN_VECTOR_FOREACH(ZyanU32, v, x, { n += x; }); ZYAN_VECTOR_FOREACH_MUTABLE(ZyanU32, v, y, { *y = 1; }); return n + ZYAN_VECTOR_GET(ZyanU32, v, 0); }\n", false},
    {"Zycore/Zycore.h", "ZyanU64 u_ver(void) { return ZycoreGetVersion() - ZYCORE_VERSION + ZYCORE_VERSION_MAJOR(ZYCORE_VERSION); }\n", false},
    {"Zycore/API/Memory.h", "ZyanU32 u_mem(void) { ZyanMemoryPageProtection p = ZYAN_PAGE_READONLY; (void)p; return ZyanMemoryGetSystemPageSize(); }\n", true},
    {"Zycore/API/Process.h", "ZyanStatus u_proc(void* a, ZyanUSize n) { return ZyanProcessFlushInstructionCache(a, n); }\n", true},
    {"Zycore/API/Synchronization.h", "ZyanStatus u_sync(ZyanCriticalSection* c) { ZYAN_CHECK(ZyanCriticalSectionInitialize(c)); return ZyanCriticalSectionDelete(c); }\n", true},
    {"Zycore/API/Terminal.h", "ZyanStatus u_term(void) { const char* t = ZYAN_VT100SGR_FG_RED ZYAN_VT100SGR_RESET; (void)t; return ZyanTerminalIsTTY(ZYAN_STDSTREAM_OUT); }\n", true},
    {"Zycore/API/Thread.h", "ZyanStatus u_thread(ZyanThreadId* i, ZyanThread* t) { ZYAN_CHECK(ZyanThreadGetCurrentThread(t)); return ZyanThreadGetCurrentThreadId(i); }\n", true},
};
static const size_t NH = sizeof HEADERS / sizeof *HEADERS;
static const char *C_STD[] = {"c99", "gnu99", "c11", "gnu11", "c17", "c2x"}, *CXX_STD[] = {"c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20", "c++2b"};

static std::string assertions(const Target& t, bool clang, bool cpp, bool release, bool kernel)
{
    std::string r = cpp ? "#define SA(c) static_assert(c, #c)\n" : "#define SA(c) typedef char SAN[(c) ? 1 : -1]\n#define SAN SAX(__LINE__)\n#define SAX(l) SAY(l)\n#define SAY(l) sa_##l\n"; // a C99 static assertion
    auto exactly = [&](const char* const* list, size_t n, const char* which) { for (size_t i = 0; i < n; ++i) r += std::string(strcmp(list[i], which) ? "#ifdef" : "#ifndef") + " ZYAN_" + list[i] + "\n#error detection of " + which + " fails for ZYAN_" + list[i] + "\n#endif\n"; };
    auto only = [&](const char* m, bool on) { r += std::string(on ? "#ifndef" : "#ifdef") + " ZYAN_" + m + "\n#error detection of ZYAN_" + m + "\n#endif\n"; };
    exactly(ARCHS, sizeof ARCHS / sizeof *ARCHS, t.arch); exactly(PLATFORMS, sizeof PLATFORMS / sizeof *PLATFORMS, t.platform); exactly(COMPILERS, sizeof COMPILERS / sizeof *COMPILERS, clang ? t.compiler : "GCC");
    only("POSIX", t.posix); only("GNUC", !msvc(t)); only("RELEASE", release); only("DEBUG", !release); only("KERNEL", kernel); only("USER", !kernel);
    return r;
}
static std::string sizes(const Target& t)
{
    std::string r; for (int b : {8, 16, 32, 64}) { std::string n = std::to_string(b); r += "SA(sizeof(ZyanU" + n + ") * 8 == " + n + "); SA(sizeof(ZyanI" + n + ") * 8 == " + n + "); SA((ZyanU" + n + ")-1 > 0); SA((ZyanI" + n + ")-1 < 0);\n";
        r += "SA(ZYAN_UINT" + n + "_MAX == (ZyanU" + n + ")-1); SA(ZYAN_INT" + n + "_MAX == (ZyanI" + n + ")(ZYAN_UINT" + n + "_MAX >> 1)); SA(ZYAN_INT" + n + "_MIN < 0); SA(ZYAN_INT" + n + "_MIN + ZYAN_INT" + n + "_MAX == -1);\n"; }
    for (auto x : {"USize", "ISize", "UPointer", "IPointer"}) r += std::string("SA(sizeof(Zyan") + x + ") * 8 == " + std::to_string(t.bits) + ");\n";
    return r + "SA((ZyanUSize)-1 > 0); SA((ZyanUPointer)-1 > 0); SA((ZyanISize)-1 < 0); SA((ZyanIPointer)-1 < 0); SA(sizeof(ZyanBool) == 1); SA(sizeof(ZyanVoidPointer) == sizeof(void*));\n";
}

static std::vector<std::string> lines_of(const std::string& f) { std::vector<std::string> r; std::ifstream i(f); std::string l; while (std::getline(i, l)) if (l.size()) r.push_back(l); return r; }
// The stand-in headers declare what the library uses today; a use of something else of the real ones cannot be judged.
static bool beyond_standins(const std::string& e)
{
    size_t i; if ((i = e.find("undeclared")) == std::string::npos && (i = e.find("unknown type name")) == std::string::npos && (i = e.find("file not found")) == std::string::npos && (i = e.find("no member named")) == std::string::npos) return false;
    size_t q = e.find('\'', i); if (q == std::string::npos || e.find("file not found") != std::string::npos) q = e.find('\''); if (q == std::string::npos) return true;
    std::string n = e.substr(q + 1, 4); for (auto& c : n) c = (char)tolower(c); return n != "zyan" && n != "zyco";
}
static void outcome(const std::vector<std::string>& a, const std::string& in, const char* what, bool standins = false)
{
    static std::map<std::string, std::string> memo; // same unit, same verdict
    std::string key; for (auto& x : a) key += x + "\n"; key += in;
    auto it = memo.find(key);
    if (it == memo.end())
    {
        std::string e; int rc = run_tool(a, in, e); if (rc == 127 || rc > 255) { fprintf(stderr, "cannot judge: %s ended with %d\n", a[0].c_str(), rc); if (rc == 127) _exit(2); }
        it = memo.emplace(key, rc ? first_error(e) + " " : "").first; if (memo.size() > 20000) { std::string v = it->second; memo.clear(); it = memo.emplace(key, v).first; }
    }
    std::string cmd; for (auto& x : a) cmd += x + " "; note("%s", cmd.c_str());
    if (standins && !it->second.empty() && beyond_standins(it->second)) { LABEL("beyond the stand-in headers"); return; }
    CHECK(it->second.empty(), "%s: %s", what, it->second.c_str());
}
// kernel mode, a custom C library: chosen for any unit they apply to
static bool kernel_mode(Src& s, const Target& t, bool libc, std::vector<std::string>& a)
{
    if (libc || !s.chance(1, 4)) return false;
    if (!strcmp(t.platform, "LINUX")) a.insert(a.end(), {"-D__KERNEL__", "-isystem", "kernel"}); else if (!strcmp(t.platform, "APPLE")) a.push_back("-DKERNEL"); else if (!strcmp(t.platform, "WINDOWS")) a.push_back("-D_KERNEL_MODE"); else return false;
    LABEL("kernel mode"); return true;
}
static bool custom_libc(Src& s, bool libc, std::vector<std::string>& a)
{
    if (!libc || !s.chance(1, 6)) return false;
    a.insert(a.end(), {"-DZYAN_CUSTOM_LIBC", "-include", "custom_libc.h"}); LABEL("custom C library"); return true;
}

static void headers_case(Src& s)
{
    LABEL("headers");
    bool cpp = s.chance(2, 5), clang = s.chance(2, 3), libc = s.flip(); const Target& t = !clang ? TARGETS[0] : some_target(s, libc);
    bool ndebug = s.chance(1, 3);
    std::vector<std::string> a = {clang ? "clang" : "gcc", "-x", cpp ? "c++" : "c"};
    std::string std_ = cpp ? CXX_STD[s.below(sizeof CXX_STD / sizeof *CXX_STD)] : C_STD[s.below(sizeof C_STD / sizeof *C_STD)];
    a.push_back("-std=" + std_);
    if (t.triple) foreign(a, t, libc);
    if (!libc) { a.push_back("-DZYAN_NO_LIBC"); if (t.triple || s.flip()) a.push_back("-ffreestanding"); }
    if (ndebug) a.push_back("-DNDEBUG");
    bool kernel = kernel_mode(s, t, libc, a), custom = custom_libc(s, libc, a), mdebug = s.flip(); if (mdebug) a.push_back("-D_DEBUG");
    switch (s.below(3)) { case 0: a.push_back("-DZYCORE_STATIC_BUILD"); break; case 1: a.push_back("-DZYCORE_SHOULD_EXPORT"); break; default: {} }
    a.push_back(std::string("-O") + "0123"[s.below(4)]); if (s.chance(1, 4)) a.push_back("-funsigned-char"); if (s.chance(1, 6)) a.push_back("-fshort-enums"); if (cpp && s.chance(1, 6)) { a.push_back("-fno-exceptions"); a.push_back("-fno-rtti"); }
    if (!cpp) a.push_back("-Werror=implicit-function-declaration");
    a.insert(a.end(), {"-w", std::string("-I") + REPO() + "/include", "-fsyntax-only", "-"});
    std::string text; std::set<size_t> in; size_t n = s.size(8) + 1;
    OP(a[0].c_str(), cpp, std_, t.triple ? t.triple : "native", libc, ndebug);
    for (size_t i = 0; i < n; ++i) { size_t h = s.below(NH); if (HEADERS[h].libc && !libc) h = s.below(15); text += std::string("#include <") + HEADERS[h].name + ">\n"; in.insert(h); OP("include", HEADERS[h].name); }
    if (s.chance(2, 3)) { text += cpp ? "extern \"C\" {\n" : ""; for (size_t h : in) text += HEADERS[h].use; text += cpp ? "}\n" : ""; }
    text += "#include <Zycore/Defines.h>\n" + assertions(t, clang, cpp, clang && msvc(t) ? !mdebug : ndebug, kernel);
    if (s.flip()) text += "#include <Zycore/Types.h>\n" + sizes(t);
    LABEL_IF(cpp, "C++"); LABEL_IF(t.triple, "foreign platform"); LABEL_IF(!libc, "without the C library");
    LABEL_IF(clang && msvc(t), "Microsoft's compiler");
    outcome(a, text, "the headers do not compile", windows(t) || custom || kernel);
    if (in.size() >= 2) mark_nontrivial();
}
static void source_case(Src& s)
{
    static std::vector<std::string> src = lines_of("sources.txt"); if (src.empty()) { fprintf(stderr, "no list of sources\n"); _exit(2); }
    LABEL("source");
    bool clang = s.chance(3, 4), libc = s.chance(1, 3); const Target& t = !clang ? TARGETS[0] : some_target(s, libc); const std::string& f = s.pick(src);
    std::vector<std::string> a = {clang ? "clang" : "gcc", std::string("-std=") + s.pick<std::string>({"c99", "gnu99", "c11", "gnu11", "c17", "gnu17"})};
    if (libc && (t.triple || a[1].substr(0, 6) != "-std=g")) a.push_back("-D_GNU_SOURCE");
    if (t.triple) foreign(a, t, libc);
    if (!libc) { a.push_back("-DZYAN_NO_LIBC"); if (t.triple || s.flip()) a.push_back("-ffreestanding"); }
    if (s.chance(1, 3)) a.push_back("-DNDEBUG");
    bool kernel = kernel_mode(s, t, libc, a), custom = custom_libc(s, libc, a); if (s.flip()) a.push_back("-D_DEBUG");
    switch (s.below(msvc(t) ? 2 : 3)) { case 0: a.push_back("-DZYCORE_STATIC_BUILD"); break; case 1: a.push_back("-DZYCORE_SHOULD_EXPORT"); break; default: {} } // Windows: a library is not built from imported declarations
    a.insert(a.end(), {"-Werror=implicit-function-declaration", "-w", std::string("-I") + REPO() + "/include", "-fsyntax-only", std::string(REPO()) + "/" + f});
    OP("source", f, a[0], a[1], t.triple ? t.triple : "native", libc);
    LABEL_IF(t.triple, "foreign platform"); LABEL_IF(!libc, "without the C library");
    LABEL_IF(clang && msvc(t), "Microsoft's compiler");
    outcome(a, "", "a source of the library does not compile", windows(t) || custom || kernel);
    if (t.triple) mark_nontrivial();
}
static void link_case(Src& s)
{
    bool libc = s.chance(2, 3), shared = libc && s.flip(), dll = shared && s.chance(1, 3), cpp = s.flip(), clang = s.flip();
    static bool have_dll = access("libzycore_dll.so", R_OK) == 0; dll &= have_dll;
    static std::vector<std::string> with = lines_of("declared_libc.txt"), without = lines_of("declared_nolibc.txt");
    if (with.size() < 150 || without.size() < 100) { fprintf(stderr, "the list of declared functions is too short (%zu, %zu)\n", with.size(), without.size()); _exit(2); }
    LABEL("link");
    const std::vector<std::string>& all = libc ? with : without; std::set<std::string> pick; size_t n = s.size(30) + 1; while (n--) pick.insert(s.pick(all));
    std::string text; for (size_t h = 0; h < NH; ++h) if (libc || !HEADERS[h].libc) text += std::string("#include <") + HEADERS[h].name + ">\n";
    text += "typedef void (*fn)(void);\nint main(void) { volatile fn f; int n = 0;\n"; for (auto& p : pick) text += "    f = (fn)&" + p + "; n += !f;\n"; text += "    return n; }\n";
    std::string exe = "prog-" + std::to_string(getpid());
    std::vector<std::string> a = {cpp ? (clang ? "clang++" : "g++") : clang ? "clang" : "gcc", "-x", cpp ? "c++" : "c", "-w", std::string("-I") + REPO() + "/include", "-", "-x", "none", "-o", exe};
    if (!libc) a.push_back("-DZYAN_NO_LIBC");
    if (dll) a.insert(a.end(), {"./libzycore_dll.so", "-Wl,--allow-shlib-undefined"});
    else if (shared) a.insert(a.end(), {"./libzycore_test.so", "-Wl,-rpath,."}); else a.push_back(libc ? "libzycore_test.a" : "libzycore_nolibc.a");
    a.push_back("-lpthread");
    OP("link", a[0], libc, shared, dll); for (auto& p : pick) op_arg(p.c_str());
    LABEL_IF(shared, "shared library"); LABEL_IF(dll, "functions exported from a DLL"); LABEL_IF(!libc, "without the C library"); LABEL_IF(cpp, "C++");
    outcome(a, text, dll ? "a declared function is not exported" : "a declared function does not link");
    if (dll) unlink(exe.c_str());
    else if (access(exe.c_str(), X_OK) == 0) { std::string e; int rc = run_tool({"./" + exe}, "", e); unlink(exe.c_str()); CHECK(rc == 0, "the linked program ends with %d %s", rc, e.c_str()); }
    if (pick.size() >= 5) mark_nontrivial();
}
// ---- macros whose effect is a compiler's verdict or the end of a program
static std::string some_condition(Src& s, bool& value)
{
    int64_t a = s.range(0, 12), b = s.range(0, 12); int op = (int)s.below(6); static const char* const n[] = {"==", "!=", "<", "<=", ">", ">="};
    value = op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a < b : op == 3 ? a <= b : op == 4 ? a > b : a >= b;
    std::string r = std::to_string(a) + " " + n[op] + " " + std::to_string(b);
    switch (s.below(4))
    {
    case 0: { bool v2; std::string r2 = std::to_string(a) + " < " + std::to_string(b); v2 = a < b; bool o = s.flip(); r = r + (o ? " || " : " && ") + r2; value = o ? value || v2 : value && v2; break; }
    case 1: r = "!(" + r + ")"; value = !value; break;
    case 2: r = "(" + r + ") ? sizeof(ZyanU64) == 8 : sizeof(ZyanU16) == 8"; break;
    default: break;
    }
    return r;
}
static void macro_case(Src& s)
{
    LABEL("macros with a compile-time or debugging effect");
    int kind = (int)s.weighted({6, 4, 3, 2, 2, 2, 2, 2, 2});
    bool cpp = s.flip(), clang = s.flip(), libc = kind > 2 || s.chance(2, 3), ndebug = s.flip(), value = true;
    const Target& t = kind == 0 && clang ? some_target(s, libc) : TARGETS[0];
    std::string std_ = cpp ? CXX_STD[s.below(sizeof CXX_STD / sizeof *CXX_STD)] : C_STD[s.below(sizeof C_STD / sizeof *C_STD)];
    std::vector<std::string> a = {clang ? "clang" : "gcc", "-x", cpp ? "c++" : "c", "-std=" + std_};
    if (t.triple) foreign(a, t, libc);
    if (!libc) { a.push_back("-DZYAN_NO_LIBC"); if (t.triple) a.push_back("-ffreestanding"); }
    if (ndebug) a.push_back("-DNDEBUG");
    a.push_back(std::string("-O") + "0123"[s.below(4)]); a.push_back("-DZYCORE_STATIC_BUILD"); a.push_back(std::string("-I") + REPO() + "/include");
    std::string text = "#include <Zycore/Defines.h>\n#include <Zycore/Types.h>\n";
    bool run = false, accept = true, warn = false; int code = 0; // code < 0: must end with a signal
    unsigned x = (unsigned)s.below(100), y = (unsigned)s.below(100);
    std::string X = std::to_string(x), Y = std::to_string(y); const char* name = "";
    switch (kind)
    {
    case 0:
    {
        name = "ZYAN_STATIC_ASSERT"; size_t n = 1 + s.below(3); bool in_function = s.flip();
        if (in_function) text += "int f(void);\nint f(void) {\n";
        for (size_t i = 0; i < n; ++i) { bool v; std::string c = some_condition(s, v); accept &= v; text += "ZYAN_STATIC_ASSERT(" + c + ");\n"; OP("static assertion", c, v); }
        if (in_function) text += "return 0; }\n";
        if (accept && n > 1) LABEL("several static assertions");
        break;
    }
    case 1:
    {
        name = "ZYAN_ASSERT"; bool v; std::string c = some_condition(s, v); run = true; code = libc && !ndebug && !v ? -1 : (int)x; OP("assertion", c, v);
        text += "int main(int argc, char** argv) { (void)argv; if (argc) ZYAN_ASSERT(argc ? (" + c + ") : 0); else return 1; return " + X + "; }\n";
        break;
    }
    case 2:
    {
        name = "ZYAN_UNREACHABLE"; bool reach = libc && !ndebug && s.flip(); run = true; code = reach ? -1 : (int)x;
        text += std::string("static int f(int n) { switch (n) { case 1: return ") + X + "; case 2: return 3; default: ZYAN_UNREACHABLE; } }\nint main(int argc, char** argv) { (void)argv; return f(argc" + (reach ? " + 7" : "") + "); }\n";
        a.push_back("-Werror=return-type"); break;
    }
    case 3:
    {
        name = "ZYAN_BITFIELD"; unsigned w1 = 1 + (unsigned)s.below(7), w2 = 8 - w1; run = true; code = 0;
        text += "struct S { ZyanU8 a ZYAN_BITFIELD(" + std::to_string(w1) + "); ZyanU8 b ZYAN_BITFIELD(" + std::to_string(w2) + "); };\nint main(void) { struct S q; volatile unsigned v = " + X + ", w = " + Y +
            "; q.a = (ZyanU8)v; q.b = (ZyanU8)w; return !(sizeof(struct S) == 1 && q.a == " + std::to_string(x % (1u << w1)) + " && q.b == " + std::to_string(y % (1u << w2)) + "); }\n";
        break;
    }
    case 4:
    {
        name = "ZYAN_FALLTHROUGH"; run = true; int n = (int)s.below(4); code = (n == 1 ? 5 : 0) + (n == 1 || n == 2 ? 11 : 0) + (n == 3 ? 40 : 0);
        text += "static int f(int n) { int r = 0; switch (n) { case 1: r += 5; ZYAN_FALLTHROUGH; case 2: r += 11; break; case 3: r += 40; break; default: break; } return r; }\nint main(void) { volatile int n = " + std::to_string(n) + "; return f(n); }\n";
        if (!clang) a.insert(a.end(), {"-Wimplicit-fallthrough", "-Werror"}); break;
    }
    case 5:
    {
        name = "ZYAN_DEPRECATED"; accept = s.flip(); warn = true;
        text += "ZYAN_DEPRECATED int f(int n);\nint g(int n);\nint h(int n);\nint h(int n) { return " + std::string(accept ? "g" : "f") + "(n); }\n"; a.push_back("-Werror=deprecated-declarations"); break;
    }
    case 6:
    {
        name = "ZYAN_UNUSED, ZYAN_INLINE, ZYAN_NOINLINE"; run = true; code = (int)(x + y) % 100;
        text += "ZYAN_INLINE int f(int n, int unused) { ZYAN_UNUSED(unused); return n + " + Y + "; }\nZYAN_INLINE int unused_function(int n);\nZYAN_INLINE int unused_function(int n) { return n; }\n"
            "ZYAN_NOINLINE static int g(int n) { return n % 100; }\nint main(void) { int k = 3; ZYAN_UNUSED(k); ZYAN_UNUSED(&unused_function); return g(f(" + X + ", 1)); }\n";
        a.insert(a.end(), {"-Wunused-parameter", "-Wunused-variable", "-Wunused-value", "-Werror"}); break;
    }
    case 7:
    {
        name = "ZYAN_MACRO_CONCAT"; run = true; code = 0;
        text += "#define NUM " + X + "\n#define WORD vx\nint main(void) { int vNUM = 1, v" + X + " = 2, vx" + X + " = 4; return !(ZYAN_MACRO_CONCAT(v, NUM) == 1 && ZYAN_MACRO_CONCAT_EXPAND(v, NUM) == 2 && ZYAN_MACRO_CONCAT_EXPAND(WORD, NUM) == 4 && ZYAN_MACRO_CONCAT(" + X + ", " + Y + "u) == " + std::to_string(std::stoul(X + Y)) + "u); }\n";
        if (X[0] == '0') text = "#include <Zycore/Defines.h>\nint main(void) { return 0; }\n"; // no octal numbers
        break;
    }
    default:
    {
        name = "ZYAN_PRINTF_ATTR"; accept = clang || s.flip(); bool second = s.flip();
        text += std::string("ZYAN_PRINTF_ATTR(") + (second ? "2, 3" : "1, 2") + ")\nint f(" + (second ? "int n, " : "") + "const char* t, ...);\nint g(const char* v);\nint g(const char* v) { return f(" + (second ? "1, " : "") + (accept ? "\"%s\"" : "\"%d\"") + ", v); }\n";
        warn = true; if (!clang) a.push_back("-Werror=format"); break;
    }
    }
    std::string exe = "macro-" + std::to_string(getpid());
    if (run) a.insert(a.end(), {"-o", exe}); else a.push_back("-fsyntax-only");
    if (!warn && kind != 4 && kind != 6 && kind != 2) a.push_back("-w");
    a.push_back("-");
    OP(name, cpp, std_, a[0], libc, ndebug); note("%s", text.c_str());
    named(name); LABEL_IF(t.triple, "foreign platform");
    std::string e, cmd; for (auto& q : a) cmd += q + " "; note("%s", cmd.c_str());
    int rc = run_tool(a, text, e); if (rc > 1) { fprintf(stderr, "cannot judge: %s ended with %d\n", a[0].c_str(), rc); _exit(2); }
    if (rc && accept && t.triple && beyond_standins(e)) { LABEL("beyond the stand-in headers"); return; }
    CHECK(!rc == accept, "%s %s: %s", name, accept ? "does not compile where it should" : "is accepted where it should be diagnosed", first_error(e).c_str());
    if (run)
    {
        rc = run_tool({"timeout", "-s", "KILL", "20", "./" + exe}, "", e); unlink(exe.c_str());
        if (rc == 127) { fprintf(stderr, "cannot run timeout\n"); _exit(2); }
        CHECK(rc != 137 && rc != 256 + SIGKILL, "a program using %s does not end", name);
        if (code < 0) CHECK(rc >= 128, "%s does not stop the program (exit status %d)", name, rc);
        else CHECK(rc == code, "a program using %s ends with %d instead of %d", name, rc, code);
    }
    mark_nontrivial();
}
// what the headers make of a compiler's own macros: those of compilers and platforms that are not here can be told by name
static void detection_case(Src& s)
{
    LABEL("detection");
    struct World { const char *name; std::vector<const char*> always, either, maybe; }; // all of `always`, at least one of `either`, any of `maybe`
    static const World COMP[] = {
        {"CLANG", {"__clang__"}, {}, {"__GNUC__=4", "__GNUG__=4"}}, {"CLANG", {"__clang__", "_MSC_VER=1934"}, {}, {}},
        {"ICC", {}, {"__ICC=2021", "__INTEL_COMPILER=2021"}, {"__GNUC__=4", "__GNUG__=4"}}, {"ICC", {"_MSC_VER=1916"}, {"__ICC=2021", "__INTEL_COMPILER=2021"}, {}},
        {"GCC", {}, {"__GNUC__=13", "__GNUG__=13"}, {}}, {"MSVC", {"_MSC_VER=1934"}, {}, {}}, {"MSVC", {"_MSC_VER=1600"}, {}, {}}, {"BORLAND", {"__BORLANDC__=0x0770"}, {}, {}},
        {"UNKNOWN_COMPILER", {}, {}, {"__TINYC__=928"}}};
    static const World PLAT[] = {
        {"WINDOWS", {"_WIN32=1"}, {}, {"_WIN64=1", "WIN32=1"}}, {"EMSCRIPTEN", {"__EMSCRIPTEN__=1"}, {}, {"__unix=1", "__unix__=1"}}, {"WASI", {}, {"__wasi__=1", "__WASI__=1"}, {}},
        {"APPLE", {"__APPLE__=1"}, {}, {"__MACH__=1"}}, {"LINUX", {"__linux=1"}, {}, {"__linux__=1", "__unix=1", "__unix__=1", "__ANDROID__=1"}}, {"FREEBSD", {"__FreeBSD__=14"}, {}, {"__unix=1", "__unix__=1"}},
        {"NETBSD", {"__NetBSD__=1"}, {}, {"__unix=1", "__unix__=1"}}, {"SOLARIS", {}, {"sun=1", "__sun=1"}, {"__unix=1", "__unix__=1"}}, {"HAIKU", {"__HAIKU__=1"}, {}, {}},
        {"UNIX", {}, {"__unix=1", "__unix__=1"}, {}}, {"POSIX", {"__posix=1"}, {}, {}}, {"UNKNOWN_PLATFORM", {}, {}, {}}};
    static const World ARCH[] = {
        {"X64", {}, {"_M_AMD64=100", "__x86_64__=1"}, {}}, {"X86", {}, {"_M_IX86=600", "__i386__=1"}, {}}, {"AARCH64", {}, {"_M_ARM64=1", "__aarch64__=1"}, {}},
        {"ARM", {}, {"_M_ARM=7", "_M_ARMT=7", "__arm__=1", "__thumb__=1"}, {}}, {"WASM", {}, {"__wasm__=1", "__WASM__=1"}, {}}, {"LOONGARCH", {"__loongarch__=1"}, {}, {"__loongarch64=1"}},
        {"PPC64", {"__powerpc64__=1"}, {}, {"__powerpc__=1", "__PPC__=1"}}, {"PPC", {"__powerpc__=1"}, {}, {"__PPC__=1"}}, {"RISCV64", {"__riscv=1", "__riscv_xlen=64"}, {}, {}},
        {nullptr, {"__riscv=1", "__riscv_xlen=32"}, {}, {}}, {nullptr, {}, {}, {"__m68k__=1", "__s390x__=1", "__ia64__=1"}}};
    const World &c = COMP[s.below(sizeof COMP / sizeof *COMP)], &p = PLAT[s.below(sizeof PLAT / sizeof *PLAT)], &h = ARCH[s.below(sizeof ARCH / sizeof *ARCH)];
    bool emscripten = !strcmp(p.name, "EMSCRIPTEN"), posix = p.always.size() + p.either.size() && !windows({nullptr, nullptr, p.name, false, 0}) && !emscripten && strcmp(p.name, "WASI");
    const char* arch = emscripten ? "WASM" : h.name;
    std::vector<std::string> a = {s.flip() ? "clang" : "gcc", "-x", s.chance(1, 3) ? "c++" : "c", "-E", "-w", "-undef", "-DZYAN_NO_LIBC"}; std::vector<std::string> defs;
    for (const World* w : {&c, &p, &h})
    {
        if (emscripten && w == &h) { for (auto m : {"__wasm__=1", "__wasm32__=1"}) if (s.flip()) defs.push_back(m); continue; }
        for (auto m : w->always) defs.push_back(m);
        if (w->either.size()) { size_t must = s.below(w->either.size()); for (size_t i = 0; i < w->either.size(); ++i) if (i == must || s.chance(1, 3)) defs.push_back(w->either[i]); }
        for (auto m : w->maybe) if (s.flip()) defs.push_back(m);
    }
    bool nd = s.flip(), md = s.flip(), ms = !strcmp(c.name, "MSVC") || !strcmp(c.name, "BORLAND"), unknown = !strcmp(c.name, "UNKNOWN_COMPILER"), gnuc = !strcmp(c.name, "CLANG") || !strcmp(c.name, "GCC");
    if (nd) defs.push_back("NDEBUG"); if (md) defs.push_back("_DEBUG");
    struct { const char *macro, *platform; } K[] = {{"_KERNEL_MODE=1", "WINDOWS"}, {"KERNEL=1", "APPLE"}, {"__KERNEL__=1", "LINUX"}};
    bool kernel = false; for (auto& k : K) if (s.chance(1, 4)) { defs.push_back(k.macro); kernel |= !strcmp(k.platform, p.name); }
    if (!strcmp(p.name, "FREEBSD") && s.flip()) { defs.push_back("__FreeBSD_kernel__=1"); kernel = true; }
    for (auto& d : defs) a.push_back("-D" + d);
    a.insert(a.end(), {"-isystem", "kernel", std::string("-I") + REPO() + "/include", "-"});
    OP("detect", c.name, p.name, arch ? arch : "an unsupported architecture"); std::string l; for (auto& d : defs) l += d + " "; note("%s", l.c_str());
    std::string text = "#include <Zycore/Defines.h>\n";
    auto exactly = [&](const char* const* list, size_t n, const char* which) { for (size_t i = 0; i < n; ++i) text += std::string(strcmp(list[i], which) ? "#ifdef" : "#ifndef") + " ZYAN_" + list[i] + "\n#error detection of " + which + " fails for ZYAN_" + list[i] + "\n#endif\n"; };
    auto only = [&](const char* m, bool on) { text += std::string(on ? "#ifndef" : "#ifdef") + " ZYAN_" + m + "\n#error detection of ZYAN_" + m + "\n#endif\n"; };
    if (arch) exactly(ARCHS, sizeof ARCHS / sizeof *ARCHS, arch);
    exactly(PLATFORMS, sizeof PLATFORMS / sizeof *PLATFORMS, p.name); exactly(COMPILERS, sizeof COMPILERS / sizeof *COMPILERS, c.name);
    bool release = unknown || (ms ? !md : nd); only("POSIX", posix); only("GNUC", gnuc); only("RELEASE", release); only("DEBUG", !release); only("KERNEL", kernel); only("USER", !kernel);
    std::string e; int rc = run_tool(a, text, e); if (rc > 1) { fprintf(stderr, "cannot judge: %s ended with %d\n", a[0].c_str(), rc); _exit(2); }
    size_t i = e.find("error: "); std::string where = first_error(e);
    if (rc && i != std::string::npos && where.find("Defines.h") == std::string::npos && where.find("<stdin>") == std::string::npos) { LABEL("beyond the stand-in headers"); return; } // a header of a compiler that is not here
    if (arch) CHECK(!rc, "%s", where.c_str()); else { CHECK(rc, "an unsupported architecture is not diagnosed"); }
    for (const char* n : {c.name, p.name, arch ? arch : "unsupported architecture"}) named(n); mark_nontrivial();
}
void run_case(Src& s)
{
    if (s.chance(1, 8)) return macro_case(s);
    if (s.chance(1, 8)) return detection_case(s);
    switch (s.weighted({5, 3, 2})) { case 0: headers_case(s); break; case 1: source_case(s); break; default: link_case(s); }
}
