// technique: differential property-based testing: the same generated history (with identical injected allocation failures) runs through eleven separately built copies of the library; statuses, outputs and complete contents must agree after every call; coverage-guided in thorough
#include "diff.hpp"
#define VARIANT rel_
#define VARIANT_LIBC 1
#define VARIANT_NAME "gcc -O2 -DNDEBUG"
#include "variant.inc"
#define VARIANT dbg_
#define VARIANT_LIBC 1
#define VARIANT_NAME "gcc -O0"
#include "variant.inc"
#define VARIANT nol_
#define VARIANT_LIBC 0
#define VARIANT_NAME "clang -O1 -DZYAN_NO_LIBC"
#include "variant.inc"
#define VARIANT ngr_
#define VARIANT_LIBC 0
#define VARIANT_NAME "gcc -O2 -DNDEBUG -DZYAN_NO_LIBC"
#include "variant.inc"
#define VARIANT v32_
#define VARIANT_LIBC 0
#define VARIANT_NAME "clang -O1 -DZYAN_NO_LIBC, 32-bit code paths"
#include "variant.inc"
#define VARIANT w32_
#define VARIANT_LIBC 0
#define VARIANT_NAME "gcc -O2 -DNDEBUG -DZYAN_NO_LIBC, 32-bit code paths"
#include "variant.inc"
#define VARIANT crl_
#define VARIANT_LIBC 1
#define VARIANT_NAME "clang -O3 -DNDEBUG"
#include "variant.inc"
#define VARIANT krn_
#define VARIANT_LIBC 0
#define VARIANT_NAME "clang -O1 -DZYAN_NO_LIBC, Linux kernel (stand-in for its 64-bit division)"
#include "variant.inc"
#define VARIANT msv_
#define VARIANT_LIBC 1
#define VARIANT_NAME "clang -O1 simulating Microsoft's compiler on Windows"
#include "variant.inc"
#define VARIANT cus_
#define VARIANT_LIBC 1
#define VARIANT_NAME "gcc -O1 with a custom C library"
#include "variant.inc"

// ---- the custom C library: plain reference functions
extern "C" {
int cus_errno = 0; void *cus_stdin = nullptr, *cus_stdout = nullptr, *cus_stderr = nullptr;
static int never() { FAIL("the library uses a stream of the custom C library"); }
int cus_fputs(const char*, void*) { return never(); } int cus_fputc(int, void*) { return never(); } int cus_fprintf(void*, const char*, ...) { return never(); } int cus_printf(const char*, ...) { return never(); } int cus_putc(int, void*) { return never(); }
int cus_puts(const char*) { return never(); } int cus_scanf(const char*, ...) { return never(); } int cus_sscanf(const char* s, const char* f, ...) { va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); return r; }
int cus_vsnprintf(char* d, size_t n, const char* f, va_list a) { return vsnprintf(d, n, f, a); }
void* cus_calloc(size_t a, size_t b) { return calloc(a, b); } void cus_free(void* p) { free(p); } char* cus_getenv(const char* n) { return getenv(n); } void* cus_malloc(size_t n) { return malloc(n); } void* cus_realloc(void* p, size_t n) { return realloc(p, n); }
void* cus_memchr(const void* p, int c, size_t n) { for (auto q = (const unsigned char*)p; n--; ++q) if (*q == (unsigned char)c) return (void*)q; return nullptr; }
int cus_memcmp(const void* a, const void* b, size_t n) { auto x = (const unsigned char*)a; auto y = (const unsigned char*)b; for (; n--; ++x, ++y) if (*x != *y) return *x < *y ? -77 : 77; return 0; }
void* cus_memcpy(void* d, const void* s, size_t n) { CHECK(!n || (char*)d + n <= (const char*)s || (const char*)s + n <= (char*)d || d == s, "memcpy of overlapping memory"); return memmove(d, s, n); }
void* cus_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); } void* cus_memset(void* d, int c, size_t n) { return memset(d, c, n); }
char* cus_strcat(char* d, const char* s) { return strcat(d, s); } char* cus_strchr(const char* s, int c) { return (char*)strchr(s, c); } int cus_strcmp(const char* a, const char* b) { int r = strcmp(a, b); return r < 0 ? -77 : r ? 77 : 0; } int cus_strcoll(const char* a, const char* b) { return strcoll(a, b); }
char* cus_strcpy(char* d, const char* s) { return strcpy(d, s); } size_t cus_strcspn(const char* s, const char* x) { return strcspn(s, x); } size_t cus_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; } char* cus_strncat(char* d, const char* s, size_t n) { return strncat(d, s, n); }
int cus_strncmp(const char* a, const char* b, size_t n) { int r = strncmp(a, b, n); return r < 0 ? -77 : r ? 77 : 0; } char* cus_strncpy(char* d, const char* s, size_t n) { return strncpy(d, s, n); } char* cus_strpbrk(const char* s, const char* x) { return (char*)strpbrk(s, x); }
char* cus_strrchr(const char* s, int c) { return (char*)strrchr(s, c); } size_t cus_strspn(const char* s, const char* x) { return strspn(s, x); } char* cus_strstr(const char* a, const char* b) { return (char*)strstr(a, b); } char* cus_strtok(char* s, const char* d) { return strtok(s, d); } size_t cus_strxfrm(char* d, const char* s, size_t n) { return strxfrm(d, s, n); }
}

PropertyInfo PROPERTY = {"C26", "exploration",
    "A case drives one container (vector, list, string with number formatting, bitset pair) or the argument parser with a random "
    "history of 1 to about 20 calls, valid and invalid, over allocators (with the same injected refusals) or fixed buffers, through "
    "eleven builds of the library (with and without C library, NDEBUG, -O0 to -O3, gcc and clang, 64- and 32-bit code paths, as in the "
    "Linux kernel, with Microsoft's compiler on Windows simulated, with a custom C library); after "
    "each call status, outputs, size, capacity and all contents are compared with the first build; non-trivial: at least three calls "
    "succeeded",
    500000, 6000000, 4000, 3, 3,
    {"the 32-bit code paths are compiled by undefining the architecture macros, and run both as 64-bit and as 32-bit programs",
     "formatted append (needs a C library) is compared among the builds that have one"}};

std::vector<std::pair<const Api*, Env>> World::builds()
{
    std::vector<std::pair<const Api*, Env>> r; for (const Api* a : {&native_api(), &rel_api(), &dbg_api(), &nol_api(), &ngr_api(), &v32_api(), &w32_api(), &crl_api(), &krn_api(), &msv_api(), &cus_api()}) r.push_back({a, Env()});
    return r;
}
void run_case(Src& s) { diff_case(s); }
