/* Exports the C library substitutes under the prefix FB. */
#include <Zycore/LibC.h>
#ifdef WITH_LIBC
#include <Zycore/Types.h>
#elif defined(ZYAN_LIBC)
#error "expected a build without a C library"
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define N(x) CAT(FB, x)
typedef ZyanUSize U;
void* N(memchr)(const void* s, int c, U n) { return ZYAN_MEMCHR(s, c, n); }
int N(memcmp)(const void* a, const void* b, U n) { return ZYAN_MEMCMP(a, b, n); }
void* N(memcpy)(void* d, const void* s, U n) { return ZYAN_MEMCPY(d, s, n); }
void* N(memmove)(void* d, const void* s, U n) { return ZYAN_MEMMOVE(d, s, n); }
void* N(memset)(void* d, int v, U n) { return ZYAN_MEMSET(d, v, n); }
char* N(strcat)(char* d, const char* s) { return ZYAN_STRCAT(d, s); }
char* N(strchr)(const char* s, int c) { return ZYAN_STRCHR(s, c); }
int N(strcmp)(const char* a, const char* b) { return ZYAN_STRCMP(a, b); }
int N(strcoll)(const char* a, const char* b) { return ZYAN_STRCOLL(a, b); }
char* N(strcpy)(char* d, const char* s) { return ZYAN_STRCPY(d, s); }
U N(strcspn)(const char* a, const char* b) { return ZYAN_STRCSPN(a, b); }
U N(strlen)(const char* a) { return ZYAN_STRLEN(a); }
char* N(strncat)(char* d, const char* s, U n) { return ZYAN_STRNCAT(d, s, n); }
int N(strncmp)(const char* a, const char* b, U n) { return ZYAN_STRNCMP(a, b, n); }
char* N(strncpy)(char* d, const char* s, U n) { return ZYAN_STRNCPY(d, s, n); }
char* N(strpbrk)(const char* a, const char* b) { return ZYAN_STRPBRK(a, b); }
char* N(strrchr)(const char* s, int c) { return ZYAN_STRRCHR(s, c); }
U N(strspn)(const char* a, const char* b) { return ZYAN_STRSPN(a, b); }
char* N(strstr)(const char* a, const char* b) { return ZYAN_STRSTR(a, b); }
char* N(strtok)(char* s, const char* d) { return ZYAN_STRTOK(s, d); }
U N(strxfrm)(char* d, const char* s, U n) { return ZYAN_STRXFRM(d, s, n); }
static int sum(int n, ZyanVAList l) { int r = 0; while (n--) r = r * 31 + ZYAN_VA_ARG(l, int); return r; }
int N(varargs)(int n, ...) { ZyanVAList a, b; int r; ZYAN_VA_START(a, n); ZYAN_VA_COPY(b, a); r = sum(n, a) ^ (sum(n, b) * 7); ZYAN_VA_END(b); ZYAN_VA_END(a); return r; }
#ifdef WITH_LIBC
int N(fputs)(const char* s, ZyanFile* f) { return ZYAN_FPUTS(s, f); }
int N(fputc)(int c, ZyanFile* f) { return ZYAN_FPUTC(c, f); }
int N(putc)(int c, ZyanFile* f) { return ZYAN_PUTC(c, f); }
int N(fprintf)(ZyanFile* f, const char* s, int n) { return ZYAN_FPRINTF(f, "<%s|%d>", s, n); }
int N(printf)(const char* s, int n) { return ZYAN_PRINTF("<%s|%d>", s, n); }
int N(puts)(const char* s) { return ZYAN_PUTS(s); }
int N(scanf)(int* a, char* b) { return ZYAN_SCANF("%d %9s", a, b); }
int N(sscanf)(const char* s, int* a, char* b) { return ZYAN_SSCANF(s, "%d %9s", a, b); }
int N(vsnprintf)(char* d, U n, const char* f, ...) { ZyanVAList l; int r; ZYAN_VA_START(l, f); r = ZYAN_VSNPRINTF(d, n, f, l); ZYAN_VA_END(l); return r; }
ZyanFile* N(stream)(int i) { return i == 0 ? ZYAN_STDIN : i == 1 ? ZYAN_STDOUT : ZYAN_STDERR; }
void* N(calloc)(U a, U b) { return ZYAN_CALLOC(a, b); }
void* N(malloc)(U n) { return ZYAN_MALLOC(n); }
void* N(realloc)(void* p, U n) { return ZYAN_REALLOC(p, n); }
void N(free)(void* p) { ZYAN_FREE(p); }
char* N(getenv)(const char* n) { return ZYAN_GETENV(n); }
int N(get_errno)(void) { return ZYAN_ERRNO; }
void N(set_errno)(int e) { ZYAN_ERRNO = e; }
#endif
