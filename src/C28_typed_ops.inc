/* The typed macros of the containers behind plain functions; compiled several times. */
#include "C28_shim.h"
#include <string.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef __cplusplus
extern "C"
#else
extern
#endif
const struct TypedOps CAT(typed_, SHIM);
#ifdef NOT_USABLE
#define STR_(x) #x
#define STR(x) STR_(x)
const struct TypedOps CAT(typed_, SHIM) = { STR(SHIM) };
#else
typedef void* Ptr;
#define TYPES(X) X(0, ZyanU8) X(1, ZyanU16) X(2, ZyanU32) X(3, ZyanU64) X(4, Ptr) X(5, Pair) X(6, double)
#define BY(X) switch (t) { TYPES(X) } return 0;
static ZyanU64 pack(const void* p, unsigned n) { ZyanU64 r = 0; memcpy(&r, p, n); return r; }
#define X(n, T) case n: { const T x = ZYAN_VECTOR_GET(T, v, i); return pack(&x, sizeof x); }
static ZyanU64 f_get(int t, const ZyanVector* v, ZyanUSize i) { BY(X) }
#undef X
#define X(n, T) case n: { ZyanUSize k = 0; ZYAN_VECTOR_FOREACH(T, v, item, { if (k == stop) break; out[k] = 0; if (skip && (++k % skip == 0)) continue; if (!skip) ++k; out[k - 1] = pack(&item, sizeof item); }) return k; }
static ZyanUSize f_walk(int t, const ZyanVector* v, ZyanU64* out, ZyanUSize stop, unsigned skip) { BY(X) }
#undef X
#define X(n, T) case n: { ZyanUSize k = 0; ZYAN_VECTOR_FOREACH_MUTABLE(T, v, it, { ZyanU64 x; if (k == stop) break; ++k; x = pack(it, sizeof *it) + add; memcpy(it, &x, sizeof *it); }) return k; }
static ZyanUSize f_modify(int t, ZyanVector* v, ZyanU64 add, ZyanUSize stop) { BY(X) }
#undef X
#define X(n, T) case n: { ZyanUSize k = 0; ZYAN_VECTOR_FOREACH_MUTABLE(T, v, a, { ZYAN_VECTOR_FOREACH(T, w, b, { if (!memcmp(a, &b, sizeof b)) ++k; else memcpy(out++, &b, sizeof b); }) ZYAN_VECTOR_FOREACH(T, w, b, { if (!memcmp(a, &b, sizeof b)) ++k; }) }) return k; }
static ZyanUSize f_nested(int t, ZyanVector* v, ZyanVector* w, ZyanU64* out) { BY(X) }
#undef X
#define X(n, T) case n: { ZyanUSize k = 0; ZYAN_VECTOR_FOREACH(T, second ? w : v, item, { out[k] = 0; memcpy(&out[k], &item, sizeof item); ++k; }) ZYAN_VECTOR_FOREACH_MUTABLE(T, second ? w : v, it, { out[k] = pack(it, sizeof *it); ++k; }) return k; }
static ZyanUSize f_selected(int t, ZyanVector* v, ZyanVector* w, int second, ZyanU64* out) { BY(X) }
#undef X
#define X(n, T) case n: { ZyanUSize k = 0; const ZyanListNode* node = ZYAN_NULL_NODE; ZyanStatus st = ZyanListGetHeadNode(l, &node); while (ZYAN_SUCCESS(st) && node && k < max) { const T x = ZYAN_LIST_GET(T, node); out[k++] = pack(&x, sizeof x); st = ZyanListGetNextNode(&node); } return k; }
#define ZYAN_NULL_NODE 0
static ZyanUSize f_list(int t, const ZyanList* l, ZyanU64* out, ZyanUSize max) { BY(X) }
#undef X
static int f_bv(ZyanVector* v) { const ZyanVector x = ZYAN_VECTOR_INITIALIZER; *v = x; return 1; }
static int f_bl(ZyanList* l) { const ZyanList x = ZYAN_LIST_INITIALIZER; *l = x; return 1; }
static int f_bs(ZyanString* s) { const ZyanString x = ZYAN_STRING_INITIALIZER; *s = x; return 1; }
static const char text_array[] = "an array\0with a NUL";
static const ZyanStringView lits[NLIT] = { ZYAN_DEFINE_STRING_VIEW(""), ZYAN_DEFINE_STRING_VIEW("a"), ZYAN_DEFINE_STRING_VIEW("ab"), ZYAN_DEFINE_STRING_VIEW("The quick brown fox jumps over the lazy dog 0123456789"),
    ZYAN_DEFINE_STRING_VIEW("ab\0cd"), ZYAN_DEFINE_STRING_VIEW(text_array), ZYAN_DEFINE_STRING_VIEW("con" "cat\xFF") };
static const char* const texts[NLIT] = { "", "a", "ab", "The quick brown fox jumps over the lazy dog 0123456789", "ab\0cd", text_array, "concat\xFF" };
static const ZyanUSize lens[NLIT] = { 0, 1, 2, 54, 5, 19, 7 };
static int f_lit(int k, ZyanStringView* v, const char** text, ZyanUSize* n) { *v = lits[k]; *text = texts[k]; *n = lens[k]; return 1; }
static const ZyanStringView* f_cast(int k, ZyanString* s) { if (k) { ZyanString* pair[2]; pair[0] = s; pair[1] = s; return ZYAN_STRING_TO_VIEW(*(pair + 1)); } return ZYAN_STRING_TO_VIEW(s); }
#define STR_(x) #x
#define STR(x) STR_(x)
const struct TypedOps CAT(typed_, SHIM) = { STR(SHIM), { sizeof(ZyanU8), sizeof(ZyanU16), sizeof(ZyanU32), sizeof(ZyanU64), sizeof(Ptr), sizeof(Pair), sizeof(double) }, f_get, f_walk, f_modify, f_nested, f_selected, f_list, f_bv, f_bl, f_bs, f_lit, f_cast };
#endif
