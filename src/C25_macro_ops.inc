/* The macros and inline functions of the public headers behind plain functions; compiled several times. */
#include <Zycore/Types.h>
#include <Zycore/Defines.h>
#include <Zycore/Status.h>
#include <Zycore/Comparison.h>
#include <Zycore/Zycore.h>
#include "C25_shim.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TYPES(X) X(0, ZyanU8) X(1, ZyanU16) X(2, ZyanU32) X(3, ZyanU64) X(4, ZyanI8) X(5, ZyanI16) X(6, ZyanI32) X(7, ZyanI64) X(8, ZyanUSize) X(9, ZyanISize) X(10, ZyanUPointer) X(11, ZyanIPointer)
#define BY(expr) switch (t) { TYPES(expr) } return 0;
#define X(n, T) case n: { T x = (T)a, y = (T)b; return (SW)ZYAN_MIN(x, y); }
static SW f_min(int t, u64_ a, u64_ b) { BY(X) }
#undef X
#define X(n, T) case n: { T x = (T)a, y = (T)b; return (SW)ZYAN_MAX(x, y); }
static SW f_max(int t, u64_ a, u64_ b) { BY(X) }
#undef X
#define X(n, T) case n: { T x = (T)a; return (SW)ZYAN_ABS(x); }
static SW f_abs(int t, u64_ a) { BY(X) }
#undef X
#define X(n, T) case n: { T x = (T)a; return ZYAN_IS_POWER_OF_2(x) ? 1 : 0; }
static int f_pow2(int t, u64_ a) { BY(X) }
#undef X
#define AL(n, T, M) case n: { T v = (T)x; switch (at) { case 0: { ZyanU32 l = (ZyanU32)al; return M(v, l); } case 1: { int l = (int)al; return M(v, l); } case 2: { ZyanU64 l = al; return M(v, l); } default: { ZyanU8 l = (ZyanU8)al; return M(v, l); } } }
#define X(n, T) AL(n, T, (SW)ZYAN_ALIGN_UP)
static SW f_up(int t, int at, u64_ x, u64_ al) { BY(X) }
#undef X
#define X(n, T) AL(n, T, (SW)ZYAN_ALIGN_DOWN)
static SW f_down(int t, int at, u64_ x, u64_ al) { BY(X) }
#undef X
#define X(n, T) AL(n, T, !!ZYAN_IS_ALIGNED_TO)
static int f_aligned(int t, int at, u64_ x, u64_ al) { BY(X) }
#undef X
#define X(n, T) case n: { T x = (T)v; return ZYAN_NEEDS_BIT(x, b) ? 1 : 0; }
static int f_needs(int t, u64_ v, unsigned b) { BY(X) }
#undef X
#define X(n, T) case n: { T x = (T)v; return (unsigned)ZYAN_BITS_TO_REPRESENT(x); }
static unsigned f_bits(int t, u64_ v) { BY(X) }
#undef X
static u64_ f_div(u64_ n, u64_ d) { ZyanU64 v = n; ZYAN_DIV64(v, d); return v; }
static SW x_min(int sel, i64_ a, i64_ b) { return (SW)ZYAN_MIN(sel ? a : b, sel ? b : a); }
static SW x_max(int sel, i64_ a, i64_ b) { return (SW)ZYAN_MAX(sel ? a : b, sel ? b : a); }
static SW x_abs(int sel, i64_ a, i64_ b) { return (SW)ZYAN_ABS(sel ? a : b); }
static SW x_up(int sel, i64_ a, i64_ b) { return (SW)ZYAN_ALIGN_UP(sel ? a : b, sel ? 16 : 8); }
static SW x_down(int sel, i64_ a, i64_ b) { return (SW)ZYAN_ALIGN_DOWN(sel ? a : b, sel ? 16 : 8); }
static int x_aligned(int sel, i64_ a, i64_ b) { return !!ZYAN_IS_ALIGNED_TO(sel ? a : b, sel ? 16 : 8); }
static int x_pow2(int sel, i64_ a, i64_ b) { return !!ZYAN_IS_POWER_OF_2(sel ? a : b); }
static unsigned x_bits(int sel, i64_ a, i64_ b) { return (unsigned)ZYAN_BITS_TO_REPRESENT(sel ? a : b); }
static int x_needs(int sel, i64_ a, i64_ b) { return !!ZYAN_NEEDS_BIT(sel ? a : b, sel ? 3 : 9); }
static u64_ x_version(int sel, u64_ a, u64_ b, int part)
{
    switch (part) { case 0: return ZYCORE_VERSION_MAJOR(sel ? a : b); case 1: return ZYCORE_VERSION_MINOR(sel ? a : b); case 2: return ZYCORE_VERSION_PATCH(sel ? a : b); default: return ZYCORE_VERSION_BUILD(sel ? a : b); }
}
static u64_ x_status(int sel, u32_ a, u32_ b, int part)
{
    switch (part) { case 0: return ZYAN_STATUS_MODULE(sel ? a : b); case 1: return ZYAN_STATUS_CODE(sel ? a : b); case 2: return !!ZYAN_SUCCESS(sel ? a : b); case 3: return !!ZYAN_FAILED(sel ? a : b); default: return ZYAN_MAKE_STATUS(sel ? a : b, sel ? b : a, sel ? a : b); }
}
static u32_ f_make(u32_ e, u32_ m, u32_ c) { return ZYAN_MAKE_STATUS(e, m, c); }
static u32_ f_module(u32_ s) { return ZYAN_STATUS_MODULE(s); }
static u32_ f_code(u32_ s) { return ZYAN_STATUS_CODE(s); }
static int f_success(u32_ s) { return ZYAN_SUCCESS(s) ? 1 : 0; }
static int f_failed(u32_ s) { return ZYAN_FAILED(s) ? 1 : 0; }
static u32_ f_check(u32_ s, u32_* n, int* passed) { if (n) ZYAN_CHECK((++*n, s)); else return 0; *passed = 1; return 0x7FFFFFFF; }
static u64_ f_part(u64_ v, int part)
{
    switch (part) { case 0: return ZYCORE_VERSION_MAJOR(v); case 1: return ZYCORE_VERSION_MINOR(v); case 2: return ZYCORE_VERSION_PATCH(v); default: return ZYCORE_VERSION_BUILD(v); }
}
struct F8 { char pad; ZyanU8 field; }; struct F16 { char pad; ZyanI16 field; }; struct F32 { char pad; ZyanU32 field; }; struct F64 { char pad; ZyanI64 field; };
static ZYAN_DECLARE_EQUALITY_COMPARISON(e_i8, ZyanI8)
static ZYAN_DECLARE_EQUALITY_COMPARISON(e_i16, ZyanI16)
static ZYAN_DECLARE_EQUALITY_COMPARISON(e_i32, ZyanI32)
static ZYAN_DECLARE_EQUALITY_COMPARISON(e_i64, ZyanI64)
static ZYAN_DECLARE_COMPARISON(c_i8, ZyanI8)
static ZYAN_DECLARE_COMPARISON(c_i16, ZyanI16)
static ZYAN_DECLARE_COMPARISON(c_i32, ZyanI32)
static ZYAN_DECLARE_COMPARISON(c_i64, ZyanI64)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(e_f8, struct F8, field)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(e_f16, struct F16, field)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(e_f32, struct F32, field)
static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(e_f64, struct F64, field)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(c_f8, struct F8, field)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(c_f16, struct F16, field)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(c_f32, struct F32, field)
static ZYAN_DECLARE_COMPARISON_FOR_FIELD(c_f64, struct F64, field)
static int f_equals(int t, const void* a, const void* b)
{
    switch (t)
    {
    case 0: return ZyanEqualsPointer((void* const*)a, (void* const*)b); case 1: return ZyanEqualsBool((const ZyanBool*)a, (const ZyanBool*)b);
    case 2: return ZyanEqualsNumeric8((const ZyanU8*)a, (const ZyanU8*)b); case 3: return ZyanEqualsNumeric16((const ZyanU16*)a, (const ZyanU16*)b);
    case 4: return ZyanEqualsNumeric32((const ZyanU32*)a, (const ZyanU32*)b); case 5: return ZyanEqualsNumeric64((const ZyanU64*)a, (const ZyanU64*)b);
    case 6: return e_i8((const ZyanI8*)a, (const ZyanI8*)b); case 7: return e_i16((const ZyanI16*)a, (const ZyanI16*)b); case 8: return e_i32((const ZyanI32*)a, (const ZyanI32*)b); case 9: return e_i64((const ZyanI64*)a, (const ZyanI64*)b);
    case 10: return e_f8((const struct F8*)a, (const struct F8*)b); case 11: return e_f16((const struct F16*)a, (const struct F16*)b); case 12: return e_f32((const struct F32*)a, (const struct F32*)b); default: return e_f64((const struct F64*)a, (const struct F64*)b);
    }
}
static int f_compare(int t, const void* a, const void* b)
{
    switch (t)
    {
    case 0: return ZyanComparePointer((void* const*)a, (void* const*)b); case 1: return ZyanCompareBool((const ZyanBool*)a, (const ZyanBool*)b);
    case 2: return ZyanCompareNumeric8((const ZyanU8*)a, (const ZyanU8*)b); case 3: return ZyanCompareNumeric16((const ZyanU16*)a, (const ZyanU16*)b);
    case 4: return ZyanCompareNumeric32((const ZyanU32*)a, (const ZyanU32*)b); case 5: return ZyanCompareNumeric64((const ZyanU64*)a, (const ZyanU64*)b);
    case 6: return c_i8((const ZyanI8*)a, (const ZyanI8*)b); case 7: return c_i16((const ZyanI16*)a, (const ZyanI16*)b); case 8: return c_i32((const ZyanI32*)a, (const ZyanI32*)b); case 9: return c_i64((const ZyanI64*)a, (const ZyanI64*)b);
    case 10: return c_f8((const struct F8*)a, (const struct F8*)b); case 11: return c_f16((const struct F16*)a, (const struct F16*)b); case 12: return c_f32((const struct F32*)a, (const struct F32*)b); default: return c_f64((const struct F64*)a, (const struct F64*)b);
    }
}
static const char arr1[1] = {0}; static const ZyanU64 arr7[7] = {0}; static const struct F32 arr300[300] = {{0, 0}};
#ifdef __cplusplus
extern "C"
#endif
void CAT(macro_ops_, SHIM)(struct MacroOps* o);
void CAT(macro_ops_, SHIM)(struct MacroOps* o)
{
    int i = 0; static const u32_ st[] = {ZYAN_STATUS_SUCCESS, ZYAN_STATUS_TRUE, ZYAN_STATUS_FALSE, ZYAN_STATUS_FAILED, ZYAN_STATUS_INVALID_ARGUMENT, ZYAN_STATUS_INVALID_OPERATION, ZYAN_STATUS_ACCESS_DENIED, ZYAN_STATUS_NOT_FOUND, ZYAN_STATUS_OUT_OF_RANGE,
        ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, ZYAN_STATUS_NOT_ENOUGH_MEMORY, ZYAN_STATUS_BAD_SYSTEMCALL, ZYAN_STATUS_OUT_OF_RESOURCES, ZYAN_STATUS_MISSING_DEPENDENCY, ZYAN_STATUS_ARG_NOT_UNDERSTOOD, ZYAN_STATUS_TOO_FEW_ARGS, ZYAN_STATUS_TOO_MANY_ARGS, ZYAN_STATUS_ARG_MISSES_VALUE, ZYAN_STATUS_REQUIRED_ARG_MISSING};
#define X(n, T) o->size[n] = sizeof(T); o->sign[n] = (T)-1 < (T)1;
    TYPES(X)
#undef X
    for (i = 0; i < NS; ++i) o->status[i] = st[i];
    o->module_id[0] = ZYAN_MODULE_ZYCORE; o->module_id[1] = ZYAN_MODULE_ARGPARSE; o->module_id[2] = ZYAN_MODULE_USER;
    o->min = f_min; o->max = f_max; o->abs = f_abs; o->pow2 = f_pow2; o->up = f_up; o->down = f_down; o->aligned = f_aligned; o->needs = f_needs; o->bits = f_bits; o->div64 = f_div;
    o->xmin = x_min; o->xmax = x_max; o->xabs = x_abs; o->xup = x_up; o->xdown = x_down; o->xaligned = x_aligned; o->xpow2 = x_pow2; o->xbits = x_bits; o->xneeds = x_needs; o->xversion = x_version; o->xstatus = x_status;
    o->make = f_make; o->module = f_module; o->code = f_code; o->success = f_success; o->failed = f_failed; o->check = f_check; o->version = ZYCORE_VERSION; o->part = f_part; o->equals = f_equals; o->compare = f_compare;
    o->limit[0] = ZYAN_INT8_MIN; o->limit[1] = ZYAN_INT16_MIN; o->limit[2] = ZYAN_INT32_MIN; o->limit[3] = ZYAN_INT64_MIN; o->limit[4] = ZYAN_INT8_MAX; o->limit[5] = ZYAN_INT16_MAX; o->limit[6] = ZYAN_INT32_MAX; o->limit[7] = ZYAN_INT64_MAX;
    o->limit[8] = ZYAN_UINT8_MAX; o->limit[9] = ZYAN_UINT16_MAX; o->limit[10] = ZYAN_UINT32_MAX; o->limit[11] = ZYAN_UINT64_MAX;
    o->logic[0] = ZYAN_FALSE; o->logic[1] = ZYAN_TRUE; o->logic[2] = ZYAN_TERNARY_FALSE; o->logic[3] = ZYAN_TERNARY_UNKNOWN; o->logic[4] = ZYAN_TERNARY_TRUE;
    o->array_length[0] = ZYAN_ARRAY_LENGTH(arr1); o->array_length[1] = ZYAN_ARRAY_LENGTH(arr7); o->array_length[2] = ZYAN_ARRAY_LENGTH(arr300);
    o->field_size[0] = sizeof(struct F8); o->field_size[1] = sizeof(struct F16); o->field_size[2] = sizeof(struct F32); o->field_size[3] = sizeof(struct F64);
    o->field_offset[0] = __builtin_offsetof(struct F8, field); o->field_offset[1] = __builtin_offsetof(struct F16, field); o->field_offset[2] = __builtin_offsetof(struct F32, field); o->field_offset[3] = __builtin_offsetof(struct F64, field);
}
