#pragma once
/* no header of the C library: the builds without one include this as well */
#ifdef __LP64__
typedef unsigned long u64_; typedef long i64_; typedef unsigned int u32_;
typedef __int128 SW; /* holds every result, whatever its type and sign */
#else
typedef unsigned long long u64_; typedef long long i64_; typedef unsigned int u32_;
typedef long double SW;
#endif
enum { NT = 12, NA = 4, NS = 19 };
struct MacroOps
{
    const char* name;
    /* per type: U8 U16 U32 U64 I8 I16 I32 I64 USize ISize UPointer IPointer */
    unsigned size[NT]; int sign[NT];
    SW (*min)(int t, u64_ a, u64_ b); SW (*max)(int t, u64_ a, u64_ b); SW (*abs)(int t, u64_ a); int (*pow2)(int t, u64_ a);
    SW (*up)(int t, int at, u64_ x, u64_ al); SW (*down)(int t, int at, u64_ x, u64_ al); int (*aligned)(int t, int at, u64_ x, u64_ al);
    int (*needs)(int t, u64_ n, unsigned b); unsigned (*bits)(int t, u64_ n); u64_ (*div64)(u64_ n, u64_ d);
    /* the same with operands that are expressions of low precedence */
    SW (*xmin)(int sel, i64_ a, i64_ b); SW (*xmax)(int sel, i64_ a, i64_ b); SW (*xabs)(int sel, i64_ a, i64_ b); SW (*xup)(int sel, i64_ a, i64_ b); SW (*xdown)(int sel, i64_ a, i64_ b); int (*xaligned)(int sel, i64_ a, i64_ b); int (*xpow2)(int sel, i64_ a, i64_ b); unsigned (*xbits)(int sel, i64_ a, i64_ b); int (*xneeds)(int sel, i64_ a, i64_ b);
    u64_ (*xversion)(int sel, u64_ a, u64_ b, int part); u64_ (*xstatus)(int sel, u32_ a, u32_ b, int part);
    u32_ (*make)(u32_ e, u32_ m, u32_ c); u32_ (*module)(u32_ s); u32_ (*code)(u32_ s); int (*success)(u32_ s); int (*failed)(u32_ s); u32_ (*check)(u32_ s, u32_* evaluations, int* passed);
    u32_ status[NS]; u32_ module_id[3];
    u64_ version; u64_ (*part)(u64_ v, int part);
    int (*equals)(int t, const void* a, const void* b);    /* pointer bool 8 16 32 64; signed 8 16 32 64; field 8..64 */
    int (*compare)(int t, const void* a, const void* b);
    SW limit[12]; int logic[5]; unsigned array_length[3];
    unsigned field_size[4], field_offset[4];
};
