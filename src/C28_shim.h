#pragma once
#include <Zycore/Vector.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
enum { NTYPE = 7, NLIT = 7 };
typedef struct Pair_ { ZyanU8 a; ZyanU32 b; } Pair;
struct TypedOps
{
    const char* name;
    unsigned size[NTYPE];
    /* values travel as the 8 bytes of a ZyanU64 filled from the front */
    ZyanU64 (*get)(int t, const ZyanVector* v, ZyanUSize i);
    ZyanUSize (*walk)(int t, const ZyanVector* v, ZyanU64* out, ZyanUSize stop, unsigned skip); /* leaves after `stop` visits, continues on every skip-th */
    ZyanUSize (*modify)(int t, ZyanVector* v, ZyanU64 add, ZyanUSize stop);
    ZyanUSize (*nested)(int t, ZyanVector* v, ZyanVector* w, ZyanU64* out);                   /* pairs of equal elements; copies into the first */
    ZyanUSize (*selected)(int t, ZyanVector* v, ZyanVector* w, int second, ZyanU64* out);      /* the vector argument is an expression */
    ZyanUSize (*list)(int t, const ZyanList* l, ZyanU64* out, ZyanUSize max);
    int (*blank_vector)(ZyanVector* v); int (*blank_list)(ZyanList* l); int (*blank_string)(ZyanString* s); /* 0: not usable in this language */
    int (*literal)(int k, ZyanStringView* v, const char** text, ZyanUSize* n);
    const ZyanStringView* (*cast)(int k, ZyanString* s);
};
