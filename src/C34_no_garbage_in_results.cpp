// technique: metamorphic property-based testing: the same generated history runs through seven worlds which differ only in what must not matter (uninitialised locals, stack and heap garbage, previous contents of objects and buffers, errno, locale, addresses of blocks and arguments, unrelated objects in use between the calls); statuses, outputs and contents must agree after every call; coverage-guided in thorough
#include "diff.hpp"
#define VARIANT zer_
// locales.hpp: the worlds differ in their locale, too
#define VARIANT_LIBC 1
#define VARIANT_NAME "clang -O1, uninitialised locals are zero"
#include "variant.inc"
#define VARIANT pat_
#define VARIANT_LIBC 1
#define VARIANT_NAME "clang -O1, uninitialised locals are 0xAA"
#include "variant.inc"
#define VARIANT dbg_
#define VARIANT_LIBC 1
#define VARIANT_NAME "gcc -O0"
#include "variant.inc"

PropertyInfo PROPERTY = {"C34", "exploration",
    "A case drives one container (vector, list, string with number formatting, bitset pair) or the argument parser with a random history "
    "of 1 to about 20 calls, valid and invalid, over allocators (with the same injected refusals) or fixed buffers, in seven worlds: "
    "fresh objects, buffers and memory blocks hold different bytes, uninitialised locals and dead stack are zero, 0xAA, 0xFF or 0x01, "
    "errno and locale differ, blocks come from ascending or descending addresses, arguments lie in fresh places or always in the same one, and in three worlds unrelated objects of the library are used "
    "between the calls; after each call status, outputs, size, capacity and all contents are compared with the first world; "
    "non-trivial: at least three calls succeeded",
    400000, 3000000, 4000, 3, 3, {"the garbage is a sample: seven combinations of bytes"}};

// dead stack below the next call
__attribute__((noinline, no_sanitize("address"))) static void scribble(uint8_t g) { volatile uint8_t a[6000]; for (size_t i = 0; i < sizeof a; ++i) a[i] = g; }
static void stack_only(const Api&, uint8_t g) { scribble(g); }
// unrelated objects of the library in use between two calls
static unsigned turn;
static void busy(const Api& A, uint8_t g)
{
    std::string* log = g_dlog; g_dlog = nullptr; size_t es = g_es; unsigned t = turn++; char mem[256], txt[40]; memset(mem, g, sizeof mem); ZyanStringView w, w2; ZyanISize at; ZyanI32 r; void* p;
    snprintf(txt, sizeof txt, "%sBusy%u", t & 1 ? "" : "other ", t); A.ZyanStringViewInsideBuffer(&w, txt); A.ZyanStringViewInsideBuffer(&w2, t & 4 ? "usy" : "nowhere");
    switch (t % 10)
    {
    case 9: { ZyanVector v; unsigned char e = (unsigned char)(t / 3 % 12); ZyanUSize f; A.ZyanVectorInitCustomBuffer(&v, 1, mem, 12, nullptr); for (char i = 0; i < 9; ++i) A.ZyanVectorPushBack(&v, &i); A.ZyanVectorBinarySearch(&v, &e, &f, cmp1); A.ZyanVectorFindEx(&v, &e, &at, eq1, t % 4, t % 7); A.ZyanVectorSwapElements(&v, 1, t % 10); A.ZyanVectorDeleteRange(&v, 2, t % 7); break; }
    case 0: { ZyanVector v; uint64_t e = t; A.ZyanVectorInitCustomBuffer(&v, 8, mem, 8, nullptr); for (unsigned i = 0; i < t % 11; ++i, e *= 7) A.ZyanVectorPushBack(&v, &e); A.ZyanVectorFind(&v, &e, &at, eq1); A.ZyanVectorDelete(&v, t % 5); A.ZyanVectorGet(&v, 99); A.ZyanVectorDestroy(&v); break; }
    case 1: { ZyanVector v; uint16_t e = (uint16_t)t; A.ZyanVectorInit(&v, 2, t % 4, nullptr); for (unsigned i = 0; i < t % 13; ++i, ++e) A.ZyanVectorInsert(&v, 0, &e); A.ZyanVectorEmplace(&v, &p, nullptr); A.ZyanVectorShrinkToFit(&v); A.ZyanVectorDestroy(&v); break; }
    case 2: { ZyanList l; uint32_t e = t; A.ZyanListInit(&l, 4, nullptr); for (unsigned i = 0; i < t % 7; ++i, ++e) i & 1 ? A.ZyanListPushFront(&l, &e) : A.ZyanListPushBack(&l, &e); A.ZyanListPopFront(&l); A.ZyanListResizeEx(&l, 2, &e); A.ZyanListDestroy(&l); break; }
    case 3: { ZyanList l; uint64_t e = t; A.ZyanListInitCustomBuffer(&l, 8, nullptr, mem + (-(uintptr_t)mem & 15), 200); for (unsigned i = 0; i < 12; ++i, ++e) A.ZyanListPushBack(&l, &e); A.ZyanListPopBack(&l); A.ZyanListDestroy(&l); break; }
    case 4: { ZyanString s; A.ZyanStringInit(&s, t % 9); for (unsigned i = 0; i < t % 6; ++i) A.ZyanStringAppend(&s, &w); A.ZyanStringInsert(&s, 1, &w2); A.ZyanStringLPosI(ZYAN_STRING_TO_VIEW(&s), &w2, &at); A.ZyanStringToUpperCase(&s); A.ZyanStringDestroy(&s); break; }
    case 5: { ZyanString s; A.ZyanStringInitCustomBuffer(&s, mem, t % 30); for (unsigned i = 0; i < 4; ++i) A.ZyanStringAppendDecS(&s, (ZyanI64)t * -12345, t % 8, t & 2, nullptr); A.ZyanStringAppendHexU(&s, t * 999ull, 4, t & 4); A.ZyanStringAppendFormat(&s, "%d%s", t, "z"); break; }
    case 6: { ZyanBitset b, c; A.ZyanBitsetInit(&b, t % 40); A.ZyanBitsetInit(&c, t % 40); A.ZyanBitsetFlip(&c); A.ZyanBitsetSet(&b, t % 17); A.ZyanBitsetXOR(&b, &c); for (unsigned i = 0; i < t % 20; ++i) A.ZyanBitsetPush(&b, i & 1); A.ZyanBitsetDestroy(&b); A.ZyanBitsetDestroy(&c); break; }
    case 7: A.ZyanStringCompare(&w, &w2, &r); A.ZyanStringCompareI(&w, &w2, &r); A.ZyanStringRPos(&w, &w2, &at); A.ZyanStringRPosI(&w, &w2, &at); break;
    default: { const char* argv[] = {"busy", "-xv", "5", "rest"}; ZyanArgParseDefinition d[] = {{"-x", ZYAN_TRUE, ZYAN_FALSE}, {"-v", ZYAN_FALSE, (ZyanBool)(t & 1)}, {nullptr, ZYAN_FALSE, ZYAN_FALSE}}; ZyanArgParseConfig c{argv, 4, 0, t % 3, d}; ZyanVector v; const char* e; if (ZYAN_SUCCESS(A.ZyanArgParseEx(&c, &v, &e, A.ZyanAllocatorDefault()))) A.ZyanVectorDestroy(&v); break; }
    }
    g_dlog = log; g_es = es; scribble(g);
}
std::vector<std::pair<const Api*, Env>> World::builds()
{
    turn = 0;
    return {{&native_api(), Env{0xA5, 0xCC, 0, nullptr, false, false, ""}},
        {&native_api(), Env{0x00, 0x00, ERANGE, busy, true, true, ", zeroed memory, descending blocks, arguments in one place, other objects in use"}},
        {&zer_api(), Env{0xFF, 0x00, ENOMEM, stack_only, false, true, ", arguments in one place, memory full of 0xFF"}},
        {&zer_api(), Env{0x41, 0xFF, EINTR, nullptr, true, false, ", memory full of 'A', descending blocks, Turkish locale", 1}},
        {&pat_api(), Env{0x00, 0xFF, 0, busy, false, true, ", arguments in one place, zeroed memory, other objects in use, German locale", 2}},
        {&dbg_api(), Env{0x01, 0x01, EINVAL, stack_only, true, false, ", memory and stack full of 0x01, descending blocks, Turkish locale", 1}},
        {&dbg_api(), Env{0x80, 0xFF, -1, busy, false, false, ", memory full of 0x80, stack full of 0xFF, other objects in use"}}};
}
void run_case(Src& s) { diff_case(s); }
