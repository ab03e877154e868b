// Declares the API of a renamed library build. VARIANT is its symbol prefix, VARIANT_LIBC says whether it has the libc part.
#define VCAT_(a, b) a##b
#define VCAT(a, b) VCAT_(a, b)
extern "C" {
#define X(f) extern decltype(::f) VCAT(VARIANT, f);
ZY_API_CORE(X)
#if VARIANT_LIBC
ZY_API_LIBC(X)
#endif
#undef X
}
inline const Api& VCAT(VARIANT, api)()
{
    static const Api a = {
#define X(f) &VCAT(VARIANT, f),
        ZY_API_CORE(X)
#undef X
#if VARIANT_LIBC
#define X(f) &VCAT(VARIANT, f),
#else
#define X(f) nullptr,
#endif
        ZY_API_LIBC(X)
#undef X
        VARIANT_NAME};
    return a;
}
#undef VARIANT
#undef VARIANT_LIBC
#undef VARIANT_NAME
#undef VCAT
#undef VCAT_
