#include "corecrt.h"
CRT_BEGIN
void _wassert(const unsigned short*, const unsigned short*, unsigned); void standin_assert(const char*, const char*, unsigned);
CRT_END
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((void)((!!(e)) || (standin_assert(#e, __FILE__, __LINE__), 0)))
#endif
#if !defined(__cplusplus) && !defined(static_assert)
#define static_assert _Static_assert
#endif
