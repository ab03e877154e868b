#pragma once
#include "corecrt.h"
#include <stdarg.h>
CRT_BEGIN
typedef struct _iobuf { void* _Placeholder; } FILE; FILE* __acrt_iob_func(unsigned);
#define stdin (__acrt_iob_func(0))
#define stdout (__acrt_iob_func(1))
#define stderr (__acrt_iob_func(2))
int fputs(const char*, FILE*); int puts(const char*); int putchar(int); int scanf(const char*, ...); int sscanf(const char*, const char*, ...); int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int snprintf(char*, size_t, const char*, ...); int vsnprintf(char*, size_t, const char*, va_list); int vfprintf(FILE*, const char*, va_list); int fflush(FILE*); int _fileno(FILE*);
CRT_END
