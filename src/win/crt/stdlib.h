#pragma once
#include "corecrt.h"
CRT_BEGIN
void* calloc(size_t, size_t); void free(void*); void* malloc(size_t); void* realloc(void*, size_t); __declspec(noreturn) void abort(void); __declspec(noreturn) void exit(int);
CRT_END
