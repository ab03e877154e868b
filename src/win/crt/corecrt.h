/* Minimal stand-ins for the C runtime's headers, for compiling only. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
#define CRT_BEGIN extern "C" {
#define CRT_END }
#else
#define CRT_BEGIN
#define CRT_END
#endif
