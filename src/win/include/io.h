/* A minimal stand-in for <io.h>. */
#ifndef STANDIN_IO_H
#define STANDIN_IO_H
#ifdef __cplusplus
extern "C" {
#endif
int _isatty(int);
__INTPTR_TYPE__ _get_osfhandle(int);
#ifdef SIM_WINDOWS
#include <stdio.h>
int _fileno(FILE*);
#endif
#ifdef __cplusplus
}
#endif
#endif
