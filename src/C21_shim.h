#pragma once
#include <stdint.h>
struct AtomicOps
{
    uint64_t (*cas[6])(void*, uint64_t, uint64_t); /* 32, 64, pointer; then the same through the macros */
    uint64_t (*inc[6])(void*);
    uint64_t (*dec[6])(void*);
    uint64_t (*loop_inc[3])(void*, uint64_t n, uint64_t* results);
    uint64_t (*loop_dec[3])(void*, uint64_t n, uint64_t* results);
    uint64_t (*loop_cas[3])(void*, uint64_t n, uint64_t add); /* n successful compare-exchange updates */
};
