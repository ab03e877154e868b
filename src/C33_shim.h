#pragma once
#include <stdint.h>
/* One step of a program: wait until the token has a value, access plain data, hand the token on. */
struct Step { int thread; uint64_t wait, probe, next; int pass; int n; struct { unsigned cell; int write; uint64_t value; } acc[6]; };
struct Relay { void* token; uint64_t* data; const struct Step* steps; int nsteps; volatile int bad; };
struct Gather { void* counter; uint64_t* data; int threads, down; uint64_t start; unsigned rounds; volatile int bad; };
struct Lock { void* lock; uint64_t* data; int cells, release; unsigned n; };
struct PubOps
{
    void (*relay[3])(struct Relay*, int thread);
    void (*gather[3])(struct Gather*, int thread);
    void (*lock[3])(struct Lock*, int thread);
};
