/* A stand-in for the kernel's <asm/div64.h>: do_div(n, base) divides the 64-bit variable n by the 32-bit base and yields the remainder. */
#ifndef STANDIN_DIV64_H
#define STANDIN_DIV64_H
#define do_div(n, base) __extension__({ unsigned int do_div_base = (base); unsigned int do_div_rem; typedef char do_div_64[sizeof(n) == 8 ? 1 : -1] __attribute__((unused)); do_div_rem = (unsigned int)((unsigned long long)(n) % do_div_base); (n) = (unsigned long long)(n) / do_div_base; do_div_rem; })
#endif
