/* The workers compiled as C++; see h_cpp.c. */
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" {
u64 cpp_mix(u64 x);
u64 cpp_h2(u64 a, u64 b);
void* cpp_malloc(size_t n);
void cpp_free(void* p);
}
#define mon_mix     cpp_mix
#define h2          cpp_h2
#define xmalloc     cpp_malloc
#define xfree       cpp_free

#include "workers.h"

extern "C" {
extern const KIND* const cpp_kinds;
extern const unsigned cpp_nkinds;
extern void (*const cpp_freea)(void*);
extern const size_t cpp_layout[];
const KIND* const cpp_kinds = kinds;
const unsigned cpp_nkinds = NKINDS;
void (*const cpp_freea)(void*) = do_freea;
const size_t cpp_layout[] = { LAYOUT };
}
