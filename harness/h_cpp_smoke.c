/* Does all of it compile and link in C? (If so, and not so from C++, it is C++ which is broken.) */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
static u64 mon_mix(u64 x) { return x * 0x9e3779b97f4a7c15ULL ^ (x >> 31); }
static u64 h2(u64 a, u64 b) { return mon_mix(a ^ mon_mix(b)); }
#define xmalloc malloc
#define xfree   free
#include "workers.h"
int
main(int argc, char** argv)
{
    W* w = calloc(1, sizeof(W));
    size_t i, k;
    const size_t layout[] = { LAYOUT };
    for(i = 0; i < NKINDS; i++) {
        w->kind = &kinds[i];
        w->kind->init(w);
        for(k = 0; k < layout[0]; k++)
            run_step(w);
        w->kind->fini(w);
        memset(w, 0, sizeof(*w));
    }
    free(w);
    return 0;
}
