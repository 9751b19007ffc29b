/* Monitors of C44: each header on its own.
 *
 * Every unit in alone/ includes one header and nothing else, once as C and
 * once as C++. All of them are linked together: what a header defines may not
 * clash with what it defines for another unit.
 */
#include "mon.h"

#define HEADERS(X) \
    X(buffer) X(htable) X(list) X(rbtree) X(value) X(base64) X(hex) X(crc32) X(fnv1a) X(malloca) X(memchunk) X(cmdline) X(defs) X(order)

#define DECL(name)      int alone_c_##name(void); int alone_cpp_##name(void);
#define ENTRY(name)     { #name, alone_c_##name, alone_cpp_##name },
HEADERS(DECL)
static const struct { const char* name; int (*c)(void); int (*cpp)(void); } units[] = { HEADERS(ENTRY) };
#define N_UNITS         (sizeof(units) / sizeof(units[0]))

static void
mode_alone(u64 ep)
{
    u64 i, seq = 0;
    size_t live = mon_heap.live;

    for(i = 0; i < 40 && mon_more(); i++) {
        u64 u = (i == 0) ? ep % N_UNITS : rn(N_UNITS), cpp = (i == 0) ? ep / N_UNITS % 2 : rn(2);
        int r;
        OP("unit %llu, C++ %llu", u, cpp);
        r = cpp ? units[u].cpp() : units[u].c();
        CHECK(r == 0, "alone_%s as %s: wrong on line %d", units[u].name, cpp ? "C++" : "C", r);
        CHECK(mon_heap.live == live, "alone_%s as %s: %zu heap blocks left", units[u].name, cpp ? "C++" : "C", mon_heap.live - live);
        seq = h4(seq, u, cpp, 1);
        EVAL(i == 0 ? h2(u, cpp) : seq);
        if(cpp) EV("units run as C++"); else EV("units run as C");
    }
}

const struct mon_mode mon_modes[] = {
    { "alone", mode_alone },
    { NULL, NULL }
};
