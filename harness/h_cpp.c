/* Monitors of C44: the interfaces used from C++ and from C, in one program.
 *
 * The same workers (workers.h) are compiled as C, here, and as C++, in
 * h_cpp_user.cpp. Three instances of each run side by side: one handled from C
 * only, one from C++ only, and one from both in turns. After every step their
 * digests have to be the same.
 */
#include "mon.h"
#include <sched.h>
#include "workers.h"

extern const KIND* const cpp_kinds;
extern const unsigned cpp_nkinds;
extern void (*const cpp_freea)(void*);
extern const size_t cpp_layout[];
static const size_t c_layout[] = { LAYOUT };

u64 cpp_mix(u64 x) { return mon_mix(x); }
u64 cpp_h2(u64 a, u64 b) { return h2(a, b); }
void* cpp_malloc(size_t n) { return xmalloc(n); }
void cpp_free(void* p) { xfree(p); }

static void
mode_cpp(u64 ep)
{
    static W w[3];
    unsigned k = (unsigned) (ep % NKINDS), i, j, from_cpp;
    unsigned steps = 10 + (unsigned) rn(190);
    u64 seed = rnd();
    size_t live = mon_heap.live;
    const KIND* kk[2] = { &kinds[k], &cpp_kinds[k] };

    CHECK(cpp_nkinds == NKINDS, "harness");
    for(i = 0; i < sizeof(c_layout) / sizeof(c_layout[0]); i++)
        CHECK(c_layout[i] == cpp_layout[i], "the size #%u is %zu in C and %zu in C++", i, c_layout[i], cpp_layout[i]);
    OP("init of kind %llu", k);
    for(i = 0; i < 3; i++) {
        memset(&w[i], 0, sizeof(W));
        w[i].seed = w[i].rng = w[i].dig = seed;
        w[i].kind = kk[(i < 2) ? i : rn(2)];
        w[i].kind->init(&w[i]);
    }
    for(j = 0; j < steps && mon_more(); j++) {
        from_cpp = (unsigned) rn(2);
        OP("step %llu of kind %llu, the third from %llu (0 C, 1 C++)", j, k, from_cpp);
        w[2].freea = rn(2) ? do_freea : cpp_freea;
        for(i = 0; i < 3; i++)
            kk[(i < 2) ? i : from_cpp]->step(&w[i]);
        for(i = 0; i < 3; i++)
            CHECK(w[i].bad == 0, "%s used from %s: wrong answer found at workers.h:%d", kinds[k].name, i == 0 ? "C" : i == 1 ? "C++" : "both", w[i].bad);
        CHECK(w[1].dig == w[0].dig, "%s answers another thing in C++ than in C", kinds[k].name);
        CHECK(w[2].dig == w[0].dig, "%s used from both C and C++ answers another thing than from C", kinds[k].name);
        EVAL(h2(k, w[0].dig));
        if(from_cpp) EV("steps from C++ on what C made or changed"); else EV("steps from C on what C++ made or changed");
    }
    OP("fini of kind %llu", k);
    for(i = 0; i < 3; i++) {
        kk[(i < 2) ? i : rn(2)]->fini(&w[i]);
        CHECK(w[i].bad == 0, "%s: wrong at the end, workers.h:%d", kinds[k].name, w[i].bad);
    }
    CHECK(mon_heap.live == live, "%zu heap blocks left", mon_heap.live - live);
}

const struct mon_mode mon_modes[] = {
    { "cpp", mode_cpp },
    { NULL, NULL }
};
