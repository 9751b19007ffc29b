/* Monitors of misc/defs.h: C35. */
#include "defs.h"       /* first, with no offsetof() known */
#ifdef offsetof
    #define HAD_OFFSETOF 1
#endif

/* Take what the system headers may want to define for themselves. */
#include "mon.h"

static int
geni(void)
{
    static const int t[] = { 0, 1, -1, 2, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1, 127, 128, -128, 255, 256, 32767, -32768, 65535 };
    return (rn(3) == 0) ? (int) rnd() : (rn(2)) ? t[rn(16)] : (int) rn(21) - 10;
}

static long long
genll(void)
{
    static const long long t[] = { 0, 1, -1, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1, 4294967296LL, -4294967296LL, 2147483648LL, -2147483649LL, 4294967295LL };
    return (rn(3) == 0) ? (long long) rnd() : (rn(2)) ? t[rn(12)] : (long long) rn(21) - 10;
}

static double
gend(void)
{
    static const double t[] = { 0, 0.5, -0.5, 1, -1, 1e30, -1e30, 1e-30, 0.25, 3.75, -3.75, 16777216 };
    return (rn(3) == 0) ? ((double) (int) rnd()) / 1024 : t[rn(12)];
}

#define SALT    100
#define FN(x)   first_##x
#include "defs_body.h"
#undef FN
#undef SALT

/* Once more with offsetof() known before. */
#undef CRE_DEFS_H
#undef MIN
#undef MAX
#undef MIN3
#undef MAX3
#undef CLAMP
#undef ABS
#undef SIZEOF_ARRAY
#undef OFFSETOF
#undef CONTAINEROF
#undef STRINGIZE
#undef STRINGIZE_HELPER__
#ifndef offsetof
    #error "offsetof"
#endif
#include "defs.h"

/* (Unless the header knows by other means that it has been included.) */
#ifdef MIN
    #define SALT    200
    #define FN(x)   second_##x
    #include "defs_body.h"
#else
    static void second_all(void) { }
#endif

/* In defs_kept.c, which has its own macros of these names. */
int kept_count(void);
const char* kept_name(int i);
long kept_value(int i, long a, long b, long c);
long kept_expected(int i, long a, long b, long c);
/* In defs_partly.c and defs_partly2.c, which have some of them, of the usual meaning. */
long partly_value(int i, long a, long b, long c);
long partly_expected(int i, long a, long b, long c);
int partly_own(int i);
long partly2_value(int i, long a, long b, long c);
long partly2_expected(int i, long a, long b, long c);
int partly2_own(int i);

static void
kept_all(void)
{
    int i, n = kept_count();
    long a = (long) rn(2001) - 1000, b = (long) rn(2001) - 1000, c = (long) rn(2001) - 1000;

    for(i = 0; i < n; i++) {
        OP("own %s of %ld %ld %ld", kept_name(i), a, b, c);
        CHECK(kept_value(i, a, b, c) == kept_expected(i, a, b, c), "a macro which the program had defined was not left as it was");
        CHECK(partly_value(i, a, b, c) == partly_expected(i, a, b, c), "next to macros of the program's own");
        CHECK(partly2_value(i, a, b, c) == partly2_expected(i, a, b, c), "next to macros of the program's own");
        CHECK(partly_own(i) && partly2_own(i), "one of the macros which the program had defined was not left as it was");
    }
}

static void
mode_macros(u64 ep)
{
    (void) ep;
    first_all();
    second_all();
    kept_all();
}

const struct mon_mode mon_modes[] = {
    { "macros", mode_macros },
    { NULL, NULL }
};
