/* A program which has some of the macros, as system headers do, of the usual meaning. */
#include <stddef.h>

/* (Each notes that it has been used.) */
static int own;

#ifndef PART
    #define PART(x) partly_##x
    #define FIRST_PART
#endif

#ifdef FIRST_PART
    #define MIN(x,y)            (own++, ((x) < (y)) ? (x) : (y))
    #define ABS(x)              (own++, ((x) < 0) ? -(x) : (x))
    #define MAX3(x,y,z)         (own++, (x) > (y) ? ((x) > (z) ? (x) : (z)) : ((y) > (z) ? (y) : (z)))
    #define OFFSETOF(t, m)      (own++, offsetof(t, m))
    #define STRINGIZE(x)        (own++, #x)
#else
    #define MAX(x,y)            (own++, ((x) > (y)) ? (x) : (y))
    #define MIN3(x,y,z)         (own++, (x) < (y) ? ((x) < (z) ? (x) : (z)) : ((y) < (z) ? (y) : (z)))
    #define CLAMP(v,lo,hi)      (own++, (v) < (lo) ? (lo) : (v) > (hi) ? (hi) : (v))
    #define SIZEOF_ARRAY(a)     (own++, sizeof(a) / sizeof(*(a)))
    #define CONTAINEROF(p, t, m) (own++, (t*) ((char*) (p) - offsetof(t, m)))
#endif

#include "defs.h"

struct partly { char x[24]; int y; };

long PART(value)(int i, long a, long b, long c);
int PART(own)(int i);
long PART(expected)(int i, long a, long b, long c);

long
PART(value)(int i, long a, long b, long c)
{
    struct partly p;
    int arr[5];
    long lo = b < c ? b : c, hi = b < c ? c : b;

    switch(i) {
        case 0: return MIN(a, b);
        case 1: return MAX(a, b);
        case 2: return MIN3(a, b, c);
        case 3: return MAX3(a, b, c);
        case 4: return CLAMP(a, lo, hi);
        case 5: return ABS(a);
        case 6: return (long) SIZEOF_ARRAY(arr);
        case 7: return (long) OFFSETOF(struct partly, y);
        case 8: return CONTAINEROF(&p.y, struct partly, y) == &p;
        default: return STRINGIZE(x)[0];
    }
}

long
PART(expected)(int i, long a, long b, long c)
{
    long lo = b < c ? b : c, hi = b < c ? c : b;

    switch(i) {
        case 0: return a < b ? a : b;
        case 1: return a < b ? b : a;
        case 2: return a < lo ? a : lo;
        case 3: return a < hi ? hi : a;
        case 4: return a < lo ? lo : a > hi ? hi : a;
        case 5: return a < 0 ? -a : a;
        case 6: return 5;
        case 7: return 24;
        case 8: return 1;
        default: return 'x';
    }
}

/* Was what the program had defined used for it (or is it none of the program's)? */
int
PART(own)(int i)
{
#ifdef FIRST_PART
    static const char mine[] = "1001010101";
#else
    static const char mine[] = "0110101010";
#endif

    own = 0;
    (void) PART(value)(i, 1, 2, 3);
    return mine[i] == '0' || own > 0;
}
