/* A program which has macros of these names already: it keeps them. */
#include <stddef.h>

/* Not the usual meaning, so that it shows. */
#define MIN(a,b)                ((a) + 2 * (b) + 1)
#define MAX(a,b)                ((a) + 2 * (b) + 2)
#define MIN3(a,b,c)             ((a) + 2 * (b) + 3 * (c) + 3)
#define MAX3(a,b,c)             ((a) + 2 * (b) + 3 * (c) + 4)
#define CLAMP(v,lo,hi)          ((v) + 2 * (lo) + 3 * (hi) + 5)
#define ABS(a)                  ((a) + 6)
#define SIZEOF_ARRAY(a)         (sizeof(a) + 7)
#define OFFSETOF(t, m)          (offsetof(t, m) + 8)
#define CONTAINEROF(p, t, m)    ((t*) ((char*) (p) + 9))
#define STRINGIZE(a)            "own" #a

#include "defs.h"

struct kept { char x[24]; int y; };

int kept_count(void);
const char* kept_name(int i);
long kept_value(int i, long a, long b, long c);
long kept_expected(int i, long a, long b, long c);

int
kept_count(void)
{
    return 10;
}

const char*
kept_name(int i)
{
    static const char* const names[] = {
        "MIN", "MAX", "MIN3", "MAX3", "CLAMP", "ABS", "SIZEOF_ARRAY", "OFFSETOF", "CONTAINEROF", "STRINGIZE"
    };
    return names[i];
}

long
kept_value(int i, long a, long b, long c)
{
    char room[64];
    int arr[5];

    switch(i) {
        case 0: return MIN(a, b);
        case 1: return MAX(a, b);
        case 2: return MIN3(a, b, c);
        case 3: return MAX3(a, b, c);
        case 4: return CLAMP(a, b, c);
        case 5: return ABS(a);
        case 6: return (long) SIZEOF_ARRAY(arr);
        case 7: return (long) OFFSETOF(struct kept, y);
        case 8: return (long) ((char*) CONTAINEROF(room, char, none) - room);
        default: return STRINGIZE(x)[0];
    }
}

long
kept_expected(int i, long a, long b, long c)
{
    switch(i) {
        case 0: return a + 2 * b + 1;
        case 1: return a + 2 * b + 2;
        case 2: return a + 2 * b + 3 * c + 3;
        case 3: return a + 2 * b + 3 * c + 4;
        case 4: return a + 2 * b + 3 * c + 5;
        case 5: return a + 6;
        case 6: return (long) (5 * sizeof(int) + 7);
        case 7: return 24 + 8;
        case 8: return 9;
        default: return 'o';
    }
}
