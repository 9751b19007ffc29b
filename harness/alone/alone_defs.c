#include "defs.h"
#include "defs.h"
#include "alone.h"
typedef struct THING { char c; int k[3]; } THING;
ALONE(defs)
{
    THING t;
    const char* s = STRINGIZE(1.2);
    WRONG(MIN(1, 2) == 1 && MAX(1, 2) == 2 && MIN3(3, 1, 2) == 1 && MAX3(1, 3, 2) == 3 && CLAMP(9, 1, 5) == 5 && ABS(-4) == 4);
    WRONG(SIZEOF_ARRAY(t.k) == 3 && OFFSETOF(THING, k) == sizeof(int) && CONTAINEROF(&t.k, THING, k) == &t && s[2] == '2');
    return 0;
}
