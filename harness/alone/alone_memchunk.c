#include "memchunk.h"
#include "memchunk.h"
#include "alone.h"
static MEMCHUNK m = MEMCHUNK_INITIALIZER(100);
ALONE(memchunk)
{
    MEMCHUNK m2;
    char* p;
    memchunk_init(&m2, 0);
    WRONG((p = (char*) memchunk_alloc(&m, 60)) != ZERO);
    p[59] = 1;
    WRONG((p = (char*) memchunk_alloc(&m2, MEMCHUNK_DEFAULT_BLOCK_SIZE)) != ZERO);
    p[MEMCHUNK_DEFAULT_BLOCK_SIZE - 1] = 1;
    memchunk_fini(&m); memchunk_fini(&m2);
    memchunk_init(&m, 100);
    return 0;
}
