/* Plain use only: if this compiles and h_mem.c does not, a macro is not usable in some legitimate context. */
#include "memchunk.h"
#include "malloca.h"
int
main(int argc, char** argv)
{
    MEMCHUNK c;
    MEMCHUNK c2 = MEMCHUNK_INITIALIZER(0);
    void* p = MALLOCA(10);
    FREEA(p);
    p = MALLOCA_(10, 100);
    FREEA(p);
    memchunk_init(&c, 0);
    p = memchunk_alloc(&c, 10);
    memchunk_fini(&c);
    memchunk_fini(&c2);
    return 0;
}
