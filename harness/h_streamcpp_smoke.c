/* Does it compile and link in C? (If so, and not so from C++, it is C++ which is broken.) */
#include "memstream.h"
#include "streamcpp_iids.h"
#include "streamcpp_c.c"
int
main(void)
{
    void* s;
    unsigned char d[4] = { 1, 2, 3, 4 };
    side_c.create(d, 4, &s);
    side_c.release(s);
    side_c.create_res(1, 2, 3, &s);
    return 0;
}
