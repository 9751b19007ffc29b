/* Plain use only: if this compiles and h_defs.c does not, a macro is not usable in some legitimate context. */
#include "defs.h"
struct s { int a; int b; };
int
main(int argc, char** argv)
{
    int arr[3];
    struct s x;
    struct s* p;
    int r;
    p = CONTAINEROF(&x.b, struct s, b);
    r = MIN(argc, 1);
    r = MAX(argc, 1);
    r = MIN3(argc, 1, 2);
    r = MAX3(argc, 1, 2);
    r = CLAMP(argc, 1, 2);
    r = ABS(argc);
    return (int) SIZEOF_ARRAY(arr) == 3 && p == &x && (int) OFFSETOF(struct s, b) == 4 && STRINGIZE(x)[0] == 'x' && r > 0 ? 0 : 1;
}
