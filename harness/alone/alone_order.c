/* All of them, in another order than elsewhere. */
#include "value.h"
#include "rbtree.h"
#include "memchunk.h"
#include "malloca.h"
#include "list.h"
#include "htable.h"
#include "hex.h"
#include "fnv1a.h"
#include "defs.h"
#include "crc32.h"
#include "cmdline.h"
#include "buffer.h"
#include "base64.h"
#include "alone.h"
typedef struct THING { LIST_NODE l; HTABLE_NODE h; RBTREE_NODE r; BUFFER b; VALUE v; int tail; } THING;
ALONE(order)
{
    static THING t;
    WRONG(LIST_DATA(&t.l, THING, l) == &t && HTABLE_DATA(&t.h, THING, h) == &t && RBTREE_DATA(&t.r, THING, r) == &t);
    WRONG(CONTAINEROF(&t.b, THING, b) == &t && OFFSETOF(THING, tail) >= OFFSETOF(THING, v) + sizeof(VALUE));
    buffer_init(&t.b);
    WRONG(buffer_append(&t.b, "abc", 3) == 0 && crc32(buffer_const_data(&t.b), buffer_size(&t.b)) == 0x352441c2u);
    buffer_fini(&t.b);
    return 0;
}
