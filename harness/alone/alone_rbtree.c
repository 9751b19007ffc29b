#include "rbtree.h"
#include "rbtree.h"
#include "alone.h"
typedef struct THING { int k; RBTREE_NODE n; } THING;
static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) { return RBTREE_DATA(a, THING, n)->k - RBTREE_DATA(b, THING, n)->k; }
static RBTREE t = RBTREE_INITIALIZER;
ALONE(rbtree)
{
    RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER;
    RBTREE t2;
    THING a, b;
    a.k = 2; b.k = 1;
    rbtree_init(&t2);
    WRONG(rbtree_is_empty(&t) && rbtree_is_empty(&t2) && rbtree_current(&c) == ZERO);
    WRONG(rbtree_insert(&t, &a.n, cmp) == 0 && rbtree_insert(&t, &b.n, cmp) == 0 && rbtree_insert(&t, &b.n, cmp) != 0);
    WRONG(rbtree_head(&t, &c) == &b.n && rbtree_next(&c) == &a.n && rbtree_next(&c) == ZERO && rbtree_prev(&c) == &b.n);
    WRONG(rbtree_lookup(&t, &a.n, cmp) == &a.n && rbtree_lookup_ex(&t, &a.n, cmp, &c) == &a.n && rbtree_tail(&t, &c) == &a.n);
    WRONG(rbtree_remove(&t, &a.n, cmp) == &a.n && rbtree_fini_step(&t) == &b.n && rbtree_fini_step(&t) == ZERO);
    return 0;
}
