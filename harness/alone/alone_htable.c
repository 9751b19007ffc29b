#include "htable.h"
#include "htable.h"
#include "alone.h"
typedef struct THING { int k; HTABLE_NODE n; } THING;
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, THING, n)->k != HTABLE_DATA(b, THING, n)->k; }
static uint32_t hash(const HTABLE_NODE* a) { return (uint32_t) HTABLE_DATA(a, THING, n)->k; }
static int count;
static void dtor(HTABLE_NODE* a) { count += HTABLE_DATA(a, THING, n)->k; }
static HTABLE t = HTABLE_INITIALIZER;
ALONE(htable)
{
    HTABLE t2;
    THING a, b;
    a.k = 5; b.k = 6;
    count = 0;
    WRONG(htable_is_empty(&t) && htable_insert(&t, &a.n, cmp, hash) == 0 && htable_insert(&t, &a.n, cmp, hash) != 0);
    htable_init(&t2);
    WRONG(htable_insert_unsafe(&t2, &b.n, cmp, hash) == 0 && htable_lookup(&t2, &b.n, cmp, hash) == &b.n);
    WRONG(htable_lookup(&t, &b.n, cmp, hash) == ZERO && htable_remove(&t2, &b.n, cmp, hash) == &b.n);
    htable_fini(&t, dtor); htable_fini(&t2, dtor);
    WRONG(count == 5);
    return 0;
}
