#include "list.h"
#include "list.h"
#include "alone.h"
typedef struct THING { int k; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; } THING;
ALONE(list)
{
    LIST l; SLIST s; QLIST q;
    THING a, b;
    list_init(&l); slist_init(&s); qlist_init(&q);
    a.k = 1; b.k = 2;
    WRONG(list_is_empty(&l) && slist_is_empty(&s) && qlist_is_empty(&q));
    list_append(&l, &a.l); list_prepend(&l, &b.l);
    WRONG(LIST_DATA(list_head(&l), THING, l)->k == 2 && list_next(list_head(&l)) == &a.l && list_next(&a.l) == list_end(&l) &&
          list_prev(&a.l) == &b.l && list_tail(&l) == &a.l);
    list_remove_head(&l); list_remove(&l, &a.l);
    slist_prepend(&s, &a.s); slist_insert_after(&s, &a.s, &b.s);
    WRONG(SLIST_DATA(slist_next(slist_head(&s)), THING, s)->k == 2 && slist_next(&b.s) == slist_end(&s));
    slist_remove_head(&s); slist_remove_head(&s);
    qlist_append(&q, &a.q); qlist_append(&q, &b.q);
    WRONG(QLIST_DATA(qlist_tail(&q), THING, q)->k == 2 && qlist_head(&q) == &a.q && qlist_next(&b.q) == qlist_end(&q));
    qlist_remove(&q, &a.q, &b.q); qlist_remove_head(&q);
    WRONG(list_is_empty(&l) && slist_is_empty(&s) && qlist_is_empty(&q));
    return 0;
}
