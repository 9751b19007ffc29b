/* Monitors of data/list.h: C12 (LIST), C13 (SLIST, QLIST). */
#include "mon.h"
#include "list.h"

#define NLISTS      3
#define MAXN        64

typedef struct ITEM {
    u32 magic;
    u32 id;
    union {
        LIST_NODE d;
        SLIST_NODE s;
        QLIST_NODE q;
    } node;
    u64 tail_guard;
} ITEM;

#define MAGIC   0x115f0001u
#define GUARD   0x1122334455667788ULL

typedef struct MODEL {
    ITEM* seq[MAXN];
    size_t n;
} MODEL;

static MODEL model[NLISTS];
static u32 next_id;

static ITEM*
item_new(void)
{
    ITEM* it = xmalloc(sizeof(ITEM));
    memset(it, 0x5a, sizeof(*it));
    it->magic = MAGIC;
    it->id = next_id++;
    it->tail_guard = GUARD;
    return it;
}

static void
item_check(ITEM* it)
{
    CHECK(it->magic == MAGIC && it->tail_guard == GUARD, "data around the node damaged");
}

static void
item_done(ITEM* it)
{
    item_check(it);
    memset(it, 0xdd, sizeof(*it));
    xfree(it);
}

static void
m_ins(MODEL* m, size_t pos, ITEM* it)
{
    memmove(m->seq + pos + 1, m->seq + pos, (m->n - pos) * sizeof(ITEM*));
    m->seq[pos] = it;
    m->n++;
}

static ITEM*
m_del(MODEL* m, size_t pos)
{
    ITEM* it = m->seq[pos];
    m->n--;
    memmove(m->seq + pos, m->seq + pos + 1, (m->n - pos) * sizeof(ITEM*));
    return it;
}

static u64
m_hash(int tag, const MODEL* m, int op, size_t pos)
{
    return h4((u64) tag, m->n, (u64) op, pos);
}

/* ---------------------------------------------------------------------- */
/* LIST */

static void
verify_list(const LIST* l, const MODEL* m)
{
    const LIST_NODE* n;
    size_t i;

    CHECK((list_is_empty(l) != 0) == (m->n == 0), "is_empty() is wrong for %zu nodes", m->n);
    for(i = 0, n = list_head(l); n != list_end(l); n = list_next(n), i++) {
        CHECK(i < m->n, "forward walk visits more than %zu nodes", m->n);
        CHECK(n == &m->seq[i]->node.d, "forward walk visits a wrong node at position %zu of %zu", i, m->n);
        CHECK(LIST_DATA(n, ITEM, node.d) == m->seq[i], "LIST_DATA() gives a wrong pointer");
        item_check(m->seq[i]);
    }
    CHECK(i == m->n, "forward walk visits %zu of %zu nodes", i, m->n);
    for(i = m->n, n = list_tail(l); n != list_end(l); n = list_prev(n), i--) {
        CHECK(i > 0, "backward walk visits more than %zu nodes", m->n);
        CHECK(n == &m->seq[i - 1]->node.d, "backward walk visits a wrong node at position %zu of %zu", i - 1, m->n);
    }
    CHECK(i == 0, "backward walk misses %zu of %zu nodes", i, m->n);
    if(m->n > 0) {
        CHECK(list_head(l) == &m->seq[0]->node.d, "wrong head");
        CHECK(list_tail(l) == &m->seq[m->n - 1]->node.d, "wrong tail");
    }
    EV("forward and backward walks compared");
}

static void
mode_list(u64 ep)
{
    LIST l[NLISTS];
    int i, k, op, nops = (ep % 3 == 0) ? 40 : 250;
    size_t cap = (ep % 2) ? 5 : 40;

    memset(model, 0, sizeof(model));
    for(k = 0; k < NLISTS; k++) {
        memset(&l[k], 0xcc, sizeof(LIST));
        list_init(&l[k]);
        verify_list(&l[k], &model[k]);
    }
    for(op = 0; op < nops && mon_more(); op++) {
        MODEL* m;
        LIST* L;
        ITEM* it;
        size_t pos = 0;
        int what;

        k = (int) rn(NLISTS);
        m = &model[k];
        L = &l[k];
        what = (int) rn(13);
        if(what < 6 && m->n >= cap) what = 6 + (int) rn(3);
        if(what >= 1 && what <= 3 && m->n == 0) what = 0;
        if(what >= 6 && what <= 9 && m->n == 0) what = 5;
        if(m->n > 0) pos = rn(m->n);
        OP("list %llu op %llu pos %llu (n=%llu)", k, what, pos, m->n);
        EVAL(m_hash(1, m, what, pos));
        switch(what) {
        case 0: it = item_new(); list_append(L, &it->node.d); m_ins(m, m->n, it); EV("append"); break;
        case 1: case 2:
            it = item_new(); list_insert_after(L, &m->seq[pos]->node.d, &it->node.d); m_ins(m, pos + 1, it); EV("insert_after"); break;
        case 3:
            it = item_new(); list_insert_before(L, &m->seq[pos]->node.d, &it->node.d); m_ins(m, pos, it); EV("insert_before"); break;
        case 4:
            /* Insert at the position of the end. */
            it = item_new(); list_insert_before(L, (LIST_NODE*) list_end(L), &it->node.d); m_ins(m, m->n, it); EV("insert_before the end"); break;
        case 5: it = item_new(); list_prepend(L, &it->node.d); m_ins(m, 0, it); EV("prepend"); break;
        case 6: list_remove_head(L); item_done(m_del(m, 0)); EV("remove_head"); break;
        case 7: list_remove_tail(L); item_done(m_del(m, m->n - 1)); EV("remove_tail"); break;
        case 8: case 9: list_remove(L, &m->seq[pos]->node.d); item_done(m_del(m, pos)); EV("remove"); break;
        case 10:
            /* Move a node to another list (or another place in the same one). */
            if(m->n > 0) {
                int j = (int) rn(NLISTS);
                if(model[j].n < cap) {
                    size_t at;
                    list_remove(L, &m->seq[pos]->node.d);
                    it = m_del(m, pos);
                    at = rn(model[j].n + 1);
                    if(at == model[j].n) list_append(&l[j], &it->node.d);
                    else list_insert_before(&l[j], &model[j].seq[at]->node.d, &it->node.d);
                    m_ins(&model[j], at, it);
                    verify_list(&l[j], &model[j]);
                    EV("moved between lists");
                }
            }
            break;
        case 11:
            {
                /* Iterate forward, removing (and freeing) some nodes on the way. */
                LIST_NODE* n;
                LIST_NODE* next;
                size_t x = 0;
                for(n = list_head(L); n != list_end(L); n = next) {
                    next = list_next(n);
                    CHECK(x < m->n && n == &m->seq[x]->node.d, "the removing walk visits a wrong node");
                    if(rn(3) == 0) { list_remove(L, n); item_done(m_del(m, x)); EV("removed during a walk"); }
                    else x++;
                }
                CHECK(x == m->n, "the removing walk ended early");
            }
            break;
        default:
            if(rn(3) == 0) {
                /* Backward, removing all. */
                LIST_NODE* n;
                LIST_NODE* prev;
                for(n = list_tail(L); n != list_end(L); n = prev) {
                    prev = list_prev(n);
                    CHECK(m->n > 0 && n == &m->seq[m->n - 1]->node.d, "the removing walk visits a wrong node");
                    list_remove(L, n);
                    item_done(m_del(m, m->n - 1));
                }
                CHECK(m->n == 0, "the removing walk ended early");
                EV("emptied during a backward walk");
            }
            break;
        }
        for(i = 0; i < NLISTS; i++)
            verify_list(&l[i], &model[i]);
    }
    for(k = 0; k < NLISTS; k++) {
        while(!list_is_empty(&l[k])) {
            CHECK(model[k].n > 0, "the list is not empty when it should be");
            list_remove_head(&l[k]);
            item_done(m_del(&model[k], 0));
        }
        CHECK(model[k].n == 0, "the list got empty too early");
    }
}

/* ---------------------------------------------------------------------- */
/* SLIST */

static void
verify_slist(const SLIST* l, const MODEL* m)
{
    const SLIST_NODE* n;
    size_t i;

    CHECK((slist_is_empty(l) != 0) == (m->n == 0), "is_empty() is wrong for %zu nodes", m->n);
    for(i = 0, n = slist_head(l); n != slist_end(l); n = slist_next(n), i++) {
        CHECK(i < m->n, "walk visits more than %zu nodes", m->n);
        CHECK(n == &m->seq[i]->node.s, "walk visits a wrong node at position %zu of %zu", i, m->n);
        CHECK(SLIST_DATA(n, ITEM, node.s) == m->seq[i], "SLIST_DATA() gives a wrong pointer");
        item_check(m->seq[i]);
    }
    CHECK(i == m->n, "walk visits %zu of %zu nodes", i, m->n);
    EV("walks compared");
}

static void
mode_slist(u64 ep)
{
    SLIST l[NLISTS];
    int k, op, nops = (ep % 3 == 0) ? 40 : 250;
    size_t cap = (ep % 2) ? 5 : 40;

    memset(model, 0, sizeof(model));
    for(k = 0; k < NLISTS; k++) {
        memset(&l[k], 0xcc, sizeof(SLIST));
        slist_init(&l[k]);
        verify_slist(&l[k], &model[k]);
    }
    for(op = 0; op < nops && mon_more(); op++) {
        MODEL* m;
        SLIST* L;
        ITEM* it;
        size_t pos = 0;
        int what;

        k = (int) rn(NLISTS);
        m = &model[k];
        L = &l[k];
        what = (int) rn(8);
        if(what < 4 && m->n >= cap) what = 4 + (int) rn(2);
        if(what == 2 && m->n == 0) what = 0;
        if(what >= 4 && m->n == 0) what = 0;
        if(m->n > 0) pos = rn(m->n);
        OP("slist %llu op %llu pos %llu (n=%llu)", k, what, pos, m->n);
        EVAL(m_hash(2, m, what, pos));
        switch(what) {
        case 0: case 1: it = item_new(); slist_prepend(L, &it->node.s); m_ins(m, 0, it); EV("slist prepend"); break;
        case 2: case 3:
            if(m->n == 0) break;
            it = item_new(); slist_insert_after(L, &m->seq[pos]->node.s, &it->node.s); m_ins(m, pos + 1, it); EV("slist insert_after"); break;
        case 4: slist_remove_head(L); item_done(m_del(m, 0)); EV("slist remove_head"); break;
        case 5: case 6:
            slist_remove(L, pos > 0 ? &m->seq[pos - 1]->node.s : (SLIST_NODE*) slist_end(L), &m->seq[pos]->node.s);
            item_done(m_del(m, pos)); EV("slist remove"); break;
        default:
            {
                /* A walk removing some nodes. */
                SLIST_NODE* prev = (SLIST_NODE*) slist_end(L);
                SLIST_NODE* n = slist_head(L);
                size_t x = 0;
                while(n != slist_end(L)) {
                    SLIST_NODE* next = slist_next(n);
                    CHECK(x < m->n && n == &m->seq[x]->node.s, "the removing walk visits a wrong node");
                    if(rn(3) == 0) { slist_remove(L, prev, n); item_done(m_del(m, x)); EV("slist removed during a walk"); }
                    else { x++; prev = n; }
                    n = next;
                }
            }
            break;
        }
        verify_slist(L, m);
    }
    for(k = 0; k < NLISTS; k++) {
        while(!slist_is_empty(&l[k])) {
            CHECK(model[k].n > 0, "the list is not empty when it should be");
            slist_remove_head(&l[k]);
            item_done(m_del(&model[k], 0));
        }
        CHECK(model[k].n == 0, "the list got empty too early");
    }
}

/* ---------------------------------------------------------------------- */
/* QLIST */

static void
verify_qlist(const QLIST* l, const MODEL* m)
{
    const QLIST_NODE* n;
    size_t i;

    CHECK((qlist_is_empty(l) != 0) == (m->n == 0), "is_empty() is wrong for %zu nodes", m->n);
    for(i = 0, n = qlist_head(l); n != qlist_end(l); n = qlist_next(n), i++) {
        CHECK(i < m->n, "walk visits more than %zu nodes", m->n);
        CHECK(n == &m->seq[i]->node.q, "walk visits a wrong node at position %zu of %zu", i, m->n);
        CHECK(QLIST_DATA(n, ITEM, node.q) == m->seq[i], "QLIST_DATA() gives a wrong pointer");
        item_check(m->seq[i]);
    }
    CHECK(i == m->n, "walk visits %zu of %zu nodes", i, m->n);
    if(m->n > 0)
        CHECK(qlist_tail(l) == &m->seq[m->n - 1]->node.q, "wrong tail of %zu nodes", m->n);
    else
        CHECK(qlist_tail(l) == qlist_end(l), "tail of an empty list is not its end");
    EV("walks and tail compared");
}

static void
mode_qlist(u64 ep)
{
    QLIST l[NLISTS];
    int k, op, nops = (ep % 3 == 0) ? 40 : 250;
    size_t cap = (ep % 2) ? 4 : 40;

    memset(model, 0, sizeof(model));
    for(k = 0; k < NLISTS; k++) {
        memset(&l[k], 0xcc, sizeof(QLIST));
        qlist_init(&l[k]);
        verify_qlist(&l[k], &model[k]);
    }
    for(op = 0; op < nops && mon_more(); op++) {
        MODEL* m;
        QLIST* L;
        ITEM* it;
        size_t pos = 0;
        int what;

        k = (int) rn(NLISTS);
        m = &model[k];
        L = &l[k];
        what = (int) rn(10);
        if(what < 5 && m->n >= cap) what = 5 + (int) rn(3);
        if(what == 4 && m->n == 0) what = 0;
        if(what >= 5 && m->n == 0) what = (int) rn(3);
        if(m->n > 0) pos = (rn(3) == 0) ? m->n - 1 : rn(m->n);
        OP("qlist %llu op %llu pos %llu (n=%llu)", k, what, pos, m->n);
        EVAL(m_hash(3, m, what, pos));
        switch(what) {
        case 0: case 1: it = item_new(); qlist_append(L, &it->node.q); m_ins(m, m->n, it); EV("qlist append"); break;
        case 2: it = item_new(); qlist_prepend(L, &it->node.q); m_ins(m, 0, it); EV("qlist prepend"); break;
        case 3: case 4:
            if(m->n == 0) break;
            it = item_new(); qlist_insert_after(L, &m->seq[pos]->node.q, &it->node.q); m_ins(m, pos + 1, it); EV("qlist insert_after"); break;
        case 5: case 6: qlist_remove_head(L); item_done(m_del(m, 0)); EV("qlist remove_head"); break;
        case 7: case 8:
            if(pos + 1 == m->n) EV("qlist remove of the tail");
            qlist_remove(L, pos > 0 ? &m->seq[pos - 1]->node.q : (QLIST_NODE*) qlist_end(L), &m->seq[pos]->node.q);
            item_done(m_del(m, pos)); EV("qlist remove"); break;
        default:
            {
                QLIST_NODE* prev = (QLIST_NODE*) qlist_end(L);
                QLIST_NODE* n = qlist_head(L);
                size_t x = 0;
                unsigned p = (unsigned) rr(1, 3);
                while(n != qlist_end(L)) {
                    QLIST_NODE* next = qlist_next(n);
                    CHECK(x < m->n && n == &m->seq[x]->node.q, "the removing walk visits a wrong node");
                    if(rn(p) == 0) { qlist_remove(L, prev, n); item_done(m_del(m, x)); EV("qlist removed during a walk"); }
                    else { x++; prev = n; }
                    n = next;
                }
            }
            break;
        }
        verify_qlist(L, m);
    }
    for(k = 0; k < NLISTS; k++) {
        while(!qlist_is_empty(&l[k])) {
            CHECK(model[k].n > 0, "the list is not empty when it should be");
            qlist_remove_head(&l[k]);
            item_done(m_del(&model[k], 0));
        }
        CHECK(model[k].n == 0, "the list got empty too early");
    }
}

const struct mon_mode mon_modes[] = {
    { "list", mode_list },
    { "slist", mode_slist },
    { "qlist", mode_qlist },
    { NULL, NULL }
};
