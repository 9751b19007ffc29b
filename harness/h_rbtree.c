/* Monitors of data/rbtree.[hc]: C08, C09, C10, C11. */
#include "mon.h"
#include "rbtree.h"

/* Part of the CRE_TEST build of the module. */
int rbtree_verify(RBTREE* tree) __attribute__((weak));

#define MAXK    6000000

typedef struct ITEM {
    u32 magic;
    u32 key;
    u64 payload;
    RBTREE_NODE node;
    u32 in_tree;
    u32 seen;
} ITEM;

#define MAGIC   0x2b7ee001u
#define item_of(n)  RBTREE_DATA((n), ITEM, node)

static u64 n_cmp;
static u32 cmp_mag;
static const RBTREE_NODE* cur_key;
static ITEM** present;
static size_t n_in;
static size_t K;

static int
cmp_func(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    static const int mags[] = { 1, INT_MAX, 2, 256, 0x10000, 127, 0x1000000, 3 };
    const ITEM* ia = item_of(a);
    const ITEM* ib = item_of(b);
    int mag;
    CHECK(ia->magic == MAGIC && ib->magic == MAGIC, "the comparator was called for something which is not a node");
    CHECK(a == cur_key || ia->in_tree, "the comparator was called for a node which is not in the tree");
    CHECK(b == cur_key || ib->in_tree, "the comparator was called for a node which is not in the tree");
    n_cmp++;
    if(ia->key == ib->key)
        return 0;
    mag = mags[cmp_mag++ % 8];
    if(ia->key < ib->key)
        return (mag == INT_MAX) ? INT_MIN : -mag;
    return mag;
}

static ITEM*
item_new(u32 key)
{
    ITEM* it = xmalloc(sizeof(ITEM));
    memset(it, 0x5a, sizeof(ITEM));
    it->magic = MAGIC;
    it->key = key;
    it->payload = mon_mix(key);
    it->in_tree = 0;
    it->seen = 0;
    return it;
}

static void item_free(ITEM* it) { it->magic = 0xdead; xfree(it); }

static void
model_init(size_t k)
{
    if(present == NULL)
        present = xmalloc(MAXK * sizeof(*present));   /* touched only as far as used */
    memset(present, 0, k * sizeof(*present));
    n_in = 0;
    K = k;
}

static void
init_any(RBTREE* t)
{
    if(chance(1, 2)) {
        RBTREE z = RBTREE_INITIALIZER;
        *t = z;
    } else {
        memset(t, 0xcc, sizeof(*t));
        rbtree_init(t);
    }
    CHECK(rbtree_is_empty(t), "a fresh tree is not empty");
}

/* The height of a red-black tree of n nodes does not exceed 2*log2(n+1). */
static u64
cmp_limit(size_t n)
{
    u64 lg = 0;
    /* floor(2*log2(n+1)) = floor(log2((n+1)^2)) */
    u128 sq = (u128) (n + 1) * (n + 1);
    while(sq > 1) { sq >>= 1; lg++; }
    return lg + 1;
}

static void
op_lookup(RBTREE* t, u32 key, int check_cost)
{
    ITEM* k = item_new(key);
    RBTREE_NODE* r;
    u64 c0 = n_cmp;
    cur_key = &k->node;
    r = rbtree_lookup(t, &k->node, cmp_func);
    cur_key = NULL;
    if(present[key] != NULL)
        CHECK(r == &present[key]->node, "lookup of the present key %u (of %zu nodes) %s", key, n_in, r ? "returned another node" : "failed");
    else
        CHECK(r == NULL, "lookup of the absent key %u found a node", key);
    if(check_cost) {
        CHECK(n_cmp - c0 <= cmp_limit(n_in), "lookup among %zu nodes took %llu comparisons", n_in, (unsigned long long) (n_cmp - c0));
        EVMAX("most comparisons per lookup", n_cmp - c0);
        EVN("lookups with the comparisons counted", 1);
    }
    item_free(k);
}

static void
op_insert(RBTREE* t, u32 key)
{
    /* Sometimes the very node which is in the tree already. */
    int again = (present[key] != NULL && rn(4) == 0);
    ITEM* it = again ? present[key] : item_new(key);
    int r;
    cur_key = &it->node;
    r = rbtree_insert(t, &it->node, cmp_func);
    cur_key = NULL;
    CHECK(it->key == key && it->payload == mon_mix(key), "insert damaged the data of the node");
    if(present[key] != NULL) {
        CHECK(r == -1, "insert of the present key %u returned %d", key, r);
        if(!again)
            item_free(it);
        if(again)
            EV("insert of a node present");
        EV("insert of a duplicate");
    } else {
        CHECK(r == 0, "insert of the absent key %u returned %d", key, r);
        present[key] = it;
        it->in_tree = 1;
        n_in++;
        EV("insert");
    }
}

static void
op_remove(RBTREE* t, u32 key, int own)
{
    ITEM* p = present[key];
    ITEM* k = (own && p != NULL) ? p : item_new(key);
    RBTREE_NODE* r;
    cur_key = &k->node;
    r = rbtree_remove(t, &k->node, cmp_func);
    cur_key = NULL;
    if(p != NULL) {
        CHECK(r == &p->node, "remove of the present key %u (of %zu nodes) %s", key, n_in, r ? "returned another node" : "failed");
        CHECK(p->key == key && p->payload == mon_mix(key), "remove damaged the data of the node");
        present[key] = NULL;
        n_in--;
        item_free(p);
        EV("remove");
    } else {
        CHECK(r == NULL, "remove of the absent key %u returned a node", key);
        EV("remove of an absent key");
    }
    if(k != p)
        item_free(k);
}

static void
verify_walk(RBTREE* t)
{
    RBTREE_CURSOR cur;
    RBTREE_NODE* n;
    u32 key = 0;
    size_t cnt = 0;

    CHECK((rbtree_is_empty(t) != 0) == (n_in == 0), "is_empty() is wrong for %zu nodes", n_in);
    for(n = rbtree_head(t, &cur); n != NULL; n = rbtree_next(&cur)) {
        while(key < K && present[key] == NULL)
            key++;
        CHECK(cnt < n_in && key < K, "the walk visits more nodes than the %zu present", n_in);
        CHECK(n == &present[key]->node, "the walk visits a wrong node at position %zu of %zu", cnt, n_in);
        key++;
        cnt++;
    }
    CHECK(cnt == n_in, "the walk visited %zu of %zu nodes", cnt, n_in);
    EV("full walk compared");
}

static void
verify_colors(RBTREE* t)
{
    if(rbtree_verify != NULL) {
        CHECK(rbtree_verify(t) == 0, "red-black invariants are broken in a tree of %zu nodes", n_in);
        EV("invariants verified");
    }
}

static u64
shape_hash(int tag, u32 key)
{
    return h4((u64) tag, n_in, key, present[key] != NULL);
}

static void
fini_all(RBTREE* t)
{
    size_t cnt = 0;
    RBTREE_NODE* n;
    while((n = rbtree_fini_step(t)) != NULL) {
        ITEM* it = item_of(n);
        CHECK(it->magic == MAGIC, "fini_step returned something which is not a live node");
        CHECK(it->in_tree && present[it->key] == it, "fini_step returned a node which is not in the tree");
        CHECK(it->payload == mon_mix(it->key), "node data damaged");
        present[it->key] = NULL;
        item_free(it);
        cnt++;
        CHECK(cnt <= n_in, "fini_step returned more nodes than present");
    }
    CHECK(cnt == n_in, "fini_step returned %zu of %zu nodes", cnt, n_in);
    CHECK(rbtree_is_empty(t), "not empty after fini");
    CHECK(rbtree_fini_step(t) == NULL, "fini_step of an empty tree");
    n_in = 0;
}

/* Key chooser producing various insertion and removal orders. */
static int pat;
static u32 seq_lo, seq_hi;

static void
new_pattern(void)
{
    pat = (int) rn(8);
    seq_lo = 0;
    seq_hi = (u32) K - 1;
    OP("pattern %llu, n=%llu, K=%llu", pat, n_in, K);
}

static u32
pattern_key(void)
{
    u32 k;
    switch(pat) {
        case 0: k = seq_lo; seq_lo = (seq_lo + 1) % (u32) K; return k;                 /* ascending */
        case 1: k = seq_hi; seq_hi = seq_hi ? seq_hi - 1 : (u32) K - 1; return k;       /* descending */
        case 2: seq_lo++; return (seq_lo & 1) ? (seq_lo / 2) % (u32) K : (u32) (K - 1 - (seq_lo / 2) % K); /* ends */
        case 3: seq_lo++; return (u32) ((K / 2 + ((seq_lo & 1) ? seq_lo / 2 : K - (seq_lo / 2) % K)) % K); /* middle out */
        case 4: seq_lo++; return (u32) ((u64) seq_lo * 2654435761u % K);
        case 5: k = seq_lo; seq_lo = (seq_lo + 2) % (u32) K; return k;                 /* every other */
        default: return (u32) rn(K);
    }
}

static u32
next_key(int want_present)
{
    u32 k, i;
    k = pattern_key();
    for(i = 0; i < 8; i++) {
        if((present[k] != NULL) == want_present)
            return k;
        k = pattern_key();
    }
    k = (u32) rn(K);
    for(i = 0; i < K; i++, k = (k + 1) % (u32) K) {
        if((present[k] != NULL) == want_present)
            return k;
    }
    return k;
}

static void
drive(RBTREE* t, size_t target, unsigned churn, int verify_every)
{
    unsigned i = 0;
    new_pattern();
    while(n_in != target && mon_more()) {
        u32 key;
        if(churn && rn(churn) == 0) {
            key = (u32) rn(K);
            switch(rn(3)) {
                case 0: op_insert(t, key); break;
                case 1: op_remove(t, key, (int) rn(2)); break;
                default: op_lookup(t, key, 0); break;
            }
        } else if(n_in < target) {
            key = next_key(0);
            op_insert(t, key);
        } else {
            key = next_key(1);
            op_remove(t, key, (int) rn(2));
        }
        EVAL(shape_hash(pat, key));
        if(verify_every && ++i % (unsigned) verify_every == 0) {
            verify_walk(t);
            verify_colors(t);
        }
    }
}

/* C08: functional behaviour */
static void
mode_set(u64 ep)
{
    static const size_t ks[] = { 8, 24, 100, 600, 3000 };
    RBTREE t;
    int phases, i;
    u32 k;

    model_init(ks[ep % 5]);
    init_any(&t);
    verify_walk(&t);
    phases = (int) rr(3, 8);
    for(i = 0; i < phases; i++) {
        drive(&t, rn(K + 1), rn(2) ? (unsigned) rr(2, 30) : 0, K <= 24 ? 1 : K <= 100 ? 7 : 0);
        verify_walk(&t);
        for(k = 0; k < K; k++)
            op_lookup(&t, k, 0);
        EVMAX("largest tree", n_in);
    }
    drive(&t, 0, 0, K <= 24 ? 1 : 0);
    verify_walk(&t);
    CHECK(rbtree_is_empty(&t), "not empty");
}

/* C09: balance */
static void
check_balance(RBTREE* t, size_t samples)
{
    size_t i;
    verify_colors(t);
    if(K <= samples) {
        for(i = 0; i < K; i++)
            op_lookup(t, (u32) i, 1);
    } else {
        for(i = 0; i < samples; i++)
            op_lookup(t, (u32) rn(K), 1);
        op_lookup(t, 0, 1);
        op_lookup(t, (u32) K - 1, 1);
    }
    EVAL(h3(n_in, K, (u64) pat));
}

static void
mode_balance(u64 ep)
{
    static const size_t ks[] = { 16, 60, 400, 5000 };
    RBTREE t;
    int phases, i;

    model_init(ks[ep % 4]);
    init_any(&t);
    phases = (int) rr(3, 8);
    for(i = 0; i < phases; i++) {
        size_t target = rn(K + 1);
        if(K <= 400) {
            /* Check at every step. */
            while(n_in != target && mon_more()) {
                size_t step = n_in < target ? n_in + 1 : n_in - 1;
                drive(&t, step, 0, 0);
                check_balance(&t, 12);
            }
        } else {
            drive(&t, target, rn(2) ? 9 : 0, 0);
        }
        check_balance(&t, 6000);
        EVMAX("largest tree", n_in);
    }
    fini_all(&t);
}

static void
mode_balancebig(u64 ep)
{
    RBTREE t;
    model_init(ep % 2 ? 60000 : 200000);
    init_any(&t);
    drive(&t, K * 9 / 10, 0, 0);
    check_balance(&t, 3000);
    drive(&t, K / 7, 0, 0);
    check_balance(&t, 3000);
    drive(&t, K / 2, 5, 0);
    check_balance(&t, 3000);
    EVMAX("largest tree", n_in);
    verify_walk(&t);
    fini_all(&t);
}

/* C08+C09: small trees, every step fully verified. */
static void
mode_small(u64 ep)
{
    RBTREE t;
    int i, nops;

    model_init(1 + ep % 15);
    init_any(&t);
    nops = (int) rr(10, 120);
    for(i = 0; i < nops && mon_more(); i++) {
        u32 key = (u32) rn(K), k;
        if((i / 16) % 2 == 0 ? rn(3) != 0 : rn(3) == 0)
            op_insert(&t, key);
        else
            op_remove(&t, key, (int) rn(2));
        OP("key %llu n %llu", key, n_in);
        verify_walk(&t);
        verify_colors(&t);
        for(k = 0; k < K; k++)
            op_lookup(&t, k, 1);
        {
            u64 set = 0;
            for(k = 0; k < K; k++)
                set = set * 2 + (present[k] != NULL);
            EVAL(h3(K, set, key));
        }
    }
    fini_all(&t);
}

/* C10 */
static i64
model_next(i64 key)
{
    for(key++; key < (i64) K; key++)
        if(present[key] != NULL) return key;
    return -1;
}
static i64
model_prev(i64 key)
{
    for(key--; key >= 0; key--)
        if(present[key] != NULL) return key;
    return -1;
}

static void
mode_cursor(u64 ep)
{
    static const size_t ks[] = { 1, 3, 9, 40, 300, 2500 };
    RBTREE t;
    int rounds, i, j;

    model_init(ks[ep % 6]);
    init_any(&t);
    rounds = (int) rr(1, 5);
    for(i = 0; i < rounds; i++) {
        drive(&t, rn(5) ? rn(K + 1) : K, rn(2) ? 4 : 0, 0);
        for(j = 0; j < 40 && mon_more(); j++) {
            RBTREE_CURSOR cur;
            i64 pos = -1;
            RBTREE_NODE* n;
            int steps, s, how = (int) rn(4);

            if(rn(2)) {
                memset(&cur, 0xcc, sizeof(cur));
            } else {
                RBTREE_CURSOR z = RBTREE_CURSOR_INITIALIZER;
                cur = z;
                CHECK(rbtree_current(&cur) == NULL, "a cursor pointing nowhere has a current node");
                CHECK(rbtree_next(&cur) == NULL && rbtree_prev(&cur) == NULL && rbtree_current(&cur) == NULL,
                      "a cursor pointing nowhere moves");
                EV("cursor pointing nowhere stepped");
            }
            if(how == 0) {
                n = rbtree_head(&t, &cur);
                pos = model_next(-1);
                EV("cursor from the head");
            } else if(how == 1) {
                n = rbtree_tail(&t, &cur);
                pos = model_prev((i64) K);
                EV("cursor from the tail");
            } else {
                u32 key = (u32) rn(K);
                ITEM* k = item_new(key);
                cur_key = &k->node;
                n = rbtree_lookup_ex(&t, &k->node, cmp_func, &cur);
                cur_key = NULL;
                item_free(k);
                pos = present[key] != NULL ? (i64) key : -1;
                EV("cursor from a lookup");
            }
            if(pos < 0) {
                CHECK(n == NULL, "a cursor was obtained on a node which is not there");
                if(how >= 2) {
                    CHECK(rbtree_current(&cur) == NULL, "the cursor of a failed lookup has a current node");
                    CHECK(rbtree_next(&cur) == NULL && rbtree_prev(&cur) == NULL, "the cursor of a failed lookup moves");
                    EV("cursor of a failed lookup");
                }
                EVAL_TRIVIAL();
                continue;
            }
            CHECK(n == &present[pos]->node, "the cursor starts at a wrong node (how=%d, expected key %lld)", how, (long long) pos);
            CHECK(rbtree_current(&cur) == n, "current() differs from the node returned");
            steps = (int) rr(1, 60);
            {
                int dir = (int) rn(2), turn = (int) rr(1, 8);
                for(s = 0; s < steps && mon_more(); s++) {
                    i64 q;
                    if(rn((u64) turn) == 0) { dir = !dir; EV("turned round"); }
                    if(dir) { n = rbtree_next(&cur); q = model_next(pos); }
                    else { n = rbtree_prev(&cur); q = model_prev(pos); }
                    EVAL(h4(n_in, (u64) pos, (u64) dir, (u64) s));
                    if(q < 0) {
                        CHECK(n == NULL, "step %s beyond the end returned a node", dir ? "forward" : "backward");
                        EV("stepped at an end");
                    } else {
                        CHECK(n != NULL, "step %s from key %lld found nothing (of %zu nodes)", dir ? "forward" : "backward", (long long) pos, n_in);
                        CHECK(n == &present[q]->node, "step %s from key %lld came to key %u, expected %lld", dir ? "forward" : "backward",
                              (long long) pos, item_of(n)->key, (long long) q);
                        pos = q;
                    }
                    CHECK(rbtree_current(&cur) == &present[pos]->node, "current() is not the node at the cursor");
                }
            }
        }
        /* Complete walks both ways. */
        {
            RBTREE_CURSOR cur;
            RBTREE_NODE* n;
            i64 pos = model_prev((i64) K);
            size_t cnt = 0;
            verify_walk(&t);
            for(n = rbtree_tail(&t, &cur); n != NULL; n = rbtree_prev(&cur)) {
                CHECK(pos >= 0 && n == &present[pos]->node, "the backward walk visits a wrong node");
                pos = model_prev(pos);
                cnt++;
            }
            CHECK(cnt == n_in, "the backward walk visited %zu of %zu nodes", cnt, n_in);
            EV("full backward walk compared");
        }
    }
    fini_all(&t);
}

/* C11 */
static void
mode_fini(u64 ep)
{
    static const size_t ks[] = { 1, 2, 4, 10, 40, 500, 4000 };
    RBTREE t;
    int rounds, i;

    model_init(ks[ep % 7]);
    init_any(&t);
    rounds = (int) rr(1, 5);
    for(i = 0; i < rounds; i++) {
        if(rn(2)) drive(&t, K, 0, 0);
        drive(&t, rn(3) ? rn(K + 1) : K, rn(2) ? 5 : 0, 0);
        OP("fini of %llu nodes", n_in);
        EVAL(h4(K, n_in, (u64) pat, rnd()));
        EVN("nodes handed out", n_in);
        EV("tree torn down");
        fini_all(&t);
        verify_walk(&t);
    }
}

/* C08-C11: trees as deep as sorted insertion makes them (well over 32 levels) */
static void
mode_deep(u64 ep)
{
    RBTREE t;
    RBTREE_CURSOR cur;
    RBTREE_NODE* n;
    i64 pos;
    size_t i, cnt = 0;

#ifdef MON_ASAN
    model_init(150000 + rn(150000));
#else
    model_init(ep < 16 ? 1100000 + rn(200000) : ep % 8 == 0 ? MAXK : 200000 + rn(1500000));
#endif
    init_any(&t);
    new_pattern();
    pat = (int) (ep % 4);
    for(i = 0; i < K; i++)
        op_insert(&t, next_key(0));
    check_balance(&t, 2000);
    verify_walk(&t);
    pos = model_prev((i64) K);
    for(n = rbtree_tail(&t, &cur); n != NULL; n = rbtree_prev(&cur), cnt++) {
        CHECK(pos >= 0 && n == &present[pos]->node, "the backward walk visits a wrong node");
        pos = model_prev(pos);
    }
    CHECK(cnt == n_in, "the backward walk visited %zu of %zu nodes", cnt, n_in);

    /* Cursors from lookups at both ends and amidst. */
    for(i = 0; i < 600; i++) {
        u32 key = i % 3 == 0 ? (u32) rn(40) : i % 3 == 1 ? (u32) (K - 1 - rn(40)) : (u32) rn(K);
        ITEM* k = item_new(key);
        int dir = (int) rn(2), s;
        cur_key = &k->node;
        n = rbtree_lookup_ex(&t, &k->node, cmp_func, &cur);
        cur_key = NULL;
        item_free(k);
        CHECK(n == &present[key]->node && rbtree_current(&cur) == n, "lookup_ex of the key %u went wrong", key);
        pos = key;
        for(s = 0; s < 30; s++) {
            i64 q = dir ? model_next(pos) : model_prev(pos);
            n = dir ? rbtree_next(&cur) : rbtree_prev(&cur);
            CHECK(n == (q < 0 ? NULL : &present[q]->node), "a step %s from key %lld went wrong", dir ? "forward" : "backward", (long long) pos);
            if(q < 0) dir = !dir; else pos = q;
        }
        EVAL(h3(K, key, (u64) dir));
    }
    EVMAX("largest tree", n_in);

    /* Removals, then the rest at once. */
    new_pattern();
    for(i = K / 8 + rn(K / 2); i > 0; i--)
        op_remove(&t, next_key(1), (int) rn(2));
    check_balance(&t, 2000);
    verify_walk(&t);
    if(ep % 3 == 0) {
        while(n_in > 0)
            op_remove(&t, next_key(1), (int) rn(2));
        CHECK(rbtree_is_empty(&t), "not empty");
    }
    fini_all(&t);
}

const struct mon_mode mon_modes[] = {
    { "deep", mode_deep },
    { "set", mode_set },
    { "small", mode_small },
    { "balance", mode_balance },
    { "balancebig", mode_balancebig },
    { "cursor", mode_cursor },
    { "fini", mode_fini },
    { NULL, NULL }
};
