/* Monitors of data/htable.[hc]: C05, C06, C07, C39 (and the private-instance
 * part of C43 has nothing here: no sizes are taken). */
#include "mon.h"
#include "htable.h"

#define MAXK    4000000

typedef struct ITEM {
    u32 magic;
    u32 key;
    u64 payload;
    HTABLE_NODE node;
    u32 in_table;
    u32 dtor_calls;
} ITEM;

#define MAGIC   0x17ab1e01u
#define item_of(n)  HTABLE_DATA((n), ITEM, node)

static int hash_kind;
static u64 hash_salt;
static u64 n_cmp;
static const HTABLE_NODE* cur_key;      /* The key passed to the current operation. */
static u32 cmp_nonzero;

/* Model: present[key] = item or NULL. */
static ITEM** present;
static u32* keys_in;        /* dense list of present keys */
static u32* key_pos;        /* key -> position in keys_in */
static size_t n_in;

static const char* const hash_names[] = {
    "hash: uniform", "hash: constant 0", "hash: key%7", "hash: multiples of 59", "hash: identity",
    "hash: from the top down", "hash: constant max", "hash: top bits only", "hash: multiples of 59*8",
    "hash: pairs"
};
#define N_HASH  10

static u32
hash_of(u32 key)
{
    switch(hash_kind) {
        case 0: return (u32) mon_mix(key ^ hash_salt);
        case 1: return 0;
        case 2: return key % 7;
        case 3: return key * 59u;
        case 4: return key;
        case 5: return UINT32_MAX - key;
        case 6: return UINT32_MAX;
        case 7: return key << 24;
        case 8: return key * (59u * 8);
        default: return (u32) mon_mix((key / 2) ^ hash_salt);
    }
}

static u32
hash_func(const HTABLE_NODE* n)
{
    const ITEM* it = item_of(n);
    CHECK(it->magic == MAGIC, "the hash function was called for something which is not a node");
    CHECK(n == cur_key || it->in_table, "the hash function was called for a node which is not in the table");
    return hash_of(it->key);
}

static void
check_cmp_arg(const HTABLE_NODE* n)
{
    const ITEM* it = item_of(n);
    CHECK(it->magic == MAGIC, "the comparator was called for something which is not a node");
    CHECK(n == cur_key || it->in_table, "the comparator was called for a node which is not in the table");
}

static int
cmp_func(const HTABLE_NODE* a, const HTABLE_NODE* b)
{
    static const int nz[] = { 1, -1, INT_MIN, INT_MAX, 256, 65536, -256, 0x100000 };
    u32 ka, kb;
    check_cmp_arg(a);
    check_cmp_arg(b);
    n_cmp++;
    ka = item_of(a)->key;
    kb = item_of(b)->key;
    if(ka == kb)
        return 0;
    return nz[cmp_nonzero++ % 8];
}

static ITEM*
item_new(u32 key)
{
    ITEM* it = xmalloc(sizeof(ITEM));
    memset(it, 0x5a, sizeof(ITEM));
    it->magic = MAGIC;
    it->key = key;
    it->payload = mon_mix(key);
    it->in_table = 0;
    it->dtor_calls = 0;
    return it;
}

static void
item_free(ITEM* it)
{
    it->magic = 0xdead;
    xfree(it);
}

static void
model_init(size_t k)
{
    size_t i;
    if(present == NULL) {
        present = xmalloc(MAXK * sizeof(*present));
        keys_in = xmalloc(MAXK * sizeof(*keys_in));
        key_pos = xmalloc(MAXK * sizeof(*key_pos));
    }
    for(i = 0; i < k; i++)
        present[i] = NULL;
    n_in = 0;
}

static void
model_add(ITEM* it)
{
    present[it->key] = it;
    key_pos[it->key] = (u32) n_in;
    keys_in[n_in++] = it->key;
    it->in_table = 1;
}

static void
model_del(u32 key)
{
    u32 pos = key_pos[key];
    n_in--;
    keys_in[pos] = keys_in[n_in];
    key_pos[keys_in[pos]] = pos;
    present[key]->in_table = 0;
    present[key] = NULL;
}

/* The operations, each of them checked against the model. */

static void
check_empty(HTABLE* h)
{
    CHECK((htable_is_empty(h) != 0) == (n_in == 0), "is_empty() = %d with %zu nodes present", htable_is_empty(h), n_in);
}

/* Lookups use a separate key node, outside of the table, freed afterwards. */
static void
op_lookup(HTABLE* h, u32 key, int own)
{
    ITEM* k = (own && present[key] != NULL) ? present[key] : item_new(key);
    HTABLE_NODE* r;
    cur_key = &k->node;
    r = htable_lookup(h, &k->node, cmp_func, hash_func);
    if(present[key] != NULL)
        CHECK(r == &present[key]->node, "lookup of the present key %u (of %zu nodes) %s", key, n_in,
              r ? "returned another node" : "failed");
    else
        CHECK(r == NULL, "lookup of the absent key %u found a node", key);
    cur_key = NULL;
    if(k != present[key])
        item_free(k);
}

static void
op_insert(HTABLE* h, u32 key, int unsafe)
{
    /* Sometimes the very node which is in the table already. */
    int again = (present[key] != NULL && rn(4) == 0);
    ITEM* it = again ? present[key] : item_new(key);
    int r;
    cur_key = &it->node;
    if(unsafe && present[key] == NULL)
        r = htable_insert_unsafe(h, &it->node, cmp_func, hash_func);
    else
        r = htable_insert(h, &it->node, cmp_func, hash_func);
    cur_key = NULL;
    CHECK(it->key == key && it->payload == mon_mix(key), "insert damaged the data of the node");
    if(present[key] != NULL) {
        CHECK(r == -1, "insert of the present key %u returned %d", key, r);
        if(again)
            EV("insert of a node present");
        else
            item_free(it);
    } else {
        CHECK(r == 0, "insert of the absent key %u returned %d", key, r);
        model_add(it);
    }
}

static void
op_remove(HTABLE* h, u32 key, int own)
{
    ITEM* p = present[key];
    ITEM* k = (own && p != NULL) ? p : item_new(key);
    HTABLE_NODE* r;
    cur_key = &k->node;
    r = htable_remove(h, &k->node, cmp_func, hash_func);
    cur_key = NULL;
    if(p != NULL) {
        CHECK(r == &p->node, "remove of the present key %u (of %zu nodes) %s", key, n_in,
              r ? "returned another node" : "failed");
        CHECK(p->key == key && p->payload == mon_mix(key), "remove damaged the data of the node");
        model_del(key);
        item_free(p);
    } else {
        CHECK(r == NULL, "remove of the absent key %u returned a node", key);
    }
    if(k != p)
        item_free(k);
}

static void
verify_all(HTABLE* h, size_t k)
{
    u32 i;
    for(i = 0; i < k; i++)
        op_lookup(h, i, 0);
    check_empty(h);
    EV("full verification");
}

static u64 dtor_total;

static void
dtor_free(HTABLE_NODE* n)
{
    ITEM* it = item_of(n);
    CHECK(it->magic == MAGIC, "the destructor was called for something which is not a live node");
    CHECK(it->in_table == 1, "the destructor was called for a node which is not in the table");
    CHECK(it->payload == mon_mix(it->key), "node data damaged");
    if(present[it->key] == it)
        present[it->key] = NULL;
    dtor_total++;
    item_free(it);
}

static void
dtor_count(HTABLE_NODE* n)
{
    ITEM* it = item_of(n);
    CHECK(it->magic == MAGIC, "the destructor was called for something which is not a live node");
    CHECK(it->in_table == 1, "the destructor was called for a node which is not in the table");
    it->dtor_calls++;
    dtor_total++;
    memset(n, 0x5a, sizeof(*n));        /* the caller may reuse the node */
}

/* Finalise; every node in the table is passed to the destructor once. */
static void
fini_checked(HTABLE* h, int how)
{
    size_t i;
    dtor_total = 0;
    OP("fini how=%llu n=%llu", how, n_in);
    switch(how) {
    case 0:
        htable_fini(h, dtor_free);
        CHECK(dtor_total == n_in, "the destructor was called %llu times for %zu nodes", (unsigned long long) dtor_total, n_in);
        for(i = 0; i < n_in; i++)
            CHECK(present[keys_in[i]] == NULL, "a node was not passed to the destructor");
        break;
    case 1:
        htable_fini(h, dtor_count);
        CHECK(dtor_total == n_in, "the destructor was called %llu times for %zu nodes", (unsigned long long) dtor_total, n_in);
        for(i = 0; i < n_in; i++) {
            ITEM* it = present[keys_in[i]];
            CHECK(it->dtor_calls == 1, "the destructor was called %u times for a node", it->dtor_calls);
            item_free(it);
        }
        break;
    default:
        htable_fini(h, NULL);
        for(i = 0; i < n_in; i++) {
            ITEM* it = present[keys_in[i]];
            CHECK(it->magic == MAGIC && it->payload == mon_mix(it->key), "node data damaged");
            item_free(it);
        }
        break;
    }
    for(i = 0; i < n_in; i++)
        present[keys_in[i]] = NULL;
    n_in = 0;
    CHECK(htable_is_empty(h), "not empty after fini");
}

/* Sizes around which the load changes qualitatively for reasonable tables: mixed. */
static size_t
pick_target(size_t max)
{
    static const size_t special[] = { 0, 1, 2, 14, 58, 59, 60, 118, 176, 177, 178, 412, 413, 414, 884, 885, 886,
                                      1828, 1829, 1830, 44, 103, 221, 457, 929, 3716, 3717, 3718 };
    size_t t;
    if(chance(1, 2)) t = special[rn(sizeof(special) / sizeof(special[0]))];
    else t = rn(max + 1);
    return t > max ? max : t;
}

static void
pick_hash(size_t* p_k, int allow_bad)
{
    static const size_t caps[N_HASH] = { 4200, 200, 500, 2000, 4200, 4200, 200, 1500, 1200, 4200 };
    hash_kind = allow_bad ? (int) rn(N_HASH) : 0;
    hash_salt = rnd();
    if(*p_k > caps[hash_kind])
        *p_k = caps[hash_kind];
    mon_ev[mon_ev_index(hash_names[hash_kind])].n++;
}

static void
init_any(HTABLE* h)
{
    if(chance(1, 2)) {
        HTABLE t = HTABLE_INITIALIZER;
        *h = t;
    } else {
        memset(h, 0xcc, sizeof(*h));
        htable_init(h);
    }
}

/* Drive the table to a given number of nodes, with some churn. */
static void
drive(HTABLE* h, size_t k, size_t target, unsigned churn)
{
    size_t guard = 0;
    int pattern = (int) rn(4);  /* which to remove: random, oldest key first, newest first, random */
    u32 seq = (u32) rn(k);

    OP("drive from %llu to %llu of %llu, churn %llu, pattern %llu", n_in, target, k, churn, pattern);
    while(n_in != target && guard++ < 20 * k + 100 && mon_more()) {
        u32 key;
        if(n_in < target) {
            key = (pattern & 1) ? (seq++ % (u32) k) : (u32) rn(k);
            op_insert(h, key, (int) rn(2));
            EV("insert");
        } else {
            switch(pattern) {
                case 0: key = keys_in[rn(n_in)]; break;
                case 1: key = keys_in[0]; break;
                case 2: key = keys_in[n_in - 1]; break;
                default: key = (u32) rn(k); break;
            }
            op_remove(h, key, (int) rn(2));
            EV("remove");
        }
        if(churn && rn(churn) == 0) {
            key = (u32) rn(k);
            switch(rn(4)) {
                case 0: op_insert(h, key, (int) rn(2)); break;
                case 1: op_remove(h, key, (int) rn(2)); break;
                default: op_lookup(h, key, (int) rn(2)); break;
            }
            check_empty(h);
        }
        EVAL(h4((u64) hash_kind, n_in, key, present[key] != NULL));
    }
}

/* C05 */
static void
mode_map(u64 ep)
{
    HTABLE h;
    size_t k = (ep % 3 == 0) ? 4200 : (ep % 3 == 1) ? 1000 : 150;
    int phases, i;

    pick_hash(&k, 1);
    OP("hash kind %llu, %llu keys", hash_kind, k);
    model_init(k);
    init_any(&h);
    verify_all(&h, k < 200 ? k : 200);
    phases = (int) rr(2, 6);
    for(i = 0; i < phases; i++) {
        drive(&h, k, pick_target(k), (unsigned) (rn(3) ? rr(1, 20) : 0));
        verify_all(&h, k);
        EVMAX("largest table", n_in);
    }
    if(chance(1, 2)) {
        drive(&h, k, 0, 0);
        verify_all(&h, k);
        EV("emptied by removals");
    }
    fini_checked(&h, (int) rn(3));
}

/* C05: a crowd around a single threshold. */
static void
mode_edge(u64 ep)
{
    static const size_t edges[] = { 59, 177, 413, 885, 1829, 3717, 14, 44, 103, 221, 457, 929 };
    HTABLE h;
    size_t k = 4200, e, i;

    (void) ep;
    pick_hash(&k, 1);
    model_init(k);
    init_any(&h);
    e = edges[rn(12)];
    if(e + 8 >= k) e = k / 2;
    OP("hash kind %llu, %llu keys, edge %llu", hash_kind, k, e);
    if(chance(1, 2))
        drive(&h, k, e * 3 < k ? e * 3 : k - 1, 0);
    drive(&h, k, e, 0);
    for(i = 0; i < 12; i++) {
        size_t t = e + rn(9) - 4;
        drive(&h, k, t, 2);
        check_empty(&h);
        if(i % 4 == 3)
            verify_all(&h, k);
        EV("threshold crossed or approached");
    }
    fini_checked(&h, (int) rn(3));
}

/* C05: the unchecked insert used for duplicates: a multiset. */
static void
mode_unsafe(u64 ep)
{
    HTABLE h;
    enum { K = 12, MAXN = 1200 };
    static ITEM* items[MAXN];
    size_t n = 0, cnt[K], ops, i, nops = (ep % 2) ? 3000 : 600;

    hash_kind = (int) rn(N_HASH);
    hash_salt = rnd();
    memset(cnt, 0, sizeof(cnt));
    model_init(K);
    init_any(&h);
    for(ops = 0; ops < nops && mon_more(); ops++) {
        u32 key = (u32) rn(K);
        int grow = ((ops / 300) % 2 == 0) ? rn(4) != 0 : rn(4) == 0;
        if(grow && n < MAXN) {
            ITEM* it = item_new(key);
            cur_key = &it->node;
            CHECK(htable_insert_unsafe(&h, &it->node, cmp_func, hash_func) == 0, "insert_unsafe failed");
            cur_key = NULL;
            it->in_table = 1;
            items[n++] = it;
            cnt[key]++;
            EV("unchecked insert of a duplicate");
        } else {
            ITEM* kk = item_new(key);
            HTABLE_NODE* r;
            int rem = rn(3) != 0;
            cur_key = &kk->node;
            if(rem) r = htable_remove(&h, &kk->node, cmp_func, hash_func);
            else r = htable_lookup(&h, &kk->node, cmp_func, hash_func);
            cur_key = NULL;
            CHECK((r != NULL) == (cnt[key] > 0), "key %u has %zu nodes but the operation %s one", key, cnt[key], r ? "found" : "did not find");
            if(r != NULL) {
                ITEM* it = item_of(r);
                CHECK(it->magic == MAGIC && it->in_table && it->key == key, "a wrong node was returned");
                if(rem) {
                    for(i = 0; items[i] != it; i++)
                        ;
                    items[i] = items[--n];
                    cnt[key]--;
                    item_free(it);
                    EV("remove of a duplicate");
                }
            }
            item_free(kk);
        }
        CHECK((htable_is_empty(&h) != 0) == (n == 0), "is_empty() is wrong");
        EVAL(h4((u64) hash_kind + 100, n, key, cnt[key]));
    }
    dtor_total = 0;
    htable_fini(&h, dtor_free);
    CHECK(dtor_total == n, "the destructor was called %llu times for %zu nodes", (unsigned long long) dtor_total, n);
}

/* C06: comparisons and memory. */
static double
log2_(double x)
{
    double r = 0;
    while(x >= 2.0) { x /= 2.0; r += 1.0; }
    return r + (x - 1.0);
}

static void
measure(HTABLE* h, size_t k, int removed)
{
    size_t samples = 400, i;
    u64 c0, hits = 0, misses = 0, nh = 0, nm = 0;
    double lim = 4.0 + 2.0 * log2_((double) n_in / 59.0 + 2.0);

    for(i = 0; i < samples; i++) {
        u32 key = (u32) rn(k);
        int in = present[key] != NULL;
        c0 = n_cmp;
        op_lookup(h, key, 0);
        if(in) { hits += n_cmp - c0; nh++; } else { misses += n_cmp - c0; nm++; }
        if(n_in > 0) {
            key = keys_in[rn(n_in)];
            c0 = n_cmp;
            op_lookup(h, key, 0);
            hits += n_cmp - c0; nh++;
        }
    }
    if(nh >= 50) {
        EVMAX("mean comparisons of a successful lookup x100", hits * 100 / nh);
        CHECK((double) hits / (double) nh <= lim, "%.2f comparisons per successful lookup in a table of %zu nodes", (double) hits / (double) nh, n_in);
    }
    if(nm >= 50) {
        EVMAX("mean comparisons of a failing lookup x100", misses * 100 / nm);
        CHECK((double) misses / (double) nm <= lim, "%.2f comparisons per failing lookup in a table of %zu nodes", (double) misses / (double) nm, n_in);
    }
    /* Memory: proportional to the number of nodes. */
    {
        size_t bytes = mon_heap.live_bytes;
        EVMAX("bytes per node x10 (n >= 500)", n_in >= 500 ? bytes * 10 / n_in : 0);
        CHECK(bytes <= 64 * n_in + 4096, "%zu bytes held for %zu nodes", bytes, n_in);
        if(n_in == 0 && removed)
            CHECK(bytes == 0, "%zu bytes still held by an emptied table", bytes);
    }
    EVAL(h4(n_in, nh, hits, misses));
    EV("cost measured");
}

static void
cost_history(size_t k, int phases)
{
    HTABLE h;
    int i;
    size_t round_target;

    hash_kind = 0;
    hash_salt = rnd();
    model_init(k);
    htable_init(&h);
    OP("cost, %llu keys", k);
    for(i = 0; i < phases; i++) {
        size_t before = n_in;
        u64 c0 = n_cmp;
        size_t ops;
        switch(rn(4)) {
            case 0: round_target = k; break;
            case 1: round_target = n_in / 4; break;
            case 2: round_target = 0; break;
            default: round_target = rn(k + 1); break;
        }
        drive(&h, k, round_target == k ? k * 15 / 16 : round_target, 0);
        ops = (before > n_in) ? before - n_in : n_in - before;
        EVN("comparator calls", n_cmp - c0);
        if(ops > 1000)
            EVMAX("mean comparisons of an update x100", (n_cmp - c0) * 100 / ops);
        measure(&h, k, 1);
        /* Replace the oldest by new ones, for a while. */
        if(n_in > 10) {
            size_t j, n = n_in / 2;
            for(j = 0; j < n && mon_more(); j++) {
                op_remove(&h, keys_in[0], 0);
                op_insert(&h, (u32) rn(k), 0);
            }
            measure(&h, k, 1);
        }
    }
    EVMAX("largest table", n_in);
    fini_checked(&h, 0);
    CHECK(mon_heap.live_bytes == 0, "%zu bytes leaked by fini", mon_heap.live_bytes);
}

static void
mode_cost(u64 ep)
{
    static const size_t sizes[] = { 150, 1000, 6000, 25000 };
    cost_history(sizes[ep % 4], 5);
}

static void
mode_costbig(u64 ep)
{
    cost_history(ep % 2 ? 270000 : 120000, 3);
}

/* Millions of nodes: once up and down again. */
static void
mode_costhuge(u64 ep)
{
    HTABLE h;
    size_t k = (ep % 4 == 3 ? 14000000 : 2200000) + (size_t) rn(400000);

    hash_kind = 0;
    hash_salt = rnd();
    model_init(k);
    htable_init(&h);
    OP("cost, %llu keys", k);
    drive(&h, k, k * 15 / 16, 0);
    EVMAX("largest table", n_in);
    measure(&h, k, 1);
    drive(&h, k, k / 3, 0);
    measure(&h, k, 1);
    drive(&h, k, k / 100, 0);
    measure(&h, k, 1);
    fini_checked(&h, 0);
    CHECK(mon_heap.live_bytes == 0, "%zu bytes leaked by fini", mon_heap.live_bytes);
}

/* C07 */
static void
mode_fini(u64 ep)
{
    HTABLE h;
    size_t k = (ep % 4 == 0) ? 4200 : (ep % 4 == 1) ? 60 : 700;
    int rounds, i;

    pick_hash(&k, 1);
    model_init(k);
    init_any(&h);
    rounds = (int) rr(1, 4);
    for(i = 0; i < rounds; i++) {
        int how = (int) rn(3);
        size_t t = pick_target(k);
        if(rn(3) == 0) drive(&h, k, k / 2 + 1, 0);
        drive(&h, k, t, (unsigned) rn(2) * 10);
        OP("round %llu", i);
        EV("fini");
        if(n_in == 0) EV("fini of an empty table");
        EVAL(h4((u64) hash_kind, n_in, (u64) how, (u64) i));
        fini_checked(&h, how);
        CHECK(mon_heap.live_bytes == 0, "%zu bytes leaked by fini", mon_heap.live_bytes);
        /* Usable again without another init. */
        verify_all(&h, k < 40 ? k : 40);
        if(rn(4) == 0) {
            htable_fini(&h, dtor_free);     /* of an empty one, again */
            CHECK(htable_is_empty(&h), "not empty");
        }
        EV("reuse after fini");
    }
    fini_checked(&h, 0);
}

/* C05, C07: tables of many planes. */
static void
mode_big(u64 ep)
{
    static const int kinds[] = { 0, 4, 5, 9 };
    HTABLE h;
    size_t k;
    int i;

#ifdef MON_ASAN
    k = 20000 + rn(150000);
#else
    k = mon_thorough && ep % 8 == 7 ? MAXK : 100000 + rn(900000);
#endif
    hash_kind = kinds[rn(4)];
    hash_salt = rnd();
    OP("big, hash kind %llu, %llu keys", hash_kind, k);
    model_init(k);
    init_any(&h);
    for(i = 0; i < 2; i++) {
        drive(&h, k, k * 15 / 16, 0);
        verify_all(&h, k);
        EVMAX("largest table", n_in);
        drive(&h, k, n_in / (2 + rn(60)), 0);
        verify_all(&h, k);
        drive(&h, k, rn(k / 2), 7);
        verify_all(&h, k);
        if(rn(2)) {
            drive(&h, k, 0, 0);
            CHECK(htable_is_empty(&h), "not empty");
        } else if(rn(2)) {
            EV("fini of a big table");
            EVN("nodes in big tables torn down", n_in);
            fini_checked(&h, (int) rn(3));
        }
    }
    fini_checked(&h, (int) rn(3));
    CHECK(mon_heap.live_bytes == 0, "%zu bytes leaked by fini", mon_heap.live_bytes);
}

/* C05, C07: tens of thousands of nodes in one chain (or a few). */
static void
mode_longchain(u64 ep)
{
    static const int kinds[] = { 1, 6, 2, 7 };
    HTABLE h;
    size_t k = 0, i, target;

    pick_hash(&k, 1);
    hash_kind = kinds[ep % 4];
    target = 100 + rn(ep % 3 == 0 ? 70000 : 20000);
    k = target + 1 + rn(50);
    OP("long chains, hash kind %llu, %llu keys", hash_kind, k);
    model_init(k);
    init_any(&h);
    for(i = 0; i < target; i++)
        op_insert(&h, (u32) i, 1);
    EVMAX("most nodes of few hashes", target);
    for(i = 0; i < 250 && mon_more(); i++) {
        u32 key = rn(3) ? (u32) rn(k) : (u32) (rn(2) ? rn(60) : k - 1 - rn(60));
        switch(rn(4)) {
            case 0: op_lookup(&h, key, (int) rn(2)); break;
            case 1: op_insert(&h, key, 0); break;
            default: op_remove(&h, key, (int) rn(2)); if(rn(2)) op_lookup(&h, key, 0); break;
        }
        check_empty(&h);
        EVAL(h4((u64) hash_kind, key, n_in, ep));
    }
    EV("long chains");
    fini_checked(&h, (int) rn(3));
    CHECK(mon_heap.live_bytes == 0, "%zu bytes leaked by fini", mon_heap.live_bytes);
}

/* C39: allocation failures. */
static void
mode_fault(u64 ep)
{
    HTABLE h;
    size_t k = 2000, ops, nops = 2500;

    if(ep % 24 == 23) {
        /* Around the growth of a bigger table. */
        size_t at = 59 * (((size_t) 1 << rr(6, 11)) - 1);
        k = at * 3 / 2;
        nops = 80;
        hash_kind = 0;
        hash_salt = rnd();
        model_init(k);
        init_any(&h);
        drive(&h, k, at - rn(20), 0);
    } else {
        pick_hash(&k, 1);
        model_init(k);
        init_any(&h);
    }
    OP("fault, hash kind %llu, %llu keys", hash_kind, k);
    for(ops = 0; ops < nops && mon_more(); ops++) {
        u32 key = (u32) rn(k);
        int up = ((ops / 500) % 3 != 2);
        int sticky = (int) rn(2);
        u64 at = rr(1, 3), fired;
        size_t before = n_in;

        if(!up && n_in > 0 && rn(4) != 0)
            key = keys_in[rn(n_in)];
        if(up ? rn(5) != 0 : rn(5) == 0) {
            ITEM* it = item_new(key);
            int r, dup = present[key] != NULL;
            int unsafe = !dup && rn(2);
            cur_key = &it->node;
            mon_fault_arm(at, sticky);
            if(unsafe) r = htable_insert_unsafe(&h, &it->node, cmp_func, hash_func);
            else r = htable_insert(&h, &it->node, cmp_func, hash_func);
            fired = mon_fault_disarm();
            if(dup) {
                CHECK(r == -1, "insert of a present key returned %d", r);
                item_free(it);
            } else if(r == 0) {
                model_add(it);
                if(fired) EV("insert succeeded in spite of a failed allocation");
            } else {
                CHECK(r == -1, "insert returned %d", r);
                CHECK(fired > 0, "insert failed though no allocation did");
                EV("insert failed after a failed allocation");
                OP("insert of %llu failed at %llu, n=%llu", key, at, n_in);
                cur_key = NULL;
                /* Nothing changed: the node is not there, all others are. */
                it->in_table = 0;
                op_lookup(&h, key, 0);
                verify_all(&h, k);
                /* And it succeeds when repeated. */
                cur_key = &it->node;
                r = htable_insert(&h, &it->node, cmp_func, hash_func);
                CHECK(r == 0, "repeated insert returned %d", r);
                model_add(it);
                cur_key = NULL;
                verify_all(&h, k);
            }
            cur_key = NULL;
        } else {
            ITEM* p = present[key];
            ITEM* kk = item_new(key);
            HTABLE_NODE* r;
            cur_key = &kk->node;
            mon_fault_arm(at, sticky);
            r = htable_remove(&h, &kk->node, cmp_func, hash_func);
            fired = mon_fault_disarm();
            cur_key = NULL;
            if(p != NULL) {
                CHECK(r == &p->node, "remove failed or returned another node");
                model_del(key);
                item_free(p);
            } else {
                CHECK(r == NULL, "remove of an absent key returned a node");
            }
            item_free(kk);
        }
        check_empty(&h);
        if(fired) {
            EV("allocation failures injected");
            EVAL(h4(before, at, (u64) sticky, (u64) hash_kind));
            verify_all(&h, k);
        } else {
            EVAL_TRIVIAL();
        }
    }
    verify_all(&h, k);
    fini_checked(&h, (int) rn(3));
}

const struct mon_mode mon_modes[] = {
    { "map", mode_map },
    { "edge", mode_edge },
    { "unsafe", mode_unsafe },
    { "cost", mode_cost },
    { "costbig", mode_costbig },
    { "costhuge", mode_costhuge },
    { "fini", mode_fini },
    { "big", mode_big },
    { "longchain", mode_longchain },
    { "fault", mode_fault },
    { NULL, NULL }
};
