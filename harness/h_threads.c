/* Monitors of the absence of hidden shared state, across all modules: C42.
 *
 * A worker is a little state machine on its own instances of one module; its
 * digest depends on what the module answers only. Workers run
 *   - interleaved step by step in one thread, also from within each other's
 *     callbacks (mode interleave),
 *   - each in its own thread (mode threads),
 *   - each in its own thread, reading the same instances (mode shared);
 * then the same workers run alone, one after another, and the digests must be
 * the same. (The lonely run comes last so that anything built lazily is built
 * by the threads.) ThreadSanitizer watches all of it.
 */
#define MON_THREADS
#include "mon.h"
#include <pthread.h>
#include <sched.h>
#include <fenv.h>
#include <locale.h>
#include <errno.h>
#include <signal.h>

#include "workers.h"

/* ------------------------------------------------------------------------ */
/* Shared instances, only read. */

#define SHN     200
struct SHARED {
    BUFFER buf;
    STACK stack;
    NODE nodes[SHN];
    int n_in;
    HTABLE ht;
    RBTREE rb;
    LIST list;
    SLIST slist;
    QLIST qlist;
    ARRAY_int64 arr;
    ARRAY_uint16 arr2;
    VALUE val;
    u8 data[600];
    char b64[1000];
    int b64_len;
    char hex[1400];
    char* argv[12];
    int argc;
};

static void
shared_init(SHARED* s, W* w)
{
    int i, k;
    char key[16], path[64];
    VALUE* v;
    memset(s, 0, sizeof(*s));
    buffer_init(&s->buf);
    stack_init(&s->stack);
    htable_init(&s->ht);
    rbtree_init(&s->rb);
    list_init(&s->list);
    slist_init(&s->slist);
    qlist_init(&s->qlist);
    array_int64_init(&s->arr);
    array_uint16_init(&s->arr2);
    for(i = 0; i < 30; i++) {
        CHECK(array_int64_append(&s->arr, (int64_t) wr(w, 1ull << 62)) == 0, "array_int64_append");
        CHECK(array_uint16_append(&s->arr2, (uint16_t) wr(w, 65536)) == 0, "array_uint16_append");
    }
    for(i = 0; i < (int) sizeof(s->data); i++)
        s->data[i] = (u8) wr(w, 256);
    CHECK(buffer_append(&s->buf, s->data, sizeof(s->data)) == 0, "buffer_append");
    for(i = 0; i < 40; i++)
        CHECK(stack_push_uint32(&s->stack, (u32) wr(w, 1ull << 32)) == 0, "stack_push");
    for(i = 0; i < SHN; i++) {
        s->nodes[i].key = (u32) wr(w, 400);
        s->nodes[i].tag = (u32) i;
        if(htable_insert(&s->ht, &s->nodes[i].h, ht_cmp, ht_hash) == 0) {
            CHECK(rbtree_insert(&s->rb, &s->nodes[i].r, rb_cmp) == 0, "rbtree_insert");
            s->n_in++;
        }
        list_append(&s->list, &s->nodes[i].l);
        slist_prepend(&s->slist, &s->nodes[i].s);
        qlist_append(&s->qlist, &s->nodes[i].q);
    }
    CHECK(value_init_dict_ex(&s->val, wr(w, 2) ? key_cmp : NULL, VALUE_DICT_MAINTAINORDER) == 0, "value_init_dict_ex");
    for(i = 0; i < 25; i++) {
        v = value_dict_get_or_add_(&s->val, key, wkey(w, key));
        CHECK(v != NULL, "value_dict_get_or_add_");
        if(value_is_new(v) && wr(w, 5))
            set_scalar(w, v);
    }
    for(i = 0; i < 25; i++) {
        wkey(w, key);
        snprintf(path, sizeof(path), "X%s/Y%d/[%d]", key, (int) wr(w, 3), (int) wr(w, 4));
        v = value_build_path(&s->val, path);
        if(v != NULL && value_is_new(v))
            set_scalar(w, v);
    }
    for(i = 0; i < 6; i++) {
        v = value_build_path(&s->val, "some/list[]");
        CHECK(v != NULL, "value_build_path");
        set_scalar(w, v);
    }
    s->b64_len = base64_encode(s->data, sizeof(s->data), s->b64, sizeof(s->b64), NULL);
    CHECK(s->b64_len == 800, "base64_encode");
    CHECK(hex_encode(s->data, sizeof(s->data), s->hex, sizeof(s->hex), 0) == 1200, "hex_encode");
    s->argc = 11;
    s->argv[0] = words[0];
    for(k = 1; k < s->argc; k++)
        s->argv[k] = words[wr(w, NWORDS)];
}

static void
shared_fini(SHARED* s)
{
    buffer_fini(&s->buf);
    stack_fini(&s->stack);
    array_int64_fini(&s->arr);
    array_uint16_fini(&s->arr2);
    htable_fini(&s->ht, NULL);
    value_fini(&s->val);
}

static void sh_init(W* w) { (void) w; }
static void sh_fini(W* w) { (void) w; }
static void
sh_step(W* w)
{
    /* Looking up takes a non-const pointer, but it is not to write. */
    SHARED* s = (SHARED*) w->sh;
    NODE key;
    HTABLE_NODE* h;
    RBTREE_NODE* r;
    RBTREE_CURSOR cur = RBTREE_CURSOR_INITIALIZER;
    u8 out[1300];
    char k[16], path[64];
    size_t n, i, o;
    VALUE* v;

    memset(&key, 0, sizeof(key));
    key.key = (u32) wr(w, 400);
    switch(wr(w, 18)) {
        case 0:
            o = wr(w, buffer_size(&s->buf) + 1);
            DIG(w, dig_bytes(buffer_const_data_at(&s->buf, o), buffer_size(&s->buf) - o));
            DIG(w, buffer_is_empty(&s->buf));
            break;
        case 1:
            DIG(w, stack_peek_uint32(&s->stack));
            DIG(w, stack_peek_int64(&s->stack));
            DIG(w, stack_size(&s->stack) + (size_t) stack_is_empty(&s->stack));
            break;
        case 2: case 3:
            h = htable_lookup(&s->ht, &key.h, ht_cmp, ht_hash);
            DIG(w, h != NULL ? HTABLE_DATA(h, NODE, h)->tag : 999);
            DIG(w, htable_is_empty(&s->ht) != 0);
            break;
        case 4: case 5:
            r = rbtree_lookup(&s->rb, &key.r, rb_cmp);
            DIG(w, r != NULL ? RBTREE_DATA(r, NODE, r)->tag : 999);
            DIG(w, rbtree_is_empty(&s->rb) != 0);
            break;
        case 6: {
            int fwd = (int) wr(w, 2);
            n = 0;
            for(r = fwd ? rbtree_head(&s->rb, &cur) : rbtree_tail(&s->rb, &cur); r != NULL && n <= SHN; n++) {
                DIG(w, RBTREE_DATA(r, NODE, r)->tag);
                r = fwd ? rbtree_next(&cur) : rbtree_prev(&cur);
            }
            WBAD(w, n == (size_t) s->n_in);
            break;
        }
        case 7:
            r = rbtree_lookup_ex(&s->rb, &key.r, rb_cmp, &cur);
            for(i = 0; r != NULL && i < 20; i++) {
                DIG(w, RBTREE_DATA(r, NODE, r)->tag);
                WBAD(w, rbtree_current(&cur) == r);
                r = wr(w, 2) ? rbtree_next(&cur) : rbtree_prev(&cur);
            }
            break;
        case 8: {
            LIST_NODE* l;
            n = 0;
            for(l = list_head(&s->list); l != list_end(&s->list) && n <= SHN; l = list_next(l))
                n++;
            for(l = list_tail(&s->list); l != list_end(&s->list) && n <= 2 * SHN; l = list_prev(l))
                n++;
            WBAD(w, n == 2 * SHN);
            break;
        }
        case 9:
            n = wkey(w, k);
            v = value_dict_get_(&s->val, k, n);
            DIG(w, v != NULL ? dig_value(v, 0) : 6);
            snprintf(path, sizeof(path), "X%s/Y%d/[%d]", k, (int) wr(w, 3), (int) wr(w, 5) - 2);
            v = value_path(&s->val, path);
            DIG(w, v != NULL ? dig_value(v, 0) : 7);
            break;
        case 10:
            if(wr(w, 3) == 0)
                DIG(w, dig_value(&s->val, 0));
            DIG(w, value_dict_walk_sorted(&s->val, val_visit, w));
            DIG(w, value_dict_walk_ordered(&s->val, val_visit, w));
            break;
        case 11:
            n = 4 * wr(w, 200);
            DIG(w, base64_decode(s->b64, (unsigned) n, out, sizeof(out), NULL));
            WBAD(w, memcmp(out, s->data, n / 4 * 3) == 0);
            WBAD(w, base64_encode(s->data, (unsigned) (n / 4 * 3), (char*) out, sizeof(out), NULL) == (int) n
                    && memcmp(out, s->b64, n) == 0);
            break;
        case 12:
            n = wr(w, sizeof(s->data));
            DIG(w, hex_decode(s->hex, (unsigned) (2 * n), out, sizeof(out)));
            WBAD(w, memcmp(out, s->data, n) == 0);
            WBAD(w, hex_encode(s->data, (unsigned) n, (char*) out, sizeof(out), 0) == 2 * (int) n && memcmp(out, s->hex, 2 * n) == 0);
            DIG(w, crc32(s->data, n));
            DIG(w, fnv1a_32(FNV1A_BASE_32, s->data, n));
            DIG(w, fnv1a_64(FNV1A_BASE_64, s->data, n));
            break;
        case 13: {
            SLIST_NODE* x;
            QLIST_NODE* q;
            i = 0;
            for(x = slist_head(&s->slist); x != slist_end(&s->slist) && i <= SHN; x = slist_next(x), i++)
                WBAD(w, x == &s->nodes[SHN - 1 - i].s);
            for(q = qlist_head(&s->qlist); q != qlist_end(&s->qlist) && i <= 2 * SHN; q = qlist_next(q), i++)
                WBAD(w, q == &s->nodes[i - SHN].q);
            WBAD(w, i == 2 * SHN && qlist_tail(&s->qlist) == &s->nodes[SHN - 1].q);
            WBAD(w, !slist_is_empty(&s->slist) && !qlist_is_empty(&s->qlist));
            n = wr(w, 30);
            DIG(w, (u64) array_int64_get(&s->arr, n));
            DIG(w, array_uint16_get(&s->arr2, n));
            DIG(w, array_int64_size(&s->arr) + array_uint16_size(&s->arr2) + (size_t) array_int64_is_empty(&s->arr));
            WBAD(w, array_uint16_const_data(&s->arr2)[n] == array_uint16_get(&s->arr2, n));
            break;
        }
        case 14: {
            VALUE* l;
            snprintf(path, sizeof(path), "some/list[%d]", (int) wr(w, 14) - 7);
            v = value_path(&s->val, path);
            DIG(w, v != NULL ? dig_value(v, 0) : 7);
            l = value_dict_get(value_dict_get(&s->val, "some"), "list");
            WBAD(w, value_array_size(l) == 6);
            n = wr(w, 6);
            WBAD(w, value_array_get_all(l) + n == value_array_get(l, n));
            DIG(w, value_dict_get(&s->val, "none") != NULL);
            break;
        }
        case 15: {
            /* Any sizes and options. */
            BASE64_OPTIONS opts = { '-', '_', '=' };
            int e;
            if(wr(w, 2)) opts.pad = '\0';
            n = wr(w, sizeof(s->data));
            e = base64_encode(s->data, (unsigned) n, NULL, 0, &opts);
            DIG(w, e);
            e = base64_encode(s->data, (unsigned) n, (char*) out, sizeof(out), &opts);
            WBAD(w, e >= 0 && e <= 800);
            if(e >= 0) {
                u8 back[700];
                DIG(w, base64_decode((char*) out, (unsigned) e, NULL, 0, &opts));
                WBAD(w, base64_decode((char*) out, (unsigned) e, back, sizeof(back), &opts) == (int) n && memcmp(back, s->data, n) == 0);
            }
            n = wr(w, (u64) s->b64_len + 1);
            DIG(w, base64_decode(s->b64, (unsigned) n, out, sizeof(out), NULL));
            DIG(w, base64_encode(s->data, (unsigned) n % 600, (char*) out, 3, NULL) < 0);
            DIG(w, base64_decode((const char*) s->data, (unsigned) n % 600, out, sizeof(out), NULL));
            DIG(w, base64_decode(s->b64, (unsigned) n, out, (unsigned) n / 2, NULL) >= 0);
            DIG(w, hex_encode(s->data, (unsigned) n % 600, NULL, 0, 1));
            DIG(w, hex_decode(s->hex, (unsigned) n, NULL, 0) >= 0);
            break;
        }
        case 16:
            DIG(w, cmdline_read(plain_options, s->argc, s->argv, cl_cb, w));
            break;
        default:
            DIG(w, cmdline_read(options, s->argc, s->argv, cl_cb, w));
            break;
    }
}

/* ------------------------------------------------------------------------ */

static const KIND shared_kind = { "shared", sh_init, sh_step, sh_fini };

#define MAXW    8

static void
w_start(W* w, const KIND* k, u64 seed, const SHARED* sh)
{
    memset(w, 0, sizeof(*w));
    w->kind = k;
    w->seed = seed;
    w->rng = seed;
    w->dig = seed;
    w->sh = sh;
    k->init(w);
}

/* The reference: the same worker with nobody around. */
static void
compare(const W* w, unsigned idx)
{
    W ref;
    unsigned i;
    w_start(&ref, w->kind, w->seed, w->sh);
    for(i = 0; i < w->steps; i++)
        run_step(&ref);
    ref.kind->fini(&ref);
    OP("worker #%llu (seed %llu): %llu steps, digests %llx and %llx", idx, w->seed, w->steps, w->dig, ref.dig);
    CHECK(!ref.bad, "%s: wrong result when alone (line %d)", w->kind->name, ref.bad);
    CHECK(!w->bad, "%s: wrong result among others (line %d)", w->kind->name, w->bad);
    CHECK(w->dig == ref.dig, "%s: results differ from those when alone", w->kind->name);
    mon_ev[mon_ev_index(w->kind->name)].n += w->steps;
    EVN("steps from within callbacks of another", w->nested);
    for(i = 0; i < w->steps; i++)
        mon_n_evals++;
    mon_n_evals--;
    EVAL(h2(w->dig, w->seed));
}

static void
mode_interleave(u64 ep)
{
    W w[MAXW];
    unsigned n = 2 + (unsigned) rn(MAXW - 1), i, steps = 40 + (unsigned) rn(120);
    /* Mostly the same module. */
    const KIND* k = &kinds[ep % NKINDS];
    int mix = chance(1, 3);
    for(i = 0; i < n; i++)
        w_start(&w[i], mix ? &kinds[rn(NKINDS)] : k, rnd(), NULL);
    for(i = 0; i + 1 < n; i++) {
        if(chance(2, 3))
            w[i].peer = &w[i + 1];
    }
    while(steps-- > 0) {
        i = (unsigned) rn(n);
        run_step(&w[i]);
    }
    for(i = 0; i < n; i++) {
        w[i].peer = NULL;       /* perhaps already gone */
        w[i].kind->fini(&w[i]);
    }
    for(i = 0; i < n; i++)
        compare(&w[i], i);
    EVN("interleaved workers", n);
}

/* The order in which threads made their steps. (Relaxed: synchronizes nothing.) */
#define MAXTICKET   (MAXW * 256)
static unsigned ticket;
static u8 ticket_owner[MAXTICKET];

typedef struct TH {
    pthread_t id;
    u8 no;
    pthread_barrier_t* bar;
    W* w;
    unsigned steps;
} TH;

static void*
thread_main(void* arg)
{
    TH* t = arg;
    unsigned i;
    pthread_barrier_wait(t->bar);
    for(i = 0; i < t->steps; i++) {
        unsigned k = __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED);
        if(k < MAXTICKET)
            ticket_owner[k] = t->no;
        run_step(t->w);
        if(t->w->yields && (t->w->rng & 15) == 0)
            sched_yield();
    }
    return NULL;
}

static void
run_threads(W* w, unsigned n, unsigned steps)
{
    TH th[MAXW];
    pthread_barrier_t bar;
    unsigned i;
    u64 order = 0, switches = 0;
    pthread_barrier_init(&bar, NULL, n);
    ticket = 0;
    for(i = 0; i < n; i++) {
        memset(&th[i], 0, sizeof(th[i]));
        th[i].bar = &bar;
        th[i].no = (u8) i;
        th[i].w = &w[i];
        th[i].steps = steps;
        w[i].yields = (int) rn(2);
        if(pthread_create(&th[i].id, NULL, thread_main, &th[i]) != 0)
            mon_die("pthread_create");
    }
    for(i = 0; i < n; i++)
        pthread_join(th[i].id, NULL);
    pthread_barrier_destroy(&bar);
    for(i = 0; i < n; i++)
        w[i].kind->fini(&w[i]);
    for(i = 0; i < n; i++)
        compare(&w[i], i);
    EVN("threads", n);
    for(i = 0; i < ticket && i < MAXTICKET; i++) {
        order = order * 31 + ticket_owner[i];
        if(i > 0 && ticket_owner[i] != ticket_owner[i - 1])
            switches++;
    }
    EVN("observed switches between threads", switches);
    EVMAX("switches in one run", switches);
    mon_state(h2(order, 12345));     /* distinct interleavings count as states, too */
}

static void
mode_threads(u64 ep)
{
    W w[MAXW];
    unsigned n = 2 + (unsigned) rn(MAXW - 1), i;
    const KIND* k = &kinds[ep % NKINDS];
    int mix = chance(1, 4);
    for(i = 0; i < n; i++)
        w_start(&w[i], mix ? &kinds[rn(NKINDS)] : k, rnd(), NULL);
    run_threads(w, n, 30 + (unsigned) rn(170));
}

static void
mode_shared(u64 ep)
{
    W w[MAXW], builder;
    static SHARED sh;
    unsigned n = 2 + (unsigned) rn(MAXW - 1), i;
    (void) ep;
    memset(&builder, 0, sizeof(builder));
    builder.rng = rnd();
    shared_init(&sh, &builder);
    for(i = 0; i < n; i++)
        w_start(&w[i], &shared_kind, rnd(), &sh);
    run_threads(w, n, 60 + (unsigned) rn(100));
    shared_fini(&sh);
}

#ifndef MON_NOWRAP
/* C46: what needs no memory goes on when there is none. */
static void
mode_dry(u64 ep)
{
    static const char* const needless[] = { "rbtree", "list", "codec", "cmdline", "macros" };
    const KIND* k = NULL;
    static SHARED sh;
    W w, builder;
    u64 i, fired = 0, what = ep % 8;
    unsigned steps = 30 + (unsigned) rn(100);

    if(what < 5) {
        for(i = 0; i < NKINDS; i++) {
            if(strcmp(kinds[i].name, needless[what]) == 0)
                k = &kinds[i];
        }
        if(k == NULL)
            mon_die("no such kind");
        w_start(&w, k, rnd(), NULL);
    } else {
        memset(&builder, 0, sizeof(builder));
        builder.rng = rnd();
        shared_init(&sh, &builder);
        w_start(&w, &shared_kind, rnd(), &sh);
    }
    OP("%llu steps of the kind %llu without memory", steps, what);
    for(i = 0; i < steps; i++) {
        int none = chance(3, 4);
        if(none)
            mon_fault_arm(1, 1);
        run_step(&w);
        if(none) {
            fired += mon_fault_disarm();
            EV("steps without memory");
        }
    }
    EVN("requests refused", fired);
    w.kind->fini(&w);
    compare(&w, 0);
    if(what >= 5)
        shared_fini(&sh);
}

/* C46: the same with much data. */
typedef struct CL { u64 dig; int n, stop; } CL;
static int
big_cb(int id, const char* arg, void* ud)
{
    CL* c = (CL*) ud;
    c->dig = h2(c->dig, (u64) (u32) id);
    c->dig = h2(c->dig, arg != NULL ? dig_bytes(arg, strlen(arg)) : 3);
    return ++c->n == c->stop ? 77 : 0;
}
static int
big_walk(const VALUE* key, VALUE* v, void* ud)
{
    u64* sum = (u64*) ud;
    *sum = h2(*sum, (u64) value_int64(v));
    *sum = h2(*sum, dig_bytes(value_string(key), value_string_length(key)));
    return 0;
}
#define DRY(call)   do { mon_fault_arm(1, 1); call; fired += mon_fault_disarm(); } while(0)

static void
mode_drybig(u64 ep)
{
    size_t n = (size_t) 1 << (6 + rn(9)), i, k, got;
    u64 fired = 0, d1, d2;
    W w;
    NODE key;
    n += rn(n);
    memset(&w, 0, sizeof(w));
    memset(&key, 0, sizeof(key));
    w.rng = rnd();
    OP("kind %llu of %llu items", ep % 5, n);
    switch(ep % 5) {
        case 0: {
            HTABLE_NODE* h;
            nodes_make(&w, (int) n, 0x7fffffff);
            htable_init(&w.ht);
            for(i = 0; i < n; i++)
                w.nodes[i].in = htable_insert(&w.ht, &w.nodes[i].h, ht_cmp, ht_hash) == 0;
            for(k = 0; k < 300; k++) {
                i = rn(n);
                key.key = chance(1, 4) ? (u32) rnd() | 0x80000000u : w.nodes[i].key;
                DRY(h = htable_lookup(&w.ht, &key.h, ht_cmp, ht_hash));
                if(key.key & 0x80000000u)
                    CHECK(h == NULL, "htable_lookup() of an absent key");
                else
                    CHECK(h != NULL && HTABLE_DATA(h, NODE, h)->key == key.key && HTABLE_DATA(h, NODE, h)->in, "htable_lookup() without memory");
            }
            for(i = 0; i < n; i++) {
                key.key = w.nodes[i].key;
                DRY(h = htable_remove(&w.ht, &key.h, ht_cmp, ht_hash));
                CHECK((h != NULL) == w.nodes[i].in, "htable_remove() without memory");
                CHECK(h == NULL || h == &w.nodes[i].h, "htable_remove(): another node");
            }
            CHECK(htable_is_empty(&w.ht), "htable_is_empty()");
            htable_fini(&w.ht, NULL);
            xfree(w.nodes);
            break;
        }
        case 1: {
            RBTREE_NODE* r = NULL;
            RBTREE_NODE* prev;
            RBTREE_CURSOR cur = RBTREE_CURSOR_INITIALIZER;
            int seq = chance(1, 2), e = 0;
            nodes_make(&w, (int) n, 0x7fffffff);
            rbtree_init(&w.rb);
            for(i = got = 0; i < n; i++) {
                if(seq)
                    w.nodes[i].key = (u32) i * 2;
                DRY(e = rbtree_insert(&w.rb, &w.nodes[i].r, rb_cmp));
                w.nodes[i].in = e == 0;
                got += e == 0;
            }
            CHECK(!seq || got == n, "rbtree_insert() without memory");
            for(k = 0; k < 200; k++) {
                i = rn(n);
                key.key = w.nodes[i].key;
                DRY(r = rbtree_lookup(&w.rb, &key.r, rb_cmp));
                CHECK(r != NULL && RBTREE_DATA(r, NODE, r)->key == key.key, "rbtree_lookup() without memory");
                DRY(r = rbtree_lookup_ex(&w.rb, &key.r, rb_cmp, &cur));
                CHECK(r != NULL && RBTREE_DATA(r, NODE, r)->key == key.key, "rbtree_lookup_ex() without memory");
                DRY(prev = rbtree_current(&cur));
                CHECK(prev == r, "rbtree_current() without memory");
            }
            mon_fault_arm(1, 1);
            for(r = rbtree_head(&w.rb, &cur), prev = NULL, k = 0; r != NULL; prev = r, r = rbtree_next(&cur), k++) {
                if(prev != NULL)
                    CHECK(RBTREE_DATA(prev, NODE, r)->key < RBTREE_DATA(r, NODE, r)->key, "order of rbtree_next()");
            }
            CHECK(k == got, "rbtree_next() without memory");
            for(r = rbtree_tail(&w.rb, &cur), k = 0; r != NULL; r = rbtree_prev(&cur))
                k++;
            CHECK(k == got, "rbtree_prev() without memory");
            for(i = 0; i < n; i++) {
                if(rn(2) || !w.nodes[i].in)
                    continue;
                r = rbtree_remove(&w.rb, &w.nodes[i].r, rb_cmp);
                CHECK(r == &w.nodes[i].r, "rbtree_remove() without memory");
                got--;
            }
            while((r = rbtree_fini_step(&w.rb)) != NULL)
                got--;
            fired += mon_fault_disarm();
            CHECK(got == 0, "rbtree_fini_step() without memory");
            xfree(w.nodes);
            break;
        }
        case 2: {
            size_t size = n * (1 + rn(40)), cap = size * 2 + 8;
            u8* in = (u8*) xmalloc(size);
            char* a = (char*) xmalloc(cap);
            char* b = (char*) xmalloc(cap);
            u8* back = (u8*) xmalloc(size);
            int e1, e2 = -1;
            for(i = 0; i < size; i += 8) {
                u64 x = rnd();
                memcpy(in + i, &x, size - i < 8 ? size - i : 8);
            }
            e1 = base64_encode(in, (unsigned) size, a, (unsigned) cap, NULL);
            DRY(e2 = base64_encode(in, (unsigned) size, b, (unsigned) cap, NULL));
            CHECK(e1 == e2 && e1 > 0 && memcmp(a, b, (size_t) e1 + 1) == 0, "base64_encode() without memory");
            DRY(e2 = base64_encode(in, (unsigned) size, NULL, 0, NULL));
            CHECK(e2 == e1 + 1, "base64_encode(): size without memory");
            DRY(e2 = base64_decode(a, (unsigned) e1, back, (unsigned) size, NULL));
            CHECK(e2 == (int) size && memcmp(in, back, size) == 0, "base64_decode() without memory");
            DRY(e2 = base64_decode(a, (unsigned) e1, NULL, 0, NULL));
            CHECK(e2 == (int) size, "base64_decode(): size without memory");
            e1 = hex_encode(in, (unsigned) size, a, (unsigned) cap, 1);
            DRY(e2 = hex_encode(in, (unsigned) size, b, (unsigned) cap, 1));
            CHECK(e1 == e2 && e1 == (int) size * 2 && memcmp(a, b, (size_t) e1 + 1) == 0, "hex_encode() without memory");
            memset(back, 0, size);
            DRY(e2 = hex_decode(a, (unsigned) e1, back, (unsigned) size));
            CHECK(e2 == (int) size && memcmp(in, back, size) == 0, "hex_decode() without memory");
            d1 = crc32(in, size);
            DRY(d2 = crc32(in, size));
            CHECK(d1 == d2, "crc32() without memory");
            d1 = fnv1a_32(FNV1A_BASE_32, in, size);
            DRY(d2 = fnv1a_32(FNV1A_BASE_32, in, size));
            CHECK(d1 == d2, "fnv1a_32() without memory");
            d1 = fnv1a_64(FNV1A_BASE_64, in, size);
            DRY(d2 = fnv1a_64(FNV1A_BASE_64, in, size));
            CHECK(d1 == d2, "fnv1a_64() without memory");
            xfree(in); xfree(a); xfree(b); xfree(back);
            break;
        }
        case 3: {
            int argc = 1 + (int) (n / 4), no = 1 + (int) rn(60), e1, e2 = -1;
            char** argv = (char**) xmalloc((size_t) argc * sizeof(char*) + sizeof(char*));
            CMDLINE_OPTION* opts = (CMDLINE_OPTION*) xmalloc((size_t) (no + 1) * sizeof(CMDLINE_OPTION));
            char names[60][24];
            CL c1, c2;
            memset(opts, 0, (size_t) (no + 1) * sizeof(CMDLINE_OPTION));
            for(i = 0; i < (size_t) no; i++) {
                int kind = (int) rn(4);
                snprintf(names[i], sizeof(names[i]), kind == 3 ? "-X%u" : "long-option-%u", (unsigned) i);
                opts[i].shortname = (char) (i < 26 ? 'a' + i : i < 52 ? 'A' + i - 26 : 0);
                opts[i].longname = names[i];
                opts[i].id = 100 + (int) i;
                opts[i].flags = kind == 3 ? CMDLINE_OPTFLAG_COMPILERLIKE : kind == 2 ? CMDLINE_OPTFLAG_REQUIREDARG :
                                kind == 1 ? CMDLINE_OPTFLAG_OPTIONALARG : 0;
            }
            argv[0] = words[0];
            for(i = 1; i < (size_t) argc; i++) {
                size_t len = rn(chance(1, 20) ? 20000 : 30), o = rn((u64) no);
                char* s = argv[i] = (char*) xmalloc(len + 100);
                switch(rn(7)) {
                    case 0: sprintf(s, "--%s", names[o]); break;
                    case 1: sprintf(s, "--%s=", names[o]); s += strlen(s); memset(s, 'v', len); s[len] = 0; break;
                    case 2: sprintf(s, "-%c", "abcdXYZ-_"[rn(9)]); s += strlen(s); for(k = 0; k < len; k++) s[k] = (char) ("abcdefghij-XYZ="[rn(15)]); s[len] = 0; break;
                    case 3: memset(s, 'u', len + 2); s[0] = s[1] = '-'; s[len + 2] = 0; s[2 + rn(len + 1)] = '='; s[len + 3] = 0; break;
                    case 4: sprintf(s, "%s", names[o]); s += strlen(s); memset(s, 'w', len); s[len] = 0; break;
                    case 5: sprintf(s, "-%c", opts[o].shortname ? opts[o].shortname : 'q'); break;
                    default: memset(s, 'n', len); s[len] = 0; break;
                }
                if(strcmp(argv[i], "--") == 0)
                    strcpy(argv[i], "-");
            }
            argv[argc] = NULL;
            memset(&c1, 0, sizeof(c1));
            if(chance(1, 4))
                c1.stop = 1 + (int) rn((u64) argc);
            c2 = c1;
            e1 = cmdline_read(opts, argc, argv, big_cb, &c1);
            DRY(e2 = cmdline_read(opts, argc, argv, big_cb, &c2));
            CHECK(e1 == e2 && c1.n == c2.n && c1.dig == c2.dig, "cmdline_read() without memory");
            for(i = 1; i < (size_t) argc; i++)
                xfree(argv[i]);
            xfree(argv);
            xfree(opts);
            break;
        }
        default: {
            VALUE d, a;
            VALUE* v = NULL;
            const VALUE** keys;
            char name[64];
            size_t size = n / 4 + 1;
            int order = (int) rn(2);
            CHECK(value_init_dict_ex(&d, NULL, order ? VALUE_DICT_MAINTAINORDER : 0) == 0, "value_init_dict_ex()");
            CHECK(value_init_array(&a) == 0, "value_init_array()");
            for(i = 0; i < size; i++) {
                snprintf(name, sizeof(name), "%.*skey%u", (int) (i % 40), "a rather long prefix of the key, so that", (unsigned) i);
                v = value_dict_add(&d, name);
                CHECK(v != NULL && value_init_int64(v, (int64_t) i) == 0, "value_dict_add()");
                v = value_array_append(&a);
                CHECK(v != NULL && value_init_int64(v, (int64_t) i) == 0, "value_array_append()");
            }
            keys = (const VALUE**) xmalloc(size * sizeof(VALUE*));
            for(k = 0; k < 100; k++) {
                i = rn(size);
                snprintf(name, sizeof(name), "%.*skey%u", (int) (i % 40), "a rather long prefix of the key, so that", (unsigned) i);
                DRY(v = value_dict_get(&d, name));
                CHECK(v != NULL && value_int64(v) == (int64_t) i, "value_dict_get() without memory");
                DRY(v = value_path(&d, name));
                CHECK(v != NULL && value_int64(v) == (int64_t) i, "value_path() without memory");
                DRY(v = value_dict_get_or_add(&d, name));
                CHECK(v != NULL && value_int64(v) == (int64_t) i, "value_dict_get_or_add() of a present key without memory");
                DRY(v = value_array_get(&a, i));
                CHECK(v != NULL && value_int64(v) == (int64_t) i, "value_array_get() without memory");
                snprintf(name, sizeof(name), "[%d]", -(int) (i + 1));
                DRY(v = value_path(&a, name));
                CHECK(v != NULL && value_int64(v) == (int64_t) (size - 1 - i), "value_path() into an array without memory");
            }
            d1 = d2 = 0;
            CHECK(value_dict_walk_sorted(&d, big_walk, &d1) == 0, "value_dict_walk_sorted()");
            i = 1;
            DRY(i = (size_t) value_dict_walk_sorted(&d, big_walk, &d2));
            CHECK(i == 0 && d1 == d2, "value_dict_walk_sorted() without memory");
            DRY(got = value_dict_keys_sorted(&d, keys, size));
            CHECK(got == size, "value_dict_keys_sorted() without memory");
            if(order) {
                DRY(got = value_dict_keys_ordered(&d, keys, size));
                CHECK(got == size, "value_dict_keys_ordered() without memory");
                d1 = d2 = 0;
                CHECK(value_dict_walk_ordered(&d, big_walk, &d1) == 0, "value_dict_walk_ordered()");
                DRY(i = (size_t) value_dict_walk_ordered(&d, big_walk, &d2));
                CHECK(i == 0 && d1 == d2, "value_dict_walk_ordered() without memory");
            }
            DRY(got = value_dict_size(&d) + value_array_size(&a));
            CHECK(got == 2 * size, "sizes without memory");
            DRY(i = (size_t) value_array_remove_range(&a, 1, size - 1));
            CHECK(i == 0 && value_array_size(&a) == 1, "value_array_remove_range() without memory");
            DRY(i = (size_t) value_dict_remove(&d, "key0"));
            CHECK(i == 0 && value_dict_size(&d) == size - 1, "value_dict_remove() without memory");
            DRY(value_dict_clean(&d));
            CHECK(value_dict_size(&d) == 0, "value_dict_clean() without memory");
            DRY(value_fini(&d));
            DRY(value_fini(&a));
            xfree(keys);
            break;
        }
    }
    EVN("requests refused", fired);
    EVAL(h2(ep % 5, n));
}

/* C47: nothing but the arguments matters, and nothing but them is affected. */
static const char* const locales[] = { "C", "C.UTF-8", "tr_TR.ISO-8859-9" };
static const char* const variables[] = { "POSIXLY_CORRECT", "LC_ALL", "LANG", "COLUMNS", "DEBUG", "MALLOC_CHECK_", "TMPDIR", "TZ" };
#define NVARS   (sizeof(variables) / sizeof(variables[0]))
static const int roundings[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static const int errors[] = { 0, ERANGE, ENOMEM, EINVAL, EOVERFLOW, ENOBUFS, EINTR, EDOM };

typedef struct WORLD {
    const char* loc;
    int rounding, err;
    u64 environ_dig;
} WORLD;

extern char** environ;
static u64
environ_dig(void)
{
    u64 d = 1;
    char** e;
    for(e = environ; *e != NULL; e++)
        d = h2(d, dig_bytes(*e, strlen(*e)));
    return d;
}

static __attribute__((noinline)) void
scribble(int c)
{
    volatile char junk[6000];
    memset((char*) junk, c, sizeof(junk));
    __asm__ volatile("" : : "r"(junk) : "memory");
}

static void
world_set(WORLD* x, int wild, int rounding_too)
{
    size_t i;
    x->loc = locales[wild ? rn(3) : 0];
    if(setlocale(LC_ALL, x->loc) == NULL)
        setlocale(LC_ALL, x->loc = "C");
    else if(wild)
        mon_ev[mon_ev_index(x->loc)].n++;
    x->rounding = roundings[wild && rounding_too ? rn(4) : 0];
    fesetround(x->rounding);
    x->err = errors[wild ? rn(8) : 0];
    for(i = 0; i < NVARS; i++) {
        if(wild && rn(2))
            setenv(variables[i], chance(1, 2) ? "1" : "", 1);
        else
            unsetenv(variables[i]);
    }
    x->environ_dig = environ_dig();
    mon_fresh_byte = wild ? (u8) ("\xa5\x00\xff\x01\x7f"[rn(5)]) : 0xa5;
}

/* The rounding of floating-point numbers by the getters of integers. */
static void
getters(W* w)
{
    static const double at[] = { 0.0, 1.0, 1e3, 8388607.0, 16777215.0, 2147483600.0, 4294967200.0, 1e13, -1e14 };
    static const double exact[] = { 4503599627370495.5, 4503599627370495.0, 4503599627370494.5, 9007199254740991.0, 9e15, 0.49999999999999994, 1e-300 };
    VALUE v;
    /* (The sum is exact.) */
    double d = wr(w, 4) ? at[wr(w, 9)] + (double) wr(w, 41) / 8.0 : exact[wr(w, 7)];
    if(wr(w, 2))
        d = -d;
    if(wr(w, 2)) {
        WBAD(w, value_init_double(&v, d) == 0);
    } else {
        float f = (float) wr(w, 1 << 20) + (float) wr(w, 8) / 8.0f;
        WBAD(w, value_init_float(&v, wr(w, 2) ? f : -f) == 0);
    }
    DIG(w, value_is_compatible(&v, VALUE_INT32));
    DIG(w, value_is_compatible(&v, VALUE_UINT32));
    DIG(w, value_int64(&v));
    DIG(w, value_is_compatible(&v, VALUE_INT64));
    DIG(w, value_is_compatible(&v, VALUE_UINT64));
    d = value_double(&v);
    if(-2147483648.0 < d && d < 2147483647.0)
        DIG(w, value_int32(&v));
    if(0.0 <= d && d < 4294967295.0)
        DIG(w, value_uint32(&v));
    if(0.0 <= d)
        DIG(w, value_uint64(&v));
    value_fini(&v);
}
static void none_init(W* w) { (void) w; }
static const KIND getters_kind = { "getters", none_init, getters, none_init };

/* Paths into long arrays. */
static void
paths_init(W* w)
{
    size_t n = 1 + wr(w, 3000), i;
    WBAD(w, value_init_array(&w->val) == 0);
    for(i = 0; i < n; i++) {
        VALUE* v = value_array_append(&w->val);
        WBAD(w, v != NULL && value_init_int64(v, (int64_t) i) == 0);
    }
}
static void
paths(W* w)
{
    char path[40];
    VALUE* v;
    snprintf(path, sizeof(path), "[%s%u]", wr(w, 3) ? "" : "-", (unsigned) wr(w, 3200));
    if(wr(w, 10) == 0)
        snprintf(path, sizeof(path), "[%llu%llu]", (unsigned long long) wr(w, 1ull << 62), (unsigned long long) wr(w, 1000));
    v = value_path(&w->val, path);
    DIG(w, v != NULL ? value_int64(v) : -1);
    v = value_array_get(&w->val, wr(w, 3200));
    DIG(w, v != NULL ? value_int64(v) : -1);
}
static void paths_fini(W* w) { value_fini(&w->val); }
static const KIND paths_kind = { "paths", paths_init, paths, paths_fini };

static void
mode_world(u64 ep)
{
    W w;
    WORLD x;
    const KIND* k = ep % (NKINDS + 2) < NKINDS ? &kinds[ep % (NKINDS + 2)] : ep % (NKINDS + 2) == NKINDS ? &getters_kind : &paths_kind;
    unsigned i, steps = 30 + (unsigned) rn(100);
    int rounding_too = strcmp(k->name, "value") != 0 && strcmp(k->name, "macros") != 0;
    off_t out, err;
    sigset_t mask0, mask1;
    void* junk[8] = { 0 };
    static int outfd = -1;

    if(outfd < 0) {
        FILE* f = tmpfile();
        if(f == NULL || dup2(fileno(f), 1) < 0)
            mon_die("no standard output");
        outfd = 1;
        setvbuf(stdout, NULL, _IONBF, 0);
    }
    sigprocmask(SIG_SETMASK, NULL, &mask0);
    world_set(&x, 1, rounding_too);
    w_start(&w, k, rnd(), NULL);
    OP("%llu steps", steps);
    for(i = 0; i < steps; i++) {
        u64 r = rn(8);
        world_set(&x, 1, rounding_too);
        /* Other addresses. */
        xfree(junk[r]);
        junk[r] = xmalloc(1 + rn(chance(1, 8) ? 100000 : 300));
        out = lseek(1, 0, SEEK_CUR);
        err = lseek(2, 0, SEEK_CUR);
        scribble((int) "\x00\xff\x5a\x01"[rn(4)]);
        errno = x.err;
        run_step(&w);
        CHECK(fegetround() == x.rounding, "%s: the rounding mode has changed", k->name);
        CHECK(strcmp(setlocale(LC_ALL, NULL), x.loc) == 0, "%s: the locale has changed", k->name);
        CHECK(environ_dig() == x.environ_dig, "%s: the environment has changed", k->name);
        CHECK(lseek(1, 0, SEEK_CUR) == out, "%s: something has been printed to the standard output", k->name);
        CHECK(lseek(2, 0, SEEK_CUR) == err, "%s: something has been printed to the standard error", k->name);
        EV("steps in a changed world");
    }
    sigprocmask(SIG_SETMASK, NULL, &mask1);
    for(i = 1; i < 32; i++)
        CHECK(sigismember(&mask0, (int) i) == sigismember(&mask1, (int) i), "%s: the signal mask has changed", k->name);
    w.kind->fini(&w);
    world_set(&x, 0, 0);
    for(i = 0; i < 8; i++)
        xfree(junk[i]);
    compare(&w, 0);
}
#endif

const struct mon_mode mon_modes[] = {
    { "interleave", mode_interleave },
    { "threads", mode_threads },
    { "shared", mode_shared },
#ifndef MON_NOWRAP
    { "dry", mode_dry },
    { "drybig", mode_drybig },
    { "world", mode_world },
#endif
    { NULL, NULL }
};
