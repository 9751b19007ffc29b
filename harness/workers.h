/* Workers: little state machines on instances of each module, of which the
 * digest depends on what the module answers only. Used by h_threads.c, and by
 * h_cpp.c and h_cpp_user.cpp, where it is compiled as C and as C++. */

#include "buffer.h"
#include "htable.h"
#include "list.h"
#include "rbtree.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "memchunk.h"
#include "malloca.h"
#include "cmdline.h"
#include "defs.h"

typedef struct W W;
typedef struct KIND KIND;
typedef struct SHARED SHARED;

struct KIND {
    const char* name;
    void (*init)(W*);
    void (*step)(W*);
    void (*fini)(W*);
};

typedef struct NODE {
    HTABLE_NODE h;
    RBTREE_NODE r;
    LIST_NODE l;
    SLIST_NODE s;
    QLIST_NODE q;
    u32 key;
    u32 tag;
    int in;
} NODE;

#define NNODES  48
#define NBLK    24

struct W {
    const KIND* kind;
    u64 rng;
    u64 seed;
    u64 dig;
    int bad;
    int depth;              /* in a callback of this worker */
    W* peer;                /* to be run from our callbacks */
    int peer_left;
    int yields;
    unsigned steps;
    unsigned nested;
    const SHARED* sh;
    void (*freea)(void*);   /* of another source file; or NULL */

    BUFFER buf;
    STACK stack;
    ARRAY_int32 arr;
    ARRAY_int8 a_int8;
    ARRAY_uint8 a_uint8;
    ARRAY_int16 a_int16;
    ARRAY_uint16 a_uint16;
    ARRAY_int32 a_int32;
    ARRAY_uint32 a_uint32;
    ARRAY_int64 a_int64;
    ARRAY_uint64 a_uint64;
    ARRAY_ptr a_ptr;
    int words;              /* pushed on the stack of kinds */
    u8 kinds[64];
    char room[32];
    HTABLE ht;
    RBTREE rb;
    LIST list;
    SLIST slist;
    QLIST qlist;
    NODE* nodes;
    VALUE val;
    VALUE val2;
    MEMCHUNK chunk;
    struct { u8* p; size_t n; u8 c; } blk[NBLK];
    int n_blk;
};

/* Who runs in this thread (for callbacks without any context). */
static __thread W* self;

static u64
wr(W* w, u64 n)
{
    w->rng += 0x9e3779b97f4a7c15ULL;
    return mon_mix(w->rng) % n;
}
#define DIG(w, x)   do { u64 x_ = (u64) (x); (w)->dig = h2((w)->dig, x_); } while(0)
#define WBAD(w, c)  do { if(!(c) && !(w)->bad) (w)->bad = __LINE__; } while(0)

static u64
dig_bytes(const void* p, size_t n)
{
    const u8* b = (const u8*) p;
    u64 h = n;
    while(n-- > 0)
        h = h * 0x100000001b3ULL + *b++;
    return h;
}

static void run_step(W* w);

/* Called from every callback. */
static void
callback(void)
{
    W* w = self;
    W* p;
    if(w == NULL)
        return;
    if(w->yields > 0 && (w->yields++ & 7) == 0)
        sched_yield();
    p = w->peer;
    if(p != NULL && p->depth == 0 && w->peer_left > 0 && ((w->dig ^ (u64) w->peer_left) & 3) == 0) {
        w->peer_left--;
        w->nested++;
        run_step(p);
        self = w;
    } else if(p != NULL && w->peer_left > 0) {
        w->peer_left--;
    }
}

static void
run_step(W* w)
{
    self = w;
    w->depth++;
    w->peer_left = 12;
    w->kind->step(w);
    w->steps++;
    w->depth--;
    self = NULL;
}

/* ------------------------------------------------------------------------ */

static int
ht_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b)
{
    callback();
    return HTABLE_DATA(a, NODE, h)->key != HTABLE_DATA(b, NODE, h)->key;
}
static u32
ht_hash(const HTABLE_NODE* a)
{
    callback();
    return HTABLE_DATA(a, NODE, h)->key * 0x9e3779b1u;
}
static int
rb_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    u32 x = RBTREE_DATA(a, NODE, r)->key, y = RBTREE_DATA(b, NODE, r)->key;
    callback();
    return (x > y) - (x < y);
}

static void
nodes_make(W* w, int n, u32 keys)
{
    int i;
    w->nodes = (NODE*) xmalloc((size_t) n * sizeof(NODE));
    memset(w->nodes, 0, (size_t) n * sizeof(NODE));
    for(i = 0; i < n; i++) {
        w->nodes[i].key = (u32) wr(w, keys);
        w->nodes[i].tag = (u32) i;
    }
}

static void nodes_init(W* w) { nodes_make(w, NNODES, 64); }

/* -- buffers -- */

static void
buf_init(W* w)
{
    buffer_init(&w->buf);
    stack_init(&w->stack);
    array_int32_init(&w->arr);
}
static void
buf_step(W* w)
{
    u8 d[64];
    size_t n, o, i;
    switch(wr(w, 16)) {
        case 12: {
            void* p = buffer_insert_raw(&w->buf, buffer_size(&w->buf) / 2, 7);
            void* q;
            WBAD(w, p == buffer_data_at(&w->buf, (buffer_size(&w->buf) - 7) / 2));
            if(p != NULL) memset(p, (int) wr(w, 256), 7);
            q = buffer_append_raw(&w->buf, 5);
            if(q != NULL) memset(q, (int) wr(w, 256), 5);
            DIG(w, q != NULL);
            break;
        }
        case 13:
            DIG(w, buffer_reserve(&w->buf, wr(w, 300)));
            DIG(w, stack_reserve(&w->stack, wr(w, 300)));
            DIG(w, buffer_realloc(&w->buf, wr(w, buffer_size(&w->buf) * 2 + 1)));
            break;
        case 14: {
            void* p = buffer_acquire(&w->buf, &n);
            WBAD(w, buffer_is_empty(&w->buf) && buffer_size(&w->buf) == 0);
            DIG(w, dig_bytes(p, n));
            free(p);
            break;
        }
        case 15: {
            BUFFER other = BUFFER_INITIALIZER;
            STACK st = STACK_INITIALIZER;
            DIG(w, buffer_append(&other, "other", 5));
            buffer_swap(&w->buf, &other);
            stack_swap(&w->stack, &st);
            WBAD(w, stack_is_empty(&w->stack));
            DIG(w, dig_bytes(buffer_const_data_at(&w->buf, 1), 4));
            DIG(w, dig_bytes(buffer_data(&other), buffer_size(&other)));
            DIG(w, dig_bytes(stack_const_data(&st), stack_size(&st)));
            stack_fini(&st);
            buffer_fini(&other);
            break;
        }
        case 0: case 1: case 2:
            n = wr(w, sizeof(d) + 1);
            for(i = 0; i < n; i++) d[i] = (u8) wr(w, 256);
            o = wr(w, buffer_size(&w->buf) + 1);
            DIG(w, buffer_insert(&w->buf, o, d, n));
            break;
        case 3:
            n = wr(w, sizeof(d) + 1);
            memset(d, (int) wr(w, 256), sizeof(d));
            DIG(w, buffer_append(&w->buf, d, n));
            break;
        case 4:
            o = wr(w, buffer_size(&w->buf) + 1);
            n = wr(w, buffer_size(&w->buf) - o + 1);
            buffer_remove(&w->buf, o, n);
            break;
        case 5:
            if(wr(w, 4) == 0) buffer_clear(&w->buf); else buffer_shrink(&w->buf);
            break;
        case 6: case 7: {
            u64 x = wr(w, ~0ull);
            DIG(w, stack_push_uint64(&w->stack, x));
            DIG(w, stack_push_int16(&w->stack, (int16_t) x));
            break;
        }
        case 8:
            if(stack_size(&w->stack) >= 10) {
                DIG(w, stack_pop_int16(&w->stack));
                DIG(w, stack_pop_uint64(&w->stack));
            }
            break;
        case 9: case 10:
            DIG(w, array_int32_insert(&w->arr, wr(w, array_int32_size(&w->arr) + 1), (int32_t) wr(w, 1000)));
            break;
        default:
            if(array_int32_size(&w->arr) > 0)
                array_int32_remove(&w->arr, wr(w, array_int32_size(&w->arr)));
            break;
    }
    DIG(w, dig_bytes(buffer_const_data(&w->buf), buffer_size(&w->buf)));
    DIG(w, stack_size(&w->stack));
    DIG(w, dig_bytes(array_int32_data(&w->arr), array_int32_size(&w->arr) * 4));
    if(buffer_size(&w->buf) > 2000)
        buffer_remove(&w->buf, 0, 1900);
}
static void
buf_fini(W* w)
{
    buffer_fini(&w->buf);
    stack_fini(&w->stack);
    array_int32_fini(&w->arr);
}

/* -- arrays and stacks of all types -- */

#define TYPES(X)                                                              \
    X(int8, int8_t) X(uint8, uint8_t) X(int16, int16_t) X(uint16, uint16_t)   \
    X(int32, int32_t) X(uint32, uint32_t) X(int64, int64_t) X(uint64, uint64_t)

#define ARR_STEP(N, T)                                                        \
static void                                                                   \
arr_step_##N(W* w)                                                            \
{                                                                             \
    ARRAY_##N* a = &w->a_##N;                                                 \
    size_t n = array_##N##_size(a), i = wr(w, n + 1), k = wr(w, 9), j;        \
    T x = (T) wr(w, ~0ull);                                                   \
    switch(wr(w, 14)) {                                                       \
        case 0: case 1: DIG(w, array_##N##_insert(a, i, x)); break;           \
        case 2: DIG(w, array_##N##_append(a, x)); break;                      \
        case 3: DIG(w, array_##N##_insert_raw(a, i)); array_##N##_set(a, i, x); break; \
        case 4: DIG(w, array_##N##_append_raw(a)); array_##N##_set(a, n, x); break; \
        case 5:                                                               \
            DIG(w, array_##N##_insert_n_raw(a, i, k));                        \
            for(j = 0; j < k; j++) array_##N##_set(a, i + j, (T) (x + (T) j)); \
            break;                                                            \
        case 6:                                                               \
            DIG(w, array_##N##_append_n(a, k));                               \
            for(j = 0; j < k; j++) array_##N##_data(a)[n + j] = (T) (x ^ (T) j); \
            break;                                                            \
        case 7: if(n > 0) array_##N##_remove(a, wr(w, n)); break;             \
        case 8: array_##N##_remove_n(a, i, wr(w, n - i + 1)); break;          \
        case 9: if(n > 0) array_##N##_set(a, wr(w, n), x); break;             \
        case 10: DIG(w, array_##N##_is_empty(a) != 0); break;                  \
        case 11:                                                              \
            if(wr(w, 4) == 0) {                                               \
                T* p = array_##N##_acquire(a, &j);                            \
                WBAD(w, j == n);                                              \
                DIG(w, dig_bytes(p, j * sizeof(T)));                          \
                free(p);                                                      \
            }                                                                 \
            break;                                                            \
        case 12: {                                                            \
            ARRAY_##N o = ARRAY_##N##_INITIALIZER;                            \
            DIG(w, array_##N##_append(&o, x));                                \
            DIG(w, array_##N##_get(&o, 0));                                   \
            array_##N##_fini(&o);                                             \
            break;                                                            \
        }                                                                     \
        default:                                                              \
            if(wr(w, 4) == 0) array_##N##_remove_n(a, 0, n);                         \
            break;                                                            \
    }                                                                         \
    n = array_##N##_size(a);                                                  \
    for(j = 0; j < n; j++)                                                    \
        DIG(w, (u64) (i64) array_##N##_get(a, j));                            \
    WBAD(w, array_##N##_const_data(a) == array_##N##_data(a));                \
    if(n > 60) array_##N##_remove_n(a, 3, n - 10);                            \
}
TYPES(ARR_STEP)

static void
arr_init(W* w)
{
#define X(N, T) array_##N##_init(&w->a_##N);
    TYPES(X)
#undef X
    array_ptr_init(&w->a_ptr);
}
static void
arr_step(W* w)
{
    size_t n;
    switch(wr(w, 9)) {
        case 0: arr_step_int8(w); break;
        case 1: arr_step_uint8(w); break;
        case 2: arr_step_int16(w); break;
        case 3: arr_step_uint16(w); break;
        case 4: arr_step_int32(w); break;
        case 5: arr_step_uint32(w); break;
        case 6: arr_step_int64(w); break;
        case 7: arr_step_uint64(w); break;
        default: {
            char* room = w->room;
            size_t i;
            n = array_ptr_size(&w->a_ptr);
            size_t k;
            switch(wr(w, 12)) {
                case 0: DIG(w, array_ptr_append(&w->a_ptr, room + wr(w, 32))); break;
                case 1:
                    WBAD(w, array_ptr_append_raw(&w->a_ptr) == 0);
                    array_ptr_set(&w->a_ptr, n, room + 3);
                    break;
                case 2:
                    i = wr(w, n + 1);
                    WBAD(w, array_ptr_insert_raw(&w->a_ptr, i) == 0);
                    array_ptr_set(&w->a_ptr, i, room + 4);
                    break;
                case 9:
                    i = wr(w, n + 1); k = wr(w, 4);
                    WBAD(w, array_ptr_insert_n_raw(&w->a_ptr, i, k) == 0);
                    while(k-- > 0) array_ptr_set(&w->a_ptr, i + k, room + 5);
                    break;
                case 10:
                    k = wr(w, 4);
                    WBAD(w, array_ptr_append_n(&w->a_ptr, k) == 0);
                    while(k-- > 0) array_ptr_set(&w->a_ptr, n + k, room + 6);
                    break;
                case 3: if(n > 0) array_ptr_set(&w->a_ptr, wr(w, n), room + wr(w, 32)); break;
                case 4: i = wr(w, n + 1); array_ptr_remove_n(&w->a_ptr, i, wr(w, (n - i > 5 ? 5 : n - i) + 1)); break;
                case 5: if(n > 0) array_ptr_remove(&w->a_ptr, wr(w, n)); break;
                default: DIG(w, array_ptr_insert(&w->a_ptr, wr(w, n + 1), room + wr(w, 32))); break;
            }
            n = array_ptr_size(&w->a_ptr);
            for(i = 0; i < n; i++)
                DIG(w, (const char*) array_ptr_get(&w->a_ptr, i) - room);
            if(n > 50) array_ptr_remove_n(&w->a_ptr, 0, n);
            break;
        }
    }
}
static void
arr_fini(W* w)
{
#define X(N, T) array_##N##_fini(&w->a_##N);
    TYPES(X)
#undef X
    array_ptr_fini(&w->a_ptr);
}

enum { SK_int8, SK_uint8, SK_int16, SK_uint16, SK_int32, SK_uint32, SK_int64, SK_uint64, SK_ptr };
static void sta_init(W* w) { stack_init(&w->stack); }
static void
sta_step(W* w)
{
    u64 x = wr(w, ~0ull);
    if(w->words < 64 && wr(w, 5) < 3) {
        int k = (int) wr(w, 9);
        w->kinds[w->words++] = (u8) k;
        switch(k) {
#define X(N, T) case SK_##N: DIG(w, stack_push_##N(&w->stack, (T) x)); break;
            TYPES(X)
#undef X
            default: DIG(w, stack_push_ptr(&w->stack, w)); break;
        }
    } else if(w->words > 0) {
        switch(w->kinds[--w->words]) {
#define X(N, T) case SK_##N: {                                               \
                T a = stack_peek_##N(&w->stack), b = stack_pop_##N(&w->stack); \
                WBAD(w, a == b);                                              \
                DIG(w, (u64) (i64) b);                                        \
                break;                                                        \
            }
            TYPES(X)
#undef X
            default: {
                void* a = stack_peek_ptr(&w->stack);
                void* b = stack_pop_ptr(&w->stack);
                WBAD(w, a == b && a == (void*) w);
                break;
            }
        }
    }
    DIG(w, stack_size(&w->stack));
    if(w->words == 0) WBAD(w, stack_is_empty(&w->stack));
}
static void sta_fini(W* w) { stack_fini(&w->stack); }

/* -- macros -- */

typedef struct DEFS_IN { char c; short s[3]; } DEFS_IN;
typedef struct DEFS_OUT { char pad[5]; DEFS_IN in; double d; } DEFS_OUT;
#define DEFS_NAME   some
static void defs_init(W* w) { (void) w; }
static void
defs_step(W* w)
{
    int a = (int) wr(w, 200) - 100, b = (int) wr(w, 200) - 100, c = (int) wr(w, 200) - 100;
    double d = a / 7.0, e = b / 3.0;
    DEFS_OUT o;
    uint16_t tab[11];
    DIG(w, (i64) MIN(a, b)); DIG(w, (i64) MAX(a, b)); DIG(w, (i64) MIN3(a, b, c)); DIG(w, (i64) MAX3(a, b, c));
    DIG(w, (i64) CLAMP(c, MIN(a, b), MAX(a, b))); DIG(w, (i64) ABS(a)); DIG(w, (i64) ABS(a - b));
    DIG(w, (i64) (1000 * MIN(d, e))); DIG(w, (i64) (1000 * MAX(d, e))); DIG(w, (i64) (1000 * ABS(d)));
    DIG(w, SIZEOF_ARRAY(tab)); DIG(w, OFFSETOF(DEFS_OUT, in)); DIG(w, OFFSETOF(DEFS_IN, s));
    WBAD(w, CONTAINEROF(&o.in, DEFS_OUT, in) == &o);
    WBAD(w, strcmp(STRINGIZE(DEFS_NAME), "some") == 0);
}
static void defs_fini(W* w) { (void) w; }

/* -- hash tables -- */

static void hti_init(W* w) { htable_init(&w->ht); nodes_init(w); }
static void
ht_step(W* w)
{
    NODE* n = &w->nodes[wr(w, NNODES)];
    NODE key;
    HTABLE_NODE* r;
    memset(&key, 0, sizeof(key));
    key.key = n->key;
    switch(wr(w, 4)) {
        case 0: case 1:
            if(!n->in) {
                int e;
                memset(&n->h, 0x5a, sizeof(n->h));
                if(wr(w, 3) == 0) {
                    /* (Only if there is none such.) */
                    if(htable_lookup(&w->ht, &key.h, ht_cmp, ht_hash) != NULL)
                        break;
                    e = htable_insert_unsafe(&w->ht, &n->h, ht_cmp, ht_hash);
                } else {
                    e = htable_insert(&w->ht, &n->h, ht_cmp, ht_hash);
                }
                DIG(w, e == 0);
                n->in = (e == 0);
            }
            break;
        case 2:
            r = htable_remove(&w->ht, &key.h, ht_cmp, ht_hash);
            DIG(w, r != NULL);
            if(r != NULL) {
                NODE* m = HTABLE_DATA(r, NODE, h);
                WBAD(w, m >= w->nodes && m < w->nodes + NNODES && m->in && m->key == key.key);
                m->in = 0;
                DIG(w, m->tag);
            }
            break;
        default:
            r = htable_lookup(&w->ht, &key.h, ht_cmp, ht_hash);
            DIG(w, r != NULL ? HTABLE_DATA(r, NODE, h)->tag : 999);
            break;
    }
    DIG(w, htable_is_empty(&w->ht) != 0);
}
static __thread unsigned dtor_calls;
static void ht_dtor(HTABLE_NODE* n) { HTABLE_DATA(n, NODE, h)->in = 0; dtor_calls++; callback(); }
static void
ht_fini(W* w)
{
    int i;
    unsigned exp = 0;
    for(i = 0; i < NNODES; i++)
        exp += (unsigned) w->nodes[i].in;
    dtor_calls = 0;
    htable_fini(&w->ht, ht_dtor);
    WBAD(w, dtor_calls == exp);
    for(i = 0; i < NNODES; i++)
        WBAD(w, !w->nodes[i].in);
    xfree(w->nodes);
}

/* -- hash tables and trees which grow and shrink a lot -- */

#define MNODES  640
static void
many_init(W* w)
{
    htable_init(&w->ht);
    rbtree_init(&w->rb);
    nodes_make(w, MNODES, 100000);
}
static void
many_step(W* w)
{
    int i, k, at = (int) wr(w, MNODES), n = (int) wr(w, 4) ? 20 + (int) wr(w, 60) : MNODES / 2 + (int) wr(w, MNODES / 2);
    int what = (int) wr(w, 5);
    NODE key;
    HTABLE_NODE* h;
    RBTREE_NODE* r;
    /* The tree compares and so calls back too often for peers to be let in from all of it. */
    memset(&key, 0, sizeof(key));
    for(i = 0; i < n; i++) {
        NODE* x = &w->nodes[(at + i) % MNODES];
        key.key = x->key;
        switch(what) {
            case 0: case 1:
                if(!x->in) {
                    k = htable_insert(&w->ht, &x->h, ht_cmp, ht_hash);
                    DIG(w, k == 0);
                    x->in = (k == 0);
                    WBAD(w, (rbtree_insert(&w->rb, &x->r, rb_cmp) == 0) == (k == 0));
                }
                break;
            case 2: case 3:
                h = htable_remove(&w->ht, &key.h, ht_cmp, ht_hash);
                r = rbtree_remove(&w->rb, &key.r, rb_cmp);
                WBAD(w, (h != NULL) == (r != NULL));
                DIG(w, h != NULL);
                if(h != NULL && r != NULL) {
                    NODE* m = HTABLE_DATA(h, NODE, h);
                    WBAD(w, m >= w->nodes && m < w->nodes + MNODES && m->in && m->key == key.key && RBTREE_DATA(r, NODE, r) == m);
                    m->in = 0;
                }
                break;
            default:
                h = htable_lookup(&w->ht, &key.h, ht_cmp, ht_hash);
                r = rbtree_lookup(&w->rb, &key.r, rb_cmp);
                WBAD(w, (h != NULL) == (r != NULL));
                DIG(w, h != NULL ? HTABLE_DATA(h, NODE, h)->tag : 999);
                if(h != NULL && r != NULL)
                    WBAD(w, HTABLE_DATA(h, NODE, h) == RBTREE_DATA(r, NODE, r));
                break;
        }
    }
    WBAD(w, !htable_is_empty(&w->ht) == !rbtree_is_empty(&w->rb));
}
static void
many_fini(W* w)
{
    int i, n = 0;
    RBTREE_NODE* r;
    for(i = 0; i < MNODES; i++)
        n += w->nodes[i].in;
    while((r = rbtree_fini_step(&w->rb)) != NULL && n >= 0)
        n--;
    WBAD(w, n == 0);
    htable_fini(&w->ht, NULL);
    xfree(w->nodes);
}

/* -- trees -- */

static void rbi_init(W* w) { rbtree_init(&w->rb); nodes_init(w); }
static void
rb_step(W* w)
{
    NODE* n = &w->nodes[wr(w, NNODES)];
    NODE key;
    RBTREE_NODE* r;
    memset(&key, 0, sizeof(key));
    key.key = n->key;
    switch(wr(w, 6)) {
        case 0: case 1: case 2:
            if(!n->in) {
                int e = rbtree_insert(&w->rb, &n->r, rb_cmp);
                DIG(w, e == 0);
                n->in = (e == 0);
            }
            break;
        case 3:
            r = rbtree_remove(&w->rb, &key.r, rb_cmp);
            DIG(w, r != NULL);
            if(r != NULL) {
                NODE* m = RBTREE_DATA(r, NODE, r);
                WBAD(w, m >= w->nodes && m < w->nodes + NNODES && m->in && m->key == key.key);
                m->in = 0;
                DIG(w, m->tag);
            }
            break;
        case 4:
            r = rbtree_lookup(&w->rb, &key.r, rb_cmp);
            DIG(w, r != NULL ? RBTREE_DATA(r, NODE, r)->tag : 999);
            break;
        default: {
            RBTREE_CURSOR cur = RBTREE_CURSOR_INITIALIZER;
            int fwd = (int) wr(w, 2);
            unsigned k = 0;
            u64 last = 0;
            if(rbtree_is_empty(&w->rb))
                break;
            if(wr(w, 3) == 0) {
                r = rbtree_lookup_ex(&w->rb, &key.r, rb_cmp, &cur);
                if(r == NULL)
                    break;
            } else {
                r = fwd ? rbtree_head(&w->rb, &cur) : rbtree_tail(&w->rb, &cur);
            }
            while(r != NULL && k++ <= NNODES) {
                WBAD(w, rbtree_current(&cur) == r);
                u32 x = RBTREE_DATA(r, NODE, r)->key;
                WBAD(w, k == 1 || (fwd ? x > last : x < last));
                last = x;
                DIG(w, RBTREE_DATA(r, NODE, r)->tag);
                callback();
                r = fwd ? rbtree_next(&cur) : rbtree_prev(&cur);
            }
            WBAD(w, k <= NNODES);
            break;
        }
    }
    DIG(w, rbtree_is_empty(&w->rb) != 0);
}
static void
rb_fini(W* w)
{
    RBTREE_NODE* r;
    int i;
    while((r = rbtree_fini_step(&w->rb)) != NULL) {
        WBAD(w, RBTREE_DATA(r, NODE, r)->in);
        RBTREE_DATA(r, NODE, r)->in = 0;
        self = w;
        w->depth++;
        w->peer_left = 2;
        callback();
        w->depth--;
        self = NULL;
    }
    for(i = 0; i < NNODES; i++)
        WBAD(w, !w->nodes[i].in);
    xfree(w->nodes);
}

/* -- lists -- */

static void li_init(W* w) { list_init(&w->list); slist_init(&w->slist); qlist_init(&w->qlist); nodes_init(w); }
static void
li_step(W* w)
{
    NODE* n = &w->nodes[wr(w, NNODES)];
    LIST_NODE* l;
    SLIST_NODE* s;
    QLIST_NODE* q;
    if(!n->in) {
        n->in = 1;
        switch(wr(w, list_is_empty(&w->list) ? 2 : 4)) {
            case 0: list_append(&w->list, &n->l); break;
            case 1: list_prepend(&w->list, &n->l); break;
            case 2: list_insert_after(&w->list, list_head(&w->list), &n->l); break;
            default: list_insert_before(&w->list, list_tail(&w->list), &n->l); break;
        }
        if(wr(w, 2) || slist_is_empty(&w->slist)) slist_prepend(&w->slist, &n->s);
        else slist_insert_after(&w->slist, slist_head(&w->slist), &n->s);
        switch(qlist_is_empty(&w->qlist) ? wr(w, 2) : wr(w, 4)) {
            case 0: qlist_append(&w->qlist, &n->q); break;
            case 1: qlist_prepend(&w->qlist, &n->q); break;
            case 2: qlist_insert_after(&w->qlist, qlist_tail(&w->qlist), &n->q); break;
            default: qlist_insert_after(&w->qlist, qlist_head(&w->qlist), &n->q); break;
        }
    } else {
        SLIST_NODE* ps = NULL;
        QLIST_NODE* pq = NULL;
        n->in = 0;
        if(&n->l == list_head(&w->list) && wr(w, 2)) list_remove_head(&w->list);
        else if(&n->l == list_tail(&w->list) && wr(w, 2)) list_remove_tail(&w->list);
        else list_remove(&w->list, &n->l);
        for(s = slist_head(&w->slist); s != &n->s; s = slist_next(s)) ps = s;
        if(ps == NULL) slist_remove_head(&w->slist); else slist_remove(&w->slist, ps, &n->s);
        for(q = qlist_head(&w->qlist); q != &n->q; q = qlist_next(q)) pq = q;
        if(pq == NULL) qlist_remove_head(&w->qlist); else qlist_remove(&w->qlist, pq, &n->q);
    }
    WBAD(w, list_is_empty(&w->list) == (list_head(&w->list) == list_end(&w->list)));
    WBAD(w, !slist_is_empty(&w->slist) == !list_is_empty(&w->list) && !qlist_is_empty(&w->qlist) == !list_is_empty(&w->list));
    for(l = list_tail(&w->list); l != list_end(&w->list); l = list_prev(l))
        DIG(w, LIST_DATA(l, NODE, l)->tag);
    for(l = list_head(&w->list); l != list_end(&w->list); l = list_next(l))
        DIG(w, LIST_DATA(l, NODE, l)->tag);
    for(s = slist_head(&w->slist); s != slist_end(&w->slist); s = slist_next(s))
        DIG(w, SLIST_DATA(s, NODE, s)->tag);
    for(q = qlist_head(&w->qlist); q != qlist_end(&w->qlist); q = qlist_next(q))
        DIG(w, QLIST_DATA(q, NODE, q)->tag);
}
static void li_fini(W* w) { xfree(w->nodes); }

/* -- values -- */

static int
key_cmp(const char* a, size_t na, const char* b, size_t nb)
{
    size_t n = (na < nb) ? na : nb;
    int c = (n > 0) ? memcmp(a, b, n) : 0;
    callback();
    return (c != 0) ? -c : (na < nb) - (na > nb);
}

static size_t
wkey(W* w, char* k)
{
    size_t n = 1 + wr(w, 3), i;
    for(i = 0; i < n; i++)
        k[i] = (char) ('a' + wr(w, 3));
    if(wr(w, 8) == 0)
        k[0] = "AIi\xe7\xfd\xdd_~"[wr(w, 8)];
    k[n] = 0;
    return n;
}

/* All what getters tell of a value. */
static u64
dig_value(const VALUE* v, int depth)
{
    u64 h = (u64) value_type(v) + 100;
    size_t i, n;
    if(depth > 4)
        return h;
    h = h2(h, (u64) value_is_new(v));
    for(i = 0; i <= VALUE_DICT; i++)
        h = h2(h, value_is_compatible(v, (VALUE_TYPE) i) != 0);
    h = h2(h, (u64) value_bool(v));
    h = h2(h, (u64) value_int32(v)); h = h2(h, (u64) value_uint32(v));
    h = h2(h, (u64) value_int64(v)); h = h2(h, (u64) value_uint64(v));
    { float f = value_float(v); double d = value_double(v); h = h2(h, dig_bytes(&f, sizeof(f))); h = h2(h, dig_bytes(&d, sizeof(d))); }
    h = h2(h, value_string(v) == NULL); h = h2(h, value_string_length(v));
    h = h2(h, value_array_size(v)); h = h2(h, value_dict_size(v));
    switch(value_type(v)) {
        case VALUE_NULL:    break;
        case VALUE_BOOL:    h = h2(h, (u64) value_bool(v)); break;
        case VALUE_INT32:   h = h2(h, (u64) value_int32(v)); h = h2(h, (u64) value_int64(v)); break;
        case VALUE_UINT32:  h = h2(h, value_uint32(v)); break;
        case VALUE_INT64:   h = h2(h, (u64) value_int64(v)); break;
        case VALUE_UINT64:  h = h2(h, value_uint64(v)); break;
        case VALUE_FLOAT:   { float f = value_float(v); h = h2(h, dig_bytes(&f, sizeof(f))); break; }
        case VALUE_DOUBLE:  { double d = value_double(v); h = h2(h, dig_bytes(&d, sizeof(d))); break; }
        case VALUE_STRING:  h = h2(h, dig_bytes(value_string(v), value_string_length(v) + 1)); break;
        case VALUE_ARRAY:
            n = value_array_size(v);
            for(i = 0; i < n; i++)
                h = h2(h, dig_value(value_array_get(v, i), depth + 1));
            break;
        case VALUE_DICT: {
            const VALUE* keys[64];
            size_t m = value_dict_keys_sorted(v, keys, 64);
            n = value_dict_size(v);
            h = h2(h, h2(n, m));
            h = h2(h, value_dict_flags(v));
            for(i = 0; i < m && i < 64; i++) {
                h = h2(h, dig_bytes(value_string(keys[i]), value_string_length(keys[i])));
                h = h2(h, dig_value(value_dict_get_(v, value_string(keys[i]), value_string_length(keys[i])), depth + 1));
            }
            if(value_dict_flags(v) & VALUE_DICT_MAINTAINORDER) {
                m = value_dict_keys_ordered(v, keys, 64);
                for(i = 0; i < m && i < 64; i++)
                    h = h2(h, dig_bytes(value_string(keys[i]), value_string_length(keys[i])));
            }
            break;
        }
    }
    return h;
}

static void
set_scalar(W* w, VALUE* v)
{
    char s[200];
    size_t n, i;
    if(v == NULL)
        return;
    if(wr(w, 100) == 0) {
        /* A longer string. */
        char* l;
        n = (wr(w, 3) ? 120 : 16370) + wr(w, 40);
        l = (char*) xmalloc(n);
        memset(l, (int) wr(w, 256), n);
        WBAD(w, value_init_string_(v, l, n) == 0);
        xfree(l);
        return;
    }
    switch(wr(w, 9)) {
        case 0: value_init_null(v); break;
        case 1: value_init_bool(v, (int) wr(w, 2)); break;
        case 2: value_init_int32(v, (int32_t) wr(w, 1ull << 32)); break;
        case 3: value_init_uint32(v, (u32) wr(w, 1ull << 32)); break;
        case 4: value_init_int64(v, (i64) wr(w, ~0ull)); break;
        case 5: value_init_uint64(v, wr(w, ~0ull)); break;
        case 6: value_init_float(v, (float) wr(w, 1000) / 7.0f); break;
        case 7: value_init_double(v, (double) wr(w, 1000) / 7.0); break;
        default:
            if(wr(w, 20) == 0) { value_init_string_(v, NULL, 5); break; }
            n = wr(w, sizeof(s));
            for(i = 0; i < n; i++) s[i] = (char) wr(w, 256);
            value_init_string_(v, s, n);
            break;
    }
}

static void
val_init(W* w)
{
    WBAD(w, value_init_dict_ex(&w->val, wr(w, 2) ? key_cmp : NULL, wr(w, 2) ? VALUE_DICT_MAINTAINORDER : 0) == 0);
    WBAD(w, value_init_array(&w->val2) == 0);
}
static int
val_visit(const VALUE* k, VALUE* v, void* ctx)
{
    W* w = (W*) ctx;
    callback();
    DIG(w, dig_bytes(value_string(k), value_string_length(k)));
    DIG(w, value_type(v));
    return (int) (dig_bytes(value_string(k), value_string_length(k)) % 17 == 0);
}
static void
val_step(W* w)
{
    char k[16], path[64];
    size_t n = wkey(w, k);
    VALUE* v;
    switch(wr(w, 16)) {
        case 11: {
            VALUE t = VALUE_NULL_INITIALIZER;
            VALUE* all;
            size_t i, m = value_array_size(&w->val2);
            all = value_array_get_all(&w->val2);
            for(i = 0; i < m; i++)
                WBAD(w, all + i == value_array_get(&w->val2, i));
            WBAD(w, value_type(&t) == VALUE_NULL && !value_is_new(&t));
            DIG(w, value_init_string(&t, k));
            DIG(w, dig_value(&t, 0));
            value_fini(&t);
            DIG(w, value_init_dict(&t));
            v = value_dict_add(&t, "name");
            DIG(w, v != NULL);
            set_scalar(w, v);
            DIG(w, dig_value(&t, 0));
            DIG(w, value_dict_remove(&t, "name"));
            DIG(w, value_dict_get_or_add_(&t, k, n) != NULL);
            value_fini(&t);
            break;
        }
        case 12:
            v = value_array_append(&w->val2);
            WBAD(w, v != NULL);
            set_scalar(w, v);
            break;
        case 13: {
            size_t m = value_array_size(&w->val2), i = wr(w, m + 1);
            DIG(w, value_array_remove_range(&w->val2, i, wr(w, 4) ? 0 : wr(w, m - i + 1)));
            break;
        }
        case 14: DIG(w, value_dict_remove(&w->val, k)); break;
        case 0: case 1:
            v = value_dict_add_(&w->val, k, n);
            DIG(w, v != NULL);
            set_scalar(w, v);
            break;
        case 2:
            v = value_dict_get_or_add(&w->val, k);
            WBAD(w, v != NULL);
            if(v != NULL && value_is_new(v))
                set_scalar(w, v);
            break;
        case 3:
            DIG(w, value_dict_remove_(&w->val, k, n));
            break;
        case 4:
            DIG(w, value_dict_walk_sorted(&w->val, val_visit, w));
            if(value_dict_flags(&w->val) & VALUE_DICT_MAINTAINORDER)
                DIG(w, value_dict_walk_ordered(&w->val, val_visit, w));
            break;
        case 5: case 6:
            v = value_array_insert(&w->val2, wr(w, value_array_size(&w->val2) + 1));
            WBAD(w, v != NULL);
            set_scalar(w, v);
            break;
        case 7:
            if(value_array_size(&w->val2) > 0)
                DIG(w, value_array_remove(&w->val2, wr(w, value_array_size(&w->val2))));
            break;
        case 15:
            /* Any paths, of which many lead nowhere. */
            switch(wr(w, 8)) {
                case 0: snprintf(path, sizeof(path), "X%s/Y%s/[-%d]", k, k, 1 + (int) wr(w, 3)); break;
                case 1: snprintf(path, sizeof(path), "X%s//Y%s[]/", k, k); break;
                case 2: snprintf(path, sizeof(path), "X%s/Y%s/[]", k, k); break;
                case 3: snprintf(path, sizeof(path), "X%s/Y%s/[]/Z[]", k, k); break;
                case 4: snprintf(path, sizeof(path), "[%d]", (int) wr(w, 5) - 2); break;
                case 5: snprintf(path, sizeof(path), "X%s/[%d", k, (int) wr(w, 5) - 2); break;
                case 6: snprintf(path, sizeof(path), "X%s/[1x]", k); break;
                default: path[0] = '\0'; break;
            }
            v = value_path(&w->val, path);
            DIG(w, v != NULL ? dig_value(v, 3) : 8);
            v = value_path(&w->val2, path);
            DIG(w, v != NULL ? dig_value(v, 3) : 9);
            if(wr(w, 2) && strstr(path, "//") == NULL && strstr(path, "x]") == NULL && strstr(path, "[") != NULL && strstr(path, "]") != NULL) {
                v = value_build_path(&w->val, path);
                DIG(w, v != NULL);
                if(v != NULL && value_is_new(v))
                    set_scalar(w, v);
            }
            break;
        case 8:
            snprintf(path, sizeof(path), "X%s/Y%s/[%d]", k, k, (int) wr(w, 3));
            v = value_build_path(&w->val, path);
            DIG(w, v != NULL);
            if(v != NULL && value_is_new(v))
                set_scalar(w, v);
            break;
        case 9:
            snprintf(path, sizeof(path), "X%s/Y%s/[%d]", k, k, -1);
            v = value_path(&w->val, path);
            DIG(w, v != NULL ? dig_value(v, 0) : 5);
            break;
        default:
            v = value_dict_get(&w->val, k);
            DIG(w, v != NULL ? dig_value(v, 0) : 6);
            break;
    }
    if(wr(w, 4) == 0) {
        DIG(w, dig_value(&w->val, 0));
        DIG(w, dig_value(&w->val2, 0));
    }
    if(value_array_size(&w->val2) > 40)
        value_array_clean(&w->val2);
    if(value_dict_size(&w->val) > 40)
        value_dict_clean(&w->val);
}
static void val_fini(W* w) { value_fini(&w->val); value_fini(&w->val2); }

/* -- codecs and hashes -- */

static void codec_init(W* w) { (void) w; }
static void
codec_step(W* w)
{
    u8 in[96], back[128];
    char out[256];
    BASE64_OPTIONS o = { (char) ('-' + (int) wr(w, 1)), '_', (char) (wr(w, 2) ? '=' : '\0') };
    const BASE64_OPTIONS* po = wr(w, 2) ? &o : NULL;
    unsigned n = (unsigned) wr(w, sizeof(in) + 1), i;
    int r, d;
    if(wr(w, 2)) o.ch62 = '!';
    for(i = 0; i < n; i++)
        in[i] = (u8) wr(w, 256);
    switch(wr(w, 4)) {
        case 0:
            r = base64_encode(in, n, out, sizeof(out), po);
            WBAD(w, r >= 0 && r < (int) sizeof(out));
            if(r < 0) break;
            DIG(w, dig_bytes(out, (size_t) r));
            DIG(w, base64_encode(in, n, NULL, 0, po));
            DIG(w, base64_decode(out, (unsigned) r, NULL, 0, po));
            DIG(w, base64_encode(in, n, out + 200, (unsigned) wr(w, (u64) r / 2 + 1), po) < 0);
            DIG(w, base64_decode(out, (unsigned) wr(w, (u64) r + 1), back, sizeof(back), po) >= 0);
            if(r > 0) DIG(w, base64_decode(out, (unsigned) r, back, (unsigned) wr(w, n), po) < 0);
            d = base64_decode(out, (unsigned) r, back, sizeof(back), po);
            WBAD(w, d == (int) n && memcmp(back, in, n) == 0);
            if(r > 0) {
                out[wr(w, (u64) r)] = (char) wr(w, 256);
                DIG(w, base64_decode(out, (unsigned) r, back, sizeof(back), po));
            }
            break;
        case 1:
            r = hex_encode(in, n, out, sizeof(out), (int) wr(w, 2));
            WBAD(w, r == 2 * (int) n);
            DIG(w, dig_bytes(out, 2 * n));
            DIG(w, hex_encode(in, n, NULL, 0, 0));
            DIG(w, hex_decode(out, 2 * n, NULL, 0));
            DIG(w, hex_decode(out, 2 * n, back, n / 2) >= 0);
            d = hex_decode(out, 2 * n, back, sizeof(back));
            WBAD(w, d == (int) n && memcmp(back, in, n) == 0);
            if(n > 0) {
                out[wr(w, 2 * n)] = (char) wr(w, 256);
                d = hex_decode(out, 2 * n, back, sizeof(back));
                DIG(w, d);
                if(d > 0) DIG(w, dig_bytes(back, (size_t) d));
            }
            break;
        case 2:
            DIG(w, crc32(in, n));
            break;
        default: {
            u32 a = fnv1a_32(FNV1A_BASE_32, in, n / 2);
            u64 b = fnv1a_64(FNV1A_BASE_64, in, n / 2);
            DIG(w, fnv1a_32(a, in + n / 2, n - n / 2));
            DIG(w, fnv1a_64(b, in + n / 2, n - n / 2));
            break;
        }
    }
}
static void codec_fini(W* w) { (void) w; }

/* -- memory chunks -- */

static void do_freea(void* p) { FREEA(p); }
static void ch_init(W* w) { memchunk_init(&w->chunk, wr(w, 2) ? 0 : 64 + wr(w, 400)); }
static void
ch_verify(W* w)
{
    int i;
    size_t k;
    for(i = 0; i < w->n_blk; i++) {
        for(k = 0; k < w->blk[i].n; k++)
            WBAD(w, w->blk[i].p[k] == w->blk[i].c);
    }
}
static void
ch_step(W* w)
{
    size_t n = 1 + wr(w, wr(w, 5) ? 60 : 1500);
    u8* p;
    if(w->n_blk == NBLK) {
        ch_verify(w);
        memchunk_fini(&w->chunk);
        memchunk_init(&w->chunk, 64 + wr(w, 400));
        w->n_blk = 0;
    }
    p = (u8*) memchunk_alloc(&w->chunk, n);
    WBAD(w, p != NULL);
    if(p != NULL) {
        w->blk[w->n_blk].p = p;
        w->blk[w->n_blk].n = n;
        w->blk[w->n_blk].c = (u8) (w->seed + (u64) w->n_blk);
        memset(p, w->blk[w->n_blk].c, n);
        w->n_blk++;
    }
    {
        size_t m = 1 + wr(w, 3000), i;
        u8* q = (u8*) MALLOCA(m);
        WBAD(w, q != NULL);
        if(q != NULL) {
            memset(q, (int) w->seed, m);
            if(w->yields) sched_yield();
            for(i = 0; i < m; i++)
                WBAD(w, q[i] == (u8) w->seed);
            if(w->freea != NULL) w->freea(q); else FREEA(q);
        }
    }
    DIG(w, w->n_blk);
}
static void ch_fini(W* w) { ch_verify(w); memchunk_fini(&w->chunk); }

/* -- command lines -- */

static const CMDLINE_OPTION options[] = {
    { 'a', "alpha", 1, 0 },
    { 'b', "beta", 2, CMDLINE_OPTFLAG_REQUIREDARG },
    { 0, "gamma", 3, CMDLINE_OPTFLAG_OPTIONALARG },
    { 'd', NULL, 4, 0 },
    { 0, "-D", 5, CMDLINE_OPTFLAG_COMPILERLIKE },
    { 0, NULL, 0, 0 }
};
static const CMDLINE_OPTION plain_options[] = {
    { 'a', "alpha", 1, 0 },
    { 'x', "alphabet", 2, CMDLINE_OPTFLAG_OPTIONALARG },
    { 0, "D", 5, CMDLINE_OPTFLAG_COMPILERLIKE },
    { 0, "file", 6, CMDLINE_OPTFLAG_COMPILERLIKE },
    { 0, NULL, 0, 0 }
};
static char* const words[] = {
    "prog", "D", "Dx", "files", "--alphabet", "--alphabet=y", "other", "-a", "-ad", "-b", "-bxyz", "--alpha", "--alpha=1", "--beta", "--beta=2", "--gamma", "--gamma=3", "-Dx", "-D",
    "--", "-", "file", "--unknown", "--unknown=4", "-x", "-ax", "--gam", "",
    "-a\xe7\xfd", "-\xdd", "--alpha\xe7=\xfd", "\xe7", "-aI1", "-bI\xfd", "--ALPHA", "-A"
};
#define NWORDS  (sizeof(words) / sizeof(words[0]))

static int
cl_cb(int id, const char* arg, void* ud)
{
    W* w = (W*) ud;
    callback();
    DIG(w, id);
    DIG(w, arg != NULL ? dig_bytes(arg, strlen(arg)) : 77);
    callback();
    DIG(w, arg != NULL ? dig_bytes(arg, strlen(arg)) : 77);
    return (id == 4 && (w->dig & 7) == 0) ? 42 : 0;
}
static void cl_init(W* w) { (void) w; }
static void
cl_step(W* w)
{
    char* argv[14];
    char own[80];
    int n = 1 + (int) wr(w, 12), i;
    argv[0] = words[0];
    for(i = 1; i < n; i++)
        argv[i] = words[wr(w, NWORDS)];
    if(n > 2 && wr(w, 2)) {
        size_t k = 2 + wr(w, 40);
        memset(own, 'a' + (int) wr(w, 26), k);
        own[0] = own[1] = '-';
        memcpy(own + k, "=value", 7);
        argv[1 + wr(w, (u64) n - 1)] = own;
    }
    argv[n] = NULL;
    DIG(w, cmdline_read(wr(w, 3) ? options : plain_options, n, argv, cl_cb, w));
}
static void cl_fini(W* w) { (void) w; }

static const KIND kinds[] = {
    { "buffer", buf_init, buf_step, buf_fini },
    { "htable", hti_init, ht_step, ht_fini },
    { "rbtree", rbi_init, rb_step, rb_fini },
    { "list", li_init, li_step, li_fini },
    { "value", val_init, val_step, val_fini },
    { "codec", codec_init, codec_step, codec_fini },
    { "chunk", ch_init, ch_step, ch_fini },
    { "cmdline", cl_init, cl_step, cl_fini },
    { "arrays", arr_init, arr_step, arr_fini },
    { "stacks", sta_init, sta_step, sta_fini },
    { "many", many_init, many_step, many_fini },
    { "macros", defs_init, defs_step, defs_fini },
};
#define NKINDS  (sizeof(kinds) / sizeof(kinds[0]))

/* Sizes of the public types. */
#define LAYOUT  sizeof(W), sizeof(BUFFER), sizeof(STACK), sizeof(ARRAY_ptr), sizeof(HTABLE), sizeof(HTABLE_NODE), sizeof(RBTREE), \
                sizeof(RBTREE_NODE), sizeof(RBTREE_CURSOR), sizeof(LIST), sizeof(LIST_NODE), sizeof(SLIST), sizeof(QLIST), sizeof(VALUE), \
                sizeof(VALUE_TYPE), sizeof(MEMCHUNK), sizeof(BASE64_OPTIONS), sizeof(CMDLINE_OPTION), offsetof(W, nodes), offsetof(W, n_blk)
