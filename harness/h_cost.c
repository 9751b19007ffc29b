/* Monitors of the cost of operations: C48.
 *
 * The unit of cost is an executed edge of the control flow graph (the compiler
 * calls us on each) or a byte handled by a function of the C library such as
 * memmove() or strlen(). The same use is made twice, the second time with R
 * times as much data. What is documented or expected to be linear in total then
 * costs about R times as much, not R times R times.
 */
#include <stddef.h>
/* (The compiler does not know that its own instrumentation writes it.) */
static volatile unsigned long long cost_now, cost_saved;
/* The heap monitor's own work does not count. */
#define MON_LOCK()      (cost_saved = cost_now)
#define MON_UNLOCK()    (cost_now = cost_saved + 20)
#define MON_CHARGE(n)   (cost_now += (n))
#include "mon.h"
#include "buffer.h"
#include "htable.h"
#include "rbtree.h"
#include "list.h"
#include "value.h"
#include "base64.h"
#include "hex.h"
#include "crc32.h"
#include "fnv1a.h"
#include "memchunk.h"
#include "cmdline.h"

#define UNCOUNTED   __attribute__((no_sanitize("coverage")))

void __sanitizer_cov_trace_pc(void);
UNCOUNTED void __sanitizer_cov_trace_pc(void) { cost_now++; }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
char* __real_strchr(const char*, int);
char* __real_strncpy(char*, const char*, size_t);
UNCOUNTED void* __wrap_memcpy(void* d, const void* s, size_t n) { cost_now += n + 1; return __real_memcpy(d, s, n); }
UNCOUNTED void* __wrap_memmove(void* d, const void* s, size_t n) { cost_now += n + 1; return __real_memmove(d, s, n); }
UNCOUNTED void* __wrap_memset(void* d, int c, size_t n) { cost_now += n + 1; return __real_memset(d, c, n); }
UNCOUNTED int
__wrap_memcmp(const void* a, const void* b, size_t n)
{
    size_t i = 0;
    while(i < n && ((const u8*) a)[i] == ((const u8*) b)[i])
        i++;
    cost_now += i + 1;
    return __real_memcmp(a, b, n);
}
UNCOUNTED size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); cost_now += n + 1; return n; }
UNCOUNTED int
__wrap_strncmp(const char* a, const char* b, size_t n)
{
    size_t i = 0;
    while(i < n && a[i] == b[i] && a[i] != '\0')
        i++;
    cost_now += i + 1;
    return __real_strncmp(a, b, n);
}
UNCOUNTED int __wrap_strcmp(const char* a, const char* b) { return __wrap_strncmp(a, b, SIZE_MAX); }
UNCOUNTED char*
__wrap_strchr(const char* s, int c)
{
    char* r = __real_strchr(s, c);
    cost_now += (r != NULL ? (size_t) (r - s) : __real_strlen(s)) + 1;
    return r;
}
UNCOUNTED char* __wrap_strncpy(char* d, const char* s, size_t n) { cost_now += n + 1; return __real_strncpy(d, s, n); }

/* ------------------------------------------------------------------------ */

#define MAXSEC  24
static struct { const char* name; u64 cost[2]; } sec[MAXSEC];
static int n_sec, cur_run;

static UNCOUNTED void
record(const char* name, u64 c)
{
    int i;
    for(i = 0; i < n_sec && sec[i].name != name; i++)
        ;
    if(i == n_sec) {
        if(n_sec == MAXSEC)
            mon_die("too many sections");
        sec[n_sec].name = name;
        sec[n_sec].cost[0] = sec[n_sec].cost[1] = 0;
        n_sec++;
    }
    sec[i].cost[cur_run] += c;
}

#define SECTION(name, code)     do { u64 c0_ = cost_now; code; record(name, cost_now - c0_); } while(0)
#define FOR(n)                  for(i = 0; i < (n); i++)

typedef struct NODE { HTABLE_NODE h; RBTREE_NODE r; LIST_NODE l; SLIST_NODE s; QLIST_NODE q; u32 key; } NODE;
static int ht_cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, NODE, h)->key != HTABLE_DATA(b, NODE, h)->key; }
static u32 ht_hash(const HTABLE_NODE* a) { u64 x = HTABLE_DATA(a, NODE, h)->key * 0x9e3779b97f4a7c15ull; return (u32) (x >> 29); }
static void ht_dtor(HTABLE_NODE* n) { HTABLE_DATA(n, NODE, h)->key = 0; }
static int
rb_cmp(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    u32 x = RBTREE_DATA(a, NODE, r)->key, y = RBTREE_DATA(b, NODE, r)->key;
    return (x > y) - (x < y);
}

/* Distinct keys in some order. */
static UNCOUNTED NODE*
make_nodes(size_t n, int order)
{
    NODE* a = (NODE*) xmalloc(n * sizeof(NODE));
    size_t i, j;
    u32 t;
    __real_memset(a, 0, n * sizeof(NODE));
    for(i = 0; i < n; i++)
        a[i].key = (u32) (order == 1 ? n - i : i);
    if(order == 2) {
        for(i = n - 1; i > 0; i--) {
            j = rn(i + 1);
            t = a[i].key; a[i].key = a[j].key; a[j].key = t;
        }
    }
    return a;
}

static void
s_buffer(size_t n, unsigned par)
{
    BUFFER b;
    STACK s;
    ARRAY_int32 a;
    u8 piece[64];
    size_t i, k = 1 + par % 64;
    u32 x = 0;
    __real_memset(piece, 7, sizeof(piece));
    buffer_init(&b);
    SECTION("buffer_append", FOR(n) CHECK(buffer_append(&b, piece, k) == 0, "buffer_append()"));
    SECTION("buffer_size, buffer_data_at", FOR(n) x += buffer_size(&b) + *(u8*) buffer_data_at(&b, i));
    SECTION("buffer_remove of the tail", FOR(n) buffer_remove(&b, buffer_size(&b) - k, k));
    CHECK(buffer_is_empty(&b), "buffer_is_empty()");
    CHECK(buffer_reserve(&b, n * k) == 0, "buffer_reserve()");
    SECTION("buffer_append_raw after buffer_reserve", FOR(n) CHECK(buffer_append_raw(&b, k) != NULL, "buffer_append_raw()"));
    SECTION("buffer_clear, buffer_fini", buffer_clear(&b); buffer_fini(&b));
    stack_init(&s);
    SECTION("stack_push_uint32", FOR(n) CHECK(stack_push_uint32(&s, (u32) i) == 0, "stack_push()"));
    SECTION("stack_peek_uint32", FOR(n) x += stack_peek_uint32(&s));
    SECTION("stack_pop_uint32", FOR(n) x += stack_pop_uint32(&s));
    stack_fini(&s);
    array_int32_init(&a);
    SECTION("array_int32_append", FOR(n) CHECK(array_int32_append(&a, 1) == 0, "array_int32_append()"));
    SECTION("array_int32_get, array_int32_set, array_int32_size", FOR(n) { array_int32_set(&a, i, 3); x += (u32) array_int32_get(&a, i) + (u32) array_int32_size(&a); });
    SECTION("array_int32_remove of the last", FOR(n) array_int32_remove(&a, array_int32_size(&a) - 1));
    SECTION("array_int32_append_n", FOR(n / 8) CHECK(array_int32_append_n(&a, 8) == 0, "array_int32_append_n()"));
    SECTION("array_int32_remove_n", array_int32_remove_n(&a, 3, array_int32_size(&a) - 5));
    array_int32_fini(&a);
    if(x == 1)
        EV("unlikely");
}

static void
s_htable(size_t n, unsigned par)
{
    HTABLE t;
    NODE* a = make_nodes(n, (int) par % 3);
    NODE key;
    size_t i;
    htable_init(&t);
    if(par & 8)
        SECTION("htable_insert", FOR(n) CHECK(htable_insert(&t, &a[i].h, ht_cmp, ht_hash) == 0, "htable_insert()"));
    else
        SECTION("htable_insert_unsafe", FOR(n) CHECK(htable_insert_unsafe(&t, &a[i].h, ht_cmp, ht_hash) == 0, "htable_insert_unsafe()"));
    SECTION("htable_lookup", FOR(n) CHECK(htable_lookup(&t, &a[i].h, ht_cmp, ht_hash) == &a[i].h, "htable_lookup()"));
    SECTION("htable_lookup of absent", FOR(n) { key.key = (u32) (i + 2 * n); CHECK(htable_lookup(&t, &key.h, ht_cmp, ht_hash) == NULL, "htable_lookup()"); });
    SECTION("htable_is_empty", FOR(n) CHECK(!htable_is_empty(&t), "htable_is_empty()"));
    if(par & 16)
        SECTION("htable_remove", FOR(n) CHECK(htable_remove(&t, &a[i].h, ht_cmp, ht_hash) == &a[i].h, "htable_remove()"));
    SECTION("htable_fini", htable_fini(&t, (par & 32) ? NULL : ht_dtor));
    xfree(a);
}

static void
s_rbtree(size_t n, unsigned par)
{
    RBTREE t;
    RBTREE_CURSOR cur = RBTREE_CURSOR_INITIALIZER;
    RBTREE_NODE* r;
    NODE* a = make_nodes(n, (int) par % 3);
    NODE key;
    size_t i;
    rbtree_init(&t);
    SECTION("rbtree_insert", FOR(n) CHECK(rbtree_insert(&t, &a[i].r, rb_cmp) == 0, "rbtree_insert()"));
    SECTION("rbtree_lookup", FOR(n) CHECK(rbtree_lookup(&t, &a[i].r, rb_cmp) == &a[i].r, "rbtree_lookup()"));
    SECTION("rbtree_lookup of absent", FOR(n) { key.key = (u32) (i + 2 * n); CHECK(rbtree_lookup(&t, &key.r, rb_cmp) == NULL, "rbtree_lookup()"); });
    SECTION("rbtree_lookup_ex", FOR(n) CHECK(rbtree_lookup_ex(&t, &a[i].r, rb_cmp, &cur) == &a[i].r && rbtree_current(&cur) == &a[i].r, "rbtree_lookup_ex()"));
    SECTION("rbtree_head, rbtree_tail", FOR(n) CHECK(rbtree_head(&t, &cur) != rbtree_tail(&t, &cur), "rbtree_head()"));
    SECTION("rbtree_next", for(i = 0, r = rbtree_head(&t, &cur); r != NULL; r = rbtree_next(&cur)) i++);
    CHECK(i == n, "rbtree_next()");
    SECTION("rbtree_prev", for(i = 0, r = rbtree_tail(&t, &cur); r != NULL; r = rbtree_prev(&cur)) i++);
    CHECK(i == n, "rbtree_prev()");
    SECTION("rbtree_is_empty", FOR(n) CHECK(!rbtree_is_empty(&t), "rbtree_is_empty()"));
    if(par & 8) {
        SECTION("rbtree_remove", FOR(n) CHECK(rbtree_remove(&t, &a[i].r, rb_cmp) == &a[i].r, "rbtree_remove()"));
    } else {
        i = 0;
        SECTION("rbtree_fini_step", while(rbtree_fini_step(&t) != NULL) i++);
        CHECK(i == n, "rbtree_fini_step()");
    }
    xfree(a);
}

static void
s_list(size_t n, unsigned par)
{
    LIST l;
    SLIST s;
    QLIST q;
    LIST_NODE* ln;
    SLIST_NODE* sn;
    QLIST_NODE* qn;
    NODE* a = make_nodes(n, 0);
    size_t i;
    list_init(&l);
    slist_init(&s);
    qlist_init(&q);
    SECTION("list_append", FOR(n / 2) list_append(&l, &a[i].l));
    SECTION("list_prepend", for(i = n / 2; i < n - 1; i++) list_prepend(&l, &a[i].l));
    SECTION("list_insert_after", list_insert_after(&l, &a[n / 4].l, &a[n - 1].l));
    i = 0;
    SECTION("list_next", for(ln = list_head(&l); ln != list_end(&l); ln = list_next(ln)) i++);
    CHECK(i == n, "list_next()");
    SECTION("list_prev", for(ln = list_tail(&l); ln != list_end(&l); ln = list_prev(ln)) i--);
    CHECK(i == 0, "list_prev()");
    SECTION("list_is_empty", FOR(n) CHECK(!list_is_empty(&l) && list_head(&l) != list_tail(&l), "list_is_empty()"));
    SECTION("list_remove", FOR(n) { if(par & 8) list_remove(&l, &a[i].l); else if(i & 1) list_remove_head(&l); else list_remove_tail(&l); });
    CHECK(list_is_empty(&l), "list_is_empty()");
    SECTION("slist_prepend", FOR(n) slist_prepend(&s, &a[i].s));
    SECTION("slist_next", for(i = 0, sn = slist_head(&s); sn != slist_end(&s); sn = slist_next(sn)) i++);
    CHECK(i == n, "slist_next()");
    SECTION("slist_remove_head", FOR(n) slist_remove_head(&s));
    SECTION("qlist_append", FOR(n / 2) qlist_append(&q, &a[i].q));
    SECTION("qlist_prepend", for(i = n / 2; i < n; i++) qlist_prepend(&q, &a[i].q));
    SECTION("qlist_next", for(i = 0, qn = qlist_head(&q); qn != qlist_end(&q); qn = qlist_next(qn)) i++);
    CHECK(i == n, "qlist_next()");
    SECTION("qlist_is_empty, qlist_tail", FOR(n) CHECK(!qlist_is_empty(&q) && qlist_head(&q) != qlist_tail(&q), "qlist_tail()"));
    SECTION("qlist_remove_head", FOR(n) qlist_remove_head(&q));
    CHECK(qlist_is_empty(&q), "qlist_is_empty()");
    xfree(a);
}

static int walker(const VALUE* k, VALUE* v, void* ud) { (void) k; *(size_t*) ud += value_int64(v) >= 0; return 0; }
static int dict_cmp(const char* a, size_t na, const char* b, size_t nb) { return na != nb ? (na < nb ? 1 : -1) : memcmp(b, a, na); }

static void
s_array(size_t n, unsigned par)
{
    VALUE v;
    VALUE* x;
    char path[32];
    size_t i, k = 0;
    CHECK(value_init_array(&v) == 0, "value_init_array()");
    SECTION("value_array_append", FOR(n) CHECK((x = value_array_append(&v)) != NULL && value_init_int64(x, (int64_t) i) == 0, "value_array_append()"));
    SECTION("value_array_get, value_array_size", FOR(n) k += value_int64(value_array_get(&v, i)) == (int64_t) i && value_array_size(&v) == n && value_array_get_all(&v) != NULL);
    CHECK(k == n, "value_array_get()");
    SECTION("value_path to an item", FOR(n) { k = (i & 1) ? i : n - 1 - i; snprintf(path, sizeof(path), "[%s%u]", (i & 1) ? "" : "-", (unsigned) (i & 1 ? i : i + 1)); CHECK(value_path(&v, path) == value_array_get(&v, k), "value_path()"); });
    if(par & 8)
        SECTION("value_array_remove of the last", FOR(n) CHECK(value_array_remove(&v, n - 1 - i) == 0, "value_array_remove()"));
    else if(par & 16)
        SECTION("value_array_remove_range", CHECK(value_array_remove_range(&v, 2, n - 4) == 0, "value_array_remove_range()"));
    else if(par & 32)
        SECTION("value_array_clean", value_array_clean(&v));
    SECTION("value_fini of an array", value_fini(&v));
    CHECK(value_init_array(&v) == 0, "value_init_array()");
    SECTION("value_build_path to a new item", FOR(n) CHECK((x = value_build_path(&v, "[]")) != NULL && value_init_bool(x, 1) == 0, "value_build_path()"));
    value_fini(&v);
}

static void
s_dict(size_t n, unsigned par)
{
    VALUE v;
    VALUE* x;
    NODE* a = make_nodes(n, (int) par % 3);
    const VALUE** keys = (const VALUE**) xmalloc(n * sizeof(VALUE*));
    unsigned ordered = (par & 8) ? VALUE_DICT_MAINTAINORDER : 0;
    char key[16];
    size_t i, k;
    CHECK(value_init_dict_ex(&v, (par & 16) ? dict_cmp : NULL, ordered) == 0, "value_init_dict_ex()");
#define KEY(i)  snprintf(key, sizeof(key), "k%09u", (unsigned) a[i].key)
    SECTION("value_dict_add", FOR(n) { KEY(i); CHECK((x = value_dict_add(&v, key)) != NULL && value_init_int64(x, (int64_t) i) == 0, "value_dict_add()"); });
    SECTION("value_dict_get", FOR(n) { KEY(i); CHECK(value_int64(value_dict_get(&v, key)) == (int64_t) i, "value_dict_get()"); });
    SECTION("value_dict_get_or_add of present", FOR(n) { KEY(i); CHECK(value_int64(value_dict_get_or_add(&v, key)) == (int64_t) i, "value_dict_get_or_add()"); });
    SECTION("value_path to a member", FOR(n) { KEY(i); CHECK(value_int64(value_path(&v, key)) == (int64_t) i, "value_path()"); });
    SECTION("value_dict_get of absent", FOR(n) { snprintf(key, sizeof(key), "k%08uz", (unsigned) i); CHECK(value_dict_get(&v, key) == NULL, "value_dict_get()"); });
    SECTION("value_dict_size, value_dict_flags", FOR(n) CHECK(value_dict_size(&v) == n && (value_dict_flags(&v) & ordered) == ordered, "value_dict_size()"));
    k = 0;
    SECTION("value_dict_walk_sorted", CHECK(value_dict_walk_sorted(&v, walker, &k) == 0, "value_dict_walk_sorted()"));
    CHECK(k == n, "value_dict_walk_sorted()");
    SECTION("value_dict_keys_sorted", CHECK(value_dict_keys_sorted(&v, keys, n) == n, "value_dict_keys_sorted()"));
    if(ordered) {
        SECTION("value_dict_walk_ordered", CHECK(value_dict_walk_ordered(&v, walker, &k) == 0, "value_dict_walk_ordered()"));
        CHECK(k == 2 * n, "value_dict_walk_ordered()");
        SECTION("value_dict_keys_ordered", CHECK(value_dict_keys_ordered(&v, keys, n) == n, "value_dict_keys_ordered()"));
    }
    if(par & 32)
        SECTION("value_dict_remove", FOR(n) { KEY(i); CHECK(value_dict_remove(&v, key) == 0, "value_dict_remove()"); });
    else if(par & 64)
        SECTION("value_dict_clean", value_dict_clean(&v));
    SECTION("value_fini of a dictionary", value_fini(&v));
    xfree(keys);
    xfree(a);
}

static void
s_string(size_t n, unsigned par)
{
    VALUE v;
    VALUE* x;
    char* s = (char*) xmalloc(2 * n + 1);
    size_t i, k = 0, depth = n / 40;
    __real_memset(s, 'q', 2 * n);
    s[2 * n] = '\0';
    SECTION("value_init_string", CHECK(value_init_string(&v, s) == 0, "value_init_string()"));
    SECTION("value_string, value_string_length", FOR(n) k += value_string_length(&v) == 2 * n && value_string(&v)[i] == 'q');
    CHECK(k == n, "value_string()");
    SECTION("value_fini of a string", value_fini(&v));
    /* A deep tree. */
    FOR(depth) { s[2 * i] = 'a'; s[2 * i + 1] = '/'; }
    s[2 * depth] = '\0';
    value_init_null(&v);
    CHECK(value_init_dict(&v) == 0, "value_init_dict()");
    SECTION("value_build_path of a long path", CHECK((x = value_build_path(&v, s)) != NULL && value_init_bool(x, 1) == 0, "value_build_path()"));
    SECTION("value_path of a long path", CHECK(value_path(&v, s) == x, "value_path()"));
    SECTION("value_fini of a deep tree", value_fini(&v));
    xfree(s);
    (void) par;
}

static void
s_codec(size_t n, unsigned par)
{
    u8* in = (u8*) xmalloc(n);
    u8* back = (u8*) xmalloc(n);
    char* out = (char*) xmalloc(2 * n + 8);
    size_t i;
    int r = 0, d = 0;
    u64 x = 0;
    FOR(n) in[i] = (u8) (i * 7 + par);
    SECTION("base64_encode", r = base64_encode(in, (unsigned) n, out, (unsigned) (2 * n + 8), NULL));
    SECTION("base64_decode", d = base64_decode(out, (unsigned) r, back, (unsigned) n, NULL));
    CHECK(d == (int) n, "base64_decode()");
    SECTION("hex_encode", r = hex_encode(in, (unsigned) n, out, (unsigned) (2 * n + 8), 0));
    SECTION("hex_decode", d = hex_decode(out, (unsigned) r, back, (unsigned) n));
    CHECK(d == (int) n, "hex_decode()");
    SECTION("crc32", x += crc32(in, n));
    SECTION("fnv1a_32", x += fnv1a_32(FNV1A_BASE_32, in, n));
    SECTION("fnv1a_64", x += fnv1a_64(FNV1A_BASE_64, in, n));
    if(x == 1)
        EV("unlikely");
    xfree(in); xfree(back); xfree(out);
}

static void
s_chunk(size_t n, unsigned par)
{
    MEMCHUNK c;
    size_t i;
    memchunk_init(&c, (par & 8) ? 0 : 64 + par);
    SECTION("memchunk_alloc", FOR(n) CHECK(memchunk_alloc(&c, 1 + (i * par) % 70) != NULL, "memchunk_alloc()"));
    SECTION("memchunk_fini", memchunk_fini(&c));
}

static int cl_cb(int id, const char* arg, void* ud) { (void) id; (void) arg; ++*(size_t*) ud; return 0; }
static void
s_cmdline(size_t n, unsigned par)
{
    static const CMDLINE_OPTION opts[] = {
        { 'a', "alpha", 1, 0 }, { 'b', "beta", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 0, "gamma", 3, CMDLINE_OPTFLAG_OPTIONALARG },
        { 0, "-D", 5, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, NULL, 0, 0 }
    };
    static char* const w[] = { "-a", "-bx", "--alpha", "--beta=1", "--gamma", "-Dx", "file", "--unknown=4", "-x", "-aaa", "--gamma=q" };
    char** argv = (char**) xmalloc((n + 2) * sizeof(char*));
    char* arg = (char*) xmalloc(n + 16);
    size_t i, k = 0;
    CMDLINE_OPTION* many;
    argv[0] = w[0];
    FOR(n) argv[i + 1] = w[(i * (par | 1)) % 11];
    argv[n + 1] = NULL;
    SECTION("cmdline_read of many arguments", CHECK(cmdline_read(opts, (int) n + 1, argv, cl_cb, &k) == 0, "cmdline_read()"));
    argv[1] = arg;
    argv[2] = NULL;
    __real_memset(arg, 'a', n + 8);
    arg[0] = '-';
    arg[n] = '\0';
    SECTION("cmdline_read of a long group", CHECK(cmdline_read(opts, 2, argv, cl_cb, &k) == 0, "cmdline_read()"));
    __real_memcpy(arg, "--gamma=", 8);
    SECTION("cmdline_read of a long argument", CHECK(cmdline_read(opts, 2, argv, cl_cb, &k) == 0, "cmdline_read()"));
    __real_memcpy(arg, "--other", 7);
    arg[n - 2] = '=';
    SECTION("cmdline_read of a long unknown option", CHECK(cmdline_read(opts, 2, argv, cl_cb, &k) == 0, "cmdline_read()"));
    many = (CMDLINE_OPTION*) xmalloc((n + 1) * sizeof(CMDLINE_OPTION));
    FOR(n + 1) { many[i] = opts[(i * 3) % 4]; if(i == n) many[i] = opts[4]; }
    argv[1] = w[7];
    SECTION("cmdline_read with many options", CHECK(cmdline_read(many, 2, argv, cl_cb, &k) == 0, "cmdline_read()"));
    xfree(many);
    xfree(arg);
    xfree(argv);
}

static const struct { const char* name; void (*fn)(size_t n, unsigned par); } scenarios[] = {
    { "buffers", s_buffer }, { "htable", s_htable }, { "rbtree", s_rbtree }, { "lists", s_list }, { "array", s_array },
    { "dict", s_dict }, { "string", s_string }, { "codec", s_codec }, { "chunk", s_chunk }, { "cmdline", s_cmdline }
};
#define NSCEN   (sizeof(scenarios) / sizeof(scenarios[0]))

static void
mode_growth(u64 ep)
{
    static const unsigned ratios[] = { 16, 32, 24 };
    size_t n = 600 + rn(900), r = ratios[rn(3)];
    unsigned par = (unsigned) rn(128);
    u64 state = mon_rng_state, sc = ep % NSCEN;
    int i;
    n_sec = 0;
    for(cur_run = 0; cur_run < 2; cur_run++) {
        mon_rng_state = state;
        scenarios[sc].fn(cur_run == 0 ? n : n * r, par);
    }
    OP("%llu with %llu items, then %llu times as many", sc, n, r);
    for(i = 0; i < n_sec; i++) {
        u64 c0 = sec[i].cost[0], c1 = sec[i].cost[1];
        OP("operation #%llu costs %llu, then %llu", i, c0, c1);
        CHECK(c1 <= c0 * r * 4 + 3000, "%s: %zu items cost %llu, %zu times as many cost %llu", sec[i].name, n,
              (unsigned long long) c0, r, (unsigned long long) c1);
        EVN("units of cost", c0 + c1);
        EVMAX("growth beyond linear, in percent", c0 > 0 ? c1 * 100 / (c0 * r + 3000) : 0);
        EVAL(h3(sc * MAXSEC + (u64) i, n, r * 128 + par));
    }
    mon_ev[mon_ev_index(scenarios[sc].name)].n++;
}

const struct mon_mode mon_modes[] = {
    { "growth", mode_growth },
    { NULL, NULL }
};
