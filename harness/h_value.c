/* Monitors of data/value.[hc]: C14 - C23, C40 and a part of C43. */
#include "mon.h"
#include "value.h"
#include <math.h>
#include <float.h>
#include <ctype.h>

/* Part of the CRE_TEST build of the module. */
int value_dict_verify(VALUE* v) __attribute__((weak));

/* ------------------------------------------------------------------------ */
/* Keys and comparators. */

typedef struct KEY { u8* p; size_t n; int cstr; int safe; } KEY;

#define MAXPOOL     1200
static KEY pool[MAXPOOL];
static size_t n_pool;

static int
is_path_safe(const u8* p, size_t n)
{
    size_t i;
    if(n == 0)
        return 0;
    for(i = 0; i < n; i++) {
        if(p[i] == 0 || p[i] == '/' || p[i] == '[' || p[i] == ']')
            return 0;
    }
    return 1;
}

static void
key_make(KEY* k, int only_safe)
{
    static const char alpha[] = { 'a', 'b', 'A', 'B', '0', '\0', (char) 0xff, (char) 0x80, 'z', 1 };
    u8 buf[700] = { 0 };
    size_t n = 0, i;
    switch(rn(8)) {
        case 0: case 1:
            n = rn(4);
            for(i = 0; i < n; i++)
                buf[i] = (u8) alpha[rn(sizeof(alpha))];
            break;
        case 2:     /* prefixes of one text */
            n = rn(40);
            for(i = 0; i < n; i++)
                buf[i] = (u8) ('k' + i % 3);
            break;
        case 3:     /* zero bytes */
            n = rn(20);
            memset(buf, 0, n);
            if(n > 0 && chance(1, 2))
                buf[rn(n)] = (u8) rn(3);
            break;
        case 4: n = 11 + rn(7); rnd_fill(buf, n); break;
        case 5: n = 124 + rn(9); memset(buf, 'x', n); buf[n-1] = (u8) ('a' + rn(3)); buf[rn(n)] = 'y'; break;
        case 6: n = rn(3) ? rn(20) : rn(600); rnd_fill(buf, n); break;
        default:
            n = (size_t) sprintf((char*) buf, "key%u", (unsigned) rn(1000));
            if(chance(1, 8)) buf[rn(n)] = "[]/"[rn(3)];
            break;
    }
    if(only_safe || chance(1, 2)) {
        if(n == 0)
            n = 1;
        for(i = 0; i < n; i++) {
            if(buf[i] == 0 || buf[i] == '/' || buf[i] == '[' || buf[i] == ']')
                buf[i] = 'q';
        }
    }
    k->p = xdup(buf, n);
    k->n = n;
    k->cstr = (memchr(buf, 0, n) == NULL);
    k->safe = is_path_safe(buf, n);
}

static void
pool_make(size_t n, int only_safe)
{
    for(n_pool = 0; n_pool < n; n_pool++)
        key_make(&pool[n_pool], only_safe);
}

static void
pool_free(void)
{
    while(n_pool > 0) {
        n_pool--;
        xdup_free(pool[n_pool].p, pool[n_pool].n);
    }
}

enum { CMP_DEFAULT, CMP_REVERSE, CMP_LENFIRST, CMP_NOCASE, CMP_WIDE, CMP_COUNT };

static u64 n_cmp;

/* The order of the model, written out bytewise. */
static int
mcmp(int kind, const u8* a, size_t an, const u8* b, size_t bn)
{
    size_t i;
    if(kind == CMP_LENFIRST && an != bn)
        return (an < bn) ? -1 : 1;
    for(i = 0; i < an && i < bn; i++) {
        int x = a[i], y = b[i];
        if(kind == CMP_NOCASE) {
            if(x >= 'A' && x <= 'Z') x += 32;
            if(y >= 'A' && y <= 'Z') y += 32;
        }
        if(x != y)
            return (kind == CMP_REVERSE) ? y - x : x - y;
    }
    if(an == bn)
        return 0;
    return ((an < bn) != (kind == CMP_REVERSE)) ? -1 : 1;
}

#define DEFCMP(name, kind)                                                    \
    static int name(const char* a, size_t an, const char* b, size_t bn)       \
    { n_cmp++; return mcmp(kind, (const u8*) a, an, (const u8*) b, bn); }
DEFCMP(cmp_reverse, CMP_REVERSE)
DEFCMP(cmp_lenfirst, CMP_LENFIRST)
DEFCMP(cmp_nocase, CMP_NOCASE)
static int
cmp_wide(const char* a, size_t an, const char* b, size_t bn)
{
    static const int mags[] = { 1, INT_MAX, 2, 256, 0x10000, 127, 0x1000000, 3 };
    int c = mcmp(CMP_DEFAULT, (const u8*) a, an, (const u8*) b, bn);
    int mag = mags[n_cmp++ % 8];
    if(c == 0)
        return 0;
    if(c > 0)
        return mag;
    return (mag == INT_MAX) ? INT_MIN : -mag;
}

typedef int (*CMPF)(const char*, size_t, const char*, size_t);
static CMPF
cmp_of(int kind)
{
    switch(kind) {
        case CMP_REVERSE:   return cmp_reverse;
        case CMP_LENFIRST:  return cmp_lenfirst;
        case CMP_NOCASE:    return cmp_nocase;
        case CMP_WIDE:      return cmp_wide;
        default:            return NULL;
    }
}

/* ------------------------------------------------------------------------ */
/* The model of a value. */

typedef struct MV MV;
typedef struct ME { u8* k; size_t kn; MV* v; } ME;

struct MV {
    VALUE_TYPE type;
    int is_new;
    i64 i;          /* BOOL and integers (UINT64 as a bit pattern) */
    double d;       /* FLOAT and DOUBLE */
    u8* s;          /* STRING */
    size_t n;       /* length of the string; count of items */
    size_t cap;
    MV** it;        /* ARRAY */
    ME** ent;       /* DICT, sorted */
    ME** ord;       /* DICT, in order of addition */
    int cmpk;
    int ordered;
};

static size_t n_mv;

static MV*
mv_new(void)
{
    MV* m = xmalloc(sizeof(MV));
    memset(m, 0, sizeof(MV));
    m->type = VALUE_NULL;
    m->is_new = 1;
    n_mv++;
    return m;
}

static void mv_clear(MV* m);

static void
mv_free(MV* m)
{
    mv_clear(m);
    xfree(m);
    n_mv--;
}

static void
me_free(ME* e)
{
    mv_free(e->v);
    xdup_free(e->k, e->kn);
    xfree(e);
}

static void
mv_clear(MV* m)
{
    size_t i;
    if(m->type == VALUE_ARRAY) {
        for(i = 0; i < m->n; i++)
            mv_free(m->it[i]);
    }
    if(m->type == VALUE_DICT) {
        for(i = 0; i < m->n; i++)
            me_free(m->ent[i]);
    }
    if(m->type == VALUE_STRING)
        xdup_free(m->s, m->n);
    xfree(m->it);
    xfree(m->ent);
    xfree(m->ord);
    memset(m, 0, sizeof(MV));
    m->type = VALUE_NULL;
}

static void
mv_grow(MV* m)
{
    if(m->n >= m->cap) {
        size_t cap = m->cap ? m->cap * 2 : 4;
#define REGROW(f)   do { void* q = xmalloc(cap * sizeof(*m->f));              \
                         if(m->n) memcpy(q, m->f, m->n * sizeof(*m->f));      \
                         xfree(m->f); m->f = q; } while(0)
        if(m->type == VALUE_ARRAY)
            REGROW(it);
        else {
            REGROW(ent);
            REGROW(ord);
        }
        m->cap = cap;
    }
}

static MV*
mv_insert(MV* m, size_t i)
{
    mv_grow(m);
    memmove(m->it + i + 1, m->it + i, (m->n - i) * sizeof(*m->it));
    m->it[i] = mv_new();
    m->n++;
    return m->it[i];
}

static void
mv_remove(MV* m, size_t i, size_t c)
{
    size_t j;
    for(j = i; j < i + c; j++)
        mv_free(m->it[j]);
    if(c > 0)
        memmove(m->it + i, m->it + i + c, (m->n - i - c) * sizeof(*m->it));
    m->n -= c;
}

/* First position whose key is not below the given one. */
static size_t
mv_pos(const MV* m, const u8* k, size_t kn, int* found)
{
    size_t lo = 0, hi = m->n;
    while(lo < hi) {
        size_t mid = (lo + hi) / 2;
        if(mcmp(m->cmpk, m->ent[mid]->k, m->ent[mid]->kn, k, kn) < 0)
            lo = mid + 1;
        else
            hi = mid;
    }
    *found = (lo < m->n && mcmp(m->cmpk, m->ent[lo]->k, m->ent[lo]->kn, k, kn) == 0);
    return lo;
}

static MV*
mv_lookup(const MV* m, const u8* k, size_t kn)
{
    int found;
    size_t p;
    if(m->type != VALUE_DICT)
        return NULL;
    p = mv_pos(m, k, kn, &found);
    return found ? m->ent[p]->v : NULL;
}

static MV*
mv_add(MV* m, const u8* k, size_t kn)
{
    int found;
    size_t p = mv_pos(m, k, kn, &found);
    ME* e;
    if(found)
        mon_die("mv_add: duplicate");
    mv_grow(m);
    e = xmalloc(sizeof(ME));
    e->k = xdup(k, kn);
    e->kn = kn;
    e->v = mv_new();
    memmove(m->ent + p + 1, m->ent + p, (m->n - p) * sizeof(*m->ent));
    m->ent[p] = e;
    m->ord[m->n] = e;
    m->n++;
    return e->v;
}

static void
mv_del(MV* m, const u8* k, size_t kn)
{
    int found;
    size_t p = mv_pos(m, k, kn, &found), q;
    ME* e = m->ent[p];
    if(!found)
        mon_die("mv_del");
    for(q = 0; m->ord[q] != e; q++) {}
    memmove(m->ent + p, m->ent + p + 1, (m->n - p - 1) * sizeof(*m->ent));
    memmove(m->ord + q, m->ord + q + 1, (m->n - q - 1) * sizeof(*m->ord));
    m->n--;
    me_free(e);
}

static u64
mv_hash(const MV* m)
{
    u64 h = h4(m->type, (u64) m->is_new, (u64) m->i, m->n);
    size_t i;
    if(m->type == VALUE_STRING)
        return h2(h, hbytes(m->s, m->n));
    if(m->type == VALUE_ARRAY) {
        for(i = 0; i < m->n; i++)
            h = h2(h, mv_hash(m->it[i]));
    }
    if(m->type == VALUE_DICT) {
        for(i = 0; i < m->n; i++)
            h = h3(h, hbytes(m->ent[i]->k, m->ent[i]->kn), mv_hash(m->ent[i]->v));
    }
    return h;
}

static size_t
mv_count(const MV* m, int arrays_only)
{
    size_t c = (!arrays_only || m->type == VALUE_ARRAY), i;
    if(m->type == VALUE_ARRAY) {
        for(i = 0; i < m->n; i++)
            c += mv_count(m->it[i], arrays_only);
    }
    if(m->type == VALUE_DICT) {
        for(i = 0; i < m->n; i++)
            c += mv_count(m->ent[i]->v, arrays_only);
    }
    return c;
}

/* ------------------------------------------------------------------------ */
/* The real value against the model. */

static void
check_string(const VALUE* v, const u8* s, size_t n)
{
    const char* p;
    CHECK(value_string_length(v) == n, "a string of %zu bytes reports %zu bytes", n, value_string_length(v));
    p = value_string(v);
    CHECK(p != NULL, "a string of %zu bytes has no pointer", n);
    CHECK(memcmp(p, s, n) == 0, "a string of %zu bytes has other content", n);
    CHECK(p[n] == '\0', "a string of %zu bytes is not terminated", n);
}

struct walk {
    const MV* m;
    ME** exp;
    size_t i;
    size_t stop_at;     /* SIZE_MAX = never */
    int stop_code;
    VALUE** vals;
    const VALUE* dict;
    int nested;
};

static void* walk_ctx;

static int
counting_visitor(const VALUE* key, VALUE* val, void* ctx)
{
    size_t* left = ctx;
    return --*left == 0;
}

/* Reading the dictionary from within a walk through it. */
static void
read_within(const struct walk* w, const VALUE* key, VALUE* val)
{
    const VALUE* v = w->dict;
    const MV* m = w->m;
    const ME* e = m->ent[rn(m->n)];
    size_t left;

    EV("dictionary read within a walk");
    CHECK(value_dict_get_(v, value_string(key), value_string_length(key)) == val, "within a walk, the lookup of the visited key goes wrong");
    CHECK(value_dict_size(v) == m->n, "within a walk, the size is wrong");
    switch(rn(4)) {
        case 0:
            CHECK(value_dict_get_(v, (const char*) e->k, e->kn) != NULL, "within a walk, a key is not found");
            break;
        case 1: {
            u8* k = xmalloc(e->kn + 1);
            if(e->kn > 0) memcpy(k, e->k, e->kn);
            k[e->kn] = (u8) rnd();
            CHECK((value_dict_get_(v, (const char*) k, e->kn + 1) != NULL) == (mv_lookup(m, k, e->kn + 1) != NULL), "within a walk, a lookup goes wrong");
            xfree(k);
            break;
        }
        case 2:
            left = rr(1, 2 * m->n);
            CHECK(value_dict_walk_sorted(v, counting_visitor, &left) == (left == 0), "a walk within a walk goes wrong");
            break;
        default: {
            const VALUE* first = NULL;
            CHECK(value_dict_keys_sorted(v, &first, 1) == 1 && value_string_length(first) == m->ent[0]->kn, "within a walk, listing the keys goes wrong");
            break;
        }
    }
}

static int
visitor(const VALUE* key, VALUE* val, void* ctx)
{
    struct walk* w = ctx;
    CHECK(ctx == walk_ctx, "the visitor got a wrong context");
    CHECK(w->i < w->m->n, "the walk gives more than %zu items", w->m->n);
    CHECK(w->stop_at == SIZE_MAX || w->i <= w->stop_at, "the walk continues after the visitor asked to stop");
    CHECK(value_type(key) == VALUE_STRING, "the key given to the visitor is not a string");
    CHECK(value_string_length(key) == w->exp[w->i]->kn &&
          memcmp(value_string(key), w->exp[w->i]->k, w->exp[w->i]->kn) == 0,
          "the walk gives a wrong key at the position %zu of %zu", w->i, w->m->n);
    if(w->vals != NULL)
        w->vals[w->i] = val;
    if(w->nested && rn(4) == 0)
        read_within(w, key, val);
    w->i++;
    return (w->i - 1 == w->stop_at) ? w->stop_code : 0;
}

static void
walk(const VALUE* v, const MV* m, int ordered, VALUE** vals)
{
    struct walk w;
    int r;
    memset(&w, 0, sizeof(w));
    w.m = m;
    w.exp = ordered ? m->ord : m->ent;
    w.stop_at = SIZE_MAX;
    w.vals = vals;
    w.dict = v;
    w.nested = (m->n < 200 && rn(8) == 0);
    walk_ctx = &w;
    r = ordered ? value_dict_walk_ordered(v, visitor, &w) : value_dict_walk_sorted(v, visitor, &w);
    CHECK(r == 0, "a completed walk returned %d", r);
    CHECK(w.i == m->n, "the walk gave %zu of %zu items", w.i, m->n);
    if(m->n > 0 && vals == NULL) {
        static const int codes[] = { 1, -1, 42, INT_MIN, INT_MAX, 256, 0x10000 };
        w.i = 0;
        w.stop_at = rn(m->n);
        w.stop_code = codes[rn(7)];
        r = ordered ? value_dict_walk_ordered(v, visitor, &w) : value_dict_walk_sorted(v, visitor, &w);
        CHECK(r == w.stop_code, "a walk stopped by the visitor with %d returned %d", w.stop_code, r);
        CHECK(w.i == w.stop_at + 1, "a walk stopped by the visitor at %zu went to %zu", w.stop_at, w.i);
    }
}

static void
keys_list(const VALUE* v, const MV* m, int ordered, size_t size)
{
    const VALUE** buf = xmalloc(size * sizeof(VALUE*) + 2 * sizeof(VALUE*));
    const VALUE** end = buf + 1 + size;
    size_t r, i, n = (size < m->n) ? size : m->n;
    ME** exp = ordered ? m->ord : m->ent;
    const VALUE* guard = (const VALUE*) (uintptr_t) 0x5a5a5a5a;
    buf[0] = *end = guard;
#ifdef MON_ASAN
    ASAN_POISON_MEMORY_REGION(buf, sizeof(VALUE*));
    ASAN_POISON_MEMORY_REGION(end, sizeof(VALUE*));
#endif
    r = ordered ? value_dict_keys_ordered(v, buf + 1, size) : value_dict_keys_sorted(v, buf + 1, size);
#ifdef MON_ASAN
    ASAN_UNPOISON_MEMORY_REGION(buf, sizeof(VALUE*));
    ASAN_UNPOISON_MEMORY_REGION(end, sizeof(VALUE*));
#endif
    CHECK(buf[0] == guard && *end == guard, "listing of keys wrote beyond the buffer");
    CHECK(r == n, "listing of %zu keys into a buffer of %zu gave %zu", m->n, size, r);
    for(i = 0; i < n; i++) {
        CHECK(value_type(buf[1 + i]) == VALUE_STRING && value_string_length(buf[1 + i]) == exp[i]->kn &&
              memcmp(value_string(buf[1 + i]), exp[i]->k, exp[i]->kn) == 0,
              "listing of keys gives a wrong key at the position %zu of %zu", i, m->n);
    }
    xfree(buf);
}

static void
check_scalar(const VALUE* v, const MV* m)
{
    switch(m->type) {
        case VALUE_BOOL:    CHECK(value_bool(v) == (int) m->i, "a bool changed"); break;
        case VALUE_INT32:   CHECK(value_int32(v) == (int32_t) m->i, "an int32 changed"); break;
        case VALUE_UINT32:  CHECK(value_uint32(v) == (uint32_t) m->i, "an uint32 changed"); break;
        case VALUE_INT64:   CHECK(value_int64(v) == m->i, "an int64 changed"); break;
        case VALUE_UINT64:  CHECK(value_uint64(v) == (u64) m->i, "an uint64 changed"); break;
        case VALUE_FLOAT:   CHECK(value_float(v) == (float) m->d, "a float changed"); break;
        case VALUE_DOUBLE:  CHECK(value_double(v) == m->d, "a double changed"); break;
        default:            break;
    }
}

static int
nothing_visitor(const VALUE* key, VALUE* val, void* ctx)
{
    (void) key; (void) val; (void) ctx;
    mon_fail(__FILE__, __LINE__, "visitor", "visitor called for a thing which is not (ordered) dictionary");
    return 0;
}

/* What is not an array or a dictionary has to act as empty. */
static void
check_not(const VALUE* v, VALUE_TYPE t)
{
    const VALUE* k[1];
    if(t != VALUE_ARRAY) {
        CHECK(value_array_size(v) == 0 && value_array_get(v, 0) == NULL && value_array_get_all(v) == NULL,
              "something which is not an array pretends to be one");
    }
    if(t != VALUE_DICT) {
        CHECK(value_dict_size(v) == 0 && value_dict_flags(v) == 0 && value_dict_get(v, "a") == NULL &&
              value_dict_keys_sorted(v, k, 1) == 0 && value_dict_keys_ordered(v, k, 1) == 0 &&
              value_dict_walk_sorted(v, nothing_visitor, NULL) == -1 &&
              value_dict_walk_ordered(v, nothing_visitor, NULL) == -1,
              "something which is not a dictionary pretends to be one");
    }
    if(t != VALUE_STRING)
        CHECK(value_string(v) == NULL && value_string_length(v) == 0, "something which is not a string pretends to be one");
    if(t != VALUE_BOOL)
        CHECK(value_bool(v) == -1, "something which is not a boolean pretends to be one");
}

static void
compare(const VALUE* v, const MV* m, int depth)
{
    size_t i;
    CHECK(value_type(v) == m->type, "a value of the type %d has the type %d", (int) m->type, (int) value_type(v));
    CHECK((value_is_new(v) != 0) == m->is_new, "value_is_new() is %d for a value which is%s new", value_is_new(v), m->is_new ? "" : " not");
    if(chance(1, 16))
        check_not(v, m->type);
    switch(m->type) {
        case VALUE_STRING:
            check_string(v, m->s, m->n);
            break;
        case VALUE_ARRAY: {
            CHECK(value_array_size(v) == m->n, "an array of %zu items reports %zu", m->n, value_array_size(v));
            CHECK(value_array_get(v, m->n) == NULL && value_array_get(v, m->n + 1 + rn(3)) == NULL &&
                  value_array_get(v, SIZE_MAX - rn(4)) == NULL, "an item beyond the end of an array was found");
            if(m->n > 0)
                CHECK(value_array_get_all(v) == value_array_get(v, 0), "value_array_get_all() does not give the items");
            for(i = 0; i < m->n; i++) {
                VALUE* item = value_array_get(v, i);
                CHECK(item != NULL, "item %zu of %zu was not found", i, m->n);
                CHECK(item == value_array_get_all(v) + i, "items are not consecutive");
                compare(item, m->it[i], depth + 1);
            }
            break;
        }
        case VALUE_DICT: {
            VALUE** vals;
            size_t step;
            CHECK(value_dict_size(v) == m->n, "a dictionary of %zu items reports %zu", m->n, value_dict_size(v));
            CHECK(value_dict_flags(v) == (m->ordered ? VALUE_DICT_MAINTAINORDER : 0u), "flags of a dictionary are %x", value_dict_flags(v));
            vals = xmalloc((m->n + 1) * sizeof(VALUE*));
            walk(v, m, 0, vals);
            step = (m->n <= 40 || depth == 0) ? 1 : 1 + rn(m->n / 16);
            for(i = 0; i < m->n; i++) {
                if(i % step == 0)
                    CHECK(value_dict_get_(v, (const char*) m->ent[i]->k, m->ent[i]->kn) == vals[i],
                          "the lookup of a present key %s", value_dict_get_(v, (const char*) m->ent[i]->k, m->ent[i]->kn) ? "found a wrong value" : "failed");
                compare(vals[i], m->ent[i]->v, depth + 1);
            }
            if(m->ordered) {
                VALUE** ovals = xmalloc((m->n + 1) * sizeof(VALUE*));
                walk(v, m, 1, ovals);
                for(i = 0; i < m->n; i++) {
                    /* The values have to be the same ones. */
                    int found;
                    size_t p = mv_pos(m, m->ord[i]->k, m->ord[i]->kn, &found);
                    CHECK(ovals[i] == vals[p], "the ordered walk gives a wrong value at the position %zu", i);
                }
                xfree(ovals);
                walk(v, m, 1, NULL);
                keys_list(v, m, 1, rn(4) ? m->n : rn(m->n + 3));
            } else {
                const VALUE* k[2];
                CHECK(value_dict_walk_ordered(v, nothing_visitor, NULL) == -1, "the ordered walk of an unordered dictionary does not fail");
                CHECK(value_dict_keys_ordered(v, k, 2) == 0, "an unordered dictionary lists ordered keys");
            }
            walk(v, m, 0, NULL);
            keys_list(v, m, 0, rn(4) ? m->n : rn(m->n + 3));
            for(i = 0; i < 4 && n_pool > 0; i++) {
                const KEY* k = &pool[rn(n_pool)];
                if(mv_lookup(m, k->p, k->n) == NULL)
                    CHECK(value_dict_get_(v, (const char*) k->p, k->n) == NULL, "the lookup of an absent key found a value");
            }
            xfree(vals);
            break;
        }
        default:
            check_scalar(v, m);
            break;
    }
}

/* ------------------------------------------------------------------------ */
/* Exact count of heap blocks a value has to hold. */

static int
cal_blocks_of_string(size_t n)
{
    static signed char cache[2000];
    int r;
    VALUE v;
    u8* s;
    size_t l0;
    if(n < sizeof(cache) && cache[n] != 0)
        return cache[n] - 1;
    s = xmalloc(n + 1);
    memset(s, 'x', n);
    l0 = mon_heap.live;
    if(value_init_string_(&v, (char*) s, n) != 0)
        mon_die("calibration failed");
    r = (int) (mon_heap.live - l0);
    value_fini(&v);
    CHECK(mon_heap.live == l0, "value_fini() of a string of %zu bytes leaks", n);
    xfree(s);
    if(n < sizeof(cache))
        cache[n] = (signed char) (r + 1);
    return r;
}

static int cal_array, cal_dict[CMP_COUNT][2], cal_node[2];

static void
calibrate(void)
{
    static int done;
    VALUE v;
    size_t l0;
    int i, j;
    if(done)
        return;
    done = 1;
    l0 = mon_heap.live;
    if(value_init_array(&v) != 0) mon_die("calibration");
    cal_array = (int) (mon_heap.live - l0);
    value_fini(&v);
    for(i = 0; i < CMP_COUNT; i++) {
        for(j = 0; j < 2; j++) {
            size_t l1;
            l0 = mon_heap.live;
            if(value_init_dict_ex(&v, cmp_of(i), j ? VALUE_DICT_MAINTAINORDER : 0) != 0) mon_die("calibration");
            l1 = mon_heap.live;
            cal_dict[i][j] = (int) (l1 - l0);
            if(value_dict_add_(&v, "", 0) == NULL) mon_die("calibration");
            cal_node[j] = (int) (mon_heap.live - l1) - cal_blocks_of_string(0);
            value_fini(&v);
            CHECK(mon_heap.live == l0, "value_fini() of a dictionary leaks");
        }
    }
}

static size_t
mv_blocks(const MV* m)
{
    size_t c = 0, i;
    switch(m->type) {
        case VALUE_STRING:
            return (size_t) cal_blocks_of_string(m->n);
        case VALUE_ARRAY:
            c = (size_t) cal_array;
            for(i = 0; i < m->n; i++)
                c += mv_blocks(m->it[i]);
            break;
        case VALUE_DICT:
            c = (size_t) cal_dict[m->cmpk][m->ordered];
            for(i = 0; i < m->n; i++)
                c += (size_t) cal_node[m->ordered] + (size_t) cal_blocks_of_string(m->ent[i]->kn) + mv_blocks(m->ent[i]->v);
            break;
        default:
            break;
    }
    return c;
}

/* An array may hold one more block for its items. */
static void
check_blocks(const MV* root, size_t live0)
{
    size_t lo = mv_blocks(root), hi = lo + mv_count(root, 1), live = mon_heap.live - live0;
    CHECK(live >= lo, "the value holds only %zu heap blocks, its members need %zu", live, lo);
    CHECK(live <= hi, "the value holds %zu heap blocks, its members need at most %zu (leak)", live, hi);
    EVMAX("heap blocks held", live);
}

/* ------------------------------------------------------------------------ */
/* Initialisers. */

typedef struct INIT {
    VALUE_TYPE type;
    i64 i;
    double d;
    u8* s;
    size_t n;
    int cmpk;
    int ordered;
    int variant;
} INIT;

static size_t
rnd_strlen(void)
{
    static const size_t ls[] = { 0, 1, 12, 13, 14, 15, 16, 126, 127, 128, 129 };
    switch(rn(4)) {
        case 0:     return ls[rn(sizeof(ls) / sizeof(ls[0]))];
        case 1:     return rn(200);
        default:    return rn(20);
    }
}

static void
init_make(INIT* in, int containers)
{
    memset(in, 0, sizeof(*in));
    in->type = (VALUE_TYPE) rn(containers ? 13 : 9);
    if(in->type >= VALUE_ARRAY)
        in->type = (in->type % 2) ? VALUE_ARRAY : VALUE_DICT;
    in->variant = (int) rn(4);
    switch(in->type) {
        case VALUE_BOOL:    in->i = (i64) rn(2); break;
        case VALUE_INT32:   in->i = (int32_t) rnd(); break;
        case VALUE_UINT32:  in->i = (uint32_t) rnd(); break;
        case VALUE_INT64:
        case VALUE_UINT64:  in->i = (i64) rnd(); break;
        case VALUE_FLOAT:   in->d = (float) (i64) rnd(); break;
        case VALUE_DOUBLE:  in->d = (double) (i64) rnd() / 1024.0; break;
        case VALUE_STRING: {
            size_t k;
            in->n = rnd_strlen();
            in->s = xmalloc(in->n + 1);
            rnd_fill(in->s, in->n);
            in->s[in->n] = 0;
            if(in->variant == 0) {
                for(k = 0; k < in->n; k++)
                    in->s[k] |= 1;
            }
            break;
        }
        case VALUE_DICT:
            in->cmpk = (int) rn(2 * CMP_COUNT);
            if(in->cmpk >= CMP_COUNT)
                in->cmpk = CMP_DEFAULT;
            in->ordered = (int) rn(2);
            break;
        default:
            break;
    }
}

static void
init_free(INIT* in)
{
    if(in->type == VALUE_STRING)
        xfree(in->s);
}

static int
init_real(VALUE* v, INIT* in)
{
    switch(in->type) {
        case VALUE_NULL:    value_init_null(v); return 0;
        case VALUE_BOOL:    return value_init_bool(v, in->i ? (in->variant ? 1 : 0x100) : 0);
        case VALUE_INT32:   return value_init_int32(v, (int32_t) in->i);
        case VALUE_UINT32:  return value_init_uint32(v, (uint32_t) in->i);
        case VALUE_INT64:   return value_init_int64(v, in->i);
        case VALUE_UINT64:  return value_init_uint64(v, (u64) in->i);
        case VALUE_FLOAT:   return value_init_float(v, (float) in->d);
        case VALUE_DOUBLE:  return value_init_double(v, in->d);
        case VALUE_STRING: {
            /* The caller's memory does not live any longer. */
            u8* s;
            int r;
            if(in->variant == 0) {
                s = xdup(in->s, in->n + 1);
                r = value_init_string(v, (char*) s);
                memset(s, 'Z', in->n + 1);
                xdup_free(s, in->n + 1);
            } else {
                s = xdup(in->s, in->n);
                r = value_init_string_(v, (char*) s, in->n);
                if(in->n) memset(s, 'Z', in->n);
                xdup_free(s, in->n);
            }
            return r;
        }
        case VALUE_ARRAY:   return value_init_array(v);
        case VALUE_DICT:
            if(in->cmpk == CMP_DEFAULT && !in->ordered && in->variant < 2)
                return value_init_dict(v);
            return value_init_dict_ex(v, cmp_of(in->cmpk), in->ordered ? VALUE_DICT_MAINTAINORDER : 0);
    }
    return -1;
}

static void
init_model(MV* m, const INIT* in)
{
    mv_clear(m);
    m->type = in->type;
    m->is_new = 0;
    m->i = in->i;
    m->d = in->d;
    m->cmpk = in->cmpk;
    m->ordered = in->ordered;
    if(in->type == VALUE_STRING) {
        m->s = xdup(in->s, in->n);
        m->n = in->n;
    }
}

/* ------------------------------------------------------------------------ */
/* Paths. */

typedef struct TOK { int kind; const KEY* key; int neg; u64 val; int bad; } TOK;
enum { TK_KEY, TK_IDX, TK_APPEND };
#define MAXTOK  12
typedef struct PATH { TOK t[MAXTOK]; int n; char text[8000]; int mutated; } PATH;

/* Makes the tokens follow the tree for some way. */
static void
path_make(PATH* p, const MV* m, int build)
{
    size_t len = 0;
    int i, slashes;
    int depth = (int) rn(6);
    static KEY missing[] = { { (u8*) "missing", 7, 1, 1 }, { (u8*) "x", 1, 1, 1 }, { (u8*) "-1", 2, 1, 1 }, { (u8*) "0", 1, 1, 1 } };

    p->n = 0;
    p->mutated = 0;
    for(i = 0; i < depth; i++) {
        TOK* t = &p->t[p->n];
        memset(t, 0, sizeof(*t));
        if(m != NULL && m->type == VALUE_ARRAY && !chance(1, 12)) {
            t->kind = TK_IDX;
            if(build && chance(1, 3)) {
                t->kind = TK_APPEND;
                m = NULL;
            } else if(m->n > 0 && !chance(1, 8)) {
                u64 k = rn(m->n);
                t->neg = (int) rn(2);
                t->val = t->neg ? m->n - k : k;
                m = m->it[k];
            } else {
                static const u64 odd[] = { 0, 1, UINT64_MAX, UINT64_MAX - 1, (u64) INT64_MAX, (u64) INT64_MAX + 1, UINT32_MAX, 1ull << 32 };
                t->neg = (int) rn(2);
                t->val = chance(1, 2) ? m->n + rn(3) : odd[rn(8)];
                if(chance(1, 4) && !build)
                    t->kind = TK_APPEND;
                m = NULL;
            }
        } else if(m != NULL && m->type == VALUE_DICT && m->n > 0 && !chance(1, 8)) {
            ME* e = m->ent[rn(m->n)];
            size_t k;
            t->kind = TK_KEY;
            t->key = NULL;
            if(e->kn <= 700 && is_path_safe(e->k, e->kn)) {
                for(k = 0; k < n_pool; k++) {
                    if(pool[k].n == e->kn && memcmp(pool[k].p, e->k, e->kn) == 0)
                        t->key = &pool[k];
                }
            }
            if(t->key == NULL)
                t->key = &missing[rn(4)];
            m = mv_lookup(m, t->key->p, t->key->n);
        } else {
            size_t k = n_pool > 0 ? rn(n_pool) : 0;
            if(chance(build ? 1 : 1, 3)) {
                t->kind = chance(1, 2) ? TK_APPEND : TK_IDX;
                t->val = rn(3);
                t->neg = (int) rn(2);
            } else {
                t->kind = TK_KEY;
                t->key = (n_pool > 0 && pool[k].safe) ? &pool[k] : &missing[rn(4)];
            }
            m = (m != NULL && t->kind == TK_KEY) ? mv_lookup(m, t->key->p, t->key->n) : NULL;
        }
        if(t->kind == TK_IDX && chance(1, 25))
            t->bad = 1 + (int) rn(9);
        p->n++;
    }

    /* Text. */
    slashes = chance(1, 3);
    for(i = 0; i < p->n; i++) {
        TOK* t = &p->t[i];
        int s;
        if(t->kind == TK_KEY)
            s = (i > 0) ? 1 : (chance(1, 6) ? 1 : 0);
        else
            s = chance(1, 3);
        if(slashes && s)
            s += (int) rn(3);
        while(s-- > 0)
            p->text[len++] = '/';
        if(t->kind == TK_KEY) {
            memcpy(p->text + len, t->key->p, t->key->n);
            len += t->key->n;
        } else if(t->kind == TK_APPEND) {
            p->text[len++] = '[';
            p->text[len++] = ']';
        } else {
            char num[64];
            static const char* bads[] = { "", "abc", "1x", " 1", "1 ", "--1", "0x0", "1.0", "-", "-+1" };
            int z = chance(1, 6) ? (int) rn(30) : 0;
            if(t->bad) {
                strcpy(num, bads[t->bad]);
            } else if(t->val >= UINT64_MAX - 1 && chance(1, 2)) {
                /* Numbers beyond the range, which must not wrap around. */
                static const char* bigs[] = { "18446744073709551616", "18446744073709551617", "36893488147419103232",
                                              "184467440737095516160", "99999999999999999999999999999999" };
                sprintf(num, "%s%s", t->neg ? "-" : "", bigs[rn(5)]);
                t->val = UINT64_MAX;
            } else {
                sprintf(num, "%s%.*s%llu", t->neg ? "-" : (chance(1, 10) ? "+" : ""), z, "000000000000000000000000000000", (unsigned long long) t->val);
            }
            len += (size_t) sprintf(p->text + len, "[%s]", num);
        }
    }
    if(chance(1, 10))
        p->text[len++] = '/';
    p->text[len] = '\0';
}

static void
path_mutate(PATH* p)
{
    size_t len = strlen(p->text), i, k = 1 + rn(3);
    static const char chars[] = "[]/[]/-+0123456789abc";
    p->mutated = 1;
    while(k-- > 0) {
        i = rn(len + 1);
        switch(rn(3)) {
            case 0:
                if(i < len)
                    p->text[i] = chars[rn(sizeof(chars) - 1)];
                break;
            case 1:
                memmove(p->text + i + 1, p->text + i, len - i + 1);
                p->text[i] = chars[rn(sizeof(chars) - 1)];
                len++;
                break;
            default:
                if(i < len) {
                    memmove(p->text + i, p->text + i + 1, len - i);
                    len--;
                }
                break;
        }
    }
}

/* Does the index token denote an item of an array of n items? */
static int
tok_index(const TOK* t, size_t n, size_t* idx)
{
    if(t->bad)
        return 0;
    if(!t->neg) {
        if(t->val >= n)
            return 0;
        *idx = (size_t) t->val;
    } else {
        if(t->val == 0 || t->val > n)
            return 0;
        *idx = n - (size_t) t->val;
    }
    return 1;
}

/* Stepwise navigation: the model decides, the real value is followed. */
static VALUE*
navigate(VALUE* v, const MV* m, const PATH* p, int after_build)
{
    int i;
    for(i = 0; i < p->n; i++) {
        const TOK* t = &p->t[i];
        size_t idx;
        if(t->kind == TK_KEY) {
            m = mv_lookup(m, t->key->p, t->key->n);
            if(m == NULL)
                return NULL;
            v = value_dict_get_(v, (const char*) t->key->p, t->key->n);
        } else {
            if(m->type != VALUE_ARRAY)
                return NULL;
            if(t->kind == TK_APPEND) {
                if(!after_build || m->n == 0)
                    return NULL;
                idx = m->n - 1;
            } else if(!tok_index(t, m->n, &idx)) {
                return NULL;
            }
            m = m->it[idx];
            v = value_array_get(v, idx);
        }
        CHECK(v != NULL, "stepwise navigation failed at the step %d", i);
    }
    return v;
}

/* Can the path be built? With apply != 0 also creates the missing parts in
 * the model. */
static int
mv_build(MV* m, const PATH* p, int apply)
{
    int i;
    int virt = 0;       /* we are in a value which does not exist yet */
    for(i = 0; i < p->n; i++) {
        const TOK* t = &p->t[i];
        size_t idx;
        if(t->kind == TK_KEY) {
            if(virt)
                continue;
            if(m->type == VALUE_NULL && m->is_new) {
                if(!apply) { virt = 1; continue; }
                m->type = VALUE_DICT;
                m->is_new = 0;
            }
            if(m->type != VALUE_DICT)
                return 0;
            if(mv_lookup(m, t->key->p, t->key->n) != NULL)
                m = mv_lookup(m, t->key->p, t->key->n);
            else if(apply)
                m = mv_add(m, t->key->p, t->key->n);
            else
                virt = 1;
        } else {
            if(virt || (m->type == VALUE_NULL && m->is_new)) {
                if(t->kind != TK_APPEND)
                    return 0;
                if(!apply) { virt = 1; continue; }
                m->type = VALUE_ARRAY;
                m->is_new = 0;
            }
            if(m->type != VALUE_ARRAY)
                return 0;
            if(t->kind == TK_APPEND) {
                if(apply)
                    m = mv_insert(m, m->n);
                else
                    virt = 1;
            } else {
                if(!tok_index(t, m->n, &idx))
                    return 0;
                m = m->it[idx];
            }
        }
    }
    return 1;
}

/* After a refused or failed building: everything what has been there before
 * has to be there, unchanged. (The parts of the path created before the
 * failure may stay.) Makes the model the same as the real value again. */
static size_t n_extra;

struct sync_ctx { MV* m; size_t extra; };

static void sync_model(VALUE* v, MV* m);

static int
sync_visitor(const VALUE* key, VALUE* val, void* ctx)
{
    struct sync_ctx* sc = ctx;
    const u8* k = (const u8*) value_string(key);
    size_t kn = value_string_length(key);
    MV* c = mv_lookup(sc->m, k, kn);
    if(c == NULL) {
        c = mv_add(sc->m, k, kn);
        sc->extra++;
    }
    sync_model(val, c);
    return 0;
}

static void
sync_model(VALUE* v, MV* m)
{
    size_t i;
    if(m->is_new && value_type(v) != VALUE_NULL) {
        CHECK(value_type(v) == VALUE_ARRAY || value_type(v) == VALUE_DICT, "a failed building made a value of the type %d", (int) value_type(v));
        m->type = value_type(v);
        m->is_new = 0;
        n_extra++;
    }
    CHECK(value_type(v) == m->type, "a failed building changed the type of an existing value");
    if(m->type == VALUE_ARRAY) {
        CHECK(value_array_size(v) >= m->n, "a failed building removed an item of an array");
        while(m->n < value_array_size(v)) {
            mv_insert(m, m->n);
            n_extra++;
        }
        for(i = 0; i < m->n; i++)
            sync_model(value_array_get(v, i), m->it[i]);
    } else if(m->type == VALUE_DICT) {
        struct sync_ctx sc = { m, 0 };
        size_t n = m->n;
        CHECK(value_dict_size(v) >= n, "a failed building removed an item of a dictionary");
        value_dict_walk_sorted(v, sync_visitor, &sc);
        CHECK(sc.extra <= 1, "a failed building added %zu keys to one dictionary", sc.extra);
        CHECK(m->n == value_dict_size(v), "the size of a dictionary is wrong after a failed building");
        n_extra += sc.extra;
    }
}

static int
is_within(VALUE* root, const MV* m, VALUE* p)
{
    size_t i;
    if(root == p)
        return 1;
    if(m->type == VALUE_ARRAY) {
        for(i = 0; i < m->n; i++) {
            if(is_within(value_array_get(root, i), m->it[i], p))
                return 1;
        }
    } else if(m->type == VALUE_DICT) {
        for(i = 0; i < m->n; i++) {
            if(is_within(value_dict_get_(root, (const char*) m->ent[i]->k, m->ent[i]->kn), m->ent[i]->v, p))
                return 1;
        }
    }
    return 0;
}

/* ------------------------------------------------------------------------ */
/* The engine: operations on a tree. */

enum { K_REINIT, K_APPEND, K_INSERT, K_REMOVE, K_RANGE, K_ACLEAN, K_DADD, K_DGOA, K_DREM, K_DCLEAN, K_BUILD, K_COUNT };
static const char* const kind_name[] = { "reinit", "append", "insert", "remove", "remove_range", "array_clean", "dict_add",
                                          "dict_get_or_add", "dict_remove", "dict_clean", "build_path" };

typedef struct OPR {
    int kind;
    VALUE* v;
    MV* m;
    size_t i, c;
    const KEY* key;
    int plainkey;       /* use the function taking a C string */
    int nullkey;        /* the empty key given as NULL */
    INIT init;
    PATH* path;
    VALUE* res;
} OPR;

static PATH the_path;
static int engine_fault;        /* inject faults? */

/* Does the operation have to succeed? */
static int
op_expect(const OPR* o)
{
    const MV* m = o->m;
    switch(o->kind) {
        case K_REINIT:  return 1;
        case K_APPEND:  return m->type == VALUE_ARRAY;
        case K_INSERT:  return m->type == VALUE_ARRAY && o->i <= m->n;
        case K_REMOVE:  return m->type == VALUE_ARRAY && o->i < m->n;
        case K_RANGE:   return m->type == VALUE_ARRAY && o->i <= m->n && o->c <= m->n - o->i;
        case K_ACLEAN:
        case K_DCLEAN:  return 1;
        case K_DADD:    return m->type == VALUE_DICT && mv_lookup(m, o->key->p, o->key->n) == NULL;
        case K_DGOA:    return m->type == VALUE_DICT;
        case K_DREM:    return m->type == VALUE_DICT && mv_lookup(m, o->key->p, o->key->n) != NULL;
        case K_BUILD:   return mv_build((MV*) m, o->path, 0);
    }
    return 0;
}

static int
op_real(OPR* o)
{
    char* k = NULL;
    int r = 0;
    o->res = NULL;
    if(o->kind == K_DADD || o->kind == K_DGOA || o->kind == K_DREM) {
        /* An exact-size copy, gone after the call. */
        if(o->nullkey) {
            EV("the empty key given as NULL");
        } else if(o->plainkey) {
            k = xmalloc(o->key->n + 1);
            memcpy(k, o->key->p, o->key->n);
            k[o->key->n] = '\0';
        } else {
            k = xdup(o->key->p, o->key->n);
        }
    }
    switch(o->kind) {
        case K_REINIT:  r = (init_real(o->v, &o->init) == 0); break;
        case K_APPEND:  o->res = value_array_append(o->v); r = (o->res != NULL); break;
        case K_INSERT:  o->res = value_array_insert(o->v, o->i); r = (o->res != NULL); break;
        case K_REMOVE:  r = (value_array_remove(o->v, o->i) == 0); break;
        case K_RANGE:   r = (value_array_remove_range(o->v, o->i, o->c) == 0); break;
        case K_ACLEAN:  value_array_clean(o->v); r = 1; break;
        case K_DCLEAN:  value_dict_clean(o->v); r = 1; break;
        case K_DADD:    o->res = o->plainkey ? value_dict_add(o->v, k) : value_dict_add_(o->v, k, o->key->n); r = (o->res != NULL); break;
        case K_DGOA:    o->res = o->plainkey ? value_dict_get_or_add(o->v, k) : value_dict_get_or_add_(o->v, k, o->key->n); r = (o->res != NULL); break;
        case K_DREM:    r = ((o->plainkey ? value_dict_remove(o->v, k) : value_dict_remove_(o->v, k, o->key->n)) == 0); break;
        case K_BUILD: {
            size_t n = strlen(o->path->text) + 1;
            char* t = xdup(o->path->text, n);
            o->res = value_build_path(o->v, t);
            r = (o->res != NULL);
            xdup_free(t, n);
            break;
        }
    }
    if(k != NULL) {
        if(o->plainkey) xfree(k); else xdup_free(k, o->key->n);
    }
    return r;
}

static void
op_model(OPR* o)
{
    MV* m = o->m;
    VALUE* exp = NULL;
    int fresh = 0;
    switch(o->kind) {
        case K_REINIT:  init_model(m, &o->init); return;
        case K_APPEND:  mv_insert(m, m->n); exp = value_array_get(o->v, m->n - 1); fresh = 1; break;
        case K_INSERT:  mv_insert(m, o->i); exp = value_array_get(o->v, o->i); fresh = 1; break;
        case K_REMOVE:  mv_remove(m, o->i, 1); break;
        case K_RANGE:   mv_remove(m, o->i, o->c); break;
        case K_ACLEAN:  if(m->type == VALUE_ARRAY) mv_remove(m, 0, m->n); break;
        case K_DCLEAN:
            if(m->type == VALUE_DICT) {
                while(m->n > 0)
                    mv_del(m, m->ent[m->n - 1]->k, m->ent[m->n - 1]->kn);
            }
            break;
        case K_DGOA:
        case K_DADD:
            if(mv_lookup(m, o->key->p, o->key->n) == NULL) {
                mv_add(m, o->key->p, o->key->n);
                fresh = 1;
            }
            exp = value_dict_get_(o->v, (const char*) o->key->p, o->key->n);
            if(o->nullkey)
                CHECK(value_dict_get(o->v, NULL) == exp, "the lookup of NULL as the empty key fails");
            break;
        case K_DREM:    mv_del(m, o->key->p, o->key->n); break;
        case K_BUILD: {
            size_t c0 = n_mv;
            mv_build(m, o->path, 1);
            exp = navigate(o->v, m, o->path, 1);
            if(n_mv > c0) {
                fresh = 1;
                EVN("values created by build_path", n_mv - c0);
            } else {
                EV("build_path found an existing value");
            }
            break;
        }
    }
    CHECK(o->res == exp, "%s returned %s", kind_name[o->kind], o->res == NULL ? "NULL" : "a wrong value");
    if(fresh)
        CHECK(value_type(o->res) == VALUE_NULL && value_is_new(o->res), "%s: the created value is not a new null", kind_name[o->kind]);
}

/* Runs the operation, with faults injected if asked for, and checks the
 * outcome. */
static void
op_run(OPR* o, VALUE* root, MV* rm)
{
    int exp, r;
    u64 k;

    if(o->kind == K_REINIT && (o->m->type != VALUE_NULL || chance(1, 4))) {
        value_fini(o->v);
        mv_clear(o->m);
    }
    for(k = 1; engine_fault; k++) {
        u64 fired;
        exp = op_expect(o);
        mon_fault_arm(k, chance(1, 3));
        r = op_real(o);
        fired = mon_fault_disarm();
        if(fired == 0) {
            CHECK(r == exp, "%s returned %s", kind_name[o->kind], r ? "success, should fail" : "failure, should succeed");
            goto done;
        }
        EVN("injected faults", fired);
        EVAL(h4((u64) o->kind, k, rm->n + 1000 * n_mv, h3(o->i, o->m->n, o->m->type)));
        CHECK(!r || exp, "%s succeeded although it cannot", kind_name[o->kind]);
        if(r) {
            EV("operations successful in spite of a fault");
            goto done;
        }
        if(o->kind == K_REINIT) {
            CHECK(value_type(o->v) == VALUE_NULL, "a failed initialisation leaves the type %d", (int) value_type(o->v));
            o->m->is_new = (value_is_new(o->v) != 0);
            if(chance(1, 2)) {
                value_fini(o->v);
                o->m->is_new = 0;
            }
        } else if(o->kind == K_BUILD) {
            n_extra = 0;
            sync_model(o->v, o->m);
            CHECK(n_extra <= 2 * (size_t) o->path->n, "a failed building created %zu values", n_extra);
        }
        compare(root, rm, 0);
        EV("operations failed by a fault");
        if(k > 200)
            mon_die("endless fault injection");
    }
    exp = op_expect(o);
    r = op_real(o);
    CHECK(r == exp, "%s returned %s", kind_name[o->kind], r ? "success, should fail" : "failure, should succeed");
done:
    if(r) {
        op_model(o);
    } else if(o->kind == K_BUILD) {
        n_extra = 0;
        sync_model(o->v, o->m);
        CHECK(n_extra <= 2 * (size_t) o->path->n, "a refused building created %zu values", n_extra);
    }
}

static void
pick(VALUE** v, MV** m, int stop)
{
    while(!chance(1, (unsigned) stop)) {
        if((*m)->type == VALUE_ARRAY && (*m)->n > 0) {
            size_t i = rn((*m)->n);
            *v = value_array_get(*v, i);
            *m = (*m)->it[i];
        } else if((*m)->type == VALUE_DICT && (*m)->n > 0) {
            ME* e = (*m)->ent[rn((*m)->n)];
            *v = value_dict_get_(*v, (const char*) e->k, e->kn);
            *m = e->v;
        } else {
            break;
        }
        CHECK(*v != NULL, "a member was not found");
    }
}

enum { E_ARRAY = 1, E_DICT = 2, E_BUILD = 4, E_INIT = 8, E_CONTAINERS = 16, E_ROOT = 32, E_BLOCKS = 64, E_ORDER = 128 };

static u64 engine_ops;

/* A visitor may change the values (not the dictionary) as it goes. */
struct sweep { MV* m; int containers; size_t n; };

static int
sweep_visitor(const VALUE* key, VALUE* val, void* ctx)
{
    struct sweep* w = ctx;
    MV* nm = mv_lookup(w->m, (const u8*) value_string(key), value_string_length(key));
    INIT in;

    w->n++;
    if(chance(1, 2))
        return 0;
    if(nm->type == VALUE_ARRAY && chance(1, 2)) {
        CHECK(value_array_append(val) != NULL, "within a walk, an array cannot be appended to");
        mv_insert(nm, nm->n);
    } else if(nm->type == VALUE_DICT && chance(1, 2) && mv_lookup(nm, pool[0].p, pool[0].n) == NULL) {
        CHECK(value_dict_add_(val, (const char*) pool[0].p, pool[0].n) != NULL, "within a walk, a member dictionary cannot be added to");
        mv_add(nm, pool[0].p, pool[0].n);
    } else {
        value_fini(val);
        init_make(&in, w->containers);
        CHECK(init_real(val, &in) == 0, "within a walk, a value cannot be initialised");
        init_model(nm, &in);
        init_free(&in);
    }
    EV("values changed within a walk");
    return 0;
}

static void
sweep(VALUE* v, MV* m, int containers)
{
    struct sweep w;
    int r;

    w.m = m;
    w.containers = containers;
    w.n = 0;
    OP("walk changing the values of %llu", m->n);
    r = (m->ordered && chance(1, 2)) ? value_dict_walk_ordered(v, sweep_visitor, &w) : value_dict_walk_sorted(v, sweep_visitor, &w);
    CHECK(r == 0 && w.n == m->n, "a walk changing the values visited %zu of %zu and returned %d", w.n, m->n, r);
}

static void
engine_step(VALUE* root, MV* rm, int cfg, size_t target, size_t live0)
{
    OPR o;
    VALUE* nv;
    MV* nm;
    u64 before;

    memset(&o, 0, sizeof(o));
    o.v = root;
    o.m = rm;
    o.path = &the_path;
    if(!(cfg & E_ROOT) || chance(1, 10))
        pick(&o.v, &o.m, 4);

    /* Choose an operation fit for the value, most times. */
    if(o.m->type == VALUE_ARRAY && (cfg & E_ARRAY) && !chance(1, 30)) {
        int grow = (o.m->n < target);
        switch(rn(10)) {
            case 0: case 1: o.kind = grow ? K_APPEND : K_REMOVE; break;
            case 2: case 3: case 4: o.kind = grow ? K_INSERT : K_RANGE; break;
            case 5: o.kind = K_APPEND; break;
            case 6: o.kind = K_INSERT; break;
            case 7: o.kind = K_REMOVE; break;
            case 8: o.kind = K_RANGE; break;
            default: o.kind = chance(1, 20) ? K_ACLEAN : ((cfg & E_BUILD) ? K_BUILD : K_APPEND); break;
        }
    } else if(o.m->type == VALUE_DICT && (cfg & E_DICT) && !chance(1, 30)) {
        int grow = (o.m->n < target);
        switch(rn(10)) {
            case 0: case 1: case 2: o.kind = grow ? K_DADD : K_DREM; break;
            case 3: case 4: o.kind = grow ? K_DGOA : K_DREM; break;
            case 5: o.kind = K_DADD; break;
            case 6: o.kind = K_DGOA; break;
            case 7: case 8: o.kind = K_DREM; break;
            default: o.kind = chance(1, 20) ? K_DCLEAN : ((cfg & E_BUILD) ? K_BUILD : K_DADD); break;
        }
    } else {
        o.kind = (int) rn(K_COUNT);
        if(o.kind == K_BUILD && !(cfg & E_BUILD))
            o.kind = K_APPEND;
        if(o.kind == K_REINIT && (o.m == rm || !(cfg & E_INIT)))
            o.kind = K_DADD;
        if((o.kind == K_ACLEAN || o.kind == K_DCLEAN) && o.m == rm && chance(9, 10))
            o.kind = K_DGOA;
        if((cfg & E_INIT) && o.m != rm && chance(1, 2) &&
           ((o.m->type != VALUE_ARRAY && o.m->type != VALUE_DICT) || chance(1, 4)))
            o.kind = K_REINIT;
    }
    if((cfg & E_BUILD) && chance(1, 4)) {
        o.kind = K_BUILD;
        o.v = root;
        o.m = rm;
        if(chance(1, 3))
            pick(&o.v, &o.m, 2);
    }
    o.i = rn(4) ? rn(o.m->n + 1) : (rn(3) ? rn(3) : o.m->n - rn(3));
    o.c = rn(5) ? rn(3) : rn(o.m->n + 3);
    if(o.i > o.m->n + 3)
        o.i = o.m->n;
    if(chance(1, 12)) o.i = o.m->n + 1 + rn(4);
    if(chance(1, 20)) o.c = o.m->n - (o.i < o.m->n ? o.i : 0) + rn(3);
    if(chance(1, 40)) o.i = SIZE_MAX - rn(3);
    if(chance(1, 40)) o.c = SIZE_MAX - rn(3) - (chance(1, 2) ? o.i : 0);
    o.key = &pool[rn(n_pool)];
    if(o.kind == K_DREM && o.m->type == VALUE_DICT && o.m->n > 0 && chance(2, 3)) {
        /* Rather a present key (its copy, in the pool). */
        ME* e = chance(1, 4) ? o.m->ord[rn(2) ? 0 : o.m->n - 1] : o.m->ent[rn(o.m->n)];
        size_t k;
        for(k = 0; k < n_pool; k++) {
            if(pool[k].n == e->kn && memcmp(pool[k].p, e->k, e->kn) == 0)
                o.key = &pool[k];
        }
    }
    o.plainkey = (o.key->cstr && chance(1, 3));
    o.nullkey = (o.key->n == 0 && chance(1, 3));
    if(o.kind == K_REINIT)
        init_make(&o.init, cfg & E_CONTAINERS);
    if(o.kind == K_BUILD)
        path_make(&the_path, o.m, 1);

    OP("%llu (0 reinit 1 append 2 insert 3 remove 4 range 5 aclean 6 add 7 goa 8 drem 9 dclean 10 build) on type %llu n=%llu i=%lld c=%lld key#%lld",
       o.kind, o.m->type, o.m->n, o.i, o.c, o.key - pool);
    before = (n_mv <= 100) ? mv_hash(o.m) : o.m->n;
    op_run(&o, root, rm);
    if(o.kind == K_REINIT)
        init_free(&o.init);
    if(!engine_fault)
        EVAL(h4(before, (u64) o.kind, o.i, h3(o.c, hbytes(o.key->p, o.key->n), o.kind == K_BUILD ? hbytes(the_path.text, strlen(the_path.text)) : 0)));
    EVN("operations", 1);
    EVMAX("values in a tree", n_mv);
    if(rm->type == VALUE_ARRAY || rm->type == VALUE_DICT)
        EVMAX("items of the top container", rm->n);

    /* Initialise what has been added. */
    if(o.res != NULL && o.kind != K_REINIT && !engine_fault && value_is_new(o.res) && chance(4, 5) && (cfg & E_INIT)) {
        INIT in;
        nv = o.res;
        nm = NULL;
        if(o.kind == K_APPEND) nm = o.m->it[o.m->n - 1];
        if(o.kind == K_INSERT) nm = o.m->it[o.i];
        if(o.kind == K_DADD || o.kind == K_DGOA) nm = mv_lookup(o.m, o.key->p, o.key->n);
        if(nm != NULL && nm->is_new) {
            init_make(&in, cfg & E_CONTAINERS);
            if(init_real(nv, &in) != 0)
                mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
            init_model(nm, &in);
            init_free(&in);
        }
    }

    if(o.kind != K_REINIT && o.kind != K_BUILD && !engine_fault && (cfg & E_INIT) && o.m->type == VALUE_DICT && o.m->n > 0 &&
       o.m->n < 100 && chance(1, 40))
        sweep(o.v, o.m, cfg & E_CONTAINERS);

    if(n_mv <= 80 || rn(n_mv) < 60)
        compare(root, rm, 0);
    if(cfg & E_BLOCKS)
        check_blocks(rm, live0);
    engine_ops++;
}

/* C45: reading must do with no memory to be had. */
static int reading_dry;

static void
engine(int cfg, VALUE_TYPE root_type, unsigned ops, size_t target, size_t max_nodes)
{
    static VALUE nullv = VALUE_NULL_INITIALIZER;
    VALUE* root = xmalloc(sizeof(VALUE));
    MV* rm = mv_new();
    INIT in;
    size_t live0;
    unsigned i;

    calibrate();
    live0 = mon_heap.live;
    memcpy(root, &nullv, sizeof(VALUE));
    rm->is_new = 0;
    CHECK(value_type(root) == VALUE_NULL && !value_is_new(root), "the static initializer does not make a null");
    memset(&in, 0, sizeof(in));
    in.type = root_type;
    if(root_type == VALUE_DICT) {
        in.cmpk = (int) rn(CMP_COUNT);
        in.ordered = (cfg & E_ORDER) ? !chance(1, 12) : (int) rn(2);
        if(cfg & E_BUILD)
            in.cmpk = CMP_DEFAULT;
    }
    if(init_real(root, &in) != 0)
        mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
    init_model(rm, &in);
    compare(root, rm, 0);
    for(i = 0; i < ops && mon_more(); i++) {
        size_t t = target;
        if(i > ops * 3 / 4 && (i / 40) % 2)
            t = target / 8;
        engine_step(root, rm, cfg, t, live0);
        if(reading_dry && chance(1, 4)) {
            OP("reading all of it without memory");
            mon_fault_arm(1, 1);
            compare(root, rm, 0);
            mon_fault_disarm();
            EV("trees read without memory");
        }
        if(n_mv > max_nodes)
            break;
    }
    compare(root, rm, 0);
    if(chance(1, 3)) {
        /* Cleaned and used again. */
        if(root_type == VALUE_ARRAY) { value_array_clean(root); mv_remove(rm, 0, rm->n); }
        if(root_type == VALUE_DICT) {
            value_dict_clean(root);
            while(rm->n > 0)
                mv_del(rm, rm->ent[0]->k, rm->ent[0]->kn);
        }
        compare(root, rm, 0);
        CHECK(mon_heap.live - live0 == mv_blocks(rm) || (root_type == VALUE_ARRAY && mon_heap.live - live0 == mv_blocks(rm) + 1),
              "cleaning does not release all the members");
        for(i = 0; i < 8; i++)
            engine_step(root, rm, cfg, target, live0);
        compare(root, rm, 0);
    }
    value_fini(root);
    CHECK(mon_heap.live == live0, "value_fini() leaves %zu heap blocks", mon_heap.live - live0);
    mv_free(rm);
    xfree(root);
    if(n_mv != 0)
        mon_die("model leak");
}

static void
mode_array(u64 ep)
{
    size_t target = (ep % 16 == 0) ? 100 + rn(500) : 4 + rn(60);
    pool_make(4 + rn(10), 0);
    engine(E_ARRAY | E_INIT | E_ROOT | (chance(1, 3) ? E_CONTAINERS : 0), VALUE_ARRAY, (unsigned) (target > 90 ? 300 + 3 * target : 80 + rn(120)), target, 5000);
    pool_free();
}

static void
mode_dict(u64 ep)
{
    size_t target = (ep % 16 == 0) ? 60 + rn(300) : 3 + rn(30);
    pool_make(target * 2 + rn(8), 0);
    engine(E_DICT | E_INIT | E_ROOT | (chance(1, 3) ? E_CONTAINERS : 0), VALUE_DICT, (unsigned) (target > 50 ? 200 + 2 * target : 60 + rn(100)), target, 5000);
    pool_free();
}

static void
mode_order(u64 ep)
{
    size_t target = (ep % 16 == 0) ? 60 + rn(200) : 1 + rn(8);
    pool_make(target * 2 + 1 + rn(4), 0);
    engine(E_DICT | E_INIT | E_ROOT | E_ORDER, VALUE_DICT, (unsigned) (target > 50 ? 300 + target : 50 + rn(100)), target, 5000);
    pool_free();
}

static void
mode_own(u64 ep)
{
    (void) ep;
    pool_make(4 + rn(20), 0);
    engine(E_ARRAY | E_DICT | E_INIT | E_CONTAINERS | E_BLOCKS | (chance(1, 2) ? E_BUILD : 0), chance(1, 2) ? VALUE_DICT : VALUE_ARRAY, 60 + (unsigned) rn(100), 8, 400);
    pool_free();
}

static void
mode_build(u64 ep)
{
    (void) ep;
    pool_make(3 + rn(12), chance(2, 3));
    engine(E_ARRAY | E_DICT | E_INIT | E_CONTAINERS | E_BUILD, chance(2, 3) ? VALUE_DICT : VALUE_ARRAY, 30 + (unsigned) rn(60), 5, 300);
    pool_free();
}

static void
mode_fault(u64 ep)
{
    (void) ep;
    pool_make(4 + rn(20), 0);
    if(chance(1, 24)) {
        /* Long keys too. */
        size_t k, n;
        for(k = 0; k < n_pool; k += 3) {
            n = ((size_t) 1 << rr(12, 17)) + rn(1000);
            xdup_free(pool[k].p, pool[k].n);
            pool[k].p = xmalloc(n);
            memset(pool[k].p, 'a' + (int) k, n);
            pool[k].n = n;
            pool[k].safe = pool[k].cstr = 0;
        }
    }
    engine_fault = 1;
    engine(E_ARRAY | E_DICT | E_INIT | E_CONTAINERS | (chance(1, 2) ? E_BUILD : 0) | (chance(1, 2) ? E_ROOT : 0),
           chance(1, 2) ? VALUE_DICT : VALUE_ARRAY, 30 + (unsigned) rn(60), 4 + rn(30), 300);
    engine_fault = 0;
    pool_free();
}

/* ------------------------------------------------------------------------ */
/* C21: paths. */

static void
mode_path(u64 ep)
{
    VALUE root;
    MV* rm = mv_new();
    INIT in;
    unsigned i;
    (void) ep;

    pool_make(3 + rn(12), chance(1, 2));
    memset(&in, 0, sizeof(in));
    in.type = chance(1, 8) ? (VALUE_TYPE) rn(9) : (chance(1, 2) ? VALUE_ARRAY : VALUE_DICT);
    if(in.type == VALUE_STRING)
        in.s = xdup("", 1);
    if(init_real(&root, &in) != 0)
        mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
    init_model(rm, &in);
    init_free(&in);
    for(i = 10 + (unsigned) rn(50); i > 0; i--)
        engine_step(&root, rm, E_ARRAY | E_DICT | E_INIT | E_CONTAINERS, 5, 0);

    for(i = 0; i < 60 && mon_more(); i++) {
        size_t n;
        char* text;
        VALUE* r;
        u64 h;
        path_make(&the_path, rm, 0);
        if(chance(1, 4))
            path_mutate(&the_path);
        n = strlen(the_path.text) + 1;
        text = xdup(the_path.text, n);
        OP("path of %llu bytes, %llu tokens, mutated %llu", n - 1, the_path.n, the_path.mutated);
        if(reading_dry)
            mon_fault_arm(1, 1);
        r = value_path(&root, text);
        mon_fault_disarm();
        if(!the_path.mutated) {
            VALUE* exp = navigate(&root, rm, &the_path, 0);
            CHECK(r == exp, "value_path(\"%.200s\") gives %s, stepwise navigation gives %s", the_path.text,
                  r ? "a value" : "NULL", exp ? "a(nother) value" : "NULL");
            if(exp != NULL) EV("paths found"); else EV("paths not found");
            /* Building of an existing path has to find the same. */
            if(exp != NULL) {
                VALUE* b = value_build_path(&root, text);
                CHECK(b == exp, "value_build_path(\"%.200s\") of an existing path gives another value", the_path.text);
            }
        } else {
            CHECK(r == NULL || is_within(&root, rm, r), "value_path(\"%.200s\") gives something which is not a value of the tree", the_path.text);
            EV("malformed or mutated paths");
        }
        h = (n_mv < 100) ? mv_hash(rm) : n_mv;
        EVAL(h2(h, hbytes(text, n)));
        xdup_free(text, n);
    }
    compare(&root, rm, 0);
    CHECK(value_path(NULL, "a") == NULL && value_path(NULL, "[0]") == NULL, "value_path(NULL) finds something");

    /* Building of malformed paths: whatever it does, existing values stay. */
    for(i = 0; i < 10 && mon_more(); i++) {
        size_t n;
        char* text;
        VALUE* r;
        path_make(&the_path, rm, 1);
        path_mutate(&the_path);
        n = strlen(the_path.text) + 1;
        text = xdup(the_path.text, n);
        OP("build of a mutated path of %llu bytes", n - 1);
        r = value_build_path(&root, text);
        n_extra = 0;
        sync_model(&root, rm);
        CHECK(n_extra <= 2 * n, "building of a path of %zu characters created %zu values", n, n_extra);
        CHECK(r == NULL || is_within(&root, rm, r), "value_build_path(\"%.200s\") gives something which is not a value of the tree", the_path.text);
        xdup_free(text, n);
    }
    compare(&root, rm, 0);
    value_fini(&root);
    mv_free(rm);
    pool_free();
}

/* ------------------------------------------------------------------------ */
/* C14, C15: scalars. */

static const u64 int_specials[] = {
    0, 1, 2, 10, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 65535, 65536,
    0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
    0x7ffffffffffffffe, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001,
    0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffff80000000, 0xffffffff7fffffff, 0xffffffff80000001,
    0xfffffffffffffff6, 1ull << 24, (1ull << 24) + 1, 1ull << 53, (1ull << 53) + 1, 0xffffff8000000000
};

static u64
rnd_int(void)
{
    if(chance(1, 10)) {
        /* About the middle between two floats, nearer than a double tells. */
        unsigned s = (unsigned) rr(1, 40);
        u64 x = ((rr(0, 0x7fffff) | 0x800000) << s) + ((u64) 1 << (s - 1)) + rn(5) - 2;
        return chance(1, 3) ? 0 - x : x;
    }
    switch(rn(4)) {
        case 0: case 1: return int_specials[rn(sizeof(int_specials) / sizeof(int_specials[0]))] + (chance(1, 4) ? rn(5) - 2 : 0);
        case 2:         return (chance(1, 2) ? 0 : (u64) 0) + ((i64) rnd() >> rn(64));
        default:        return rnd() >> rn(64);
    }
}

static double
rnd_double(int is_float)
{
    double d;
    static const double base[] = { 0.0, 0.5, 1.0, 1.5, 2.5, 127.5, 255.5, 8388607.5, 8388608.0, 8388609.0, 16777215.0, 16777216.0, 16777217.0,
        2147483647.0, 2147483647.5, 2147483646.5, 2147483648.0, 2147483648.5, 2147483520.0, 4294967295.0, 4294967295.5, 4294967296.0, 4294967040.0, 4294967294.5,
        9007199254740991.0, 9007199254740992.0, 4503599627370495.5, 4503599627370496.0, 9223372036854774784.0, 9223372036854775808.0, 18446744073709549568.0,
        18446744073709551616.0, 9223371487098961920.0, 18446742974197923840.0, 1e10, 1e19, 1e20, 1e300, DBL_MAX, DBL_MIN, 4.9e-324, FLT_MAX, FLT_MIN, 0.1, 0.49999999999999994, 0.499999970197677612,
        INFINITY, NAN };
    switch(rn(4)) {
        case 0: case 1:
            d = base[rn(sizeof(base) / sizeof(base[0]))];
            if(chance(1, 3)) {
                int k = (int) rn(3) + 1;
                double to = chance(1, 2) ? INFINITY : 0.0;
                while(k-- > 0)
                    d = is_float ? (double) nextafterf((float) d, (float) to) : nextafter(d, to);
            }
            break;
        case 2: {   /* integral or half */
            d = (double) (i64) (rnd() >> (1 + rn(63)));
            if(chance(1, 2)) d += 0.5;
            break;
        }
        default: {
            if(is_float) {
                u32 b = (u32) rnd();
                float f;
                memcpy(&f, &b, 4);
                d = f;
            } else {
                u64 b = rnd();
                memcpy(&d, &b, 8);
            }
            if(chance(1, 2))
                d = ldexp((double) (i64) rnd(), -(int) rn(80));
            break;
        }
    }
    if(chance(1, 2))
        d = -d;
    if(is_float)
        d = (double) (float) d;
    return d;
}

static const i128 lo_of[] = { 0, 0, INT32_MIN, 0, INT64_MIN, 0 };
static const i128 hi_of[] = { 0, 0, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX };

/* (Not every compiler's library converts 128-bit numbers.) */
static long double
i128_ld(i128 i)
{
    return (long double) (i64) (i >> 64) * 18446744073709551616.0L + (long double) (u64) i;
}

/* For integral numbers below 2^64 in magnitude. */
static i128
ld_i128(long double x)
{
    return (x < 0) ? -(i128) (u64) -x : (i128) (u64) x;
}

static i128
get_int(const VALUE* v, VALUE_TYPE t)
{
    switch(t) {
        case VALUE_INT32:   return value_int32(v);
        case VALUE_UINT32:  return value_uint32(v);
        case VALUE_INT64:   return value_int64(v);
        default:            return value_uint64(v);
    }
}

/* Makes a scalar value at any place (a VALUE needs no alignment). Returns the
 * exact number in *pi or *pd. */
static VALUE_TYPE
scalar_make(VALUE* v, i128* pi, double* pd)
{
    VALUE_TYPE t = (VALUE_TYPE) (VALUE_INT32 + rn(6));
    u64 b = rnd_int();
    int r = -1;
    switch(t) {
        case VALUE_INT32:   *pi = (int32_t) b; r = value_init_int32(v, (int32_t) b); break;
        case VALUE_UINT32:  *pi = (uint32_t) b; r = value_init_uint32(v, (uint32_t) b); break;
        case VALUE_INT64:   *pi = (i64) b; r = value_init_int64(v, (i64) b); break;
        case VALUE_UINT64:  *pi = b; r = value_init_uint64(v, b); break;
        case VALUE_FLOAT:   *pd = rnd_double(1); r = value_init_float(v, (float) *pd); break;
        case VALUE_DOUBLE:  *pd = rnd_double(0); r = value_init_double(v, *pd); break;
        default: break;
    }
    CHECK(r == 0, "initialisation of a number failed");
    CHECK(value_type(v) == t, "a number of the type %d has the type %d", (int) t, (int) value_type(v));
    CHECK(!value_is_new(v), "an initialised number is new");
    return t;
}

static void
mode_scalar(u64 ep)
{
    unsigned round;
    (void) ep;
    for(round = 0; round < 40 && mon_more(); round++) {
        u8 place[48];
        size_t off = 8 + rn(9), k;
        VALUE* v = (VALUE*) (void*) (place + off);
        i128 i = 0;
        double d = 0;
        VALUE_TYPE t, u;

        memset(place, 0xe7, sizeof(place));
        if(chance(1, 20)) {
            int b = (int) rnd_int();
            CHECK(value_init_bool(v, b) == 0, "value_init_bool() failed");
            CHECK(value_type(v) == VALUE_BOOL && value_bool(v) == (b != 0), "bool %d reads as %d", b, value_bool(v));
            CHECK(!value_is_new(v), "an initialised boolean is new");
            check_not(v, VALUE_BOOL);
            value_fini(v);
            EVAL(h2(1, b != 0));
            continue;
        }
        if(chance(1, 20)) {
            value_init_null(v);
            CHECK(value_type(v) == VALUE_NULL && !value_is_new(v), "an initialised null is not a null or is new");
            check_not(v, VALUE_NULL);
            value_fini(v);
            EVAL_TRIVIAL();
            continue;
        }
        t = scalar_make(v, &i, &d);
        for(k = 0; k < sizeof(place); k++)
            CHECK(k >= off && k < off + sizeof(VALUE) ? 1 : place[k] == 0xe7, "initialisation wrote beyond the value");
        check_not(v, t);
        if(t < VALUE_FLOAT) {
            OP("integer of the type %llu: %llx", t, (u64) i);
            for(u = VALUE_INT32; u <= VALUE_UINT64; u++) {
                i128 g = get_int(v, u);
                if(i < lo_of[u] || i > hi_of[u]) {
                    /* As the cast in C: modulo a power of two. */
                    i128 width = (hi_of[u] - lo_of[u]) + 1, w = ((i - lo_of[u]) % width + width) % width + lo_of[u];
                    CHECK(g == w, "number %lld of the type %d, which does not fit into the type %d, reads as %lld", (long long) i, (int) t, (int) u, (long long) g);
                    EV("integer to integer conversions out of range");
                } else {
                    CHECK(g == i, "number %lld of the type %d reads as %lld of the type %d", (long long) i, (int) t, (long long) g, (int) u);
                    EV("integer to integer conversions in range");
                }
            }
            CHECK(value_float(v) == (float) i128_ld(i), "number %lld of the type %d reads as the float %a", (long long) i, (int) t, value_float(v));
            CHECK(value_double(v) == (double) i128_ld(i), "number %lld of the type %d reads as the double %a", (long long) i, (int) t, value_double(v));
            EVN("integer to floating-point conversions", 2);
            EVAL(h3(t, (u64) i, (u64) (i >> 64)));
        } else {
            u64 bits;
            memcpy(&bits, &d, 8);
            OP("floating-point of the type %llu: bits %llx", t, bits);
            if(isnan(d)) {
                CHECK(isnan(value_double(v)) && isnan(value_float(v)), "NaN does not round-trip");
            } else {
                CHECK(value_double(v) == d, "%a of the type %d reads as the double %a", d, (int) t, value_double(v));
                CHECK(!signbit(value_double(v)) == !signbit(d), "the sign of zero is lost");
                if(t == VALUE_FLOAT || fabs(d) <= FLT_MAX || isinf(d))
                    CHECK(value_float(v) == (float) d, "%a of the type %d reads as the float %a", d, (int) t, value_float(v));
                for(u = VALUE_INT32; u <= VALUE_UINT64; u++) {
                    long double r = roundl((long double) d);
                    if(r >= i128_ld(lo_of[u]) && r <= i128_ld(hi_of[u])) {
                        i128 g = get_int(v, u);
                        CHECK(g == ld_i128(r), "%a of the type %d reads as %lld of the type %d, nearest is %lld", d, (int) t, (long long) g, (int) u, (long long) r);
                        EV("floating-point to integer conversions in range");
                        if(r != (long double) d) EV("conversions with rounding");
                    }
                }
            }
            EVAL(h2(t, bits));
        }
        value_fini(v);
    }
    CHECK(value_init_bool(NULL, 1) == -1 && value_init_int32(NULL, 1) == -1 && value_init_double(NULL, 1.0) == -1, "initialisation of nothing succeeds");
    value_fini(NULL);
}

static void
mode_compat(u64 ep)
{
    unsigned round;
    (void) ep;
    for(round = 0; round < 60 && mon_more(); round++) {
        VALUE val;
        VALUE* v = &val;
        i128 i = 0;
        double d = 0;
        VALUE_TYPE t, u;

        if(chance(1, 8)) {
            /* Not a number: compatible with itself only. */
            INIT in;
            memset(&in, 0, sizeof(in));
            do {
                init_free(&in);
                init_make(&in, 1);
            } while(in.type >= VALUE_INT32 && in.type <= VALUE_DOUBLE);
            if(init_real(v, &in) != 0)
                mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
            for(u = VALUE_NULL; u <= VALUE_DICT; u++)
                CHECK((value_is_compatible(v, u) != 0) == (u == in.type), "a value of the type %d is%s compatible with the type %d",
                      (int) in.type, value_is_compatible(v, u) ? "" : " not", (int) u);
            EVAL(h3(in.type, 1, 0));
            init_free(&in);
            in.type = VALUE_NULL;
            value_fini(v);
            continue;
        }
        t = scalar_make(v, &i, &d);
        OP("compatibility of the type %llu: %llx", t, t < VALUE_FLOAT ? (u64) i : 0);
        for(u = VALUE_NULL; u <= VALUE_DICT; u++) {
            int c = (value_is_compatible(v, u) != 0);
            int e;
            if(u == t) {
                e = 1;
            } else if(u < VALUE_INT32 || u > VALUE_DOUBLE) {
                e = 0;
            } else if(u >= VALUE_FLOAT) {
                /* Only precision may be lost. */
                if(t == VALUE_DOUBLE && !(fabs(d) <= FLT_MAX))
                    continue;
                e = 1;
            } else if(t < VALUE_FLOAT) {
                e = (i >= lo_of[u] && i <= hi_of[u]);
            } else {
                long double ld = d;
                e = (!isnan(d) && !isinf(d) && floorl(ld) == ld && ld >= i128_ld(lo_of[u]) && ld <= i128_ld(hi_of[u]));
            }
            CHECK(c == e, "%a (%lld) of the type %d is reported %scompatible with the type %d", d, (long long) i, (int) t, c ? "" : "in", (int) u);
            if(e) EV("compatible pairs"); else EV("incompatible pairs");
        }
        {
            u64 bits;
            memcpy(&bits, &d, 8);
            EVAL(t < VALUE_FLOAT ? h3(t, (u64) i, (u64) (i >> 64)) : h2(t, bits));
        }
        value_fini(v);
    }
}

/* ------------------------------------------------------------------------ */
/* C16: strings. */

static size_t
string_length_for(u64 ep)
{
    static const size_t ls[] = { 0, 1, 2, 11, 12, 13, 14, 15, 16, 17, 31, 32, 126, 127, 128, 129, 130, 255, 256, 257, 16381, 16382, 16383, 16384, 16385, 16386, 32768, 65535, 65536 };
    switch(ep % 4) {
        case 0:     return ls[rn(sizeof(ls) / sizeof(ls[0]))];
        case 1:     return (ep / 4) % 400;
        case 2:     return rnd_size(40000);
        default:    return rn(40);
    }
}

static void
string_case(size_t n)
{
    u8 place[48];
    size_t off = 8 + rn(9), k;
    VALUE* v = (VALUE*) (void*) (place + off);
    u8* s = xmalloc(n + 1);
    u8* src;
    int r;

    memset(place, 0xe7, sizeof(place));
    rnd_fill(s, n);
    if(chance(1, 4)) memset(s, rn(2) ? 0 : 0xff, n);
    s[n] = '\0';
    OP("string of %llu bytes", n);
    if(memchr(s, 0, n) == NULL && chance(1, 2)) {
        src = xdup(s, n + 1);
        r = value_init_string(v, (char*) src);
        memset(src, 'Z', n + 1);
        xdup_free(src, n + 1);
    } else {
        src = xdup(s, n);
        r = value_init_string_(v, (char*) src, n);
        if(n) memset(src, 'Z', n);
        xdup_free(src, n);
    }
    CHECK(r == 0, "initialisation of a string of %zu bytes failed", n);
    for(k = 0; k < sizeof(place); k++)
        CHECK(k >= off && k < off + sizeof(VALUE) ? 1 : place[k] == 0xe7, "initialisation wrote beyond the value");
    CHECK(value_type(v) == VALUE_STRING && !value_is_new(v), "a string has a wrong type or is new");
    check_string(v, s, n);
    check_not(v, VALUE_STRING);
    /* As a dictionary key, too. */
    if(chance(1, 3)) {
        VALUE d;
        const VALUE* keys[2];
        if(value_init_dict(&d) != 0 || value_dict_add_(&d, (char*) s, n) == NULL)
            mon_fail(__FILE__, __LINE__, "dict", "adding of a key of %zu bytes failed", n);
        CHECK(value_dict_keys_sorted(&d, keys, 2) == 1, "a dictionary of one key lists something else");
        check_string(keys[0], s, n);
        value_fini(&d);
    }
    EVAL(h2(n, hbytes(s, n)));
    EVMAX("longest string", n);
    value_fini(v);
    xfree(s);
}

static void
mode_string(u64 ep)
{
    unsigned i;
    VALUE v;
    for(i = 0; i < 6 && mon_more(); i++)
        string_case(string_length_for(ep * 6 + i));
    if(ep % 40 == 7)
        string_case(((size_t) 1 << 21) + rn(5) - 2);
    CHECK(value_init_string(&v, NULL) == 0, "value_init_string(NULL) failed");
    check_string(&v, (const u8*) "", 0);
    value_fini(&v);
    CHECK(value_init_string_(&v, NULL, rn(100)) == 0, "value_init_string_(NULL) failed");
    check_string(&v, (const u8*) "", 0);
    value_fini(&v);
}

static void
mode_hugestring(u64 ep)
{
    static const size_t ls[] = { ((size_t) 1 << 28) - 1, (size_t) 1 << 28, ((size_t) 1 << 31) - 1, (size_t) 1 << 31, ((size_t) 1 << 31) + 77,
                                 ((size_t) 1 << 32) - 1, (size_t) 1 << 32, ((size_t) 1 << 32) + 300, ((size_t) 1 << 35) / 10 * 2 };
    static const u8 order[] = { 4, 1, 0, 2, 3, 5, 6, 7, 8 };
    size_t n = ls[order[ep % 9]], k;
    u8* s = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VALUE v;
    if(s == MAP_FAILED)
        mon_die("mmap");
    for(k = 0; k < 64; k++)
        s[rnd() % n] = (u8) rnd();
    s[0] = 1; s[n - 1] = 2; s[n / 2] = 3; s[n] = 77;
    OP("string of %llu bytes", n);
    if(value_init_string_(&v, (char*) s, n) != 0) {
        /* No memory is no violation. */
        EV("huge strings refused");
        EVAL_TRIVIAL();
    } else {
        check_string(&v, s, n);
        EVAL(n);
        EVMAX("longest string", n);
        value_fini(&v);
    }
    munmap(s, n + 4096);
}

/* ------------------------------------------------------------------------ */
/* C20: balance. */

static u64
cmp_limit(size_t n)
{
    u64 lg = 0;
    u128 sq = (u128) (n + 1) * (n + 1);
    while(sq > 1) { sq >>= 1; lg++; }
    return lg + 1;
}

static int
cmp_count(const char* a, size_t an, const char* b, size_t bn)
{
    size_t n = an < bn ? an : bn;
    int c = memcmp(a, b, n);
    n_cmp++;
    if(c == 0 && an != bn)
        c = an < bn ? -1 : 1;
    return c;
}

static u64
balance_key(u64 pattern, u64 i, u64 n)
{
    switch(pattern) {
        case 0: return i;
        case 1: return n - 1 - i;
        case 2: return (i % 2) ? n - 1 - i / 2 : i / 2;
        case 3: return (i % 2) ? n / 2 + i / 2 : n / 2 - 1 - i / 2;
        case 4: return (i * 7) % n;
        default: return rn(n);
    }
}

static size_t
mk_key(char* buf, u64 k, int form)
{
    if(form == 0) {
        int i;
        for(i = 0; i < 8; i++)
            buf[i] = (char) (k >> (56 - 8 * i));
        return 8;
    }
    return (size_t) sprintf(buf, "a-rather-long-prefix-%012llu", (unsigned long long) k);
}

static void
balance_run(size_t n, size_t ops, int check_every)
{
    VALUE v;
    char buf[64];
    u8* in = xmalloc(n);
    size_t count = 0, i, kn;
    int form = (int) rn(2);
    int custom = !chance(1, 6);
    unsigned flags = chance(1, 4) ? VALUE_DICT_MAINTAINORDER : 0;
    u64 pat = rn(6), h = 7;
    size_t pos = 0;
    int adding = 1;

    memset(in, 0, n);
    if(value_init_dict_ex(&v, custom ? cmp_count : NULL, flags) != 0)
        mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
    for(i = 0; i < ops; i++) {
        u64 k = balance_key(pat, pos % n, n) % n;
        pos++;
        if(pos >= n || chance(1, (unsigned) (n * 2))) {
            pos = 0;
            pat = rn(6);
            adding = (int) rn(2);
            if(count == 0) adding = 1;
            if(count == n) adding = 0;
        }
        kn = mk_key(buf, k, form);
        if(adding) {
            VALUE* r = value_dict_add_(&v, buf, kn);
            CHECK((r != NULL) == !in[k], "adding of the key %llu returned %s", (unsigned long long) k, r ? "success" : "failure");
            if(r != NULL) {
                in[k] = 1;
                count++;
                value_init_uint64(r, k);
            }
        } else {
            int r = value_dict_remove_(&v, buf, kn);
            CHECK((r == 0) == in[k], "removal of the key %llu returned %d", (unsigned long long) k, r);
            if(r == 0) {
                in[k] = 0;
                count--;
            }
        }
        OP("%llu (1 add 0 remove) key %llu of %llu", adding, k, count);
        h = h3(h, k, (u64) adding);
        if(value_dict_verify != NULL && (check_every == 1 || i % (size_t) check_every == 0 || i + 1 == ops)) {
            CHECK(value_dict_verify(&v) == 0, "the tree of %zu keys violates the red-black invariants", count);
            EV("verifications of the tree invariants");
        }
        if(custom && (check_every == 1 ? n <= 40 || chance(1, 8) : i % (size_t) check_every == 0)) {
            size_t q, step = (n <= 300) ? 1 : n / 300;
            for(q = rn(step); q < n; q += step) {
                u64 c0 = n_cmp;
                VALUE* r;
                kn = mk_key(buf, q, form);
                r = value_dict_get_(&v, buf, kn);
                CHECK((r != NULL) == in[q], "lookup of the key %zu among %zu %s", q, count, r ? "finds it" : "does not find it");
                CHECK(r == NULL || value_uint64(r) == q, "lookup of the key %zu among %zu finds another value", q, count);
                CHECK(n_cmp - c0 <= cmp_limit(count), "lookup among %zu keys took %llu comparisons", count, (unsigned long long) (n_cmp - c0));
                EVMAX("most comparisons per lookup", n_cmp - c0);
                EVN("lookups with the comparisons counted", 1);
            }
        }
        EVAL(h);
    }
    CHECK(value_dict_size(&v) == count, "%zu keys, reported %zu", count, value_dict_size(&v));
    EVMAX("most keys", count);
    value_fini(&v);
    xfree(in);
}

static void
mode_balance(u64 ep)
{
    switch(ep % 8) {
        case 0:     balance_run(100 + rn(300), 900, 25); break;
        case 1:     balance_run(20 + rn(50), 250, 1); break;
        default:    balance_run(3 + rn(16), 150, 1); break;
    }
}

static void
mode_balancebig(u64 ep)
{
    (void) ep;
    balance_run(mon_thorough ? 300000 : 50000, mon_thorough ? 900000 : 150000, 20011);
}

/* Dictionaries as deep as sorted insertion makes them (well over 32 levels). */
struct deep {
    size_t n, i, lo, removed;
    int desc, dir;          /* the order of insertion; of the walk */
    u8* gone;
    u64 h;
    VALUE** at;
    size_t k;
};

static void
deep_item(struct deep* w, const VALUE* key, const VALUE* val)
{
    char buf[64];
    size_t kn;
    while(w->k < w->n && w->gone[w->dir ? w->n - 1 - w->k : w->k])
        w->k++;
    CHECK(w->k < w->n, "more keys than the %zu present", w->n - w->removed);
    kn = mk_key(buf, w->dir ? w->n - 1 - w->k : w->k, 0);
    CHECK(value_type(key) == VALUE_STRING && value_string_length(key) == kn && memcmp(value_string(key), buf, kn) == 0,
          "a wrong key at the position %zu of %zu", w->i, w->n - w->removed);
    if(val != NULL)
        CHECK(value_uint64(val) == (w->dir ? w->n - 1 - w->k : w->k), "a wrong value at the position %zu", w->i);
    w->k++;
    w->i++;
}

static int
deep_visitor(const VALUE* key, VALUE* val, void* ctx)
{
    deep_item(ctx, key, val);
    return 0;
}

static void
deep_check(const VALUE* v, struct deep* w, unsigned flags)
{
    const VALUE** keys;
    size_t left = w->n - w->removed, i, r;
    int o;

    CHECK(value_dict_size(v) == left, "%zu keys, reported %zu", left, value_dict_size(v));
    if(value_dict_verify != NULL)
        CHECK(value_dict_verify(v) == 0, "the tree of %zu keys violates the red-black invariants", left);
    keys = xmalloc((left + 2) * sizeof(*keys));
    for(o = 0; o < ((flags & VALUE_DICT_MAINTAINORDER) ? 2 : 1); o++) {
        w->dir = o ? w->desc : 0;
        w->i = w->k = 0;
        CHECK((o ? value_dict_walk_ordered(v, deep_visitor, w) : value_dict_walk_sorted(v, deep_visitor, w)) == 0, "the walk failed");
        CHECK(w->i == left, "the walk gives %zu of %zu keys", w->i, left);
        w->i = w->k = 0;
        r = o ? value_dict_keys_ordered(v, keys, left + 2) : value_dict_keys_sorted(v, keys, left + 2);
        CHECK(r == left, "%zu of %zu keys are listed", r, left);
        for(i = 0; i < left; i++)
            deep_item(w, keys[i], NULL);
        EV("walk of a deep dictionary compared");
    }
    xfree(keys);
    for(i = 0; i < 900; i++) {
        char buf[64];
        size_t q = i % 3 == 0 ? i / 3 : i % 3 == 1 ? w->n - 1 - i / 3 : rn(w->n);
        size_t kn = mk_key(buf, q, 0);
        VALUE* x = value_dict_get_(v, buf, kn);
        CHECK((x != NULL) == !w->gone[q], "lookup of the key %zu among %zu %s", q, left, x ? "finds it" : "does not find it");
        CHECK(x == NULL || value_uint64(x) == q, "lookup of the key %zu finds another value", q);
    }
}

static void
mode_deep(u64 ep)
{
    VALUE v;
    struct deep w;
    char buf[64];
    size_t kn, i, live = mon_heap.live;
    unsigned flags = (ep / 2) % 2 ? VALUE_DICT_MAINTAINORDER : 0;

    memset(&w, 0, sizeof(w));
#ifdef MON_ASAN
    w.n = 150000 + rn(40000);
#else
    w.n = mon_thorough && ep % 8 == 7 ? 2200000 : 270000 + rn(100000);
#endif
    w.desc = (int) (ep % 2);
    w.gone = xmalloc(w.n);
    memset(w.gone, 0, w.n);
    live = mon_heap.live;
    if(value_init_dict_ex(&v, NULL, flags) != 0)
        mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
    for(i = 0; i < w.n; i++) {
        size_t k = w.desc ? w.n - 1 - i : i;
        VALUE* x;
        kn = mk_key(buf, k, 0);
        x = (i % 2) ? value_dict_add_(&v, buf, kn) : value_dict_get_or_add_(&v, buf, kn);
        CHECK(x != NULL && value_type(x) == VALUE_NULL, "adding of the key %zu failed", k);
        value_init_uint64(x, k);
        EVAL(h3(i, w.n, (u64) w.desc));
    }
    EVMAX("most keys", w.n);
    deep_check(&v, &w, flags);
    /* Removals at either end or amidst. */
    for(i = 0; i < w.n / 4; i++) {
        size_t k = ep % 3 == 0 ? i : ep % 3 == 1 ? w.n - 1 - i : rn(w.n);
        int r;
        kn = mk_key(buf, k, 0);
        r = value_dict_remove_(&v, buf, kn);
        CHECK((r == 0) == !w.gone[k], "removal of the key %zu returned %d", k, r);
        w.removed += !w.gone[k];
        w.gone[k] = 1;
    }
    deep_check(&v, &w, flags);
    if(rn(2)) {
        value_dict_clean(&v);
        CHECK(value_dict_size(&v) == 0, "not empty after cleaning");
        CHECK(value_dict_add_(&v, "x", 1) != NULL && value_dict_size(&v) == 1, "adding after the cleaning failed");
    }
    value_fini(&v);
    CHECK(mon_heap.live == live, "value_fini() of a deep dictionary leaves %zu blocks", mon_heap.live - live);
    xfree(w.gone);
}

/* Items of big arrays: every third one is a string too long for VALUE. */
#define BIG_OWNS(id)    ((id) % 3 == 0)

static void
big_init(VALUE* v, u32 id)
{
    if(BIG_OWNS(id)) {
        char buf[48];
        int n = snprintf(buf, sizeof(buf), "item no. %u of a big array", (unsigned) id);
        CHECK(value_init_string_(v, buf, (size_t) n) == 0, "initialisation failed");
    } else {
        CHECK(value_init_uint32(v, id) == 0, "initialisation failed");
    }
}

static int
big_is(const VALUE* v, u32 id)
{
    char buf[48];
    if(v == NULL)
        return 0;
    if(!BIG_OWNS(id))
        return value_type(v) == VALUE_UINT32 && value_uint32(v) == id;
    snprintf(buf, sizeof(buf), "item no. %u of a big array", (unsigned) id);
    return value_type(v) == VALUE_STRING && strcmp(value_string(v), buf) == 0;
}

/* Arrays of very many items. */
static void
mode_arraybig(u64 ep)
{
    VALUE a;
    size_t n = 0, cap, i, live = mon_heap.live, live1, base, owned = 0;
    u32* m;
    u32 next = 1;
    int leg;

#ifdef MON_ASAN
    cap = 70000;
#else
    cap = mon_thorough && ep % 8 == 7 ? 3000000 : 300000;
#endif
    m = xmalloc(2 * cap * sizeof(*m));
    live1 = mon_heap.live;
    CHECK(value_init_array(&a) == 0, "initialisation failed");
    base = mon_heap.live;
    for(leg = 0; leg < 24 && mon_more(); leg++) {
        int what = (int) rn(8);
        size_t k = rn(cap / 4), at = rn(3) == 0 ? 0 : rn(3) == 0 ? n : rn(n + 1);
        VALUE* v;
        OP("leg %llu: %llu items, at %llu, count %llu", what, n, at, k);
        if(leg < 2 || (what < 5 && n + k < cap)) {
            for(i = 0; i < k; i++) {
                v = value_array_append(&a);
                CHECK(v != NULL && value_type(v) == VALUE_NULL, "appending the item %zu failed", n);
                big_init(v, next);
                owned += BIG_OWNS(next);
                m[n++] = next++;
            }
        } else if(what == 5) {
            for(i = 0; i < 60; i++) {
                at = rn(n + 1);
                v = value_array_insert(&a, at);
                CHECK(v != NULL && value_type(v) == VALUE_NULL, "inserting at %zu of %zu failed", at, n);
                big_init(v, next);
                owned += BIG_OWNS(next);
                memmove(m + at + 1, m + at, (n - at) * sizeof(*m));
                m[at] = next++;
                n++;
            }
        } else if(what == 6) {
            for(i = 0; i < 60 && n > 0; i++) {
                at = rn(n);
                CHECK(value_array_remove(&a, at) == 0, "removal at %zu of %zu failed", at, n);
                owned -= BIG_OWNS(m[at]);
                memmove(m + at, m + at + 1, (n - at - 1) * sizeof(*m));
                n--;
            }
        } else {
            if(rn(4) == 0) k = n;
            if(k > n - at) k = n - at;
            CHECK(value_array_remove_range(&a, at, k) == 0, "removal of %zu at %zu of %zu failed", k, at, n);
            for(i = at; i < at + k; i++)
                owned -= BIG_OWNS(m[i]);
            memmove(m + at, m + at + k, (n - at - k) * sizeof(*m));
            n -= k;
        }
        CHECK(value_array_size(&a) == n, "%zu items, reported %zu", n, value_array_size(&a));
        for(i = 0; i < 12; i++) {
            size_t x = i < 4 ? n + i : i < 8 ? n + rn(n + 2) : n + (((size_t) 1 << (MON_SZBITS / 8 * (i - 7))) & ~(size_t) 3) + rn(3) - 1;
            CHECK(value_array_get(&a, x) == NULL, "an item beyond the end");
            CHECK(value_array_insert(&a, x + 1) == NULL, "an insertion at %zu of %zu succeeded", x, n);
            CHECK(value_array_remove(&a, x) != 0, "a removal at %zu of %zu succeeded", x, n);
            CHECK(value_array_remove_range(&a, x + 1, 1 + rn(3)) != 0, "a removal at %zu of %zu succeeded", x + 1, n);
            CHECK(value_array_remove_range(&a, at, x + 1 - at) != 0, "a removal of too many items at %zu of %zu succeeded", at, n);
            CHECK(value_array_size(&a) == n, "size changed by a failed operation");
            EV("out-of-range operations");
        }
        for(i = 0; i < n; i++) {
            const VALUE* x = value_array_get(&a, i);
            CHECK(big_is(x, m[i]), "the item %zu of %zu differs", i, n);
        }
        /* What the items own, and the array itself. */
        CHECK(mon_heap.live >= base + owned, "%zu blocks are owned by the items but only %zu live", owned, mon_heap.live - base);
        CHECK(mon_heap.live <= base + owned + 2, "%zu blocks live though only %zu are owned by the %zu items", mon_heap.live - base, owned, n);
        if(n > 0) {
            CHECK(value_array_get_all(&a) == value_array_get(&a, 0), "get_all differs");
            EVMAX("items of the top container", n);
        }
        EVAL(h4(what, n, at, k));
    }
    value_fini(&a);
    CHECK(mon_heap.live == live1, "value_fini() leaves %zu heap blocks", mon_heap.live - live1);
    xfree(m);
    (void) live;
}

/* C18: long keys which differ only in their length, or only far from the start. */
#define FAR_MAX     48
static const u8* far_key[FAR_MAX];
static size_t far_len[FAR_MAX];

static int
far_cmp(const void* a, const void* b)
{
    int i = *(const int*) a, j = *(const int*) b;
    size_t n = far_len[i] < far_len[j] ? far_len[i] : far_len[j];
    int c = memcmp(far_key[i], far_key[j], n);
    return c != 0 ? c : (far_len[i] > far_len[j]) - (far_len[i] < far_len[j]);
}

static void
mode_dictfar(u64 ep)
{
    static const size_t steps[] = { 0, 1, 2, 127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 65537, 2 * 65536, 65536 + 256, 1 << 18, 1 << 20, 1 << 24 };
    size_t base = rn(3) ? rn(70) : rn(70000), max = base + (rn(8) ? (1 << 18) : (1 << 24)), n = 0, i, k, left;
    size_t live = mon_heap.live, live1;
    u8* buf[3];
    u32 val[FAR_MAX];
    int idx[FAR_MAX];
    u8 in[FAR_MAX];
    const VALUE* keys[FAR_MAX];
    VALUE d;

    for(i = 0; i < 3; i++) {
        buf[i] = xmalloc(max + 1);
        if(i == 0) memset(buf[i], rn(2) ? 0 : (int) rn(256), max + 1);
        else memcpy(buf[i], buf[0], max + 1);
    }
    for(i = 1; i < 3; i++)
        buf[i][i == 1 ? rn(max) : base + rn(70000) % (max - base)] ^= (u8) (1 << rn(8));
    live1 = mon_heap.live;
    for(i = 0; i < 3; i++) {
        for(k = 0; k < sizeof(steps) / sizeof(steps[0]) && n < FAR_MAX; k++) {
            if(base + steps[k] > max || (i > 0 && chance(2, 3))) continue;
            far_key[n] = buf[i];
            far_len[n] = base + steps[k];
            n++;
        }
    }
    CHECK((rn(2) ? value_init_dict(&d) : value_init_dict_ex(&d, NULL, VALUE_DICT_MAINTAINORDER)) == 0, "initialisation failed");
    OP("%llu keys, %llu to %llu bytes", n, base, max);
    left = 0;
    for(i = 0; i < n; i++) {
        VALUE* v;
        int dup = 0;
        size_t j = i + rn(n - i);
        const u8* tk = far_key[i];
        size_t tl = far_len[i];
        far_key[i] = far_key[j]; far_len[i] = far_len[j];
        far_key[j] = tk; far_len[j] = tl;
        in[i] = 0;
        for(j = 0; j < i; j++)
            if(far_len[j] == far_len[i] && memcmp(far_key[j], far_key[i], far_len[i]) == 0) dup = 1;
        v = rn(2) || dup ? value_dict_add_(&d, (const char*) far_key[i], far_len[i]) : value_dict_get_or_add_(&d, (const char*) far_key[i], far_len[i]);
        CHECK((v == NULL) == dup, "adding a key of %zu bytes %s", far_len[i], v ? "succeeded, though it is there" : "failed");
        if(v != NULL) {
            CHECK(value_is_new(v), "a member of a new key is not new");
            val[i] = (u32) rnd();
            value_init_uint32(v, val[i]);
            in[i] = 1;
            left++;
        }
        CHECK(value_dict_size(&d) == left, "%zu members, reported %zu", left, value_dict_size(&d));
    }
    for(;;) {
        size_t m = 0;
        for(i = 0; i < n; i++) {
            VALUE* v;
            int there = in[i];
            for(k = 0; k < n; k++)
                if(in[k] && far_len[k] == far_len[i] && memcmp(far_key[k], far_key[i], far_len[i]) == 0) there = 1 + (int) k;
            v = value_dict_get_(&d, (const char*) far_key[i], far_len[i]);
            CHECK((v != NULL) == (there != 0), "a key of %zu bytes %s", far_len[i], v ? "is found, though it is not there" : "is not found");
            if(v != NULL) CHECK(value_uint32(v) == val[there - 1], "a key of %zu bytes gives the member of another one", far_len[i]);
            if(in[i]) idx[m++] = (int) i;
            EVAL(h4(far_len[i], base, left, (u64) there));
        }
        qsort(idx, m, sizeof(idx[0]), far_cmp);
        CHECK(value_dict_keys_sorted(&d, keys, FAR_MAX) == m, "number of the keys");
        for(i = 0; i < m; i++)
            CHECK(value_string_length(keys[i]) == far_len[idx[i]] && memcmp(value_string(keys[i]), far_key[idx[i]], far_len[idx[i]]) == 0,
                  "the key %zu of %zu in the order is not the one of %zu bytes", i, m, far_len[idx[i]]);
        if(m == 0) break;
        for(i = 0; i < n; i++) {
            if(in[i] && (m < 6 || rn(2))) {
                CHECK(value_dict_remove_(&d, (const char*) far_key[i], far_len[i]) == 0, "removing a key of %zu bytes failed", far_len[i]);
                CHECK(value_dict_remove_(&d, (const char*) far_key[i], far_len[i]) != 0, "a key of %zu bytes removed twice", far_len[i]);
                in[i] = 0;
                left--;
            }
        }
        CHECK(value_dict_size(&d) == left, "%zu members, reported %zu", left, value_dict_size(&d));
    }
    EV("dictionaries of far-differing keys");
    value_fini(&d);
    CHECK(mon_heap.live == live1, "value_fini() leaves %zu heap blocks", mon_heap.live - live1);
    for(i = 0; i < 3; i++)
        xfree(buf[i]);
    (void) live;
    (void) ep;
}

/* C17, C43: more items than fit in 4 GiB. */
static void
mode_arrayhuge(u64 ep)
{
    static const size_t probes[] = { 0, 1, 2, 12, 1000, 65535, 65536, 1 << 20, 1 << 24, 1 << 27, (1 << 27) + 1, (1 << 28) - 1, 1 << 28, (1 << 28) + 1 };
    size_t total = ((size_t) 1 << 28) + 1000 + rn(1000), i, k, live = mon_heap.live;
    VALUE a;
    VALUE* v;

    CHECK(value_init_array(&a) == 0, "initialisation failed");
    OP("%llu items", total);
    for(i = 0; i < total; i++) {
        v = value_array_append(&a);
        if(v == NULL) {
            /* No memory is no violation. */
            CHECK(value_array_size(&a) == i, "size after a failed append");
            EV("huge arrays refused");
            break;
        }
        value_init_uint32(v, (u32) i);
    }
    total = i;
    CHECK(value_array_size(&a) == total, "%zu items, reported %zu", total, value_array_size(&a));
    EVMAX("items of the top container", total);
    for(k = 0; k < sizeof(probes) / sizeof(probes[0]) + 3000; k++) {
        i = k < sizeof(probes) / sizeof(probes[0]) ? probes[k] : rn(total);
        if(i >= total) continue;
        v = value_array_get(&a, i);
        CHECK(v != NULL && value_uint32(v) == (u32) i, "the item %zu of %zu differs", i, total);
        EVAL(h2(total, i));
    }
    CHECK(value_array_get(&a, total) == NULL, "an item beyond the end");
    CHECK(value_array_get(&a, total + ((size_t) 1 << 32)) == NULL, "an item beyond the end");
    v = value_array_insert(&a, total - 5);
    CHECK(v != NULL && value_type(v) == VALUE_NULL, "insertion failed");
    value_init_uint32(v, 77);
    total++;
    CHECK(value_uint32(value_array_get(&a, total - 6)) == 77 && value_uint32(value_array_get(&a, total - 5)) == (u32) (total - 6), "items around the insertion");
    /* Most of it away, from the tail. */
    i = 1000 + rn(10000);
    CHECK(value_array_remove_range(&a, i, total - i) == 0 && value_array_size(&a) == i, "removal of most items");
    for(k = 0; k < i; k++) {
        v = value_array_get(&a, k);
        CHECK(v != NULL && value_uint32(v) == (u32) k, "the item %zu of %zu differs after the removal of the rest", k, i);
    }
    value_fini(&a);
    CHECK(mon_heap.live == live, "value_fini() leaves %zu heap blocks", mon_heap.live - live);
    EV("huge arrays");
    EVAL(h2(3, ep));
}

/* Long paths: of many steps, with long names, into long arrays. */
#define BIG_STEPS   700
static struct bigstep { int idx; size_t i, n; u8* name; size_t len; VALUE* v; size_t end; } bigstep[BIG_STEPS];
static char* bigtext;
static size_t bigtext_len;

static void
big_name(struct bigstep* b, int depth)
{
    size_t i, len = depth <= 40 && chance(1, 25) ? rr(3000, 200000) : chance(1, 10) ? rr(1, 3000) : chance(1, 3) ? rr(1, 300) : rr(1, 12);
    b->name = xmalloc(len);
    b->len = len;
    for(i = 0; i < len; i++) {
        do
            b->name[i] = (u8) (chance(1, 4) ? rr(1, 255) : rr(97, 99));
        while(!is_path_safe(b->name + i, 1));
    }
}

static void
big_steps(int depth, int build)
{
    size_t size = 64;
    int i;
    for(i = 0; i < depth; i++) {
        struct bigstep* b = &bigstep[i];
        memset(b, 0, sizeof(*b));
        b->idx = (int) rn(2);
        if(b->idx) {
            b->n = build ? 1 : chance(1, 60) ? rr(1, 70000) : rr(1, 4);
            b->i = chance(1, 2) ? rn(b->n) : b->n - 1;
        } else {
            big_name(b, depth);
        }
        size += b->len + 40;
    }
    bigtext = xmalloc(size);
    bigtext_len = 0;
}

static void
big_text(const struct bigstep* b, int append)
{
    char* t = bigtext + bigtext_len;
    if(b->idx) {
        if(chance(1, 4)) *t++ = '/';
        if(append)
            t += sprintf(t, "[]");
        else if(chance(1, 3))
            t += sprintf(t, "[-%zu]", b->n - b->i);
        else
            t += sprintf(t, "[%zu]", b->i);
    } else {
        if(bigtext_len > 0 || chance(1, 2)) *t++ = '/';
        if(chance(1, 20)) *t++ = '/';
        memcpy(t, b->name, b->len);
        t += b->len;
    }
    bigtext_len = (size_t) (t - bigtext);
    *t = '\0';
}

static VALUE*
big_resolve(VALUE* root, size_t len, int build)
{
    char* x = xmalloc(len + 1);
    VALUE* r;
    memcpy(x, bigtext, len);
    x[len] = '\0';
    OP("%llu: path of %llu characters", build, len);
    r = build ? value_build_path(root, x) : value_path(root, x);
    xfree(x);
    return r;
}

static void
mode_pathbig(u64 ep)
{
    VALUE root;
    VALUE* v = &root;
    int depth = (int) (ep % 3 == 0 ? rr(1, 40) : rr(1, BIG_STEPS)), i;
    size_t k, live = mon_heap.live;

    big_steps(depth, 0);
    value_init_null(&root);
    for(i = 0; i < depth; i++) {
        struct bigstep* b = &bigstep[i];
        if(b->idx) {
            CHECK(value_init_array(v) == 0, "initialisation failed");
            for(k = 0; k < b->n; k++) {
                VALUE* it = value_array_append(v);
                CHECK(it != NULL, "appending failed");
                value_init_uint64(it, k);
            }
            v = value_array_get(v, b->i);
        } else {
            size_t len;
            static const u8 decoy[] = "abcabcabcabc";
            CHECK(value_init_dict(v) == 0, "initialisation failed");
            for(k = rn(4); k > 0; k--) {
                /* Similar names: a prefix, an extension, a near miss. */
                u8* other = xmalloc(b->len + 20);
                VALUE* d;
                memcpy(other, b->name, b->len);
                memcpy(other + b->len, decoy, 12);
                len = chance(1, 3) ? 1 + rn(b->len) : b->len + rn(13);
                if(chance(1, 3)) other[len - 1] ^= 2;
                d = value_dict_get_or_add_(v, (char*) other, len);
                CHECK(d != NULL, "adding failed");
                xfree(other);
            }
            v = value_dict_get_or_add_(v, (char*) b->name, b->len);
        }
        CHECK(v != NULL, "the step %d of the tree was not made", i);
        value_fini(v);
        b->v = v;
        big_text(b, 0);
        b->end = bigtext_len;
    }
    /* Every prefix, in slices. */
    for(i = 0; i < depth; i += 1 + (int) rn(6)) {
        VALUE* r = big_resolve(&root, bigstep[i].end, 0);
        CHECK(r == bigstep[i].v, "the path of %d steps and %zu characters found %s", i + 1, bigstep[i].end, r ? "another value" : "nothing");
        EVAL(h3(bigstep[i].end, (u64) i, (u64) depth));
        EVMAX("characters of a path", bigstep[i].end);
        EVMAX("steps of a path", i + 1);
    }
    CHECK(big_resolve(&root, bigtext_len, 0) == v, "the whole path was not found");
    /* One step further, and misses. */
    bigtext_len += (size_t) sprintf(bigtext + bigtext_len, "%s", rn(2) ? "/x" : "[0]");
    CHECK(big_resolve(&root, bigtext_len, 0) == NULL, "a path beyond a leaf found something");
    bigtext_len -= (size_t) (bigtext[bigtext_len - 1] == 'x' ? 2 : 3);
    for(i = 0; i < 6; i++) {
        struct bigstep* b = &bigstep[rn((u64) depth)];
        char saved;
        if(b->idx || b->len < 3) continue;
        k = b->end - 1 - rn(b->len - 2);
        saved = bigtext[k];
        bigtext[k] = (char) (saved ^ 4);    /* (the decoys differ by 2) */
        if(!is_path_safe((u8*) bigtext + k, 1)) {
            bigtext[k] = saved;
            continue;
        }
        CHECK(big_resolve(&root, bigtext_len, 0) == NULL, "a path with another name found something");
        bigtext[k] = saved;
        EV("long paths which miss");
    }
    value_fini(&root);
    for(i = 0; i < depth; i++)
        xfree(bigstep[i].name);
    xfree(bigtext);
    CHECK(mon_heap.live == live, "%zu blocks left", mon_heap.live - live);
}

/* Only "[]" appends, also when the array is long; an index out of range gives
 * NULL and makes nothing. */
static void
buildbig_near(VALUE* deep, VALUE* v)
{
    size_t n = 0, max = chance(1, 4) ? rr(1, 3000) : rr(1, 80), k;
    char t[160];
    VALUE* dict = NULL;

    CHECK(v != NULL && value_is_new(v), "appending failed");
    while(n < max) {
        VALUE* r;
        if(chance(3, 4) || n == 0) {
            sprintf(t, "%s[]", chance(1, 8) ? "/" : "");
            OP("building [] of %llu items", n);
            r = value_build_path(v, t);
            n++;
            CHECK(r != NULL && value_is_new(r), "the path \"%s\" was not built", t);
            CHECK(value_array_get(v, n - 1) == r, "\"[]\" has built a value elsewhere than at the end");
            value_init_uint64(r, n - 1);
        } else {
            static const char* const tails[] = { "", "", "", "/x", "[]", "[0]", "/", "/x[]", "//" };
            const char* tail = tails[rn(9)];
            const char* pad = chance(1, 6) ? "000" : "";
            size_t far = chance(1, 2) ? 0 : chance(1, 4) ? rn(100000) : rn(10);
            if(chance(1, 3)) sprintf(t, "[-%s%zu]%s", pad, n + 1 + far, tail);
            else sprintf(t, "[%s%s%zu]%s", chance(1, 8) ? "+" : "", pad, n + far, tail);
            OP("near miss of %llu items, beyond by %llu", n, far);
            r = value_build_path(v, t);
            CHECK(r == NULL, "building \"%s\" in an array of %zu items gives a value", t, n);
            CHECK(value_path(v, t) == NULL, "\"%s\" finds something in an array of %zu items", t, n);
            EV("indexes out of range built");
        }
        CHECK(value_type(v) == VALUE_ARRAY && value_array_size(v) == n, "the array has %zu items, expected %zu", value_array_size(v), n);
        k = rn(n);
        if(chance(1, 2)) sprintf(t, "[%zu]", k); else sprintf(t, "[-%zu]", n - k);
        r = value_build_path(v, t);
        CHECK(r == value_array_get(v, k) && r != NULL && value_uint64(r) == k, "building the existing \"%s\" gives another value", t);
        /* Nothing can be built in a value which is no collection. */
        if(chance(1, 4)) {
            strcat(t, chance(1, 2) ? "[]" : "/x");
            CHECK(value_build_path(v, t) == NULL && value_type(r) != VALUE_NULL && value_uint64(r) == k, "building \"%s\" in a number", t);
        }
    }
    for(k = 0; k < n; k++)
        CHECK(value_uint64(value_array_get(v, k)) == k, "the item %zu has changed", k);
    EVAL(h2(n, max));

    /* The same of a dictionary with many members. */
    dict = deep;
    while(value_type(dict) == VALUE_ARRAY && value_array_size(dict) > 0) dict = value_array_get(dict, 0);
    if(value_type(dict) != VALUE_DICT) return;
    n = value_dict_size(dict);
    for(k = 0; k < max; k++) {
        VALUE* r;
        sprintf(t, "N%zu%s", k, chance(1, 4) ? "a-rather-long-name-of-a-member" : "");
        OP("building the member %llu of %llu", k, max);
        r = value_build_path(dict, t);
        CHECK(r != NULL && value_is_new(r), "the member \"%s\" was not built", t);
        CHECK(value_dict_size(dict) == n + k + 1, "the dictionary has %zu members, expected %zu", value_dict_size(dict), n + k + 1);
        CHECK(value_dict_get(dict, t) == r, "the member \"%s\" was built elsewhere", t);
        /* It stays new until initialised. */
        CHECK(value_build_path(dict, t) == r && value_is_new(r), "building the existing \"%s\" gives another value", t);
        if(chance(3, 4)) value_init_uint64(r, k);
        if(chance(1, 6)) {
            sprintf(t, "[%zu]", rn(k + 2));
            CHECK(value_build_path(dict, chance(1, 2) ? "[]" : t) == NULL, "an index gives something in a dictionary");
            CHECK(value_dict_size(dict) == n + k + 1, "an index has added a member");
        }
    }
    EV("dictionaries extended by building");
}

static void
mode_buildbig(u64 ep)
{
    VALUE root;
    VALUE* root_v;
    VALUE* v;
    VALUE* r;
    int depth = (int) (ep % 3 == 0 ? rr(1, 40) : rr(1, BIG_STEPS)), i, cut;
    size_t live = mon_heap.live;

    big_steps(depth, 1);
    /* The root has to be new, so it is an item. */
    value_init_array(&root);
    root_v = value_array_append(&root);
    CHECK(root_v != NULL && value_is_new(root_v), "appending failed");
    /* In two buildings. */
    cut = (int) rn((u64) depth);
    for(i = 0; i <= cut; i++)
        big_text(&bigstep[i], 1);
    r = big_resolve(root_v, bigtext_len, 1);
    CHECK(r != NULL && value_is_new(r), "the path of %d steps and %zu characters was not built", cut + 1, bigtext_len);
    bigtext_len = 0;
    for(i = 0; i < depth; i++)
        big_text(&bigstep[i], i > cut);
    r = big_resolve(root_v, bigtext_len, 1);
    CHECK(r != NULL && value_type(r) == VALUE_NULL, "the path of %d steps and %zu characters was not built", depth, bigtext_len);
    value_init_uint64(r, 0x1122334455667788ull);
    v = root_v;
    for(i = 0; i < depth; i++) {
        struct bigstep* b = &bigstep[i];
        if(b->idx) {
            CHECK(value_type(v) == VALUE_ARRAY && value_array_size(v) == 1, "the step %d of the built tree: type %d, %zu items", i, (int) value_type(v), value_array_size(v));
            v = value_array_get(v, 0);
        } else {
            CHECK(value_type(v) == VALUE_DICT && value_dict_size(v) == 1, "the step %d of the built tree: type %d, %zu members", i, (int) value_type(v), value_dict_size(v));
            v = value_dict_get_(v, (char*) b->name, b->len);
            CHECK(v != NULL, "the built tree misses the name of %zu bytes at the step %d", b->len, i);
        }
    }
    CHECK(v == r, "the built value is elsewhere");
    bigtext_len = 0;
    for(i = 0; i < depth; i++)
        big_text(&bigstep[i], 0);
    CHECK(big_resolve(root_v, bigtext_len, 1) == r && value_uint64(r) == 0x1122334455667788ull, "building an existing path does not find it");
    CHECK(value_array_size(&root) == 1, "the parent was changed");
    v = value_array_append(&root);
    buildbig_near(value_array_get(&root, 0), v);
    EVMAX("characters of a path", bigtext_len);
    EVMAX("steps of a path", depth);
    EVAL(h3(bigtext_len, (u64) cut, (u64) depth));
    value_fini(&root);
    for(i = 0; i < depth; i++)
        xfree(bigstep[i].name);
    xfree(bigtext);
    CHECK(mon_heap.live == live, "%zu blocks left", mon_heap.live - live);
}

/* ------------------------------------------------------------------------ */
/* C43: impossible sizes. */

static void
mode_extreme(u64 ep)
{
    VALUE v;
    MV* m = mv_new();
    INIT in;
    unsigned i;
    size_t huge;
    (void) ep;

    /* Strings and keys of impossible length: the source cannot be read so far
     * and must not be touched. */
    for(i = 0; i < 6; i++) {
        size_t live = mon_heap.live;
        static char src[64] = "some text";
        int r;
        switch(rn(4)) {
            case 0:     huge = SIZE_MAX - rn(64); break;
            case 1:     huge = SIZE_MAX / 2 + rn(16) - 8; break;
            case 2:     huge = SIZE_MAX - ((size_t) 1 << rn(MON_SZBITS - 4)); break;
            default:    huge = mon_heap_limit + ((size_t) 1 << rn(MON_SZBITS - 1)); break;
        }
        OP("string of %llu bytes", huge);
        r = value_init_string_(&v, src, huge);
        CHECK(r == -1, "initialisation of a string of %zu bytes succeeds", huge);
        CHECK(mon_heap.live == live, "failed initialisation leaks");
        value_fini(&v);
        EVAL(h2(1, huge));

        if(value_init_dict_ex(&v, NULL, rn(2) ? VALUE_DICT_MAINTAINORDER : 0) != 0)
            mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
        live = mon_heap.live;
        CHECK((rn(2) ? value_dict_add_(&v, src, huge) : value_dict_get_or_add_(&v, src, huge)) == NULL, "a key of %zu bytes was added", huge);
        CHECK(mon_heap.live == live, "failed adding of a key leaks");
        CHECK(value_dict_size(&v) == 0 && value_dict_get_(&v, "", 0) == NULL, "failed adding of a key leaves something");
        CHECK(value_dict_add(&v, "a") != NULL && value_dict_size(&v) == 1, "the dictionary cannot be used after a failed adding");
        value_fini(&v);
        EVAL(h2(2, huge));
    }

    memset(&in, 0, sizeof(in));
    in.type = VALUE_ARRAY;
    if(init_real(&v, &in) != 0)
        mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
    init_model(m, &in);
    pool_make(4, 0);
    for(i = (unsigned) rn(40); i > 0; i--) {
        VALUE* p = value_array_append(&v);
        INIT si;
        CHECK(p != NULL, "append failed");
        mv_insert(m, m->n);
        init_make(&si, 0);
        if(init_real(p, &si) != 0)
            mon_fail(__FILE__, __LINE__, "init", "initialisation failed");
        init_model(m->it[m->n - 1], &si);
        init_free(&si);
    }
    for(i = 0; i < 12; i++) {
        static const u8 sh[] = { 0, 1, 4, 5, 8, 32, 33 };
        size_t a = rn(m->n + 1), big = (SIZE_MAX >> sh[rn(MON_SZBITS == 32 ? 5 : 7)]) - rn(m->n + 3);
        OP("extreme index or count %llu of an array of %llu", big, m->n);
        switch(rn(4)) {
            case 0: CHECK(value_array_remove_range(&v, a, big) == -1, "removal of %zu items from %zu succeeds", big, m->n); break;
            case 1: CHECK(value_array_remove_range(&v, big, rn(5)) == -1, "removal at %zu of %zu succeeds", big, m->n); break;
            case 2:
                if(a > 0)
                    CHECK(value_array_remove_range(&v, a, SIZE_MAX - a + 1 + rn(a)) == -1, "a removal of too many items succeeds");
                break;
            default:
                CHECK(value_array_insert(&v, big) == NULL, "insert at %zu of %zu succeeds", big, m->n);
                CHECK(value_array_get(&v, big) == NULL, "item %zu of %zu was found", big, m->n);
                CHECK(value_array_remove(&v, big) == -1, "removal at %zu of %zu succeeds", big, m->n);
                break;
        }
        compare(&v, m, 0);
        EVAL(h4(3, m->n, a, big));
    }
    pool_free();
    value_fini(&v);
    mv_free(m);
}

/* ------------------------------------------------------------------------ */
/* C45: what memory is taken, and how often. */

static u64
log2_of(u64 n)
{
    u64 r = 0;
    while(n > 1) { n /= 2; r++; }
    return r;
}

/* The bounds are far from what the present code does. */
static size_t array_room(size_t n) { return 8 * sizeof(VALUE) * n + 1024; }
static u64 array_requests(u64 n) { return 4 * log2_of(n + 1) + 16; }

static void
economy_array(u64 ep)
{
    VALUE a;
    size_t live = mon_heap.live_bytes, n = 0, i, top = ep % 8 == 0 ? rr(20000, 60000) : rr(1, 3000);
    u64 r0 = mon_heap.n_requests, r1, done = 0;
    int leg;

    CHECK(value_init_array(&a) == 0, "initialisation failed");
    /* Growing one by one. */
    for(i = 0; i < top; i++) {
        VALUE* v = (i % 64 == 63 && i < 4000) ? value_array_insert(&a, rn(n + 1)) : value_array_append(&a);
        CHECK(v != NULL, "appending the item %zu failed", i);
        n++;
        if(n < 64 || n % 61 == 0)
            CHECK(mon_heap.live_bytes - live <= array_room(n), "an array grown to %zu items takes %zu bytes", n, mon_heap.live_bytes - live);
    }
    CHECK(mon_heap.n_requests - r0 <= array_requests(top), "%llu heap requests when growing an array to %zu items one by one",
          (unsigned long long) (mon_heap.n_requests - r0), top);
    EVMAX("heap requests per growing of an array", mon_heap.n_requests - r0);
    EVAL(h3(1, top, mon_heap.n_requests - r0));

    /* Additions and removals at one size. */
    for(leg = 0; leg < 6; leg++) {
        size_t k;
        size_t to = leg < 3 ? rn(n + 1) : (size_t) 1 << rn(log2_of(n + 1) + 1);
        if(to < n) {
            CHECK(value_array_remove_range(&a, rn(to + 1), n - to) == 0, "removal failed");
            n = to;
            CHECK(mon_heap.live_bytes - live <= array_room(n), "an array cut to %zu items takes %zu bytes", n, mon_heap.live_bytes - live);
        }
        if(n < 8)
            continue;       /* (The smallest may be given up and taken anew.) */
        k = 1 + (n >= 64 && rn(2) ? rn(n / 16) : 0);
        if(k > 200) k = 200;
        r1 = mon_heap.n_requests;
        for(i = 0; i < 128; i++) {
            size_t j;
            int back = (int) rn(2);
            for(j = 0; j < k; j++)
                CHECK((back ? value_array_append(&a) : value_array_insert(&a, n + j)) != NULL, "insertion failed");
            if(rn(2)) {
                CHECK(value_array_remove_range(&a, n, k) == 0, "removal failed");
            } else {
                for(j = 0; j < k; j++)
                    CHECK(value_array_remove(&a, n + k - 1 - j) == 0, "removal failed");
            }
        }
        CHECK(mon_heap.n_requests - r1 <= 16, "%llu heap requests in 128 times adding and removing %zu items at the size %zu",
              (unsigned long long) (mon_heap.n_requests - r1), k, n);
        EVAL(h4(2, n, k, mon_heap.n_requests - r1));
        EV("steady arrays");
    }

    /* Random histories: the requests are amortised. */
    r1 = mon_heap.n_requests;
    {
        size_t n0 = n;
        for(leg = 0; leg < 30; leg++) {
            size_t k = rn(3) ? rn(20) : rn(1000);
            if(rn(2)) {
                for(i = 0; i < k; i++)
                    CHECK(value_array_append(&a) != NULL, "appending failed");
                n += k;
                done += k;
            } else {
                if(k > n || rn(10) == 0) k = n;
                if(rn(2)) {
                    CHECK(value_array_remove_range(&a, n - k, k) == 0, "removal failed");
                    done++;
                } else {
                    for(i = 0; i < k; i++)
                        CHECK(value_array_remove(&a, n - 1 - i) == 0, "removal failed");
                    done += k;
                }
                n -= k;
            }
            CHECK(mon_heap.live_bytes - live <= array_room(n), "an array of %zu items takes %zu bytes", n, mon_heap.live_bytes - live);
        }
        CHECK(mon_heap.n_requests - r1 <= 30 * array_requests(n0 + done), "%llu heap requests in a history of %llu additions and removals",
              (unsigned long long) (mon_heap.n_requests - r1), (unsigned long long) done);
    }

    /* Shrinking one by one. */
    r1 = mon_heap.n_requests;
    top = n;
    while(n > 0) {
        CHECK(value_array_remove(&a, n - 1) == 0, "removal failed");
        n--;
        if(n < 64 || n % 61 == 0)
            CHECK(mon_heap.live_bytes - live <= array_room(n), "an array shrunk to %zu items takes %zu bytes", n, mon_heap.live_bytes - live);
    }
    CHECK(mon_heap.n_requests - r1 <= array_requests(top), "%llu heap requests when removing %zu items one by one",
          (unsigned long long) (mon_heap.n_requests - r1), top);
    EVMAX("heap requests per shrinking of an array", mon_heap.n_requests - r1);
    value_fini(&a);
    CHECK(mon_heap.live_bytes == live, "value_fini() leaves memory");
}

static void
economy_string(void)
{
    VALUE v;
    size_t live = mon_heap.live_bytes, n = rn(3) ? rn(300) : (size_t) 1 << rn(18);
    char* s;
    n += rn(3);
    s = xmalloc(n + 1);
    memset(s, 'x', n + 1);
    CHECK(value_init_string_(&v, s, n) == 0, "initialisation failed");
    CHECK(mon_heap.live_bytes - live <= n + 64, "a string of %zu bytes takes %zu", n, mon_heap.live_bytes - live);
    EVAL(h3(3, n, mon_heap.live_bytes - live));
    value_fini(&v);
    CHECK(mon_heap.live_bytes == live, "value_fini() leaves memory");
    xfree(s);
    EV("strings");
}

static void
economy_dict(u64 ep)
{
    VALUE d;
    size_t live = mon_heap.live_bytes, n = 0, i, top = ep % 8 == 1 ? rr(2000, 8000) : rr(1, 300), keys = 0;
    unsigned flags = rn(2) ? VALUE_DICT_MAINTAINORDER : 0;
    u8* in = xmalloc(top);
    size_t* kn = xmalloc(top * sizeof(size_t));
    u64 r0;
    char buf[600];
    int leg;

    memset(in, 0, top);
    CHECK(value_init_dict_ex(&d, NULL, flags) == 0, "initialisation failed");
    for(leg = 0; leg < 4; leg++) {
        for(i = 0; i < top; i++) {
            size_t k = leg == 0 ? i : rn(top);
            int m = snprintf(buf, sizeof(buf), "%zu", k);
            size_t len = (size_t) m + (k % 3 == 0 ? 0 : k % 3 == 1 ? k % 30 : k % 500);
            memset(buf + m, '.', len - (size_t) m);
            r0 = mon_heap.n_requests;
            if(!in[k] && (leg == 0 || rn(leg + 1) == 0)) {
                CHECK(value_dict_add_(&d, buf, len) != NULL, "adding failed");
                in[k] = 1; kn[k] = len; keys += len; n++;
                CHECK(mon_heap.n_requests - r0 <= 8, "%llu heap requests in one addition", (unsigned long long) (mon_heap.n_requests - r0));
            } else if(in[k] && leg > 0) {
                CHECK(value_dict_remove_(&d, buf, len) == 0, "removal failed");
                in[k] = 0; keys -= kn[k]; n--;
                CHECK(mon_heap.n_requests - r0 <= 8, "%llu heap requests in one removal", (unsigned long long) (mon_heap.n_requests - r0));
            }
            CHECK(mon_heap.live_bytes - live <= 1024 + n * (8 * sizeof(VALUE) + 64) + keys,
                  "a dictionary of %zu members, with %zu bytes of keys, takes %zu bytes", n, keys, mon_heap.live_bytes - live);
        }
        EVAL(h4(4, n, keys, mon_heap.live_bytes - live));
    }
    EV("dictionaries");
    value_dict_clean(&d);
    CHECK(mon_heap.live_bytes - live <= 1024, "a cleaned dictionary takes %zu bytes", mon_heap.live_bytes - live);
    value_fini(&d);
    CHECK(mon_heap.live_bytes == live, "value_fini() leaves memory");
    xfree(in); xfree(kn);
}

static void
mode_economy(u64 ep)
{
    int i;
    switch(ep % 4) {
        case 0: economy_array(ep / 4); break;
        case 1: economy_dict(ep / 4); break;
        case 2:
            for(i = 0; i < 20; i++)
                economy_string();
            break;
        default:
            reading_dry = 1;
            if(ep / 4 % 2) {
                mode_path(ep);
            } else {
                pool_make(4 + rn(20), 0);
                engine(E_ARRAY | E_DICT | E_INIT | E_CONTAINERS | (rn(2) ? E_ORDER : 0) | E_ROOT, chance(1, 2) ? VALUE_DICT : VALUE_ARRAY,
                       30 + (unsigned) rn(60), 4 + rn(30), 300);
                pool_free();
            }
            reading_dry = 0;
            break;
    }
}

const struct mon_mode mon_modes[] = {
    { "scalar", mode_scalar },
    { "compat", mode_compat },
    { "string", mode_string },
    { "hugestring", mode_hugestring },
    { "array", mode_array },
    { "dict", mode_dict },
    { "order", mode_order },
    { "balance", mode_balance },
    { "balancebig", mode_balancebig },
    { "deep", mode_deep },
    { "arraybig", mode_arraybig },
    { "arrayhuge", mode_arrayhuge },
    { "dictfar", mode_dictfar },
    { "pathbig", mode_pathbig },
    { "buildbig", mode_buildbig },
    { "path", mode_path },
    { "build", mode_build },
    { "own", mode_own },
    { "fault", mode_fault },
    { "extreme", mode_extreme },
    { "economy", mode_economy },
    { NULL, NULL }
};
