/* Workloads and oracles for data/buffer.[hc]: BUFFER, STACK and ARRAY_xxx. */
#include "mon.h"
#include "buffer.h"

/* ---- model: a plain growing byte string in harness memory ---- */
typedef struct { u8* p; size_t n; size_t cap; } MODEL;

static void m_free(MODEL* m) { xfree(m->p); memset(m, 0, sizeof(*m)); }
static void
m_room(MODEL* m, size_t n)
{
    if(n > m->cap) {
        size_t cap = n * 2 + 64;
        u8* p = xmalloc(cap);
        if(m->n) memcpy(p, m->p, m->n);
        xfree(m->p);
        m->p = p; m->cap = cap;
    }
}
static void
m_insert(MODEL* m, size_t off, const void* data, size_t n)
{
    m_room(m, m->n + n + 1);
    memmove(m->p + off + n, m->p + off, m->n - off);
    if(n) memcpy(m->p + off, data, n);
    m->n += n;
}
static void
m_remove(MODEL* m, size_t off, size_t n)
{
    if(n > m->n - off)
        n = m->n - off;
    if(n == 0) return;
    memmove(m->p + off, m->p + off + n, m->n - off - n);
    m->n -= n;
}

static void
verify(BUFFER* b, const MODEL* m, int full)
{
    CHECK(buffer_size(b) == m->n, "size is %zu, expected %zu", buffer_size(b), m->n);
    CHECK((buffer_is_empty(b) != 0) == (m->n == 0), "is_empty");
    CHECK(buffer_const_data(b) == buffer_data(b), "data vs const_data");
    if(m->n > 0) {
        const u8* d = buffer_const_data(b);
        size_t i;
        CHECK(d != NULL, "no data although size is %zu", m->n);
        CHECK(mon_is_live(d), "data do not point to a live heap block");
        CHECK(mon_blk_size(d) >= m->n, "heap block (%zu) is smaller than the contents (%zu)", mon_blk_size(d), m->n);
        i = rn(m->n);
        CHECK(buffer_const_data_at(b, i) == d + i && buffer_data_at(b, i) == (void*) (d + i), "data_at");
        if(full || m->n <= 4096) {
            if(memcmp(d, m->p, m->n) != 0) {
                for(i = 0; d[i] == m->p[i]; i++) {}
                CHECK(0, "contents differ at offset %zu of %zu", i, m->n);
            }
            mon_n_checks++;
        } else {
            size_t w = 512, o = rn(m->n - w + 1);
            CHECK(memcmp(d + o, m->p + o, w) == 0, "contents differ within [%zu,%zu) of %zu", o, o + w, m->n);
            CHECK(memcmp(d, m->p, w) == 0, "contents differ within the first %zu of %zu", w, m->n);
            CHECK(memcmp(d + m->n - w, m->p + m->n - w, w) == 0, "contents differ within the last %zu of %zu", w, m->n);
        }
    }
}

static u8 scratch[1 << 17];

static size_t
pick_off(size_t n)
{
    switch(rn(4)) {
        case 0: return 0;
        case 1: return n;
        default: return rn(n + 1);
    }
}

#define NBUF 3

/* C01: any sequence of operations. */
static void
mode_seq(u64 ep)
{
    BUFFER b[NBUF];
    MODEL m[NBUF];
    static const size_t maxes[] = { 20, 300, 3000, 40000 };
    size_t max = maxes[ep % 4];
    int nops = (max > 1000) ? 120 : 300;
    int op, i;

    memset(m, 0, sizeof(m));
    for(i = 0; i < NBUF; i++) {
        if(i == 0) { BUFFER z = BUFFER_INITIALIZER; b[i] = z; }
        else buffer_init(&b[i]);
        verify(&b[i], &m[i], 1);
    }

    for(op = 0; op < nops && mon_more(); op++) {
        int k = (int) rn(NBUF);
        int what = (int) rn(24);
        size_t before = m[k].n;
        size_t n, off;

        switch(what) {
        case 0: case 1: case 2:
            n = rnd_size(max); off = pick_off(m[k].n);
            OP("b%llu insert off=%llu n=%llu", k, off, n);
            rnd_fill(scratch, n);
            {
                u8* src = (n == 0 && rn(2)) ? NULL : xdup(scratch, n);
                CHECK(buffer_insert(&b[k], off, src, n) == 0, "insert failed");
                if(src != NULL) xdup_free(src, n);
            }
            m_insert(&m[k], off, scratch, n);
            EV("insert");
            if(off < before && n > 0) EV("insert into the middle");
            break;
        case 3: case 4:
            n = rnd_size(max); off = pick_off(m[k].n);
            OP("b%llu insert_raw off=%llu n=%llu", k, off, n);
            {
                u8* p = buffer_insert_raw(&b[k], off, n);
                CHECK(p != NULL, "insert_raw failed");
                CHECK(p == (u8*) buffer_data(&b[k]) + off, "insert_raw returns a wrong place");
                rnd_fill(scratch, n);
                memcpy(p, scratch, n);
            }
            m_insert(&m[k], off, scratch, n);
            EV("insert_raw");
            break;
        case 5: case 6: case 7:
            n = rnd_size(max);
            OP("b%llu append n=%llu", k, n);
            rnd_fill(scratch, n);
            {
                /* The contents of an empty buffer may be NULL. */
                u8* src = (n == 0 && rn(2)) ? NULL : xdup(scratch, n);
                CHECK(buffer_append(&b[k], src, n) == 0, "append failed");
                if(src != NULL) xdup_free(src, n);
            }
            m_insert(&m[k], m[k].n, scratch, n);
            EV("append");
            break;
        case 8:
            n = rnd_size(max);
            OP("b%llu append_raw n=%llu", k, n);
            {
                u8* p = buffer_append_raw(&b[k], n);
                CHECK(p != NULL, "append_raw failed");
                CHECK(p == (u8*) buffer_data(&b[k]) + before, "append_raw returns a wrong place");
                rnd_fill(scratch, n);
                memcpy(p, scratch, n);
            }
            m_insert(&m[k], m[k].n, scratch, n);
            EV("append_raw");
            break;
        case 9: case 10: case 11: case 12:
            off = pick_off(m[k].n);
            switch(rn(6)) {
                case 0: n = m[k].n - off; break;
                case 1: n = rn(m[k].n * 2 + 10); break;             /* may exceed */
                case 2: n = SIZE_MAX - rn(4) * off - rn(3); break;  /* "all the rest" */
                default: n = rnd_size(m[k].n - off); break;
            }
            OP("b%llu remove off=%llu n=%llu (size %llu)", k, off, n, m[k].n);
            buffer_remove(&b[k], off, n);
            m_remove(&m[k], off, n);
            EV("remove");
            if(n > before - off) EV("remove beyond the end");
            break;
        case 13:
            OP("b%llu clear", k);
            buffer_clear(&b[k]);
            m[k].n = 0;
            EV("clear");
            break;
        case 14: case 15:
            n = (rn(3) == 0) ? rn(m[k].n + 1) : rnd_size(max + m[k].n);
            OP("b%llu realloc alloc=%llu (size %llu)", k, n, m[k].n);
            CHECK(buffer_realloc(&b[k], n) == 0, "realloc failed");
            if(n < m[k].n) { m[k].n = n; EV("realloc truncates"); }
            CHECK(mon_blk_size(buffer_data(&b[k])) >= n, "capacity %zu after realloc(%zu)", mon_blk_size(buffer_data(&b[k])), n);
            EV("realloc");
            break;
        case 16: case 17:
            OP("b%llu shrink (size %llu)", k, m[k].n);
            buffer_shrink(&b[k]);
            EV("shrink");
            break;
        case 18: case 19:
            n = rnd_size(max);
            OP("b%llu reserve n=%llu", k, n);
            CHECK(buffer_reserve(&b[k], n) == 0, "reserve failed");
            EV("reserve");
            break;
        case 20:
            {
                size_t sz = 12345;
                int with = rn(4) != 0;
                void* d;
                OP("b%llu acquire", k);
                d = buffer_acquire(&b[k], with ? &sz : NULL);
                CHECK(!with || sz == m[k].n, "acquired size %zu, expected %zu", sz, m[k].n);
                if(m[k].n > 0)
                    CHECK(memcmp(d, m[k].p, m[k].n) == 0, "acquired contents differ");
                free(d);
                m[k].n = 0;
                EV("acquire");
            }
            break;
        case 21:
            {
                int j = (int) rn(NBUF);
                MODEL t;
                OP("swap b%llu b%llu", k, j);
                buffer_swap(&b[k], &b[j]);
                t = m[k]; m[k] = m[j]; m[j] = t;
                verify(&b[j], &m[j], 1);
                EV("swap");
            }
            break;
        case 22:
            if(m[k].n > 0) {
                /* In-place modification through the accessors. */
                size_t o = rn(m[k].n);
                u8 c = (u8) rnd();
                OP("b%llu poke off=%llu", k, o);
                *(u8*) buffer_data_at(&b[k], o) = c;
                m[k].p[o] = c;
                EV("poke");
            }
            break;
        default:
            OP("b%llu fini+init", k);
            buffer_fini(&b[k]);
            buffer_init(&b[k]);
            m[k].n = 0;
            EV("fini");
            break;
        }
        verify(&b[k], &m[k], (op & 15) == 0);
        EVMAX("largest contents", m[k].n);
        if(m[k].n != before || what == 14 || what == 15)
            EVAL(h4(what, m[k].n, before, hbytes(m[k].p, m[k].n < 256 ? m[k].n : 256)));
        else
            EVAL_TRIVIAL();
    }
    for(i = 0; i < NBUF; i++) {
        verify(&b[i], &m[i], 1);
        buffer_fini(&b[i]);
        m_free(&m[i]);
    }
}

/* C01: byte-by-byte growth and shrinking through all sizes up to a few KB. */
static void
mode_sweep(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    MODEL m;
    size_t step = 1 + ep % 9;
    size_t limit = 1200 + 400 * (ep % 5);
    int front = (ep / 3) % 2;
    memset(&m, 0, sizeof(m));
    while(m.n < limit) {
        size_t off = front ? 0 : m.n;
        rnd_fill(scratch, step);
        OP("grow: insert off=%llu n=%llu", off, step);
        CHECK(buffer_insert(&b, off, scratch, step) == 0, "insert failed");
        m_insert(&m, off, scratch, step);
        verify(&b, &m, 1);
        EVAL(h3(m.n, step, front));
        if(rn(16) == 0) {
            OP("shrink (size %llu)", m.n);
            buffer_shrink(&b);
            verify(&b, &m, 1);
        }
    }
    while(m.n > 0) {
        size_t off = front ? 0 : (m.n > step ? m.n - step : 0);
        OP("remove off=%llu n=%llu (size %llu)", off, step, m.n);
        buffer_remove(&b, off, step);
        m_remove(&m, off, step);
        verify(&b, &m, 1);
        EVAL(h4(m.n, step, front, 1));
    }
    CHECK(buffer_data(&b) == NULL || mon_is_live(buffer_data(&b)), "dangling data of an empty buffer");
    buffer_fini(&b);
    m_free(&m);
}

/* ---- C02: STACK ---- */

typedef struct { u8 type; u32 n; } ITEM;

static void
mode_stack(u64 ep)
{
    STACK st[2];
    MODEL m[2];
    ITEM* items[2];
    int nitems[2] = { 0, 0 };
    int nops = 400, op, k, i;
    (void) ep;

    memset(m, 0, sizeof(m));
    for(k = 0; k < 2; k++) {
        STACK z = STACK_INITIALIZER;
        if(k == 0) st[k] = z; else stack_init(&st[k]);
        items[k] = xmalloc(sizeof(ITEM) * 500);
    }

    for(op = 0; op < nops && mon_more(); op++) {
        int what = (int) rn(20);
        u64 v = rnd();
        size_t n = 0;
        if(rn(6) == 0) v = (u64) 0 - (v & 1);       /* extreme values */
        if(rn(6) == 0) v = 0x8000800080008080ULL ^ (v & 1);
        k = (rn(8) == 0);

        if(what < 11 || nitems[k] == 0) {
            int t = (int) rn(11);
            int ok = -1;
            void* ptr = (void*) (uintptr_t) v;
            OP("s%llu push type=%llu value=%llx", k, t, v);
            switch(t) {
                case 0: { int8_t x = (int8_t) v; ok = stack_push_int8(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 1: { uint8_t x = (uint8_t) v; ok = stack_push_uint8(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 2: { int16_t x = (int16_t) v; ok = stack_push_int16(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 3: { uint16_t x = (uint16_t) v; ok = stack_push_uint16(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 4: { int32_t x = (int32_t) v; ok = stack_push_int32(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 5: { uint32_t x = (uint32_t) v; ok = stack_push_uint32(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 6: { int64_t x = (int64_t) v; ok = stack_push_int64(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 7: { uint64_t x = v; ok = stack_push_uint64(&st[k], x); m_insert(&m[k], m[k].n, &x, n = sizeof(x)); break; }
                case 8: ok = stack_push_ptr(&st[k], ptr); m_insert(&m[k], m[k].n, &ptr, n = sizeof(ptr)); break;
                case 9:
                    n = 1 + rnd_size(700); rnd_fill(scratch, n);
                    ok = stack_push(&st[k], scratch, n); m_insert(&m[k], m[k].n, scratch, n); break;
                case 10: {
                    u8* p;
                    n = 1 + rnd_size(100); rnd_fill(scratch, n);
                    p = stack_push_raw(&st[k], n); ok = (p != NULL) ? 0 : -1;
                    if(p != NULL) memcpy(p, scratch, n);
                    m_insert(&m[k], m[k].n, scratch, n); break;
                }
            }
            CHECK(ok == 0, "push of type %d failed", t);
            items[k][nitems[k]].type = (u8) t;
            items[k][nitems[k]].n = (u32) n;
            nitems[k]++;
            EV("push");
        } else if(what < 18) {
            ITEM it = items[k][nitems[k] - 1];
            const u8* top = m[k].p + m[k].n - it.n;
            u8* got = xmalloc(it.n);
            int peek;
            OP("s%llu peek+pop type=%llu n=%llu (size %llu)", k, it.type, it.n, m[k].n);
            for(peek = 1; peek >= 0; peek--) {
                memset(got, 0x5a, it.n);
                switch(it.type) {
                #define POP(t, T, name) case t: { T x = peek ? stack_peek_##name(&st[k]) : stack_pop_##name(&st[k]); memcpy(got, &x, sizeof(x)); break; }
                    POP(0, int8_t, int8)
                    POP(1, uint8_t, uint8)
                    POP(2, int16_t, int16)
                    POP(3, uint16_t, uint16)
                    POP(4, int32_t, int32)
                    POP(5, uint32_t, uint32)
                    POP(6, int64_t, int64)
                    POP(7, uint64_t, uint64)
                    POP(8, void*, ptr)
                    case 9:
                        if(peek) stack_peek(&st[k], got, it.n); else stack_pop(&st[k], got, it.n);
                        break;
                    default:
                        if(peek) memcpy(got, stack_peek_raw(&st[k], it.n), it.n);
                        else memcpy(got, stack_pop_raw(&st[k], it.n), it.n);
                        break;
                }
                CHECK(memcmp(got, top, it.n) == 0, "%s of type %d gives a different value than pushed", peek ? "peek" : "pop", it.type);
                if(peek)
                    CHECK(stack_size(&st[k]) == m[k].n, "peek changed the size");
            }
            xfree(got);
            m[k].n -= it.n;
            nitems[k]--;
            EV("pop");
        } else if(what == 18) {
            switch(rn(6)) {
                case 0:
                    OP("s%llu clear", k);
                    stack_clear(&st[k]); m[k].n = 0; nitems[k] = 0; EV("clear"); break;
                case 1: {
                    size_t sz = 77;
                    void* d;
                    OP("s%llu acquire", k);
                    d = stack_acquire(&st[k], &sz);
                    CHECK(sz == m[k].n, "acquired size");
                    if(sz) CHECK(memcmp(d, m[k].p, sz) == 0, "acquired contents differ");
                    free(d);
                    m[k].n = 0; nitems[k] = 0; EV("acquire"); break;
                }
                case 2: n = rnd_size(300);
                    OP("s%llu reserve %llu", k, n);
                    CHECK(stack_reserve(&st[k], n) == 0, "reserve failed"); EV("reserve"); break;
                default: break;
            }
        } else {
            MODEL t; ITEM* ti; int tn;
            OP("swap");
            stack_swap(&st[0], &st[1]);
            t = m[0]; m[0] = m[1]; m[1] = t;
            ti = items[0]; items[0] = items[1]; items[1] = ti;
            tn = nitems[0]; nitems[0] = nitems[1]; nitems[1] = tn;
            EV("swap");
        }
        for(i = 0; i < 2; i++) {
            CHECK(stack_size(&st[i]) == m[i].n, "stack size %zu, expected %zu", stack_size(&st[i]), m[i].n);
            CHECK((stack_is_empty(&st[i]) != 0) == (m[i].n == 0), "is_empty");
            if(m[i].n) {
                CHECK(stack_const_data(&st[i]) == stack_data(&st[i]), "data");
                CHECK(memcmp(stack_const_data(&st[i]), m[i].p, m[i].n) == 0, "stack contents differ");
            }
        }
        EVMAX("deepest stack (bytes)", m[k].n);
        EVAL(h4(what, m[k].n, nitems[k], m[k].n ? hbytes(m[k].p + (m[k].n > 32 ? m[k].n - 32 : 0), m[k].n > 32 ? 32 : m[k].n) : 0));
    }
    for(k = 0; k < 2; k++) {
        /* Unwind completely: strictly LIFO. */
        while(nitems[k] > 0) {
            ITEM it = items[k][--nitems[k]];
            u8* got = xmalloc(it.n);
            stack_pop(&st[k], got, it.n);
            m[k].n -= it.n;
            CHECK(memcmp(got, m[k].p + m[k].n, it.n) == 0, "unwinding gives a different value");
            CHECK(stack_size(&st[k]) == m[k].n, "size while unwinding");
            xfree(got);
        }
        stack_fini(&st[k]);
        m_free(&m[k]);
        xfree(items[k]);
    }
}

/* Very deep stacks: what was pushed is known from its number. */
static size_t
deep_item(u64 salt, u64 no, u8* out)
{
    u64 x = mon_mix(salt ^ no);
    size_t n = 1 + (x >> 8) % ((x & 63) == 0 ? 3000 : (x & 7) == 0 ? 60 : 9), i;
    for(i = 0; i < n; i += 8) {
        u64 y = mon_mix(x + i);
        memcpy(out + i, &y, 8);
    }
    return n;
}

/* The item by the typed functions, if there are some for its size: what = 0 push, 1 peek, 2 pop. */
static int
deep_typed(STACK* st, size_t n, u8* p, int what, u64 no)
{
    int sign = mon_mix(no) & 1;

    if((mon_mix(no) & 6) == 0)
        return 0;
#define X(T, NAME) do { T x;                                                        \
        if(what == 0) { memcpy(&x, p, sizeof(x)); CHECK(stack_push_##NAME(st, x) == 0, "push of " #NAME " failed"); } \
        else { x = (what == 1) ? stack_peek_##NAME(st) : stack_pop_##NAME(st); memcpy(p, &x, sizeof(x)); } \
        return 1; } while(0)
    switch(n) {
        case 1: if(sign) X(int8_t, int8); else X(uint8_t, uint8);
        case 2: if(sign) X(int16_t, int16); else X(uint16_t, uint16);
        case 4: if(sign) X(int32_t, int32); else X(uint32_t, uint32);
        case 8: if((mon_mix(no) & 24) == 0 && sizeof(void*) == 8) X(void*, ptr); else if(sign) X(int64_t, int64); else X(uint64_t, uint64);
    }
#undef X
    return 0;
}

static void
mode_stackdeep(u64 ep)
{
    STACK st = STACK_INITIALIZER;
    u8 exp[3100], got[3100];
    u64 salt = rnd(), cnt = 0;
    size_t total = 0, n;
    int leg;

    (void) ep;
    for(leg = 0; leg < 5; leg++) {
        u64 target = (leg == 4) ? 0 : (leg % 2) ? rn(cnt + 1) : cnt + rn(60000);
        OP("deep stack from %llu to %llu items", cnt, target);
        while(cnt < target) {
            n = deep_item(salt, cnt, exp);
            if(deep_typed(&st, n, exp, 0, cnt)) {
                EV("typed items in deep stacks");
            } else if(cnt & 1) {
                CHECK(stack_push(&st, exp, n) == 0, "push failed");
            } else {
                u8* q = stack_push_raw(&st, n);
                CHECK(q != NULL, "push_raw failed");
                memcpy(q, exp, n);
            }
            total += n;
            cnt++;
            CHECK(stack_size(&st) == total, "stack size %zu, expected %zu", stack_size(&st), total);
        }
        EVMAX("deepest stack (bytes)", total);
        while(cnt > target) {
            cnt--;
            n = deep_item(salt, cnt, exp);
            if(cnt % 3 == 0) {
                memcpy(got, stack_peek_raw(&st, n), n);
                CHECK(memcmp(got, exp, n) == 0, "peek gives something else at the depth of %zu bytes", total);
            }
            memset(got, 0x5a, n);
            if(deep_typed(&st, n, got, 1, cnt)) {
                CHECK(memcmp(got, exp, n) == 0, "typed peek gives something else at the depth of %zu bytes", total);
                memset(got, 0x5a, n);
                deep_typed(&st, n, got, 2, cnt);
            } else if(cnt & 2) stack_pop(&st, got, n);
            else memcpy(got, stack_pop_raw(&st, n), n);
            CHECK(memcmp(got, exp, n) == 0, "pop gives something else at the depth of %zu bytes", total);
            total -= n;
            CHECK(stack_size(&st) == total, "stack size %zu, expected %zu", stack_size(&st), total);
            if((cnt & 255) == 0)
                EVAL(h3(7, cnt, total));
        }
        if(rn(2) && total > 0) {
            /* The whole contents at once. */
            const u8* d = stack_const_data(&st);
            u64 i;
            size_t at = 0;
            for(i = 0; i < cnt; i++) {
                n = deep_item(salt, i, exp);
                CHECK(memcmp(d + at, exp, n) == 0, "the item %llu of %llu differs", (unsigned long long) i, (unsigned long long) cnt);
                at += n;
            }
            EV("deep stacks compared");
        }
    }
    CHECK(stack_is_empty(&st), "not empty");
    stack_fini(&st);
}

/* C01: contents of megabytes. */
static void
mode_large(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    MODEL m;
    int op;
    size_t max = (size_t) 1 << rr(17, 22);
    static u8* src;

    (void) ep;
    memset(&m, 0, sizeof(m));
    if(src == NULL) src = xmalloc((size_t) 1 << 22);
    for(op = 0; op < 24 && mon_more(); op++) {
        size_t n = (rn(4) == 0) ? rn(40) : (rn(3) == 0) ? ((size_t) 1 << rr(7, 20)) + rn(3) - 1 : rn(max), off = pick_off(m.n), i;
        u64 x = rnd();
        int what = (int) rn(10);
        if(m.n > ((size_t) 12 << 20)) what = 7;
        switch(what) {
        case 0: case 1: case 2: case 3: {
            u8* q = NULL;
            for(i = 0; i + 8 <= n; i += 8) { u64 y = mon_mix(x + i); memcpy(src + i, &y, 8); }
            for(; i < n; i++) src[i] = (u8) (x + i);
            if(what == 3) off = m.n;
            OP("large insert off=%llu n=%llu what=%llu", off, n, what);
            if(what == 0) CHECK(buffer_insert(&b, off, src, n) == 0, "insert failed");
            else if(what == 3) CHECK(buffer_append(&b, src, n) == 0, "append failed");
            else {
                q = buffer_insert_raw(&b, off, n);
                CHECK(q != NULL && q == (u8*) buffer_data(&b) + off, "insert_raw gives a wrong place");
                memcpy(q, src, n);
            }
            m_insert(&m, off, src, n);
            break;
        }
        case 4: OP("large reserve %llu", n); CHECK(buffer_reserve(&b, n) == 0, "reserve failed"); break;
        case 5: OP("large shrink %llu", m.n); buffer_shrink(&b); break;
        case 6:
            n = rn(m.n * 2 + 1);
            OP("large realloc %llu of %llu", n, m.n);
            CHECK(buffer_realloc(&b, n) == 0, "realloc failed");
            if(n < m.n) m.n = n;
            break;
        default:
            if(rn(3) == 0) n = rn(m.n + 1000);
            OP("large remove off=%llu n=%llu of %llu", off, n, m.n);
            buffer_remove(&b, off, n);
            m_remove(&m, off, n);
            break;
        }
        CHECK(buffer_size(&b) == m.n, "size %zu, expected %zu", buffer_size(&b), m.n);
        CHECK(m.n == 0 || memcmp(buffer_data(&b), m.p, m.n) == 0, "contents of %zu bytes differ", m.n);
        EVMAX("largest contents", m.n);
        EVAL(h4(what, m.n, n, off));
    }
    buffer_fini(&b);
    m_free(&m);
}

/* ---- C03: ARRAY_xxx ---- */

#define DEF_ARRAY(NAME, T, FROM, TO)                                          \
static void                                                                   \
array_run_##NAME(int nops, size_t max)                                        \
{                                                                             \
    ARRAY_##NAME a = ARRAY_##NAME##_INITIALIZER;                              \
    MODEL m;                                                                  \
    T* md;                                                                    \
    size_t cnt = 0;                                                           \
    int op;                                                                   \
    memset(&m, 0, sizeof(m));                                                 \
    if(rn(2)) array_##NAME##_init(&a);                                        \
    for(op = 0; op < nops && mon_more(); op++) {                              \
        int what = (int) rn(22);                                              \
        size_t i, n, idx = pick_off(cnt), old = cnt;                          \
        u64 rv = rnd();                                                       \
        T v;                                                                  \
        if(rn(5) == 0) rv = 0 - (rv & 1);                                     \
        if(rn(5) == 0) rv = 0x8080808080808080ULL + (rv & 1);                 \
        v = FROM(rv);                                                         \
        switch(what) {                                                        \
        case 0: case 1: case 2:                                               \
            OP(#NAME " insert idx=%llu v=%llx (cnt %llu)", idx, rv, cnt);     \
            CHECK(array_##NAME##_insert(&a, idx, v) == 0, "insert failed");   \
            m_insert(&m, idx * sizeof(T), &v, sizeof(T)); EV("insert"); break; \
        case 3:                                                               \
            OP(#NAME " insert_raw idx=%llu v=%llx (cnt %llu)", idx, rv, cnt); \
            CHECK(array_##NAME##_insert_raw(&a, idx) == 0, "insert_raw failed"); \
            CHECK(array_##NAME##_size(&a) == cnt + 1, "size after insert_raw"); \
            array_##NAME##_set(&a, idx, v);                                   \
            m_insert(&m, idx * sizeof(T), &v, sizeof(T)); EV("insert_raw"); break; \
        case 4: case 5:                                                       \
            n = rnd_size(max);                                                \
            OP(#NAME " insert_n_raw idx=%llu n=%llu (cnt %llu)", idx, n, cnt); \
            CHECK(array_##NAME##_insert_n_raw(&a, idx, n) == 0, "insert_n_raw failed"); \
            CHECK(array_##NAME##_size(&a) == cnt + n, "size after insert_n_raw"); \
            for(i = 0; i < n; i++) {                                          \
                T w = FROM(rv + i * 0x0101010101010101ULL);                   \
                array_##NAME##_set(&a, idx + i, w);                           \
                memcpy(scratch + i * sizeof(T), &w, sizeof(T));               \
            }                                                                 \
            m_insert(&m, idx * sizeof(T), scratch, n * sizeof(T)); EV("insert_n_raw"); break; \
        case 6: case 7: case 8:                                               \
            OP(#NAME " append v=%llx (cnt %llu)", rv, cnt);                   \
            CHECK(array_##NAME##_append(&a, v) == 0, "append failed");        \
            m_insert(&m, m.n, &v, sizeof(T)); EV("append"); break;            \
        case 9:                                                               \
            OP(#NAME " append_raw v=%llx (cnt %llu)", rv, cnt);               \
            CHECK(array_##NAME##_append_raw(&a) == 0, "append_raw failed");   \
            CHECK(array_##NAME##_size(&a) == cnt + 1, "size after append_raw"); \
            array_##NAME##_data(&a)[cnt] = v;                                 \
            m_insert(&m, m.n, &v, sizeof(T)); EV("append_raw"); break;        \
        case 10: case 11:                                                     \
            n = rnd_size(max);                                                \
            OP(#NAME " append_n n=%llu (cnt %llu)", n, cnt);                  \
            CHECK(array_##NAME##_append_n(&a, n) == 0, "append_n failed");    \
            CHECK(array_##NAME##_size(&a) == cnt + n, "size after append_n"); \
            for(i = 0; i < n; i++) {                                          \
                T w = FROM(rv - i * 0x0102030405060708ULL);                   \
                array_##NAME##_set(&a, cnt + i, w);                           \
                memcpy(scratch + i * sizeof(T), &w, sizeof(T));               \
            }                                                                 \
            m_insert(&m, m.n, scratch, n * sizeof(T)); EV("append_n"); break; \
        case 12: case 13: case 14:                                            \
            if(cnt == 0) break;                                               \
            idx = rn(cnt);                                                    \
            OP(#NAME " remove idx=%llu (cnt %llu)", idx, cnt);                \
            array_##NAME##_remove(&a, idx);                                   \
            m_remove(&m, idx * sizeof(T), sizeof(T)); EV("remove"); break;    \
        case 15: case 16: case 17:                                            \
            n = rn(3) ? rnd_size(cnt - idx) : cnt - idx;                      \
            OP(#NAME " remove_n idx=%llu n=%llu (cnt %llu)", idx, n, cnt);    \
            array_##NAME##_remove_n(&a, idx, n);                              \
            m_remove(&m, idx * sizeof(T), n * sizeof(T)); EV("remove_n"); break; \
        case 18: case 19:                                                     \
            if(cnt == 0) break;                                               \
            idx = rn(cnt);                                                    \
            OP(#NAME " set idx=%llu v=%llx", idx, rv);                        \
            array_##NAME##_set(&a, idx, v);                                   \
            memcpy(m.p + idx * sizeof(T), &v, sizeof(T)); EV("set"); break;   \
        case 20: {                                                            \
            size_t sz = 4321;                                                 \
            int with = rn(3) != 0;                                            \
            T* d;                                                             \
            OP(#NAME " acquire (cnt %llu)", cnt);                             \
            d = array_##NAME##_acquire(&a, with ? &sz : NULL);                \
            CHECK(!with || sz == cnt, "acquired count %zu, expected %zu", sz, cnt); \
            if(cnt) CHECK(memcmp(d, m.p, m.n) == 0, "acquired contents differ"); \
            free(d);                                                          \
            m.n = 0; EV("acquire"); break;                                    \
        }                                                                     \
        default:                                                              \
            if(rn(8) == 0) {                                                  \
                OP(#NAME " fini+init");                                       \
                array_##NAME##_fini(&a); array_##NAME##_init(&a);             \
                m.n = 0;                                                      \
            }                                                                 \
            break;                                                            \
        }                                                                     \
        cnt = m.n / sizeof(T);                                                \
        md = (T*) m.p;                                                        \
        CHECK(array_##NAME##_size(&a) == cnt, "size %zu, expected %zu", array_##NAME##_size(&a), cnt); \
        CHECK((array_##NAME##_is_empty(&a) != 0) == (cnt == 0), "is_empty");  \
        if(cnt) {                                                             \
            CHECK((const void*) array_##NAME##_const_data(&a) == (const void*) array_##NAME##_data(&a), "data"); \
            CHECK(memcmp(array_##NAME##_const_data(&a), md, m.n) == 0, "array contents differ"); \
            for(i = 0; i < 4; i++) {                                          \
                size_t j = rn(cnt);                                           \
                CHECK(array_##NAME##_get(&a, j) == md[j], "get(%zu) differs", j); \
            }                                                                 \
        }                                                                     \
        EVMAX("largest array", cnt);                                          \
        if(old != cnt || what == 18)                                          \
            EVAL(h4(what, cnt, old, h2(idx, rv)));                            \
        else                                                                  \
            EVAL_TRIVIAL();                                                   \
    }                                                                         \
    array_##NAME##_fini(&a);                                                  \
    m_free(&m);                                                               \
}

#define FROM_ptr(x)     ((void*) (uintptr_t) (x))
DEF_ARRAY(int8, int8_t, (int8_t), 0)
DEF_ARRAY(uint8, uint8_t, (uint8_t), 0)
DEF_ARRAY(int16, int16_t, (int16_t), 0)
DEF_ARRAY(uint16, uint16_t, (uint16_t), 0)
DEF_ARRAY(int32, int32_t, (int32_t), 0)
DEF_ARRAY(uint32, uint32_t, (uint32_t), 0)
DEF_ARRAY(int64, int64_t, (int64_t), 0)
DEF_ARRAY(uint64, uint64_t, (uint64_t), 0)
DEF_ARRAY(ptr, void*, FROM_ptr, 0)

static void
mode_array(u64 ep)
{
    size_t max = (ep % 4 == 3) ? 3000 : 60;
    int nops = 200;
    if(ep % 100 == 99) {
        max = sizeof(scratch) / 8 - 1;
        nops = 60;
        EV("episodes with large arrays");
    }
    switch(ep % 9) {
        case 0: array_run_int8(nops, max); EV("int8 episodes"); break;
        case 1: array_run_uint8(nops, max); EV("uint8 episodes"); break;
        case 2: array_run_int16(nops, max); EV("int16 episodes"); break;
        case 3: array_run_uint16(nops, max); EV("uint16 episodes"); break;
        case 4: array_run_int32(nops, max); EV("int32 episodes"); break;
        case 5: array_run_uint32(nops, max); EV("uint32 episodes"); break;
        case 6: array_run_int64(nops, max); EV("int64 episodes"); break;
        case 7: array_run_uint64(nops, max); EV("uint64 episodes"); break;
        default: array_run_ptr(nops, max); EV("ptr episodes"); break;
    }
}

/* ---- C04: capacity management, watched through the heap ---- */

static void
check_slack(BUFFER* b, size_t size, const char* after)
{
    size_t blk = mon_blk_size(buffer_data(b));
    CHECK(blk <= 8 * size + 256, "%s: %zu bytes of heap are held for %zu bytes of contents", after, blk, size);
}

static void
mode_capacity(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    size_t live0 = mon_heap.live;
    u64 a0;
    size_t n, total;

    switch(ep % 4) {
    case 0: {       /* growth by appending/inserting is geometric */
        size_t chunk = 1 + rn(64);
        size_t limit = ((ep / 4) % 4 == 0) ? (4u << 20) : (64u << 10) + rn(300000);
        u64 bound = 64;
        size_t x;
        if((ep / 4) % 8 == 0) { chunk = 997; limit = 48u << 20; }
        for(x = limit; x > 0; x >>= 1) bound += 6;
        a0 = mon_heap.n_requests;
        total = 0;
        OP("append %llu bytes repeatedly up to %llu", chunk, limit);
        while(total < limit) {
            u8* p = buffer_append_raw(&b, chunk);
            CHECK(p != NULL, "append failed");
            memset(p, (int) total, chunk);
            total += chunk;
            if((total / chunk & 1023) == 0)
                check_slack(&b, total, "append");
        }
        CHECK(mon_heap.n_requests - a0 <= bound, "%llu heap requests when growing to %zu bytes by %zu (bound %llu)",
              (unsigned long long) (mon_heap.n_requests - a0), total, chunk, (unsigned long long) bound);
        EVAL(h2(chunk, limit));
        EVMAX("heap requests per growth run", mon_heap.n_requests - a0);
        /* And shrinking on removal is geometric too. */
        a0 = mon_heap.n_requests;
        while(total > 0) {
            size_t r = chunk * (1 + rn(9));
            buffer_remove(&b, (total > r) ? total - r : 0, r);
            total = (total > r) ? total - r : 0;
            CHECK(buffer_size(&b) == total, "size");
            if((total / chunk & 1023) == 0)
                check_slack(&b, total, "remove");
        }
        CHECK(mon_heap.n_requests - a0 <= bound, "%llu heap requests when shrinking (bound %llu)",
              (unsigned long long) (mon_heap.n_requests - a0), (unsigned long long) bound);
        EV("growth runs");
        break;
    }
    case 1: {       /* reserve() promises room without any reallocation */
        int i;
        for(i = 0; i < 40; i++) {
            size_t left;
            const u8* d;
            n = rnd_size(20000);
            OP("reserve %llu (size %llu)", n, buffer_size(&b));
            CHECK(buffer_reserve(&b, n) == 0, "reserve failed");
            a0 = mon_heap.n_requests;
            d = buffer_const_data(&b);
            CHECK(mon_blk_size(d) >= buffer_size(&b) + n, "reserved less than asked for");
            left = n;
            while(left > 0) {
                size_t c = rn(3) ? rnd_size(left) : left;
                int ins = rn(4) == 0;
                OP("  append/insert %llu of reserved", c);
                CHECK(buffer_insert(&b, ins ? rn(buffer_size(&b) + 1) : buffer_size(&b), scratch, c) == 0, "append within reserved space failed");
                CHECK(buffer_const_data(&b) == d, "buffer moved although the space was reserved");
                CHECK(mon_heap.n_requests == a0, "heap used although the space was reserved");
                left -= c;
                EV("appends into reserved space");
                EVAL(h3(n, c, buffer_size(&b)));
            }
            if(rn(3) == 0) { OP("shrink"); buffer_shrink(&b); }
            if(rn(5) == 0) { size_t o = rn(buffer_size(&b) + 1); OP("remove off %llu n %llu", o, 500); buffer_remove(&b, o, 500); }
            if(rn(12) == 0) { OP("clear"); buffer_clear(&b); }
        }
        break;
    }
    case 2: {       /* removing gives memory back; an emptied buffer holds none */
        int i;
        for(i = 0; i < 60; i++) {
            size_t size;
            n = rnd_size(60000);
            OP("append %llu", n);
            CHECK(buffer_append(&b, scratch, n) == 0, "append failed");
            check_slack(&b, buffer_size(&b), "append");
            size = buffer_size(&b);
            if(size > 0 && rn(3)) {
                size_t o = rn(size + 1);
                size_t r = rn(2) ? size - o : rn(size - o + 1);
                OP("remove off=%llu n=%llu (size %llu)", o, r, size);
                buffer_remove(&b, o, r);
                check_slack(&b, buffer_size(&b), "remove");
                EV("removals");
            }
            if(rn(4) == 0) {
                size_t blk;
                OP("shrink (size %llu)", buffer_size(&b));
                size = buffer_size(&b);
                buffer_shrink(&b);
                blk = mon_blk_size(buffer_data(&b));
                CHECK(blk <= size + size / 7 + 16, "shrink: %zu bytes of heap are held for %zu bytes", blk, size);
                EV("shrinks");
            }
            if(rn(4) == 0) {
                OP("clear");
                if(rn(2)) buffer_clear(&b);
                else buffer_remove(&b, 0, buffer_size(&b) + rn(2));
                CHECK(mon_heap.live == live0, "cleared buffer still holds heap memory");
                CHECK(buffer_size(&b) == 0, "size after clear");
                EV("clears");
            }
            EVAL(h3(n, buffer_size(&b), i));
        }
        break;
    }
    default: {      /* explicit capacity: exactly usable; no churn at steady state */
        int i;
        n = 1 + rnd_size(30000);
        OP("realloc %llu", n);
        CHECK(buffer_realloc(&b, n) == 0, "realloc failed");
        CHECK(mon_blk_size(buffer_data(&b)) >= n, "capacity is %zu after realloc(%zu)", mon_blk_size(buffer_data(&b)), n);
        a0 = mon_heap.n_requests;
        for(total = 0; total < n; ) {
            size_t c = 1 + rn(n - total);
            CHECK(buffer_append(&b, scratch, c) == 0, "append failed");
            total += c;
            CHECK(mon_heap.n_requests == a0, "heap used although capacity %zu was set (size %zu)", n, total);
        }
        /* push/pop of a small item around any size does not reallocate every time */
        CHECK(buffer_append(&b, scratch, rn(200)) == 0, "append");
        a0 = mon_heap.n_requests;
        for(i = 0; i < 256; i++) {
            CHECK(buffer_append(&b, scratch, 8) == 0, "append");
            buffer_remove(&b, buffer_size(&b) - 8, 8);
        }
        CHECK(mon_heap.n_requests - a0 <= 16, "%llu heap requests in 256 append/remove pairs at a steady size",
              (unsigned long long) (mon_heap.n_requests - a0));
        EV("steady-state runs");
        EVAL(h2(n, buffer_size(&b)));
        break;
    }
    }
    buffer_fini(&b);
}

/* ---- C38: allocation failures ---- */

static void
mode_fault(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    MODEL m;
    size_t max = (ep % 2) ? 3000 : 100;
    int op, nops = 150;
    memset(&m, 0, sizeof(m));

    for(op = 0; op < nops && mon_more(); op++) {
        int what = (int) rn(12);
        size_t n = rnd_size(max), off = pick_off(m.n), rem = rn(m.n - off + 1);
        int attempt;

        rnd_fill(scratch, n);
        /* The same operation, first with its k-th heap request failing. */
        for(attempt = 0; attempt < 2; attempt++) {
            int ret = 0;
            u64 fired;
            int fault = (attempt == 0);
            void* p = NULL;
            size_t sz = 0;

            OP("op %llu off=%llu n=%llu (size %llu) fault=%llu", what, off, n, m.n, fault);
            if(fault)
                mon_fault_arm(1 + rn(2), 1);
            switch(what) {
                case 0: case 1: ret = buffer_insert(&b, off, scratch, n); break;
                case 2: p = buffer_insert_raw(&b, off, n); ret = (p != NULL) ? 0 : -1; break;
                case 3: case 4: ret = buffer_append(&b, scratch, n); break;
                case 5: p = buffer_append_raw(&b, n); ret = (p != NULL) ? 0 : -1; off = m.n; break;
                case 6: ret = buffer_realloc(&b, n); break;
                case 7: ret = buffer_reserve(&b, n); break;
                case 8: buffer_shrink(&b); break;
                case 9: case 10: buffer_remove(&b, off, rem); break;
                case 11: ret = stack_push_int64((STACK*) &b, (int64_t) n); break;
            }
            fired = mon_fault_disarm();
            if(ret == 0) {
                switch(what) {
                    case 0: case 1: m_insert(&m, off, scratch, n); break;
                    case 2: case 5: memcpy(p, scratch, n); m_insert(&m, off, scratch, n); break;
                    case 3: case 4: m_insert(&m, m.n, scratch, n); break;
                    case 6: if(n < m.n) m.n = n; break;
                    case 9: case 10: m_remove(&m, off, rem); break;
                    case 11: { int64_t x = (int64_t) n; m_insert(&m, m.n, &x, 8); break; }
                }
            } else {
                CHECK(fired > 0, "operation %d failed although no allocation did", what);
                EV("operations failed on allocation failure");
            }
            if(fired) EV("faults injected");
            if(fired && ret == 0) EV("faults survived");
            verify(&b, &m, 1);
            (void) sz;
            EVAL(h4(what, n, m.n, h2(off, fired * 2 + (ret != 0))));
            if(ret == 0)
                break;
        }
    }
    buffer_fini(&b);
    m_free(&m);
}

static void
fault_array(void)
{
    int i, op;
    ARRAY_int32 a = ARRAY_int32_INITIALIZER;
    ARRAY_ptr ap = ARRAY_ptr_INITIALIZER;
    int32_t model[4000];
    size_t cnt = 0;
    size_t pcnt = 0;
    for(op = 0; op < 300 && mon_more() && cnt < 3900; op++) {
        size_t idx = pick_off(cnt);
        int32_t v = (int32_t) rnd();
        int ret, what = (int) rn(5);
        u64 fired;
        int fault = (int) rn(2);
        size_t n = 1;
        OP("array op=%llu idx=%llu (cnt %llu) fault=%llu", what, idx, cnt, fault);
        if(fault) mon_fault_arm(1, 1);
        switch(what) {
            case 0: ret = array_int32_insert(&a, idx, v); break;
            case 1: ret = array_int32_append(&a, v); idx = cnt; break;
            case 2: n = rn(20); ret = array_int32_append_n(&a, n); idx = cnt; break;
            case 3: n = rn(20); ret = array_int32_insert_n_raw(&a, idx, n); break;
            default: ret = array_int32_insert_raw(&a, idx); break;
        }
        if(array_ptr_append(&ap, &a) == 0) pcnt++;
        fired = mon_fault_disarm();
        CHECK(ret == 0 || fired, "array operation failed although no allocation did");
        if(ret == 0) {
            memmove(model + idx + n, model + idx, (cnt - idx) * sizeof(int32_t));
            for(i = 0; i < (int) n; i++) {
                model[idx + i] = v;
                array_int32_set(&a, idx + i, v);
            }
            cnt += n;
        }
        CHECK(array_int32_size(&a) == cnt, "array size %zu, expected %zu", array_int32_size(&a), cnt);
        CHECK(array_ptr_size(&ap) == pcnt, "ptr array size");
        if(cnt) CHECK(memcmp(array_int32_data(&a), model, cnt * sizeof(int32_t)) == 0, "array contents differ");
        EVAL(h4(what, cnt, idx, fired));
        if(fired) EV("faults injected");
    }
    array_int32_fini(&a);
    array_ptr_fini(&ap);
}

static void mode_fault2(u64 ep) { (void) ep; fault_array(); }

/* ---- C43: extreme sizes ---- */

static size_t
extreme(void)
{
    static const size_t base[] = { SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 4, SIZE_MAX / 8, SIZE_MAX / 3,
                                   SZ_BIT(63), SZ_BIT(62), SZ_BIT(61), (size_t) 1 << (MON_SZBITS - (MON_SZBITS == 32 ? 2 : 16)) };
    size_t x = base[rn(sizeof(base) / sizeof(base[0]))];
    switch(rn(4)) {
        case 0: return x;
        case 1: return x - rn(64);
        case 2: return x + ((x < SIZE_MAX - 64) ? rn(64) : 0);
        default: return x - rn(100000);
    }
}

static void
mode_extreme(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    MODEL m;
    int op;
    (void) ep;
    memset(&m, 0, sizeof(m));
    for(op = 0; op < 200 && mon_more(); op++) {
        int what = (int) rn(8);
        size_t n = extreme(), off = pick_off(m.n);
        switch(what) {
            case 0:
                OP("reserve %llx (size %llu)", n, m.n);
                CHECK(buffer_reserve(&b, n) != 0, "reserve(%zu) succeeded", n); break;
            case 1:
                OP("insert_raw off %llu n %llx (size %llu)", off, n, m.n);
                CHECK(buffer_insert_raw(&b, off, n) == NULL, "insert_raw(%zu) succeeded", n); break;
            case 2:
                OP("append_raw n %llx (size %llu)", n, m.n);
                CHECK(buffer_append_raw(&b, n) == NULL, "append_raw(%zu) succeeded", n); break;
            case 3:
                OP("realloc %llx (size %llu)", n, m.n);
                CHECK(buffer_realloc(&b, n) != 0, "realloc(%zu) succeeded", n); break;
            case 4:
                OP("remove off %llu n %llx (size %llu)", off, n, m.n);
                buffer_remove(&b, off, n); m_remove(&m, off, n); break;
            case 5:
                OP("stack_push_raw n %llx (size %llu)", n, m.n);
                CHECK(stack_push_raw((STACK*) &b, n) == NULL, "push_raw(%zu) succeeded", n);
                CHECK(stack_reserve((STACK*) &b, n) != 0, "stack_reserve(%zu) succeeded", n); break;
            default:
                n = rnd_size(200);
                rnd_fill(scratch, n);
                OP("insert off %llu n %llu", off, n);
                CHECK(buffer_insert(&b, off, scratch, n) == 0, "insert"); m_insert(&m, off, scratch, n); break;
        }
        verify(&b, &m, 1);
        EV("operations with extreme sizes");
        EVAL(h4(what, n, off, m.n));
    }
    buffer_fini(&b);
    m_free(&m);
    {
        /* Element counts whose byte size overflows. */
        #define XARRAY(NAME, T)                                               \
        {                                                                     \
            ARRAY_##NAME a = ARRAY_##NAME##_INITIALIZER;                      \
            int fill = (int) rn(40), j;                                       \
            for(j = 0; j < fill; j++) CHECK(array_##NAME##_append(&a, (T) (uintptr_t) j) == 0, "append"); \
            for(op = 0; op < 12; op++) {                                      \
                size_t n = extreme();                                         \
                size_t q = SZ_BIT(61);                                        \
                if(rn(2)) n = (SIZE_MAX / sizeof(T)) + rn(4) + rn(4) * (q / sizeof(T)); \
                if(n < ((size_t) 1 << (MON_SZBITS == 32 ? 29 : 40))) continue; \
                OP(#NAME " append_n/insert_n_raw n=%llx", n);                 \
                CHECK(array_##NAME##_append_n(&a, n) != 0, "append_n(%zu) succeeded", n); \
                CHECK(array_##NAME##_insert_n_raw(&a, rn(fill + 1), n) != 0, "insert_n_raw(%zu) succeeded", n); \
                CHECK(array_##NAME##_size(&a) == (size_t) fill, "array size changed"); \
                for(j = 0; j < fill; j++) CHECK(array_##NAME##_get(&a, j) == (T) (uintptr_t) j, "contents changed"); \
                EV("array operations with extreme counts");                   \
                EVAL(h3(sizeof(T), n, fill));                                 \
            }                                                                 \
            array_##NAME##_fini(&a);                                          \
        }
        XARRAY(int8, int8_t) XARRAY(uint8, uint8_t) XARRAY(int16, int16_t) XARRAY(uint16, uint16_t)
        XARRAY(int32, int32_t) XARRAY(uint32, uint32_t) XARRAY(int64, int64_t) XARRAY(uint64, uint64_t) XARRAY(ptr, void*)
    }
}

/* C01/C43: contents beyond 4 GiB (mostly untouched pages). */
static void
mode_huge(u64 ep)
{
    BUFFER b = BUFFER_INITIALIZER;
    size_t G = (size_t) 1 << 30;
    size_t base = (ep % 2) ? 4 * G + 12345 : 2 * G + 100 + rn(1000);
    u8* p;
    size_t i;
    u8 tail[300];

    OP("append_raw %llu", base);
    p = buffer_append_raw(&b, base);
    CHECK(p != NULL && buffer_size(&b) == base, "append_raw");
    for(i = 0; i < 300; i++) tail[i] = p[base - 300 + i] = (u8) (i * 7 + 1);
    p[0] = 11; p[123] = 12;
    OP("append 1000");
    rnd_fill(scratch, 1000);
    CHECK(buffer_append(&b, scratch, 1000) == 0, "append");
    CHECK(buffer_size(&b) == base + 1000, "size %zu", buffer_size(&b));
    p = buffer_data(&b);
    CHECK(memcmp(p + base, scratch, 1000) == 0 && memcmp(p + base - 300, tail, 300) == 0 && p[0] == 11 && p[123] == 12, "contents");
    OP("insert in the middle, near the end");
    CHECK(buffer_insert(&b, base - 100, "hello", 5) == 0, "insert");
    p = buffer_data(&b);
    CHECK(buffer_size(&b) == base + 1005, "size %zu", buffer_size(&b));
    CHECK(memcmp(p + base - 300, tail, 200) == 0 && memcmp(p + base - 100, "hello", 5) == 0 &&
          memcmp(p + base - 95, tail + 200, 100) == 0 && memcmp(p + base + 5, scratch, 1000) == 0, "contents after insert");
    CHECK(buffer_data_at(&b, base) == p + base, "data_at");
    OP("remove near the end");
    buffer_remove(&b, base - 100, 5);
    p = buffer_data(&b);
    CHECK(buffer_size(&b) == base + 1000, "size %zu", buffer_size(&b));
    CHECK(memcmp(p + base - 300, tail, 300) == 0 && memcmp(p + base, scratch, 1000) == 0, "contents after remove");
    OP("reserve %llu", G);
    CHECK(buffer_reserve(&b, G) == 0, "reserve");
    CHECK(mon_blk_size(buffer_data(&b)) >= base + 1000 + G, "reserved too little");
    OP("shrink");
    buffer_shrink(&b);
    p = buffer_data(&b);
    CHECK(memcmp(p + base - 300, tail, 300) == 0 && memcmp(p + base, scratch, 1000) == 0 && p[0] == 11, "contents after shrink");
    OP("cut");
    buffer_remove(&b, 200, base);
    p = buffer_data(&b);
    CHECK(buffer_size(&b) == 1000 && p[0] == 11 && p[123] == 12 && memcmp(p + 200, scratch + 200, 800) == 0, "contents after a big cut");
    buffer_fini(&b);
    buffer_init(&b);
    if(ep % 2 == 0) {
        /* Shrinking to something still big. */
        size_t rest = 2 * G + 100 + rn(1000);
        OP("append_raw %llu, cut to %llu", 9 * G, rest);
        mon_heap_limit = 20 * G;
        p = buffer_append_raw(&b, 9 * G);
        if(p == NULL) {
            /* No memory is no violation. */
            EV("huge buffers refused");
            EVAL_TRIVIAL();
            return;
        }
        CHECK(buffer_size(&b) == 9 * G, "append_raw");
        p[0] = 21; p[rest - 1] = 22;
        buffer_remove(&b, rest, 9 * G - rest);
        CHECK(buffer_size(&b) == rest, "size %zu after a cut to %zu", buffer_size(&b), rest);
        p = buffer_data(&b);
        CHECK(mon_blk_size(p) >= rest, "%zu bytes held in a block of %zu bytes", rest, mon_blk_size(p));
        CHECK(p[0] == 21 && p[rest - 1] == 22, "contents after a cut");
        EV("huge buffers cut");
    }
    EV("buffers beyond 2 GiB");
    EVAL(h2(base, ep));
    buffer_fini(&b);
}

const struct mon_mode mon_modes[] = {
    { "seq", mode_seq },
    { "sweep", mode_sweep },
    { "stack", mode_stack },
    { "stackdeep", mode_stackdeep },
    { "large", mode_large },
    { "array", mode_array },
    { "capacity", mode_capacity },
    { "fault", mode_fault },
    { "fault2", mode_fault2 },
    { "extreme", mode_extreme },
    { "huge", mode_huge },
    { NULL, NULL }
};
