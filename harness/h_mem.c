/* Monitors of mem/memchunk.[hc] and mem/malloca.h: C30, C31, C32, C41, C43. */
#include "mon.h"
#include "memchunk.h"
#include "malloca.h"

/* ---------------------------------------------------------------------- */
/* Chunk allocator. */

#define MAX_PIECES  3000

static struct piece { u8* p; size_t n; u8 tag; } pc[MAX_PIECES];
static int n_pc;

static u8 pat(u8 tag, size_t i) { return (u8) (tag + i * 7 + (i >> 8)); }

static void
piece_fill(struct piece* q)
{
    size_t i;
    for(i = 0; i < q->n; i++)
        q->p[i] = pat(q->tag, i);
}

static void
piece_verify(const struct piece* q)
{
    size_t i;
    for(i = 0; i < q->n; i++)
        CHECK(q->p[i] == pat(q->tag, i), "byte %zu of a block of %zu bytes (allocated as no. %d) changed",
              i, q->n, (int) (q - pc));
}

static int
cmp_piece(const void* a, const void* b)
{
    const struct piece* x = a;
    const struct piece* y = b;
    return (x->p > y->p) - (x->p < y->p);
}

static int
cmp_blk(const void* a, const void* b)
{
    const struct mon_blk* x = a;
    const struct mon_blk* y = b;
    return ((u8*) x->p > (u8*) y->p) - ((u8*) x->p < (u8*) y->p);
}

/* All pieces: content intact, pairwise disjoint, within live heap blocks. */
static void
pieces_verify_all(void)
{
    static struct piece s[MAX_PIECES];
    static struct mon_blk hb[MAX_PIECES + 16];
    size_t nhb = 0, i, j = 0;
    int k, m = 0;

    for(k = 0; k < n_pc; k++) {
        piece_verify(&pc[k]);
        if(pc[k].n > 0)
            s[m++] = pc[k];
    }
    qsort(s, (size_t) m, sizeof(s[0]), cmp_piece);
    for(k = 1; k < m; k++)
        CHECK(s[k - 1].p + s[k - 1].n <= s[k].p, "blocks of %zu and %zu bytes overlap", s[k - 1].n, s[k].n);
    for(i = 0; i < mon_heap.cap; i++) {
        if(mon_heap.tab[i].p != NULL && mon_heap.tab[i].p != MON_TOMB) {
            if(nhb >= MAX_PIECES + 16)
                mon_die("too many heap blocks");
            hb[nhb++] = mon_heap.tab[i];
        }
    }
    qsort(hb, nhb, sizeof(hb[0]), cmp_blk);
    for(k = 0; k < m; k++) {
        while(j < nhb && (u8*) hb[j].p + hb[j].size <= s[k].p)
            j++;
        CHECK(j < nhb && s[k].p >= (u8*) hb[j].p && s[k].p + s[k].n <= (u8*) hb[j].p + hb[j].size,
              "a block of %zu bytes is not within allocated memory", s[k].n);
    }
    EV("full verifications of all blocks");
}

static size_t
rnd_block_size(void)
{
    if(chance(1, 60)) return ((size_t) 1 << rr(14, 18)) + rn(5) - 2;
    switch(rn(8)) {
        case 0: return rr(1, 8);
        case 1: return 0;
        case 2: return (size_t) 1 << rr(3, 13);
        case 3: return ((size_t) 1 << rr(3, 13)) + rn(5) - 2;
        case 4: return MEMCHUNK_DEFAULT_BLOCK_SIZE;
        default: return rr(1, 5000);
    }
}

/* Sizes relative to the block size: everything around its quarter, its whole
 * and what remains of it. */
static size_t
rnd_piece_size(size_t bs, size_t used)
{
    size_t s;
    switch(rn(12)) {
        case 0: return 0;
        case 1: return rn(3);
        case 2: s = bs / 4 + rn(5) - 2; break;
        case 3: s = bs + rn(20) - 10; break;
        case 4: s = bs - used % bs + rn(3) - 1; break;
        case 5: s = rn(2 * bs + 1); break;
        case 6: s = bs / 2 + rn(3) - 1; break;
        default: return rn(bs / 4 + 2) % 700;
    }
    if(s > 4 * bs + 64)     /* wrapped */
        s = rn(bs + 1);
    return s;
}

/* One life of an allocator. */
static void
chunk_life(MEMCHUNK* c, size_t bs, int count, int faults)
{
    size_t total = 0, used = 0, live0 = mon_heap.live, bytes0 = mon_heap.live_bytes;
    u64 n_malloc0 = mon_heap.n_malloc;
    size_t n_big = 0, blocks, held;
    int i, stop = 0;

    n_pc = 0;
    for(i = 0; i < count && mon_more(); i++) {
        struct piece* q = &pc[n_pc];
        size_t live = mon_heap.live;
        q->n = rnd_piece_size(bs, used);
        q->tag = (u8) rnd();
        OP("memchunk_alloc %llu (block size %llu, no. %llu)", q->n, bs, (u64) n_pc);
        if(faults && rn(2) == 0) {
            mon_fault_arm(1, (int) rn(2));
            q->p = memchunk_alloc(c, q->n);
            if(mon_fault_disarm() > 0) {
                CHECK(q->p == NULL, "memchunk_alloc() returned memory although malloc() failed");
                CHECK(mon_heap.live == live, "memory was lost or released by a failed allocation");
                EV("failed chunk allocations");
                EVAL(h4(10, bs, q->n, (u64) n_pc));
                if(rn(4) == 0)
                    pieces_verify_all();
                if(rn(3) == 0) {    /* the same again, now it works */
                    q->p = memchunk_alloc(c, q->n);
                    CHECK(q->p != NULL, "memchunk_alloc(%zu) fails after an earlier failure", q->n);
                } else {
                    continue;
                }
            }
        } else {
            q->p = memchunk_alloc(c, q->n);
        }
        CHECK(q->p != NULL, "memchunk_alloc(%zu) failed", q->n);
        piece_fill(q);
        total += q->n;
        used += q->n;
        if(q->n > bs / 4)
            n_big++;
        if(mon_heap.live != live)
            EV("chunks and dedicated blocks requested");
        n_pc++;
        EV("chunk allocations");
        EVAL(h4(11, bs, q->n, used % bs));
        if(rn(8) == 0)
            piece_verify(&pc[rn((u64) n_pc)]);
        if(rn(40) == 0)
            pieces_verify_all();
        blocks = mon_heap.live - live0;
        held = mon_heap.live_bytes - bytes0;
        CHECK(blocks <= n_big + total / (bs / 2 + 1) + 2,
              "%zu heap blocks for %d allocations (%zu bytes in total, %zu bigger than a quarter of the block size %zu)",
              blocks, n_pc, total, n_big, bs);
        CHECK(held <= 2 * total + 2 * bs + 64 * blocks, "%zu bytes held for %zu bytes allocated (block size %zu)", held, total, bs);
        (void) stop;
    }
    CHECK(mon_heap.n_malloc - n_malloc0 == mon_heap.live - live0, "heap blocks were released before memchunk_fini()");
    pieces_verify_all();
    OP("memchunk_fini");
    memchunk_fini(c);
    CHECK(mon_heap.live == live0 && mon_heap.live_bytes == bytes0, "memchunk_fini() left %zu block(s)", mon_heap.live - live0);
    EV("allocators torn down");
}

static void
chunk_mode(int faults, int max_count)
{
    MEMCHUNK c;
    int lives = (int) rr(1, 3), k;
    size_t bs = rnd_block_size(), eff;
    eff = (bs == 0) ? MEMCHUNK_DEFAULT_BLOCK_SIZE : bs;
    memset(&c, 0x5a, sizeof(c));
    if(rn(2)) {
        memchunk_init(&c, bs);
    } else {
        MEMCHUNK c2 = MEMCHUNK_INITIALIZER(bs);
        c = c2;
    }
    EVMAX("block size", eff);
    for(k = 0; k < lives; k++)
        chunk_life(&c, eff, (int) rn((u64) max_count), faults);
    memchunk_fini(&c);      /* nothing to do */
}

static void mode_chunk(u64 ep) { (void) ep; chunk_mode(0, rn(4) ? 120 : 600); }

/* C31: homogeneous streams of small pieces. */
static void
mode_batch(u64 ep)
{
    MEMCHUNK c;
    size_t bs, unit, total = 0, live0 = mon_heap.live, blocks;
    int n, i, k;

    if(rn(3) == 0) {
        chunk_mode(0, 300);
        return;
    }
    for(k = 0; k < 2; k++) {
        bs = (rn(5) == 0) ? 0 : rr(16, 8000);
        memchunk_init(&c, bs);
        if(bs == 0) bs = MEMCHUNK_DEFAULT_BLOCK_SIZE;
        unit = rr(1, bs / 4);
        n = (int) rr(1, 2500);
        total = 0;
        for(i = 0; i < n; i++) {
            size_t s = rn(2) ? unit : rr(1, unit);
            u8* p = memchunk_alloc(&c, s);
            CHECK(p != NULL, "memchunk_alloc(%zu) failed", s);
            p[0] = 1; p[s - 1] = 2;
            total += s;
        }
        OP("%llu pieces up to %llu in blocks of %llu", (u64) n, unit, bs);
        blocks = mon_heap.live - live0;
        CHECK(blocks <= total / (bs - bs / 4) + 1, "%zu heap blocks for %zu bytes in pieces up to %zu (block size %zu)", blocks, total, unit, bs);
        EVN("pieces served", (u64) n);
        EVN("heap blocks requested for them", blocks);
        memchunk_fini(&c);
        CHECK(mon_heap.live == live0, "memchunk_fini() left %zu block(s)", mon_heap.live - live0);
        EVAL(h4(12, bs, unit, (u64) n));
    }
    (void) ep;
}

/* Blocks and pieces of gigabytes, of which only the ends are touched. */
static void
mode_chunkhuge(u64 ep)
{
    MEMCHUNK c;
    size_t G = (size_t) 1 << 30, bs = (ep % 2) ? 5 * G + 16 : 9 * G / 2, live0 = mon_heap.live;
    int i, k;

    n_pc = 0;
    memchunk_init(&c, bs);
    for(i = 0; i < 14; i++) {
        struct piece* q = &pc[n_pc];
        q->n = (i % 5 == 4) ? 2 * G + rn(G) : (i % 3 == 0) ? 1 + rn(5000) : rn(G);
        if(q->n == 0) q->n = 1;
        q->tag = (u8) (i * 17 + 3);
        OP("memchunk_alloc %llu (block size %llu, no. %llu)", q->n, bs, (u64) n_pc);
        q->p = memchunk_alloc(&c, q->n);
        CHECK(q->p != NULL, "memchunk_alloc(%zu) failed", q->n);
        q->p[0] = q->tag;
        q->p[q->n / 2] = q->tag;
        q->p[q->n - 1] = q->tag;
        n_pc++;
        for(k = 0; k < n_pc; k++) {
            struct piece* r = &pc[k];
            CHECK(r->p[0] == r->tag && r->p[r->n / 2] == r->tag && r->p[r->n - 1] == r->tag,
                  "the block no. %d of %zu bytes changed", k, r->n);
            CHECK(k == n_pc - 1 || r->p + r->n <= q->p || q->p + q->n <= r->p, "blocks of %zu and %zu bytes overlap", r->n, q->n);
        }
        EVAL(h4(13, bs, q->n, (u64) i));
        EVMAX("block size", bs);
        {
            size_t j;
            for(j = 0; j < mon_heap.cap; j++) {
                u8* b = mon_heap.tab[j].p;
                if(mon_heap.tab[j].p == NULL || mon_heap.tab[j].p == MON_TOMB) continue;
                if(b <= q->p && q->p + q->n <= b + mon_heap.tab[j].size) break;
            }
            CHECK(j < mon_heap.cap, "a block of %zu bytes is not within allocated memory", q->n);
        }
    }
    memchunk_fini(&c);
    CHECK(mon_heap.live == live0, "memchunk_fini() left blocks");
    EV("allocators torn down");
}

static void mode_fault(u64 ep);

static void
mode_chunkextreme(u64 ep)
{
    MEMCHUNK c;
    size_t bs = rnd_block_size(), eff;
    int i;
    (void) ep;

    n_pc = 0;
    memchunk_init(&c, bs);
    eff = (bs == 0) ? MEMCHUNK_DEFAULT_BLOCK_SIZE : bs;
    for(i = 0; i < 40; i++) {
        size_t live = mon_heap.live, bytes = mon_heap.live_bytes;
        if(rn(2) == 0) {
            struct piece* q = &pc[n_pc];
            q->n = rn(eff + 10);
            q->tag = (u8) rnd();
            q->p = memchunk_alloc(&c, q->n);
            CHECK(q->p != NULL, "memchunk_alloc(%zu) failed", q->n);
            piece_fill(q);
            n_pc++;
        } else {
            size_t s = (rn(3) == 0) ? SIZE_MAX - rn(40) : (rn(2)) ? SIZE_MAX - rn(2 * eff + 40) : ((size_t) 1 << rr(MON_SZBITS - 28 + (MON_SZBITS == 32 ? 25 : 0), MON_SZBITS - 1)) + rn(3) - 1;
            void* p;
            OP("memchunk_alloc %llu (block size %llu)", s, eff);
            p = memchunk_alloc(&c, s);
            CHECK(p == NULL, "memchunk_alloc(%zu) returned memory", s);
            CHECK(mon_heap.live == live && mon_heap.live_bytes == bytes, "a failed allocation changed the heap");
            EV("impossible chunk allocations refused");
            EVAL(h3(13, s, eff));
        }
    }
    pieces_verify_all();
    memchunk_fini(&c);

    /* A huge block size. */
    for(i = 0; i < 10; i++) {
        size_t b = (rn(2)) ? SIZE_MAX - rn(40) : ((size_t) 1 << rr(MON_SZBITS - 24 + (MON_SZBITS == 32 ? 21 : 0), MON_SZBITS - 1)) - rn(3);
        int k;
        if(rn(2)) {
            memchunk_init(&c, b);
        } else {
            MEMCHUNK c2 = MEMCHUNK_INITIALIZER(b);
            c = c2;
        }
        for(k = 0; k < 4; k++) {
            size_t s = rn(100);
            u8* p;
            OP("memchunk_alloc %llu (block size %llu)", s, b);
            p = memchunk_alloc(&c, s);
            if(p != NULL)
                memset(p, 0x11, s);     /* ASan and the heap check judge it */
            EVAL(h3(14, s, b));
        }
        memchunk_fini(&c);
    }
}

/* ---------------------------------------------------------------------- */
/* MALLOCA / FREEA. */

static int
expect_heap(size_t n, size_t threshold)
{
    /* -1: either is fine. */
    if(n >= threshold) return 1;
    if(threshold - n > 2 * sizeof(void*)) return 0;
    return -1;
}

static void
verify_block(u8* p, size_t n, u8 tag)
{
    size_t i;
    for(i = 0; i < n; i++)
        CHECK(p[i] == pat(tag, i), "byte %zu of %zu changed", i, n);
}

static void
fill_block(u8* p, size_t n, u8 tag)
{
    size_t i;
    for(i = 0; i < n; i++)
        p[i] = pat(tag, i);
}

/* Where did the block come from? */
static void
judge(const void* p, size_t n, size_t threshold, u64 reqs, size_t live, const char* what)
{
    int heap = mon_heap.n_requests != reqs;
    int e = expect_heap(n, threshold);
    CHECK(p != NULL, "%s: NULL for %zu bytes", what, n);
    CHECK(mon_heap.live == live + (size_t) heap, "%s: heap blocks", what);
    if(e >= 0)
        CHECK(heap == e, "%s: %zu bytes with threshold %zu were taken from the %s", what, n, threshold, heap ? "heap" : "stack");
    CHECK(((uintptr_t) p & (sizeof(void*) - 1)) == 0, "%s: misaligned", what);
    if(heap)
        EV("blocks from the heap");
    else
        EV("blocks from the stack");
    EVAL(h3(20, n, threshold));
}

static __attribute__((noinline)) void
basic(size_t n, size_t threshold)
{
    u64 reqs = mon_heap.n_requests;
    size_t live = mon_heap.live;
    u8 guard1[16], guard2[16];
    u8* p;
    u8 tag = (u8) rnd();

    memset(guard1, 0x31, sizeof(guard1));
    OP("MALLOCA_ %llu threshold %llu", n, threshold);
    p = (u8*) MALLOCA_(n, threshold);
    judge(p, n, threshold, reqs, live, "MALLOCA_");
    memset(guard2, 0x32, sizeof(guard2));
    fill_block(p, n, tag);
    verify_block(p, n, tag);
    CHECK(guard1[rn(16)] == 0x31 && guard2[rn(16)] == 0x32, "neighbouring variables changed");
    FREEA(p);
    CHECK(mon_heap.live == live, "FREEA() did not release the memory");
    EV("blocks released");
}

/* The default threshold, several blocks alive at once, released in any order. */
static __attribute__((noinline)) void
several(void)
{
    u8* b[12];
    size_t n[12], live0 = mon_heap.live;
    u8 tag[12];
    int i, k = (int) rr(1, 12), done = 0;
    for(i = 0; i < k; i++) {
        u64 reqs = mon_heap.n_requests;
        size_t live = mon_heap.live;
        n[i] = (rn(3) == 0) ? MALLOCA_THRESHOLD - 20 + rn(40) : rn(3000);
        tag[i] = (u8) rnd();
        OP("MALLOCA %llu", n[i]);
        b[i] = (u8*) MALLOCA(n[i]);
        judge(b[i], n[i], MALLOCA_THRESHOLD, reqs, live, "MALLOCA");
        fill_block(b[i], n[i], tag[i]);
    }
    while(done < k) {
        i = (int) rn((u64) k);
        if(b[i] == NULL) continue;
        verify_block(b[i], n[i], tag[i]);
        FREEA(b[i]);
        b[i] = NULL;
        FREEA(b[i]);
        done++;
    }
    CHECK(mon_heap.live == live0, "FREEA() did not release the memory");
    EV("several blocks at once");
}

/* Operator expressions as arguments, and calls inside larger expressions. */
static __attribute__((noinline)) void
expressions(void)
{
    size_t n = rn(2500), m = rn(300), t = rr(16, 3000), live0 = mon_heap.live, live, e;
    int in_ = (int) rn(1500);
    unsigned short us = (unsigned short) rn(2000);
    unsigned char uc = (unsigned char) rn(256);
    int flag = (int) rn(2);
    u64 reqs;
    u8 tag = (u8) rnd();
    u8* p;

#define TRY(expr_size, expr_thr, alloc)                                       \
    do {                                                                      \
        e = (size_t) (expr_size);                                             \
        reqs = mon_heap.n_requests;                                           \
        live = mon_heap.live;                                                 \
        OP("expression of size %llu, line %llu", e, __LINE__);                \
        p = (u8*) alloc;                                                      \
        judge(p, e, (size_t) (expr_thr), reqs, live, #alloc);                 \
        fill_block(p, e, tag);                                                \
        verify_block(p, e, tag);                                              \
        FREEA(p);                                                             \
        CHECK(mon_heap.live == live0, "FREEA() did not release the memory");  \
        EV("operator expressions as arguments");                              \
    } while(0)

    TRY(n + m, 1024, MALLOCA(n + m));
    TRY(n | m, 1024, MALLOCA(n | m));
    TRY(n & m, 1024, MALLOCA(n & m));
    TRY(n ^ m, 1024, MALLOCA(n ^ m));
    TRY(n >> 1, 1024, MALLOCA(n >> 1));
    TRY(n << 1, 1024, MALLOCA(n << 1));
    TRY(flag ? n : m, 1024, MALLOCA(flag ? n : m));
    TRY(n == m, 1024, MALLOCA(n == m));
    TRY(n < m, 1024, MALLOCA(n < m));
    TRY(n && m, 1024, MALLOCA(n && m));
    TRY(n % (m + 1), 1024, MALLOCA(n % (m + 1)));
    TRY(2 * n + 1, 1024, MALLOCA(2 * n + 1));
    TRY(in_, 1024, MALLOCA(in_));
    TRY(in_ + 1, 1024, MALLOCA(in_ + 1));
    TRY(us, 1024, MALLOCA(us));
    TRY(uc, 1024, MALLOCA(uc));
    TRY(us | uc, 1024, MALLOCA(us | uc));
    TRY(sizeof(int) * m, 1024, MALLOCA(sizeof(int) * m));
    TRY(n, 1024, MALLOCA_(n, 1024));
    TRY(n + m, t + m, MALLOCA_(n + m, t + m));
    TRY(n | 1, t | 64, MALLOCA_(n | 1, t | 64));
    TRY(n, flag ? t : 2 * t, MALLOCA_(n, flag ? t : 2 * t));
    TRY(flag ? m : n, t >> 1, MALLOCA_(flag ? m : n, t >> 1));
    TRY(n & 0xff, t & 0xfff, MALLOCA_(n & 0xff, t & 0xfff));
    TRY(n, (t == m) + 100, MALLOCA_(n, (t == m) + 100));
    TRY(n, n < m, MALLOCA_(n, n < m));
    TRY(n, t ^ m, MALLOCA_(n, t ^ m));

    /* Inside larger expressions. */
    reqs = mon_heap.n_requests;
    live = mon_heap.live;
    p = flag ? (u8*) MALLOCA(n) : (u8*) MALLOCA(m);
    judge(p, flag ? n : m, 1024, reqs, live, "conditional MALLOCA");
    fill_block(p, flag ? n : m, tag);
    verify_block(p, flag ? n : m, tag);
    if(flag)
        FREEA(p);
    else
        FREEA(p);
    CHECK(mon_heap.live == live0, "FREEA() did not release the memory");
    CHECK(MALLOCA_(10, 100) != NULL, "MALLOCA in a comparison");
    CHECK(!(MALLOCA_(10, 100) == NULL), "MALLOCA in a comparison");
}

/* Whatever the caller's variables are called. */
static __attribute__((noinline)) void
names(void)
{
    size_t live0 = mon_heap.live;
    size_t size = rn(2500), threshold = rr(1, 2500);
    int k;
    for(k = 0; k < 2; k++) {
        size = k ? rn(2500) : (size_t) rn(100);
        { u8* x = (u8*) MALLOCA_(size, threshold); fill_block(x, size, 3); verify_block(x, size, 3); FREEA(x); }
        CHECK(mon_heap.live == live0, "x");
        { u8* ptr = (u8*) MALLOCA_(size, threshold); fill_block(ptr, size, 4); verify_block(ptr, size, 4); FREEA(ptr); }
        CHECK(mon_heap.live == live0, "ptr");
        { u8* mark = (u8*) MALLOCA_(size, threshold); fill_block(mark, size, 5); verify_block(mark, size, 5); FREEA(mark); }
        CHECK(mon_heap.live == live0, "mark");
        { u8* p = (u8*) MALLOCA_(size, threshold); fill_block(p, size, 6); verify_block(p, size, 6); FREEA(p); }
        CHECK(mon_heap.live == live0, "p");
        { size_t x = size, ptr = threshold; u8* q = (u8*) MALLOCA_(x, ptr); fill_block(q, x, 7); verify_block(q, x, 7); FREEA(q); }
        CHECK(mon_heap.live == live0, "q");
        { struct { u8* mem; } mark = { NULL }; struct { void* mem; }* x = (void*) &mark; x->mem = MALLOCA_(size, threshold);
          fill_block(mark.mem, size, 8); FREEA(x->mem); }
        CHECK(mon_heap.live == live0, "x->mem");
        { u8* tab[2]; int i = 0; tab[0] = (u8*) MALLOCA_(size, threshold); tab[1] = NULL; fill_block(tab[0], size, 9); FREEA(tab[i + 0]); FREEA(tab[i + 1]); }
        CHECK(mon_heap.live == live0, "tab[i]");
        { u8* a = (u8*) MALLOCA_(size, threshold); u8* b = NULL; fill_block(a, size, 9); FREEA(k < 2 ? a : b); FREEA(k >= 2 ? a : b); }
        CHECK(mon_heap.live == live0, "conditional");
        { u8* a = (u8*) MALLOCA_(size + 1, threshold); u8* end = a + size; fill_block(a, size + 1, 9); FREEA(end - size); }
        CHECK(mon_heap.live == live0, "difference");
        { void* i = MALLOCA_(size, threshold); const void* c; fill_block(i, size, 10); c = i; FREEA((void*) c); }
        CHECK(mon_heap.live == live0, "cast");
    }
    EV("caller's variable names");
}

static __attribute__((noinline)) void
recurse(int depth)
{
    size_t n = rn(1200), live = mon_heap.live;
    u8 tag = (u8) rnd();
    u8* p = (u8*) MALLOCA(n);
    CHECK(p != NULL, "MALLOCA(%zu)", n);
    fill_block(p, n, tag);
    if(depth > 0)
        recurse(depth - 1);
    verify_block(p, n, tag);
    FREEA(p);
    CHECK(mon_heap.live == live, "FREEA() did not release the memory");
}

static void
mode_malloca(u64 ep)
{
    int i;
    (void) ep;
    for(i = 0; i < 30 && mon_more(); i++) {
        size_t t, n;
        switch(rn(6)) {
            case 0: t = rn(40); break;
            case 1: t = MALLOCA_THRESHOLD; break;
            case 2: t = (size_t) 1 << rn(15); break;
            case 3: t = 0; break;
            default: t = rn(6000); break;
        }
        switch(rn(5)) {
            case 0: n = t - 10 + rn(20); break;
            case 1: n = rn(10); break;
            case 2: n = t; break;
            default: n = rn(2 * t + 100); break;
        }
        if(n > 100000) n = rn(20);
        basic(n, t);
    }
    several();
    expressions();
    names();
    recurse((int) rn(12));
    /* A threshold no size reaches. */
    basic(rn(20000), SIZE_MAX - rn(10));
    basic(rn(20000), (size_t) 1 << rr(20, MON_SZBITS - 1));
}

static void
mode_mallocaextreme(u64 ep)
{
    int i;
    (void) ep;
    for(i = 0; i < 40; i++) {
        size_t n = (rn(3) == 0) ? SIZE_MAX - rn(40) : (rn(2)) ? SIZE_MAX - rn(2000) : ((size_t) 1 << rr(MON_SZBITS - 28 + (MON_SZBITS == 32 ? 25 : 0), MON_SZBITS - 1)) + rn(3) - 1;
        size_t t = (rn(2)) ? rn(40) : rn(100000), live = mon_heap.live;
        void* p;
        OP("MALLOCA_ %llu threshold %llu", n, t);
        p = MALLOCA_(n, t);
        CHECK(p == NULL, "MALLOCA_(%zu, %zu) returned memory", n, t);
        FREEA(p);
        p = MALLOCA(n);
        CHECK(p == NULL, "MALLOCA(%zu) returned memory", n);
        FREEA(p);
        CHECK(mon_heap.live == live, "heap blocks");
        EV("impossible MALLOCA requests refused");
        EVAL(h3(21, n, t));
    }
}

static __attribute__((noinline)) void
malloca_fault(void)
{
    size_t n = rn(4000), t = rn(3000), live = mon_heap.live;
    void* p;
    OP("MALLOCA_ %llu threshold %llu, malloc fails", n, t);
    mon_fault_arm(1, 1);
    p = MALLOCA_(n, t);
    if(mon_fault_disarm() > 0) {
        CHECK(p == NULL, "MALLOCA_(%zu, %zu) returned memory although malloc() failed", n, t);
        EV("failed MALLOCA requests");
    } else {
        CHECK(p != NULL, "MALLOCA_(%zu, %zu) failed although no allocation did", n, t);
        memset(p, 1, n);
    }
    FREEA(p);
    CHECK(mon_heap.live == live, "heap blocks");
    EVAL(h3(22, n, t));
}

static void
mode_fault(u64 ep)
{
    int i;
    (void) ep;
    chunk_mode(1, 100);
    for(i = 0; i < 8; i++)
        malloca_fault();
}

const struct mon_mode mon_modes[] = {
    { "chunk", mode_chunk },
    { "batch", mode_batch },
    { "malloca", mode_malloca },
    { "fault", mode_fault },
    { "chunkhuge", mode_chunkhuge },
    { "chunkextreme", mode_chunkextreme },
    { "mallocaextreme", mode_mallocaextreme },
    { NULL, NULL }
};
