/* Monitors of hash/crc32.[hc] and hash/fnv1a.[hc]: C28, C29. */
#include "mon.h"
#include "crc32.h"
#include "fnv1a.h"

/* ---------------------------------------------------------------------- */
/* Definitions, bit by bit. */

static u32
ref_crc_update(u32 reg, u8 byte)
{
    int k;
    for(k = 0; k < 8; k++) {
        u32 bit = (reg ^ (u32) (byte >> k)) & 1u;
        reg >>= 1;
        if(bit)
            reg ^= 0xedb88320u;
    }
    return reg;
}

static u32
ref_crc(const u8* p, size_t n)
{
    u32 reg = 0xffffffffu;
    size_t i;
    for(i = 0; i < n; i++)
        reg = ref_crc_update(reg, p[i]);
    return ~reg;
}

static u32
ref_fnv32(u32 h, const u8* p, size_t n)
{
    size_t i;
    for(i = 0; i < n; i++) {
        u64 x = (u64) (h ^ (u32) p[i]);
        /* 2^24 + 2^8 + 0x93 */
        h = (u32) ((x << 24) + (x << 8) + x * 0x93u);
    }
    return h;
}

static u64
ref_fnv64(u64 h, const u8* p, size_t n)
{
    size_t i;
    for(i = 0; i < n; i++) {
        u64 x = h ^ (u64) p[i];
        /* 2^40 + 2^8 + 0xb3 */
        h = (x << 40) + (x << 8) + x * 0xb3u;
    }
    return h;
}

/* ---------------------------------------------------------------------- */

static void
fill_kind(u8* p, size_t n)
{
    size_t i;
    switch(rn(6)) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 2: for(i = 0; i < n; i++) p[i] = (u8) i; break;
        case 3: memset(p, 0, n); if(n > 0) p[rn(n)] = (u8) (1u << rn(8)); break;
        default: rnd_fill(p, n); break;
    }
}

static void
check_crc(const u8* data, size_t n, unsigned align)
{
    u8* blk = xmalloc(n + align + (n + align == 0));
    u32 a, b = ref_crc(data, n);
    if(n > 0)
        memcpy(blk + align, data, n);
    OP("crc32 n=%llu align=%llu", n, align);
    a = crc32(blk + align, n);
    CHECK(a == b, "crc32 of %zu bytes is %08x, expected %08x", n, a, b);
    CHECK(n == 0 || memcmp(blk + align, data, n) == 0, "the data were modified");
    xfree(blk);
    EV("crc32 results compared");
    EVAL(h3(1, hbytes(data, n), align));
}

static u8 buf[1 << 20];

static void
mode_crc(u64 ep)
{
    int i;
    u8 two[4];

    CHECK(crc32("123456789", 9) == 0xcbf43926u, "check value");
    CHECK(crc32(NULL, 0) == 0, "empty data");
    /* All one- and two-byte data in slices, four-byte ones (all states of the register's low byte). */
    for(i = 0; i < 256; i++) {
        two[0] = (u8) ep; two[1] = (u8) i;
        check_crc(two, 2, (unsigned) i % 8);
        two[2] = (u8) rnd(); two[3] = (u8) rnd();
        check_crc(two, 3 + (size_t) i % 2, (unsigned) rn(8));
    }
    two[0] = (u8) ep;
    check_crc(two, 1, (unsigned) rn(8));
    /* All lengths with all alignments, in slices. */
    for(i = 0; i < 16; i++) {
        size_t n = (size_t) ((ep * 16 + (u64) i) % 600);
        unsigned al = (unsigned) (((ep * 16 + (u64) i) / 600) % 16);
        fill_kind(buf, n);
        check_crc(buf, n, al);
    }
    for(i = 0; i < 3; i++) {
        size_t n = rnd_size(5000);
        fill_kind(buf, n);
        check_crc(buf, n, (unsigned) rn(64));
    }
    if(ep % 16 == 0) {
        size_t n = (chance(1, 2)) ? rn(sizeof(buf) + 1) : ((size_t) 1 << rr(10, 20)) - rn(3);
        fill_kind(buf, n);
        check_crc(buf, n, (unsigned) rn(64));
        EV("long data");
    }
}

static u32
basis32(void)
{
    static const u32 b[] = { FNV1A_BASE_32, 0, 1, 0xffffffffu, 0x80000000u, 0x811c9dc5u };
    return (rn(3) == 0) ? (u32) rnd() : b[rn(6)];
}

static u64
basis64(void)
{
    static const u64 b[] = { FNV1A_BASE_64, 0, 1, ~0ULL, 1ULL << 63, 0xffffffffULL, 0x100000000ULL, 0xcbf29ce484222325ULL };
    return (rn(3) == 0) ? rnd() : b[rn(8)];
}

static void
check_fnv(const u8* data, size_t n, unsigned align, int split)
{
    u8* blk = xmalloc(n + align + (n + align == 0));
    u32 b32 = split ? basis32() : FNV1A_BASE_32;
    u64 b64 = split ? basis64() : FNV1A_BASE_64;
    u32 e32 = ref_fnv32(b32, data, n), r32;
    u64 e64 = ref_fnv64(b64, data, n), r64;

    if(n > 0)
        memcpy(blk + align, data, n);
    OP("fnv1a n=%llu align=%llu basis=%llx/%llx", n, align, b32, b64);
    r32 = fnv1a_32(b32, blk + align, n);
    CHECK(r32 == e32, "fnv1a_32 of %zu bytes with basis %08x is %08x, expected %08x", n, b32, r32, e32);
    r64 = fnv1a_64(b64, blk + align, n);
    CHECK(r64 == e64, "fnv1a_64 of %zu bytes with basis %016llx is %016llx, expected %016llx", n,
          (unsigned long long) b64, (unsigned long long) r64, (unsigned long long) e64);
    EV("fnv1a results compared");
    if(split) {
        size_t off = 0;
        r32 = b32;
        r64 = b64;
        while(off < n) {
            size_t k = chance(1, 8) ? 0 : (chance(1, 3) ? 1 : rn(n - off + 1));
            /* Each piece in a block of its own size. */
            u8* piece = xdup(data + off, k);
            OP("fnv1a piece off=%llu n=%llu", off, k);
            r32 = fnv1a_32(r32, piece, k);
            r64 = fnv1a_64(r64, piece, k);
            xdup_free(piece, k);
            off += k;
            EV("fnv1a pieces");
        }
        CHECK(r32 == e32, "fnv1a_32 in pieces gives %08x, expected %08x", r32, e32);
        CHECK(r64 == e64, "fnv1a_64 in pieces gives %016llx, expected %016llx", (unsigned long long) r64, (unsigned long long) e64);
    }
    CHECK(n == 0 || memcmp(blk + align, data, n) == 0, "the data were modified");
    xfree(blk);
    EVAL(h4(2, hbytes(data, n), b32, b64));
}

static void
mode_fnv(u64 ep)
{
    int i;
    u8 two[4];

    CHECK(FNV1A_BASE_32 == 0x811c9dc5u && FNV1A_BASE_64 == 0xcbf29ce484222325ULL, "bases");
    CHECK(fnv1a_32(FNV1A_BASE_32, "foobar", 6) == 0xbf9cf968u, "known vector");
    CHECK(fnv1a_64(FNV1A_BASE_64, "foobar", 6) == 0x85944171f73967e8ULL, "known vector");
    CHECK(fnv1a_32(5, NULL, 0) == 5 && fnv1a_64(5, NULL, 0) == 5, "empty data");
    for(i = 0; i < 256; i++) {
        two[0] = (u8) ep; two[1] = (u8) i; two[2] = (u8) rnd();
        check_fnv(two, 1 + (size_t) i % 3, (unsigned) i % 8, i % 4 == 0);
    }
    for(i = 0; i < 16; i++) {
        size_t n = (size_t) ((ep * 16 + (u64) i) % 600);
        unsigned al = (unsigned) (((ep * 16 + (u64) i) / 600) % 16);
        fill_kind(buf, n);
        check_fnv(buf, n, al, i & 1);
    }
    for(i = 0; i < 3; i++) {
        size_t n = rnd_size(5000);
        fill_kind(buf, n);
        check_fnv(buf, n, (unsigned) rn(64), 1);
    }
    if(ep % 16 == 0) {
        size_t n = (chance(1, 2)) ? rn(sizeof(buf) + 1) : ((size_t) 1 << rr(10, 20)) - rn(3);
        fill_kind(buf, n);
        check_fnv(buf, n, (unsigned) rn(64), 1);
        EV("long data");
    }
}

/* ---------------------------------------------------------------------- */
/* Huge data: zeros with some other bytes around the limits of int, unsigned
 * and at both ends. The oracles skip the runs of zeros in O(log n). */

#define MAX_SPOT    40

static struct { size_t off; u8 v; } spot[MAX_SPOT];
static int n_spot;

static int
cmp_spot(const void* a, const void* b)
{
    size_t x = *(const size_t*) a, y = *(const size_t*) b;
    return (x > y) - (x < y);
}

static u8*
make_huge(size_t n)
{
    static const size_t marks[] = { 0, (size_t) 1 << 16, (size_t) 1 << 31, (size_t) 1 << 32, ((size_t) 1 << 31) - 4, ((size_t) 1 << 32) - 4 };
    int i, k = 0;
    u8* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED)
        mon_die("mmap");
    for(i = 0; i < 30; i++) {
        size_t off = (i < 18) ? marks[i / 3] + rn(4) : (i < 22) ? n - 1 - rn(6) : rn(n);
        if(off < n) {
            spot[k].off = off;
            spot[k].v = (u8) rr(1, 255);
            k++;
        }
    }
    qsort(spot, (size_t) k, sizeof(spot[0]), cmp_spot);
    n_spot = 0;
    for(i = 0; i < k; i++) {
        if(n_spot == 0 || spot[n_spot - 1].off != spot[i].off)
            spot[n_spot++] = spot[i];
    }
    for(i = 0; i < n_spot; i++)
        p[spot[i].off] = spot[i].v;
    return p;
}

/* The register after n zero bytes: powers of the one-byte matrix. */
static u32
mat_mul(const u32* m, u32 v)
{
    u32 r = 0;
    int k;
    for(k = 0; k < 32; k++)
        if(v & (1u << k)) r ^= m[k];
    return r;
}

static u32
crc_zeros(u32 reg, size_t n)
{
    u32 m[32], t[32];
    int k;
    for(k = 0; k < 32; k++)
        m[k] = ref_crc_update(1u << k, 0);
    for(; n > 0; n >>= 1) {
        if(n & 1)
            reg = mat_mul(m, reg);
        for(k = 0; k < 32; k++)
            t[k] = mat_mul(m, m[k]);
        memcpy(m, t, sizeof(m));
    }
    return reg;
}

static void
mode_hugecrc(u64 ep)
{
    size_t n = ((ep % 2 == 0) ? (size_t) 1 << 32 : (size_t) 1 << 31) + rn(100000);
    u8* p;
    u32 reg = 0xffffffffu, r;
    size_t at = 0;
    int i;

    if(ep == 0) {   /* the skipping oracle agrees with the plain one */
        memset(buf, 0, 3000);
        CHECK(~crc_zeros(0xffffffffu, 3000) == ref_crc(buf, 3000), "harness: matrix power");
    }
    p = make_huge(n);
    for(i = 0; i < n_spot; i++) {
        reg = crc_zeros(reg, spot[i].off - at);
        reg = ref_crc_update(reg, spot[i].v);
        at = spot[i].off + 1;
    }
    reg = ~crc_zeros(reg, n - at);
    OP("crc32 huge n=%llu", n);
    r = crc32(p, n);
    CHECK(r == reg, "crc32 of %zu bytes is %08x, expected %08x", n, r, reg);
    munmap(p, n);
    EV("huge data");
    EVAL(h2(3, n));
}

static u64
powmul(u64 h, u64 prime, size_t n)
{
    for(; n > 0; n >>= 1) {
        if(n & 1)
            h *= prime;
        prime *= prime;
    }
    return h;
}

static void
mode_hugefnv(u64 ep)
{
    size_t n = ((ep % 4 < 2) ? (size_t) 1 << 32 : (size_t) 1 << 31) + rn(100000);
    int w64 = ep % 2 == 0;
    u8* p = make_huge(n);
    u64 h = w64 ? FNV1A_BASE_64 : FNV1A_BASE_32, prime = w64 ? 0x100000001b3ULL : 0x1000193, r;
    size_t at = 0;
    int i;

    for(i = 0; i < n_spot; i++) {
        h = powmul(h, prime, spot[i].off - at);
        h = (h ^ spot[i].v) * prime;
        if(!w64) h = (u32) h;
        at = spot[i].off + 1;
    }
    h = powmul(h, prime, n - at);
    if(!w64) h = (u32) h;
    OP("fnv1a huge n=%llu w64=%llu", n, w64);
    r = w64 ? fnv1a_64(FNV1A_BASE_64, p, n) : fnv1a_32(FNV1A_BASE_32, p, n);
    CHECK(r == h, "fnv1a_%d of %zu bytes is %llx, expected %llx", w64 ? 64 : 32, n, (unsigned long long) r, (unsigned long long) h);
    munmap(p, n);
    EV("huge data");
    EVAL(h3(4, n, (u64) w64));
}

const struct mon_mode mon_modes[] = {
    { "crc", mode_crc },
    { "fnv", mode_fnv },
    { "hugecrc", mode_hugecrc },
    { "hugefnv", mode_hugefnv },
    { NULL, NULL }
};
