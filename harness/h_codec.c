/* Monitors of encode/base64.[hc] and encode/hex.[hc]: C24..C27, C43. */
#include "mon.h"
#include "base64.h"
#include "hex.h"

#define MAXLEN  5000
#define BIGLEN  (1u << 20)     /* see the modes of large inputs */

static u8 in[BIGLEN * 2 + 64];
static char ref[BIGLEN * 2 + 64];

/* ---------------------------------------------------------------------- */
/* Independent Base64 (bit by bit). */

static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

static char
b64_digit(unsigned v, const BASE64_OPTIONS* o)
{
    if(v < 62) return alpha[v];
    return (v == 62) ? o->ch62 : o->ch63;
}

static size_t
ref_b64(const u8* p, size_t n, char* out, const BASE64_OPTIONS* o)
{
    size_t bit, len = 0;
    for(bit = 0; bit < n * 8; bit += 6) {
        unsigned v = 0;
        int k;
        for(k = 0; k < 6; k++) {
            size_t b = bit + (size_t) k;
            v <<= 1;
            if(b < n * 8)
                v |= (p[b / 8] >> (7 - b % 8)) & 1u;
        }
        out[len++] = b64_digit(v, o);
    }
    if(o->pad != '\0') {
        while(len % 4 != 0)
            out[len++] = o->pad;
    }
    return len;
}

/* Decodes only what ref_b64() produces, with or without the padding;
 * returns -1 for anything else. */
static long
ref_unb64(const char* t, size_t n, u8* out, const BASE64_OPTIONS* o)
{
    size_t body = n, i, nbits = 0, len = 0;
    u64 acc = 0;

    if(o->pad != '\0') {
        while(body > 0 && n - body < 3 && t[body - 1] == o->pad)
            body--;
        if(body != n) {
            /* Padding, if present, must be complete. */
            if(n % 4 != 0 || n - body > 2 || (4 - body % 4) % 4 != n - body)
                return -1;
        }
    }
    if(body % 4 == 1)
        return -1;
    for(i = 0; i < body; i++) {
        int v = -1, k;
        for(k = 0; k < 62; k++)
            if(alpha[k] == t[i]) v = k;
        if(t[i] == o->ch62) v = 62;
        if(t[i] == o->ch63) v = 63;
        if(v < 0)
            return -1;
        acc = (acc << 6) | (unsigned) v;
        nbits += 6;
        if(nbits >= 8) {
            nbits -= 8;
            out[len++] = (u8) (acc >> nbits);
            acc &= (1u << nbits) - 1;
        }
    }
    if(acc != 0)        /* leftover bits have to be zero */
        return -1;
    return (long) len;
}

static const BASE64_OPTIONS std_opts = { '+', '/', '=' };
static const BASE64_OPTIONS all_opts[] = {
    { '+', '/', '=' }, { '+', '/', '\0' }, { '-', '_', '=' }, { '-', '_', '\0' },
    { '+', ',', '\0' }, { '.', '_', '-' }, { '!', '-', '\0' }, { '\x80', '\xff', '\xfe' }, { '~', '\x01', ' ' }
};
#define N_OPTS  (sizeof(all_opts) / sizeof(all_opts[0]))

static const BASE64_OPTIONS*
pick_opts(u64 r, const BASE64_OPTIONS** effective)
{
    size_t k = (size_t) (r % (N_OPTS + 2));
    if(k >= N_OPTS) {
        *effective = &std_opts;
        return NULL;
    }
    *effective = &all_opts[k];
    return &all_opts[k];
}

static void
check_b64_encode(const u8* data, size_t n, const BASE64_OPTIONS* o, const BASE64_OPTIONS* eff)
{
    size_t len = ref_b64(data, n, ref, eff), k;
    u8* src = xdup(data, n);
    int r;
    size_t sizes[8];

    r = base64_encode(src, (unsigned) n, NULL, (unsigned) rn(3) * 1000, o);
    CHECK(r == (int) len + 1, "size query for %zu bytes returned %d, expected %zu", n, r, len + 1);
    sizes[0] = len + 1; sizes[1] = len; sizes[2] = len + 2; sizes[3] = len + 1 + rn(70);
    sizes[4] = len > 0 ? len - 1 : 0; sizes[5] = len > 0 ? rn(len) : 0; sizes[6] = 0; sizes[7] = len > 2 ? len - 2 : 0;
    for(k = 0; k < 8; k++) {
        size_t os = sizes[k];
        char* out = xmalloc(os + (os == 0));
        memset(out, 0x7e, os);
        OP("base64_encode n=%llu out_size=%llu", n, os);
        if(os == 0) {
            out[0] = 0x7e;
        }
        r = base64_encode(src, (unsigned) n, out, (unsigned) os, o);
        if(os >= len) {
            CHECK(r == (int) len, "encoding %zu bytes returned %d, expected %zu (output size %zu)", n, r, len, os);
            CHECK(memcmp(out, ref, len) == 0, "encoding of %zu bytes is wrong", n);
            if(os > len)
                CHECK(out[len] == '\0', "the output is not terminated");
            EV("base64 encodings compared");
        } else {
            CHECK(r < 0, "too small an output (%zu < %zu) was not refused but returned %d", os, len, r);
            EV("base64 encodings refused for a small output");
        }
        if(os == 0)
            CHECK(out[0] == 0x7e, "written beyond an output of size 0");
        xfree(out);
    }
    CHECK(memcmp(src, data, n) == 0, "the input was modified");
    xdup_free(src, n);
    EVAL(h3(1, hbytes(data, n), (u64) (unsigned char) eff->ch62 * 256 + (unsigned char) eff->pad));
}

static void
mode_b64enc(u64 ep)
{
    const BASE64_OPTIONS* eff;
    const BASE64_OPTIONS* o;
    int i;

    /* Systematic: a slice of all one- and two-byte inputs. */
    for(i = 0; i < 60 && mon_more(); i++) {
        u64 k = ep * 60 + (u64) i;
        o = pick_opts(k, &eff);
        in[0] = (u8) k; in[1] = (u8) (k >> 8); in[2] = (u8) rnd();
        check_b64_encode(in, k % 4, o, eff);
    }
    for(i = 0; i < 25 && mon_more(); i++) {
        size_t n = rnd_size(i == 0 ? MAXLEN : 400);
        o = pick_opts(rnd(), &eff);
        rnd_fill(in, n);
        if(rn(5) == 0) memset(in, (int) (rn(2) * 255), n);
        check_b64_encode(in, n, o, eff);
    }
}

static u8 dec[BIGLEN * 2];

static void
check_b64_decode(const char* text, size_t n, const BASE64_OPTIONS* o, const BASE64_OPTIONS* eff)
{
    long len = ref_unb64(text, n, dec, eff);
    char* src = xdup(text, n);
    int r;
    size_t k;

    r = base64_decode(src, (unsigned) n, NULL, 0, o);
    if(len >= 0)
        CHECK(r == (int) len, "size query for a valid text of %zu characters returned %d, expected %ld", n, r, len);
    for(k = 0; k < 5; k++) {
        size_t os;
        u8* out;
        if(len >= 0) {
            size_t l = (size_t) len;
            os = (k == 0) ? l : (k == 1) ? l + 1 : (k == 2) ? l + rn(50) : (k == 3) ? (l ? l - 1 : 0) : rn(l + 1);
        } else {
            if(k > 1) break;
            os = k ? n : n / 4 * 3;
        }
        out = xdup(in, os);
        if(os > 0) memset(out, 0x7e, os);
        OP("base64_decode n=%llu out_size=%llu valid=%llu", n, os, len >= 0);
        r = base64_decode(src, (unsigned) n, out, (unsigned) os, o);
        if(len < 0) {
            CHECK(r < 0, "an invalid text of %zu characters was accepted (returned %d)", n, r);
            EV("invalid base64 texts rejected");
        } else if(os >= (size_t) len) {
            CHECK(r == (int) len, "decoding %zu characters returned %d, expected %ld", n, r, len);
            CHECK(memcmp(out, dec, (size_t) len) == 0, "decoding of %zu characters is wrong", n);
            EV("valid base64 texts decoded");
        } else {
            CHECK(r < 0, "too small an output (%zu < %ld) was not refused but returned %d", os, len, r);
            EV("base64 decodings refused for a small output");
        }
        xdup_free(out, os);
    }
    CHECK(memcmp(src, text, n) == 0, "the input was modified");
    xdup_free(src, n);
    EVAL(h3(2, hbytes(text, n), (u64) (unsigned char) eff->ch62 * 256 + (unsigned char) eff->pad));
}

static void
mode_b64dec(u64 ep)
{
    const BASE64_OPTIONS* eff;
    const BASE64_OPTIONS* o;
    int i, j;
    static char text[MAXLEN * 2 + 64];

    /* Systematic: every byte value at every position of short texts. */
    {
        unsigned pos = (unsigned) (ep % 9);
        unsigned nbytes = (unsigned) ((ep / 9) % 7);
        size_t n;
        o = pick_opts(ep / 63, &eff);
        rnd_fill(in, nbytes);
        n = ref_b64(in, nbytes, text, eff);
        if(rn(2)) while(n > 0 && eff->pad && text[n - 1] == eff->pad) n--;
        check_b64_decode(text, n, o, eff);
        if(pos < n) {
            for(i = 0; i < 256; i++) {
                char saved = text[pos];
                text[pos] = (char) i;
                check_b64_decode(text, n, o, eff);
                text[pos] = saved;
            }
            EV("texts with every byte at a position");
        }
    }
    for(i = 0; i < 25 && mon_more(); i++) {
        size_t nb = rnd_size(i == 0 ? 3000 : 120), n;
        o = pick_opts(rnd(), &eff);
        rnd_fill(in, nb);
        n = ref_b64(in, nb, text, eff);
        check_b64_decode(text, n, o, eff);
        /* Without the padding. */
        if(eff->pad != '\0') {
            size_t m = n;
            while(m > 0 && text[m - 1] == eff->pad) m--;
            check_b64_decode(text, m, o, eff);
            if(m + 1 < n)
                check_b64_decode(text, m + 1, o, eff);
        }
        for(j = 0; j < 12; j++) {
            static char mut[MAXLEN * 2 + 64];
            size_t m = n, at, x;
            memcpy(mut, text, n);
            for(x = rr(1, 2); x > 0; x--) {
                at = rn(m + 1);
                if(rn(3) == 0 && m > 0) at = m - 1 - rn(m < 4 ? m : 4);
                switch(rn(6)) {
                    case 0: if(at < m) mut[at] = (char) rnd(); break;
                    case 1: if(at < m) mut[at] = b64_digit((unsigned) rn(64), eff); break;
                    case 2: if(at < m) mut[at] = eff->pad; break;
                    case 3: memmove(mut + at + 1, mut + at, m - at); mut[at] = rn(2) ? eff->pad : b64_digit((unsigned) rn(64), eff); m++; break;
                    case 4: if(at < m) { memmove(mut + at, mut + at + 1, m - at - 1); m--; } break;
                    default: { size_t t = rr(1, 4); while(t-- > 0) mut[m++] = eff->pad; } break;
                }
            }
            check_b64_decode(mut, m, o, eff);
        }
        /* Random garbage, from a narrow set. */
        {
            size_t m = rn(14), x;
            for(x = 0; x < m; x++)
                text[x] = rn(4) ? b64_digit((unsigned) rn(64), eff) : rn(2) ? eff->pad : (char) rnd();
            check_b64_decode(text, m, o, eff);
        }
    }
}

/* ---------------------------------------------------------------------- */

static void
check_hex_encode(const u8* data, size_t n, int lower)
{
    static const char up[] = "0123456789ABCDEF";
    static const char lo[] = "0123456789abcdef";
    size_t len = 2 * n, k, i;
    u8* src = xdup(data, n);
    int r;
    size_t sizes[7];

    for(i = 0; i < n; i++) {
        ref[2 * i] = (lower ? lo : up)[data[i] / 16];
        ref[2 * i + 1] = (lower ? lo : up)[data[i] % 16];
    }
    r = hex_encode(src, (unsigned) n, NULL, (unsigned) rn(2) * 77, lower);
    CHECK(r == (int) len + 1, "size query for %zu bytes returned %d", n, r);
    sizes[0] = len + 1; sizes[1] = len; sizes[2] = len + 2; sizes[3] = len + 1 + rn(70);
    sizes[4] = len > 0 ? len - 1 : 0; sizes[5] = len > 0 ? rn(len) : 0; sizes[6] = 0;
    for(k = 0; k < 7; k++) {
        size_t os = sizes[k];
        char* out = xmalloc(os + (os == 0));
        memset(out, 0x7e, os + (os == 0));
        OP("hex_encode n=%llu out_size=%llu", n, os);
        r = hex_encode(src, (unsigned) n, out, (unsigned) os, lower);
        if(os >= len) {
            CHECK(r == (int) len, "encoding %zu bytes returned %d (output size %zu)", n, r, os);
            CHECK(memcmp(out, ref, len) == 0, "encoding of %zu bytes is wrong", n);
            if(os > len)
                CHECK(out[len] == '\0', "the output is not terminated");
            EV("hex encodings compared");
        } else {
            CHECK(r == -1, "too small an output (%zu < %zu) was not refused but returned %d", os, len, r);
            EV("hex encodings refused for a small output");
        }
        if(os == 0)
            CHECK(out[0] == 0x7e, "written beyond an output of size 0");
        xfree(out);
    }
    CHECK(memcmp(src, data, n) == 0, "the input was modified");
    xdup_free(src, n);
    EVAL(h3(3, hbytes(data, n), (u64) (lower != 0)));
}

static void
mode_hexenc(u64 ep)
{
    int i;
    static const int lows[] = { 0, 1, -1, 2, 256, INT_MIN };
    for(i = 0; i < 60; i++) {
        u64 k = ep * 60 + (u64) i;
        in[0] = (u8) k; in[1] = (u8) (k >> 8);
        check_hex_encode(in, 1 + k % 2, lows[rn(6)]);
    }
    for(i = 0; i < 20; i++) {
        size_t n = rnd_size(i == 0 ? MAXLEN : 300);
        rnd_fill(in, n);
        check_hex_encode(in, n, lows[rn(6)]);
    }
}

static int
hexval(char c)
{
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

static void
check_hex_decode(const char* text, size_t n)
{
    long len = (long) (n / 2);
    size_t i, k;
    char* src = xdup(text, n);
    int r;

    if(n % 2 != 0) len = -1;
    for(i = 0; i < n && len >= 0; i++)
        if(hexval(text[i]) < 0) len = -1;
    for(i = 0; i + 1 < n && len >= 0; i += 2)
        dec[i / 2] = (u8) (hexval(text[i]) * 16 + hexval(text[i + 1]));
    r = hex_decode(src, (unsigned) n, NULL, 0);
    if(len >= 0)
        CHECK(r == (int) len, "size query for %zu digits returned %d", n, r);
    for(k = 0; k < 5; k++) {
        size_t os;
        u8* out;
        if(len >= 0) {
            size_t l = (size_t) len;
            os = (k == 0) ? l : (k == 1) ? l + 1 : (k == 2) ? l + rn(50) : (k == 3) ? (l ? l - 1 : 0) : rn(l + 1);
        } else {
            if(k > 1) break;
            os = k ? n : n / 2;
        }
        out = xdup(in, os);
        if(os > 0) memset(out, 0x7e, os);
        OP("hex_decode n=%llu out_size=%llu valid=%llu", n, os, len >= 0);
        r = hex_decode(src, (unsigned) n, out, (unsigned) os);
        if(len < 0) {
            CHECK(r == -1, "an invalid text of %zu characters was accepted (returned %d)", n, r);
            EV("invalid hex texts rejected");
        } else if(os >= (size_t) len) {
            CHECK(r == (int) len, "decoding %zu digits returned %d", n, r);
            CHECK(memcmp(out, dec, (size_t) len) == 0, "decoding of %zu digits is wrong", n);
            EV("valid hex texts decoded");
        } else {
            CHECK(r == -1, "too small an output (%zu < %ld) was not refused but returned %d", os, len, r);
            EV("hex decodings refused for a small output");
        }
        xdup_free(out, os);
    }
    CHECK(memcmp(src, text, n) == 0, "the input was modified");
    xdup_free(src, n);
    EVAL(h2(4, hbytes(text, n)));
}

static void
mode_hexdec(u64 ep)
{
    static const char digits[] = "0123456789abcdefABCDEF";
    static char text[2 * MAXLEN + 64];
    int i, j;
    char two[2];

    /* All pairs of bytes, a slice per episode. */
    two[0] = (char) ep;
    for(i = 0; i < 256; i++) {
        two[1] = (char) i;
        check_hex_decode(two, 2);
    }
    for(i = 0; i < 15; i++) {
        size_t n = rnd_size(i == 0 ? 2 * MAXLEN : 200), x;
        for(x = 0; x < n; x++)
            text[x] = digits[rn(22)];
        check_hex_decode(text, n);
        for(j = 0; j < 5 && n > 0; j++) {
            size_t at = (j == 0) ? n - 1 : (j == 1) ? 0 : rn(n);
            char saved = text[at];
            text[at] = (char) rnd();
            check_hex_decode(text, n);
            text[at] = saved;
        }
        if(n > 0)
            check_hex_decode(text, n - 1);
    }
}

/* ---------------------------------------------------------------------- */
/* Large inputs: beyond 2^16 bytes on either side. */

static size_t
large_size(void)
{
    size_t edge = ((size_t) 1 << rr(13, 19)) + rn(13) - 6;

    switch(rn(5)) {
        case 0: return edge;
        case 1: return edge / 4 * 3 + rn(4);
        case 2: return edge / 2;
        case 3: return edge / 3 * 2 + rn(3);
        default: return rr(MAXLEN, 300000);
    }
}

static void
fill_large(size_t n)
{
    size_t i;
    u64 x = rnd();

    for(i = 0; i < n; i++) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        in[i] = (u8) (x >> 56);
    }
}

static void
mode_b64enclarge(u64 ep)
{
    const BASE64_OPTIONS* eff;
    const BASE64_OPTIONS* o = pick_opts(rnd(), &eff);
    size_t n = large_size();

    (void) ep;
    fill_large(n);
    check_b64_encode(in, n, o, eff);
}

static void
mode_b64declarge(u64 ep)
{
    static char text[BIGLEN * 2];
    const BASE64_OPTIONS* eff;
    const BASE64_OPTIONS* o = pick_opts(rnd(), &eff);
    size_t nb = large_size(), n, at;
    char saved;

    (void) ep;
    fill_large(nb);
    n = ref_b64(in, nb, text, eff);
    check_b64_decode(text, n, o, eff);
    at = rn(3) ? rn(n) : (size_t) ((n - 1) & ~(size_t) 0xffff) + rn(2);
    if(at >= n) at = n - 1;
    saved = text[at];
    text[at] = (char) rnd();
    check_b64_decode(text, n, o, eff);
    text[at] = saved;
    check_b64_decode(text, n - 1 - rn(3), o, eff);
}

static void
mode_hexenclarge(u64 ep)
{
    size_t n = large_size();

    (void) ep;
    fill_large(n);
    check_hex_encode(in, n, (int) rn(2));
}

static void
mode_hexdeclarge(u64 ep)
{
    static const char digits[] = "0123456789abcdefABCDEF";
    static char text[BIGLEN * 2];
    size_t n = large_size(), i;

    (void) ep;
    if(rn(8)) n &= ~(size_t) 1;
    fill_large(n);
    for(i = 0; i < n; i++)
        text[i] = digits[in[i] % 22];
    check_hex_decode(text, n);
    i = rn(3) ? rn(n) : (size_t) ((n - 1) & ~(size_t) 0xffff) + rn(2);
    if(i >= n) i = n - 1;
    text[i] = (char) rnd();
    check_hex_decode(text, n);
}

/* ---------------------------------------------------------------------- */
/* C43: sizes whose output does not fit. */

static void
mode_extreme(u64 ep)
{
    static u8* zeros;
    const u64 limit = (MON_SZBITS == 32) ? 0x60000100ULL : 1ULL << 32;
    static const u64 bases[] = { 0x3fffffff, 0x40000000, 0x5ffffffd, 0x60000000, 0x7fffffff, 0x80000000ULL,
                                 0xaaaaaaaaULL, 0xbfffffffULL, 0xc0000000ULL, 0xffffffffULL, 0x10000000, 0x7ffffffeULL };
    int i;
    (void) ep;

    if(zeros == NULL) {
        zeros = mmap(NULL, limit, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(zeros == MAP_FAILED) mon_die("mmap");
    }
    for(i = 0; i < 60; i++) {
        i64 v = (rn(4) == 0) ? (i64) rn(limit) : (i64) bases[rn(12)] + (i64) rn(9) - 4;
        unsigned n;
        const BASE64_OPTIONS* eff;
        const BASE64_OPTIONS* o = pick_opts(rnd(), &eff);
        u64 need;
        int r;
        size_t small = rn(40);
        char* out = xdup(in, small);

        if(v < 0) v = 0;
        if(v > 0xffffffffLL) v = 0xffffffffLL;
        n = (unsigned) v;

        /* Base64 */
        need = eff->pad ? ((u64) n + 2) / 3 * 4 : ((u64) n * 8 + 5) / 6;
        OP("extreme n=%llu small=%llu", n, small);
        r = base64_encode(zeros, n, NULL, 0, o);
        if(need + 1 > (u64) INT_MAX) {
            CHECK(r < 0, "base64 size query for %u bytes returned %d", n, r);
            EV("sizes above the range refused");
        } else if(need + 16 < (u64) INT_MAX) {
            CHECK(r >= 0 && (u64) r == need + 1, "base64 size query for %u bytes returned %d, expected %llu", n, r, (unsigned long long) need + 1);
        }
        if(need > small) {
            r = base64_encode(zeros, n, out, (unsigned) small, o);
            CHECK(r < 0, "base64_encode() of %u bytes into %zu returned %d", n, small, r);
        }
        /* Hex */
        need = (u64) n * 2;
        r = hex_encode(zeros, n, NULL, 0, 0);
        if(need + 1 > (u64) INT_MAX) {
            CHECK(r < 0, "hex size query for %u bytes returned %d", n, r);
            EV("sizes above the range refused");
        } else {
            CHECK(r >= 0 && (u64) r == need + 1, "hex size query for %u bytes returned %d", n, r);
        }
        if(need > small) {
            r = hex_encode(zeros, n, out, (unsigned) small, 1);
            CHECK(r < 0, "hex_encode() of %u bytes into %zu returned %d", n, small, r);
        }
        if(n / 2 > small) {
            r = hex_decode((const char*) zeros, n, out, (unsigned) small);
            CHECK(r < 0, "hex_decode() of %u digits into %zu returned %d", n, small, r);
        }
        r = hex_decode((const char*) zeros, n, NULL, 0);
        if(n % 2 == 0)
            CHECK(r >= 0 && (unsigned) r == n / 2, "hex size query for %u digits returned %d", n, r);
        xdup_free(out, small);
        EVAL(h3(5, n, small));
    }
}

/* Huge valid texts: a small file mapped again and again. */
#include <sys/syscall.h>

static void*
map_repeated(const char* unit, size_t total)
{
    size_t piece = (size_t) 4 << 20, off;
    int fd = (int) syscall(SYS_memfd_create, "mon", 0);
    char* p;
    char* base;

    if(fd < 0 || ftruncate(fd, (off_t) piece) != 0)
        mon_die("memfd");
    p = mmap(NULL, piece, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if(p == MAP_FAILED) mon_die("mmap");
    for(off = 0; off < piece; off++)
        p[off] = unit[off % 4];
    munmap(p, piece);
    base = mmap(NULL, total + piece, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(base == MAP_FAILED) mon_die("mmap");
    for(off = 0; off < total; off += piece) {
        if(mmap(base + off, piece, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            mon_die("mmap");
    }
    close(fd);
    return base;
}

static void
mode_huge(u64 ep)
{
    /* Decoding 2863311536 + x characters gives more than INT_MAX bytes. */
    size_t n = (ep % 2 == 0) ? 2863311536u + 4096u : 4294967292u;
    char* t = map_repeated("QUJD", n);
    u8 small[8];
    int r;

    OP("huge decode n=%llu", n);
    r = base64_decode(t, (unsigned) n, NULL, 0, NULL);
    CHECK(r < 0, "base64 size query for %zu characters returned %d", n, r);
    r = base64_decode(t, (unsigned) n, small, sizeof(small), NULL);
    CHECK(r < 0, "base64_decode() of %zu characters into 8 bytes returned %d", n, r);
    munmap(t, n + (4u << 20));
    EVAL(h2(6, n));

    /* Representable ones work. */
    n = (ep % 2 == 0) ? 2000000000u : 2800000000u;
    t = map_repeated("QUJD", n);
    OP("huge decode n=%llu", n);
    r = base64_decode(t, (unsigned) n, NULL, 0, NULL);
    CHECK(r >= 0 && (size_t) r == n / 4 * 3, "base64 size query for %zu characters returned %d", n, r);
    munmap(t, n + (4u << 20));
    EV("huge texts");
}

const struct mon_mode mon_modes[] = {
    { "b64enc", mode_b64enc },
    { "b64dec", mode_b64dec },
    { "hexenc", mode_hexenc },
    { "hexdec", mode_hexdec },
    { "b64enclarge", mode_b64enclarge },
    { "b64declarge", mode_b64declarge },
    { "hexenclarge", mode_hexenclarge },
    { "hexdeclarge", mode_hexdeclarge },
    { "extreme", mode_extreme },
    { "huge", mode_huge },
    { NULL, NULL }
};
