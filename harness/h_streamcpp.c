/* Monitors of C44 for win32/memstream.h: streams used from C, through the table
 * of functions, and from C++, as objects with virtual methods.
 *
 * The module is built with stand-ins for the Windows headers (winshim/). */
#include "mon.h"
#include "memstream.h"
#include "streamcpp_iids.h"
#include "streamcpp.h"
#undef min
#undef max
extern const SIDE side_cpp;

typedef struct ONE { void* p; const u8* d; u64 size; u64 pos; u32 refs; } ONE;
#define MAXONE  5
#define BAD(r)      ((int32_t) (r) < 0)

static void
mode_streamcpp(u64 ep)
{
    u8 d[300], buf[400];
    ONE o[MAXONE];
    u64 n = 0, i, step, seq = 0;
    int how = (int) (ep % 3);       /* C, C++, both in turns */
    size_t live0 = mon_heap.live;

    rnd_fill(d, sizeof(d));
    memset(o, 0, sizeof(o));
    for(step = 0; step < 60 && mon_more(); step++) {
        const SIDE* x = (how == 0 || (how == 2 && chance(1, 2))) ? &side_c : &side_cpp;
        u64 k = (n == 0) ? 0 : rn(12), rem;
        u32 r, t;
        uint64_t a = 0, b = 0;
        void* p;
        if(k == 0) {
            if(n == MAXONE)
                continue;
            memset(&o[n], 0, sizeof(ONE));
            o[n].refs = 1;
            if(chance(1, 3)) {
                if(chance(1, 4)) {
                    OP("%llu: absent resource", how);
                    r = x->create_res(0x1000, 0x2000, 0x3000, &p);
                    CHECK(BAD(r) && p == NULL, "an absent resource seen from %s gives %x", x->name, r);
                    continue;
                }
                OP("from a resource");
                r = x->create_res(0x1000, 0x3000, 0x2000, &o[n].p);
                o[n].d = res_bytes; o[n].size = sizeof(res_bytes);
            } else {
                o[n].size = rn(sizeof(d) + 1); o[n].d = d + rn(sizeof(d) - o[n].size + 1);
                OP("create of %llu", o[n].size);
                r = x->create(o[n].d, (u32) o[n].size, &o[n].p);
            }
            CHECK(r == 0 && o[n].p != NULL, "creation from %s gives %x", x->name, r);
            n++;
            EV("streams created");
            continue;
        }
        i = rn(n);
        rem = (o[i].pos < o[i].size) ? o[i].size - o[i].pos : 0;
        OP("operation %llu on stream at %llu of %llu", k, o[i].pos, o[i].size);
        switch(k) {
            case 1: case 2: {
                u64 m = rn(sizeof(buf)), want = m < rem ? m : rem;
                uint32_t got = 0xeeee;
                memset(buf, 0xee, sizeof(buf));
                r = x->read(o[i].p, buf, (u32) m, &got);
                CHECK(!BAD(r) && got == want, "read from %s gives %x and %u bytes, not %u", x->name, r, got, (unsigned) want);
                if(rem == 0 && m > 0) CHECK(r == 1, "read at the end from %s gives %x", x->name, r);
                if(want > 0) CHECK(memcmp(buf, o[i].d + o[i].pos, want) == 0, "read from %s gives wrong bytes", x->name);
                o[i].pos += want;
                EV("reads");
                break;
            }
            case 3: {
                u32 origin = (u32) rn(3);
                u64 to = rn(o[i].size + 4);
                i64 by = (i64) to - (i64) (origin == 0 ? 0 : origin == 1 ? o[i].pos : o[i].size);
                r = x->seek(o[i].p, by, origin, &a);
                CHECK(r == 0 && a == to, "seek from %s gives %x and %u, not %u", x->name, r, (unsigned) a, (unsigned) to);
                o[i].pos = to;
                EV("seeks");
                break;
            }
            case 4: {
                INTO into = { buf, 0, 0, 0xffffffffu, 0, 0 };
                u64 m = chance(1, 4) ? UINT64_MAX - rn(3) : rn(rem + 3), want = m < rem ? m : rem;
                into.room = want;
                into.fail = chance(1, 6);
                if(chance(1, 4)) into.cap = (u32) rn(want + 1);
                r = x->copyto(o[i].p, &into, m, &a, &b);
                if(into.fail && into.calls > 0) {
                    CHECK(BAD(r), "copying into a failing stream from %s gives %x", x->name, r);
                    x->seek(o[i].p, (i64) o[i].pos, 0, &a);
                    break;
                }
                CHECK(!BAD(r) && a == into.got && b == into.got, "copying from %s gives %x, %u and %u, not %u", x->name, r, (unsigned) a, (unsigned) b, (unsigned) into.got);
                CHECK(into.got <= want && (into.cap < want || into.got == want), "copying from %s gave %u bytes, not %u", x->name, (unsigned) into.got, (unsigned) want);
                if(into.got > 0) CHECK(memcmp(buf, o[i].d + o[i].pos, into.got) == 0, "copying from %s gives wrong bytes", x->name);
                o[i].pos += into.got;
                EV("copies");
                break;
            }
            case 5:
                if(n < MAXONE) {
                    o[n] = o[i];
                    o[n].refs = 1;
                    r = x->clone(o[i].p, &o[n].p);
                    CHECK(r == 0 && o[n].p != NULL && o[n].p != o[i].p, "cloning from %s gives %x", x->name, r);
                    n++;
                    EV("clones");
                }
                break;
            case 6:
                r = x->stat(o[i].p, &t, &a);
                CHECK(r == 0 && t == STGTY_STREAM && a == o[i].size, "stat from %s gives %x, type %u, size %u", x->name, r, t, (unsigned) a);
                break;
            case 7: {
                int q = (int) rn(4);
                p = (void*) (uintptr_t) 1;
                r = x->query(o[i].p, q, &p);
                if(q == 3) {
                    CHECK(BAD(r) && p == NULL, "a foreign interface asked from %s gives %x", x->name, r);
                } else {
                    CHECK(r == 0 && p == o[i].p, "interface %d asked from %s gives %x", q, x->name, r);
                    o[i].refs++;
                }
                break;
            }
            case 8:
                r = x->addref(o[i].p);
                CHECK(r == ++o[i].refs, "a reference from %s gives %u, not %u", x->name, r, o[i].refs);
                break;
            case 9:
                switch(rn(6)) {
                    case 0: { uint32_t w = 5; r = x->write(o[i].p, "x", 1, &w); CHECK(BAD(r) && w == 0, "writing from %s gives %x", x->name, r); break; }
                    case 1: r = x->set_size(o[i].p, o[i].size + 1); CHECK(BAD(r), "resizing from %s gives %x", x->name, r); break;
                    case 2: r = x->commit(o[i].p); CHECK(!BAD(r), "Commit() from %s gives %x", x->name, r); break;
                    case 3: r = x->revert(o[i].p); CHECK(!BAD(r), "Revert() from %s gives %x", x->name, r); break;
                    case 4: r = x->lock(o[i].p, 0, 1); CHECK(BAD(r), "locking from %s gives %x", x->name, r); break;
                    default: r = x->unlock(o[i].p, 0, 1); CHECK(BAD(r), "unlocking from %s gives %x", x->name, r); break;
                }
                break;
            default:
                r = x->release(o[i].p);
                CHECK(r == --o[i].refs, "a release from %s gives %u, not %u", x->name, r, o[i].refs);
                if(o[i].refs == 0)
                    o[i] = o[--n];
                break;
        }
        seq = h4(seq, k, i, (u64) (x == &side_cpp));
        EVAL(seq);
    }
    while(n > 0) {
        n--;
        while(o[n].refs > 0) {
            const SIDE* x = chance(1, 2) ? &side_c : &side_cpp;
            CHECK(x->release(o[n].p) == --o[n].refs, "a release from %s gives a wrong count", x->name);
        }
    }
    CHECK(mon_heap.live == live0, "streams leak");
}

const struct mon_mode mon_modes[] = {
    { "streamcpp", mode_streamcpp },
    { NULL, NULL }
};
