/* Monitors of win32/memstream.[hc]: C36, C37 and a part of C41.
 *
 * The module is built with stand-ins for the Windows headers (winshim/). */
#define MON_THREADS
#include "mon.h"
#include <pthread.h>
#include <sched.h>
#define COBJMACROS
#include "memstream.h"

const IID IID_IUnknown = { 0x00000000, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IDispatch = { 0x00020400, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0x00, 0xaa, 0x00, 0x44, 0x77, 0x3d } };
const IID IID_IStream = { 0x0000000c, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IStorage = { 0x0000000b, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IMarshal = { 0x00000003, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IAgileObject = { 0x94ea2b94, 0xe9cc, 0x49e0, { 0xc0, 0xff, 0xee, 0x64, 0xca, 0x8f, 0x5b, 0x90 } };
const IID IID_NULL = { 0, 0, 0, { 0 } };

/* Fake resources. */
static __thread DWORD last_error;
static __thread const u8* res_bytes;
static __thread DWORD res_len;
static __thread int res_fail;        /* which step fails */
DWORD GetLastError(void) { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
HRSRC FindResourceW(HMODULE i, LPCWSTR n, LPCWSTR t)
{
    if(!((uintptr_t) i == 0x1000 && (uintptr_t) n == 0x2000 && (uintptr_t) t == 0x3000)) mon_fail(__FILE__, __LINE__, "resource", "FindResourceW() got wrong arguments");
    if(res_fail == 1) { last_error = ERROR_RESOURCE_NAME_NOT_FOUND; return NULL; }
    return (HRSRC) (uintptr_t) 0x4000;
}
DWORD SizeofResource(HMODULE i, HRSRC r)
{
    if(!((uintptr_t) i == 0x1000 && (uintptr_t) r == 0x4000)) mon_fail(__FILE__, __LINE__, "resource", "SizeofResource() got wrong arguments");
    if(res_fail == 2) { last_error = ERROR_RESOURCE_DATA_NOT_FOUND; return 0; }
    return res_len;
}
HGLOBAL LoadResource(HMODULE i, HRSRC r)
{
    if(!((uintptr_t) i == 0x1000 && (uintptr_t) r == 0x4000)) mon_fail(__FILE__, __LINE__, "resource", "LoadResource() got wrong arguments");
    if(res_fail == 3) { last_error = ERROR_NOT_ENOUGH_MEMORY; return NULL; }
    return (HGLOBAL) (uintptr_t) 0x5000;
}
LPVOID LockResource(HGLOBAL g)
{
    if(!((uintptr_t) g == 0x5000)) mon_fail(__FILE__, __LINE__, "resource", "LockResource() got wrong arguments");
    if(res_fail == 4) { last_error = ERROR_NOT_ENOUGH_MEMORY; return NULL; }
    return (void*) res_bytes;
}

/* ------------------------------------------------------------------------ */
/* A sink: our own IStream, which only can be written into. */

typedef struct SINK {
    IStream iface;
    const u8* exp;      /* what should come */
    u64 limit;          /* at most so much */
    u64 got;
    u64 cap;            /* accepts at most so much per call */
    int fail_at;        /* fails in the n-th call (1..); 0 = never */
    HRESULT code;
    int calls;
    int failed;
    int big;
} SINK;

static HRESULT
sink_QueryInterface(IStream* s, REFIID riid, void** obj)
{
    (void) s; (void) riid;
    *obj = NULL;
    return E_NOINTERFACE;
}
static ULONG sink_AddRef(IStream* s) { (void) s; return 2; }
static ULONG sink_Release(IStream* s) { (void) s; return 1; }
static HRESULT sink_Read(IStream* s, void* p, ULONG n, ULONG* r) { (void) s; (void) p; (void) n; if(r) *r = 0; return STG_E_ACCESSDENIED; }

static HRESULT
sink_Write(IStream* self, const void* p, ULONG n, ULONG* w)
{
    SINK* s = (SINK*) self;
    const u8* b = p;
    s->calls++;
    if(s->fail_at != 0 && s->calls >= s->fail_at) {
        s->failed = 1;
        if(w != NULL && chance(1, 2))
            *w = 0;
        return s->code;
    }
    CHECK(s->got + n <= s->limit, "CopyTo() gives %llu bytes, only %llu may come", (unsigned long long) (s->got + n), (unsigned long long) s->limit);
    if(s->cap < n)
        n = (ULONG) s->cap;
    if(s->big) {
        size_t i, k = (n < 64) ? n : 64;
        for(i = 0; i < k; i++) {
            CHECK(b[i] == s->exp[s->got + i], "CopyTo() gives wrong bytes");
            CHECK(b[n - 1 - i] == s->exp[s->got + n - 1 - i], "CopyTo() gives wrong bytes");
        }
    } else if(n > 0) {
        CHECK(memcmp(b, s->exp + s->got, n) == 0, "CopyTo() gives wrong bytes");
    }
    s->got += n;
    if(w != NULL)
        *w = n;
    return S_OK;
}

static IStreamVtbl sink_vtbl;

static void
sink_init(SINK* s, const u8* exp, u64 limit)
{
    memset(s, 0, sizeof(*s));
    sink_vtbl.QueryInterface = sink_QueryInterface;
    sink_vtbl.AddRef = sink_AddRef;
    sink_vtbl.Release = sink_Release;
    sink_vtbl.Read = sink_Read;
    sink_vtbl.Write = sink_Write;
    s->iface.lpVtbl = &sink_vtbl;
    s->exp = exp;
    s->limit = limit;
    s->cap = UINT64_MAX;
}

/* ------------------------------------------------------------------------ */
/* C36 */

typedef struct ST { IStream* p; u64 pos; } ST;
#define MAXST   6

static const u8* data;
static u64 size;
static int big;

static void
tell(const ST* s)
{
    LARGE_INTEGER d;
    ULARGE_INTEGER np;
    d.QuadPart = 0;
    np.QuadPart = 0xeeeeeeeeeeeeull;
    CHECK(IStream_Seek(s->p, d, STREAM_SEEK_CUR, &np) == S_OK, "asking for the position failed");
    CHECK(np.QuadPart == s->pos, "the position is %llu, should be %llu", (unsigned long long) np.QuadPart, (unsigned long long) s->pos);
}

static i64
rnd_offset(void)
{
    switch(rn(8)) {
        case 0: case 1: case 2: return (i64) rn(size + 3);
        case 3: return -(i64) rn(size + 3);
        case 4: {
            static const i64 sp[] = { INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 0xffffffffll, 0x100000000ll, -0xffffffffll,
                                      -0x100000000ll, 0x7fffffffll, 0x80000000ll, -0x80000000ll, 0x1000000000ll, -1, 1, 0 };
            return sp[rn(sizeof(sp) / sizeof(sp[0]))];
        }
        case 5: {
            /* Wraps to a valid position if computed in 32 bits. */
            return (i64) ((1ull + rn(7)) << 32) + (i64) rn(size + 2);
        }
        case 6: return -(i64) ((1ull + rn(7)) << 32) + (i64) rn(size + 2);
        default: return (i64) rnd() >> rn(64);
    }
}

static void
do_read(ST* s)
{
    u64 rem = (s->pos < size) ? size - s->pos : 0;
    ULONG n;
    u64 want, room, i;
    u8* buf;
    ULONG nr = 0xeeeeeeee;
    int ask = !chance(1, 8);
    HRESULT hr;

    switch(rn(6)) {
        case 0: n = (ULONG) rn(4); break;
        case 1: n = 0xffffffffu - (ULONG) rn(3); break;
        case 2: n = (ULONG) (rem + rn(3)); break;
        case 3: n = rem > 0 ? (ULONG) (rem - 1) : 0; break;
        default: n = (ULONG) rn(rem + 10); break;
    }
    if(big && n > 4096 && rem > 4096)
        n = (ULONG) rn(4096);
    want = (n < rem) ? n : rem;
    room = (n < want + 64) ? n : want + rn(64);
    buf = xmalloc(room + 1);
    memset(buf, 0xee, room + 1);
#ifdef MON_ASAN
    ASAN_POISON_MEMORY_REGION(buf + room, 1);
#endif
    OP("read %llu at %llu of %llu", n, s->pos, size);
    hr = IStream_Read(s->p, buf, n, ask ? &nr : NULL);
#ifdef MON_ASAN
    ASAN_UNPOISON_MEMORY_REGION(buf + room, 1);
#endif
    CHECK(SUCCEEDED(hr), "read of %u at %llu of %llu failed: %x", n, (unsigned long long) s->pos, (unsigned long long) size, (unsigned) hr);
    if(rem == 0 && n > 0)
        CHECK(hr == S_FALSE, "read at the end gives %x", (unsigned) hr);
    if(n > 0 && want == n)
        CHECK(hr == S_OK, "a full read gives %x", (unsigned) hr);
    CHECK(hr == S_OK || hr == S_FALSE, "read gives %x", (unsigned) hr);
    if(ask)
        CHECK(nr == want, "read of %u at %llu of %llu reports %u bytes", n, (unsigned long long) s->pos, (unsigned long long) size, nr);
    if(want > 0)
        CHECK(memcmp(buf, data + s->pos, want) == 0, "read of %u at %llu gives wrong bytes", n, (unsigned long long) s->pos);
    for(i = want; i < room + 1; i++)
        CHECK(buf[i] == 0xee, "read wrote beyond the bytes it reports");
    EVAL(h4(1, n, s->pos, size));
    s->pos += want;
    if(want < n) EV("short reads"); else EV("full reads");
    xfree(buf);
}

static void
do_seek(ST* s)
{
    LARGE_INTEGER d;
    ULARGE_INTEGER np;
    DWORD origin = chance(1, 20) ? 3 + (DWORD) rnd() % 1000 : (DWORD) rn(3);
    int ask = !chance(1, 8);
    i128 t;
    HRESULT hr;

    d.QuadPart = rnd_offset();
    np.QuadPart = 0xeeeeeeeeeeeeeeull;
    t = d.QuadPart;
    if(origin == STREAM_SEEK_CUR) t += s->pos;
    if(origin == STREAM_SEEK_END) t += size;
    OP("seek %lld from %llu, at %llu of %llu", d.QuadPart, origin, s->pos, size);
    hr = IStream_Seek(s->p, d, origin, ask ? &np : NULL);
    if(origin > STREAM_SEEK_END || t < 0 || t > 0xffffffffll) {
        CHECK(FAILED(hr), "seek by %lld, origin %u, at %llu of %llu gives %x", (long long) d.QuadPart, origin,
              (unsigned long long) s->pos, (unsigned long long) size, (unsigned) hr);
        EV("refused seeks");
    } else {
        CHECK(hr == S_OK, "seek by %lld, origin %u, at %llu of %llu gives %x", (long long) d.QuadPart, origin,
              (unsigned long long) s->pos, (unsigned long long) size, (unsigned) hr);
        EVAL(h4(2, (u64) d.QuadPart, origin, h2(s->pos, size)));
        s->pos = (u64) t;
        if(s->pos > size) EV("seeks beyond the end"); else EV("seeks");
        if(ask)
            CHECK(np.QuadPart == s->pos, "seek reports the position %llu, should be %llu", (unsigned long long) np.QuadPart, (unsigned long long) s->pos);
    }
    tell(s);
}

static void
do_copyto(ST* s, ST* all, int n_all)
{
    u64 rem = (s->pos < size) ? size - s->pos : 0;
    ULARGE_INTEGER n, nr, nw;
    SINK k;
    HRESULT hr;
    u64 want;
    int ask_r = !chance(1, 4), ask_w = !chance(1, 4);

    switch(rn(6)) {
        case 0: n.QuadPart = UINT64_MAX - rn(3); break;
        case 1: n.QuadPart = ((1 + rn(9)) << 32) + rn(size + 2); break;
        case 2: n.QuadPart = rem + rn(3); break;
        case 3: n.QuadPart = 0xffffffffull - rn(3); break;
        default: n.QuadPart = rn(rem + 5); break;
    }
    want = (n.QuadPart < rem) ? n.QuadPart : rem;
    nr.QuadPart = nw.QuadPart = 0xeeeeeeeeeeeeull;
    if(chance(1, 12) && n_all > 1) {
        /* A memory stream cannot be written. */
        ST* o = &all[rn((u64) n_all)];
        hr = IStream_CopyTo(s->p, o->p, n, &nr, &nw);
        CHECK(FAILED(hr), "copying into a read-only stream gives %x", (unsigned) hr);
        if(o != s)
            tell(o);
        goto after_failure;
    }
    sink_init(&k, data + (want ? s->pos : 0), want);
    k.big = big;
    if(chance(1, 6)) {
        k.fail_at = 1 + (int) rn(2);
        k.code = chance(1, 2) ? E_FAIL : STG_E_MEDIUMFULL;
    } else if(chance(1, 5)) {
        k.cap = rn(want + 1);
    }
    OP("copyto of %llu at %llu of %llu, sink takes %lld, fails in %lld", n.QuadPart, s->pos, size, k.cap, k.fail_at);
    hr = IStream_CopyTo(s->p, &k.iface, n, ask_r ? &nr : NULL, ask_w ? &nw : NULL);
    if(k.failed) {
        CHECK(FAILED(hr), "copying into a failing stream gives %x", (unsigned) hr);
        EV("copies into a failing stream");
        goto after_failure;
    }
    CHECK(SUCCEEDED(hr), "copying gives %x", (unsigned) hr);
    if(k.cap == UINT64_MAX)
        CHECK(k.got == want, "copying of %llu at %llu of %llu gave %llu bytes", (unsigned long long) n.QuadPart,
              (unsigned long long) s->pos, (unsigned long long) size, (unsigned long long) k.got);
    else
        EV("copies into a stream accepting less");
    if(ask_r)
        CHECK(nr.QuadPart == k.got, "copying reports %llu bytes read, %llu were written", (unsigned long long) nr.QuadPart, (unsigned long long) k.got);
    if(ask_w)
        CHECK(nw.QuadPart == k.got, "copying reports %llu bytes written, %llu were", (unsigned long long) nw.QuadPart, (unsigned long long) k.got);
    EVAL(h4(3, n.QuadPart, s->pos, h2(size, k.cap)));
    s->pos += k.got;
    EV("copies");
    tell(s);
    return;

after_failure:
    /* The position is not specified after a failed copying. */
    {
        LARGE_INTEGER d;
        d.QuadPart = 0;
        CHECK(IStream_Seek(s->p, d, STREAM_SEEK_CUR, &nr) == S_OK, "asking for the position failed");
        CHECK(nr.QuadPart >= s->pos && nr.QuadPart <= s->pos + want, "a failed copying moved the position from %llu to %llu",
              (unsigned long long) s->pos, (unsigned long long) nr.QuadPart);
        s->pos = nr.QuadPart;
    }
}

static void
do_misc(ST* s)
{
    ULARGE_INTEGER z;
    STATSTG st;
    ULONG nw = 0xeeeeeeee;
    u8 junk[16];
    HRESULT hr;
    switch(rn(5)) {
        case 0: case 1:
            memset(junk, 0x5a, sizeof(junk));
            hr = IStream_Write(s->p, junk, (ULONG) rn(17), &nw);
            CHECK(FAILED(hr) && nw == 0, "writing gives %x, %u bytes", (unsigned) hr, nw);
            CHECK(FAILED(IStream_Write(s->p, junk, 4, NULL)), "writing succeeds");
            EV("refused writes");
            break;
        case 2:
            memset(&st, 0xee, sizeof(st));
            hr = IStream_Stat(s->p, &st, (DWORD) rn(2));
            CHECK(hr == S_OK, "stat gives %x", (unsigned) hr);
            CHECK(st.type == STGTY_STREAM && st.cbSize.QuadPart == size, "stat gives the type %u, size %llu of %llu", st.type,
                  (unsigned long long) st.cbSize.QuadPart, (unsigned long long) size);
            CHECK(st.pwcsName == NULL, "stat gives a name");
            CHECK((st.grfMode & (STGM_WRITE | STGM_READWRITE)) == 0, "stat claims a writable stream");
            break;
        case 3:
            z.QuadPart = rn(size + 10);
            CHECK(FAILED(IStream_SetSize(s->p, z)), "size of a read-only stream can be set");
            CHECK(FAILED(IStream_LockRegion(s->p, z, z, 0)) && FAILED(IStream_UnlockRegion(s->p, z, z, 0)), "locking succeeds");
            break;
        default:
            CHECK(IStream_Commit(s->p, STGC_DEFAULT) == S_OK && IStream_Revert(s->p) == S_OK, "commit or revert failed");
            break;
    }
    tell(s);
}

static void
run_stream(unsigned ops)
{
    ST st[MAXST];
    int n = 1, i;
    unsigned k;
    u64 h0 = big ? 0 : hbytes(data, size);
    HRESULT hr;

    st[0].p = (IStream*) (uintptr_t) 0xee;
    hr = memstream_create(data, (ULONG) size, &st[0].p);
    CHECK(hr == S_OK && st[0].p != NULL, "creation gives %x", (unsigned) hr);
    st[0].pos = 0;
    for(k = 0; k < ops && mon_more(); k++) {
        ST* s = &st[rn((u64) n)];
        switch(rn(10)) {
            case 0: case 1: case 2: do_read(s); break;
            case 3: case 4: case 5: do_seek(s); break;
            case 6: case 7: do_copyto(s, st, n); break;
            case 8:
                if(n < MAXST && chance(1, 2)) {
                    st[n].p = NULL;
                    hr = IStream_Clone(s->p, &st[n].p);
                    CHECK(hr == S_OK && st[n].p != NULL && st[n].p != s->p, "cloning gives %x", (unsigned) hr);
                    st[n].pos = s->pos;
                    tell(&st[n]);
                    n++;
                    EV("clones");
                } else if(n > 1) {
                    i = (int) (s - st);
                    IStream_Release(s->p);
                    st[i] = st[--n];
                }
                break;
            default: do_misc(s); break;
        }
        for(i = 0; i < n; i++)
            tell(&st[i]);
    }
    for(i = 0; i < n; i++)
        IStream_Release(st[i].p);
    if(!big)
        CHECK(hbytes(data, size) == h0, "the data changed");
}

static void
mode_stream(u64 ep)
{
    u8* d;
    size_t n = (ep % 3 == 0) ? rn(6) : rnd_size(5000);
    d = xmalloc(n + 1);
    rnd_fill(d, n);
    data = xdup(d, n);
    size = n;
    big = 0;
    if(n == 0 && chance(1, 2)) {
        xdup_free((void*) data, n);
        data = NULL;
    }
    run_stream(60);
    if(data != NULL)
        xdup_free((void*) data, n);
    xfree(d);
}

static void
mode_bigstream(u64 ep)
{
    static const u64 sizes[] = { 0xffffffffull, 0xfffffffeull, 0x80000000ull, 0x7fffffffull, 0x80000001ull, 0xffffff00ull };
    u64 n = sizes[ep % 6], k;
    u8* d = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(d == MAP_FAILED)
        mon_die("mmap");
    for(k = 0; k < 200; k++)
        d[rnd() % n] = (u8) rnd();
    for(k = 0; k < 64; k++) {
        d[k] = (u8) rnd();
        d[n - 1 - k] = (u8) rnd();
    }
    data = d;
    size = n;
    big = 1;
    run_stream(400);
    big = 0;
    munmap(d, n + 4096);
}

/* From a resource. */
static void
mode_resource(u64 ep)
{
    size_t n = 1 + rnd_size(300);
    u8* d = xmalloc(n);
    IStream* s = (IStream*) (uintptr_t) 0xee;
    HRESULT hr;
    u8* buf = xmalloc(n);
    ULONG nr = 0;

    rnd_fill(d, n);
    res_bytes = xdup(d, n);
    res_len = (DWORD) n;
    last_error = 0;
    res_fail = (int) (ep % 5);
    OP("resource of %llu bytes, fails in the step %llu", n, res_fail);
    hr = memstream_create_from_resource((HINSTANCE) (uintptr_t) 0x1000, (const WCHAR*) (uintptr_t) 0x3000, (const WCHAR*) (uintptr_t) 0x2000, &s);
    if(res_fail != 0) {
        CHECK(FAILED(hr) && s == NULL, "creation from a missing resource gives %x, %p", (unsigned) hr, (void*) s);
    } else {
        CHECK(hr == S_OK && s != NULL, "creation from a resource gives %x", (unsigned) hr);
        CHECK(IStream_Read(s, buf, (ULONG) n, &nr) == S_OK && nr == n && memcmp(buf, d, n) == 0, "a stream from a resource gives other data");
        CHECK(IStream_Read(s, buf, (ULONG) n, &nr) == S_FALSE && nr == 0, "a stream from a resource gives more data");
        CHECK(IStream_Release(s) == 0, "the stream was not released");
    }
    EVAL(h2((u64) res_fail, n));
    xdup_free((void*) res_bytes, n);
    xfree(d);
    xfree(buf);
}

/* ------------------------------------------------------------------------ */
/* C37: lifetime and identity. */

#ifndef MON_NOWRAP

static size_t alive(void) { return mon_heap.live; }

static void
rnd_iid(IID* iid)
{
    static const IID* const known[] = { &IID_IStream, &IID_IUnknown, &IID_ISequentialStream };
    *iid = *known[rn(3)];
    if(chance(1, 2)) {
        /* A near miss. */
        ((u8*) iid)[rn(sizeof(IID))] ^= (u8) (1u << rn(8));
    } else {
        static const IID* const other[] = { &IID_IDispatch, &IID_IStorage, &IID_IMarshal, &IID_IAgileObject, &IID_NULL };
        *iid = *other[rn(5)];
    }
    if(chance(1, 4))
        rnd_fill(iid, sizeof(*iid));
}

static void
mode_refs(u64 ep)
{
    struct { IStream* p; ULONG refs; size_t blocks; } st[5];
    int n = 0, i;
    unsigned k;
    u8 d[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
    u64 h = ep;
    size_t live0 = alive(), l;

    for(k = 0; k < 80 && mon_more(); k++) {
        if(n == 0) {
            l = alive();
            CHECK(memstream_create(d, sizeof(d), &st[0].p) == S_OK, "creation failed");
            st[0].refs = 1;
            st[0].blocks = alive() - l;
            CHECK(st[0].blocks >= 1, "a stream holds no memory");
            n = 1;
        }
        i = (int) rn((u64) n);
        if(ep % 200 == 0 && k == 40) {
            /* Very many references. */
            ULONG j, m = 65530 + (ULONG) rn(200), r;
            for(j = 1; j <= m; j++) {
                r = IStream_AddRef(st[i].p);
                CHECK(r == st[i].refs + j, "AddRef() gives %u, should be %u", r, st[i].refs + j);
            }
            for(j = m; j > 0; j--) {
                r = IStream_Release(st[i].p);
                CHECK(r == st[i].refs + j - 1, "Release() gives %u, should be %u", r, st[i].refs + j - 1);
            }
            EV("streams with very many references");
        }
        switch(rn(8)) {
            case 0: case 1: {
                ULONG r = IStream_AddRef(st[i].p);
                OP("addref #%llu", i);
                st[i].refs++;
                CHECK(r == st[i].refs, "AddRef() gives %u, should be %u", r, st[i].refs);
                break;
            }
            case 2: case 3: case 4: {
                ULONG r;
                l = alive();
                OP("release #%llu of %llu", i, st[i].refs);
                r = IStream_Release(st[i].p);
                st[i].refs--;
                CHECK(r == st[i].refs, "Release() gives %u, should be %u", r, st[i].refs);
                if(st[i].refs == 0) {
                    CHECK(alive() == l - st[i].blocks, "the last Release() released %zd blocks of %zu", (ssize_t) (l - alive()), st[i].blocks);
                    st[i] = st[--n];
                    EV("streams destroyed");
                } else {
                    CHECK(alive() == l, "Release() destroyed a stream which has other references");
                }
                break;
            }
            case 5: {
                static const IID* const known[] = { &IID_IStream, &IID_IUnknown, &IID_ISequentialStream };
                IUnknown* u = (IUnknown*) (uintptr_t) 0xee;
                HRESULT hr = IStream_QueryInterface(st[i].p, known[rn(3)], (void**) &u);
                OP("query #%llu", i);
                CHECK(hr == S_OK && (IStream*) u == st[i].p, "QueryInterface() of a supported interface gives %x, %s pointer", (unsigned) hr, u ? "another" : "no");
                st[i].refs++;
                CHECK(IStream_AddRef(st[i].p) == st[i].refs + 1 && IStream_Release(st[i].p) == st[i].refs, "QueryInterface() did not count the reference");
                EV("interfaces given");
                break;
            }
            case 6: {
                IUnknown* u = (IUnknown*) (uintptr_t) 0xee;
                IID iid;
                HRESULT hr;
                rnd_iid(&iid);
                if(IsEqualGUID(&iid, &IID_IUnknown) || IsEqualGUID(&iid, &IID_IStream) || IsEqualGUID(&iid, &IID_ISequentialStream))
                    break;
                OP("query of an unsupported interface #%llu", i);
                hr = IStream_QueryInterface(st[i].p, &iid, (void**) &u);
                CHECK(hr == E_NOINTERFACE, "QueryInterface() of an unsupported interface gives %x", (unsigned) hr);
                CHECK(u == NULL, "QueryInterface() of an unsupported interface gives a pointer");
                CHECK(IStream_AddRef(st[i].p) == st[i].refs + 1 && IStream_Release(st[i].p) == st[i].refs, "QueryInterface() of an unsupported interface counted a reference");
                EV("interfaces refused");
                break;
            }
            default:
                if(n < 5) {
                    l = alive();
                    OP("clone #%llu", i);
                    CHECK(IStream_Clone(st[i].p, &st[n].p) == S_OK && st[n].p != st[i].p, "cloning failed");
                    st[n].refs = 1;
                    st[n].blocks = alive() - l;
                    CHECK(st[n].blocks >= 1, "a clone has no memory of its own");
                    CHECK(IStream_AddRef(st[i].p) == st[i].refs + 1 && IStream_Release(st[i].p) == st[i].refs, "cloning changed the reference count");
                    n++;
                    EV("clones");
                }
                break;
        }
        h = h3(h, k, (u64) n);
        EVAL(h);
    }
    while(n > 0) {
        n--;
        while(st[n].refs > 0) {
            CHECK(IStream_Release(st[n].p) == st[n].refs - 1, "Release() gives a wrong count");
            st[n].refs--;
        }
    }
    CHECK(alive() == live0, "streams leak");
}

/* C41: failing allocations. */
static void
mode_memfault(u64 ep)
{
    u8 d[40], b[40];
    IStream *s, *c;
    HRESULT hr;
    ULONG nr;
    size_t live0 = alive();
    unsigned i;
    LARGE_INTEGER off;

    rnd_fill(d, sizeof(d));
    for(i = 0; i < 8; i++) {
        size_t n = rn(sizeof(d) + 1), pos = rn(n + 1);
        s = (IStream*) (uintptr_t) 0xee;
        mon_fault_arm(1, (int) rn(2));
        hr = memstream_create(d, (ULONG) n, &s);
        if(mon_fault_disarm() == 0)
            mon_fail(__FILE__, __LINE__, "fault", "creation does not allocate");
        CHECK(FAILED(hr) && s == NULL, "creation without memory gives %x, %p", (unsigned) hr, (void*) s);
        CHECK(alive() == live0, "failed creation leaks");
        res_bytes = d; res_len = (DWORD) n; res_fail = 0; last_error = (DWORD) rn(3);
        if(n > 0) {
            s = (IStream*) (uintptr_t) 0xee;
            mon_fault_arm(1, (int) rn(2));
            hr = memstream_create_from_resource((HINSTANCE) (uintptr_t) 0x1000, (const WCHAR*) (uintptr_t) 0x3000, (const WCHAR*) (uintptr_t) 0x2000, &s);
            mon_fault_disarm();
            CHECK(FAILED(hr) && s == NULL, "creation from a resource without memory gives %x, %p", (unsigned) hr, (void*) s);
        }
        CHECK(memstream_create(d, (ULONG) n, &s) == S_OK, "creation failed");
        off.QuadPart = (i64) pos;
        CHECK(IStream_Seek(s, off, STREAM_SEEK_SET, NULL) == S_OK, "seek failed");
        c = (IStream*) (uintptr_t) 0xee;
        mon_fault_arm(1, (int) rn(2));
        hr = IStream_Clone(s, &c);
        if(mon_fault_disarm() == 0)
            mon_fail(__FILE__, __LINE__, "fault", "cloning does not allocate");
        CHECK(FAILED(hr) && c == NULL, "cloning without memory gives %x, %p", (unsigned) hr, (void*) c);
        /* The original is intact and can be cloned later. */
        CHECK(IStream_AddRef(s) == 2 && IStream_Release(s) == 1, "failed cloning changed the reference count");
        CHECK(IStream_Clone(s, &c) == S_OK, "cloning failed");
        CHECK(IStream_Read(s, b, sizeof(b), &nr) == (pos < n ? S_OK : S_FALSE) && nr == n - pos && memcmp(b, d + pos, nr) == 0, "the original of a failed clone gives wrong data");
        CHECK(IStream_Read(c, b, sizeof(b), &nr) == (pos < n ? S_OK : S_FALSE) && nr == n - pos && memcmp(b, d + pos, nr) == 0, "a clone gives wrong data");
        CHECK(IStream_Release(s) == 0 && IStream_Release(c) == 0, "release gives a wrong count");
        CHECK(alive() == live0, "streams leak");
        EV("failed creations");
        EV("failed clonings");
        EVAL(h4(ep, n, pos, i));
    }
}

#endif  /* MON_NOWRAP */

/* ------------------------------------------------------------------------ */
/* C37: references of several threads. */

#define MAXTH   4

typedef struct TH {
    pthread_t id;
    IStream* s;
    pthread_barrier_t* bar;
    u64 seed;
    u64 trace;          /* what counts the thread has seen */
    unsigned ops;
    unsigned last;      /* how many times Release() returned zero */
    int bad;
    int base;           /* no count may fall below while we hold a reference */
    int use_clone;
} TH;

static void*
ref_thread(void* arg)
{
    TH* t = arg;
    u64 x = t->seed;
    unsigned i, held = 1;
    pthread_barrier_wait(t->bar);
    for(i = 0; i < t->ops; i++) {
        ULONG r;
        x = mon_mix(x + i);
        switch(x % 4) {
            case 0: case 1:
                r = IStream_AddRef(t->s);
                held++;
                if(r < held) t->bad = 1;
                t->trace = h2(t->trace, r);
                break;
            case 2:
                if(held > 1) {
                    r = IStream_Release(t->s);
                    held--;
                    if(r < held) t->bad = 2;
                    t->trace = h2(t->trace, r);
                }
                break;
            default: {
                void* p = NULL;
                const IID* iids[] = { &IID_IStream, &IID_IUnknown, &IID_IStorage };
                unsigned k = (unsigned) (x >> 8) % 3;
                HRESULT hr = IStream_QueryInterface(t->s, iids[k], &p);
                if(k == 2 ? (hr != E_NOINTERFACE || p != NULL) : (hr != S_OK || p != t->s)) t->bad = 3;
                if(k != 2)
                    held++;
                if(t->use_clone && (x >> 16) % 8 == 0) {
                    IStream* c = NULL;
                    if(IStream_Clone(t->s, &c) != S_OK || c == NULL || c == t->s) { t->bad = 4; break; }
                    if(IStream_AddRef(c) != 2 || IStream_Release(c) != 1 || IStream_Release(c) != 0) t->bad = 5;
                }
                break;
            }
        }
        if((x >> 20) % 16 == 0)
            sched_yield();
        while(held > 40) {
            IStream_Release(t->s);
            held--;
        }
    }
    /* All the references go, including the one we have been given. */
    while(held > 0) {
        ULONG r = IStream_Release(t->s);
        held--;
        t->trace = h2(t->trace, r);
        if(r == 0)
            t->last++;
        if(r < held) t->bad = 6;
    }
    return NULL;
}

static void
mode_refsmt(u64 ep)
{
    TH th[MAXTH];
    pthread_barrier_t bar;
    IStream* s;
    int n = 2 + (int) rn(MAXTH - 1), i, keep = chance(1, 2);
    static const u8 d[16] = { 1, 2, 3 };
    u64 trace = 0;
    unsigned last = 0;
#ifndef MON_NOWRAP
    size_t live0 = mon_heap.live;
#endif

    (void) ep;
    CHECK(memstream_create(d, sizeof(d), &s) == S_OK, "creation failed");
    for(i = keep ? 0 : 1; i < n; i++)
        IStream_AddRef(s);
    pthread_barrier_init(&bar, NULL, (unsigned) n);
    memset(th, 0, sizeof(th));
    for(i = 0; i < n; i++) {
        th[i].s = s;
        th[i].bar = &bar;
        th[i].seed = rnd();
        th[i].ops = chance(1, 3) ? 0 : 20 + (unsigned) rn(300);
        th[i].use_clone = (int) rn(2);
        if(pthread_create(&th[i].id, NULL, ref_thread, &th[i]) != 0)
            mon_die("pthread_create");
    }
    for(i = 0; i < n; i++)
        pthread_join(th[i].id, NULL);
    pthread_barrier_destroy(&bar);
    OP("%llu threads, keeping own reference %llu", n, keep);
    for(i = 0; i < n; i++) {
        CHECK(!th[i].bad, "a thread saw an impossible result (%d)", th[i].bad);
        last += th[i].last;
        trace = h2(trace, th[i].trace);
    }
    if(keep) {
        CHECK(last == 0, "Release() returned zero although a reference remains");
        CHECK(IStream_AddRef(s) == 2, "the reference count is wrong after concurrent use");
        CHECK(IStream_Release(s) == 1, "the reference count is wrong after concurrent use");
        CHECK(IStream_Release(s) == 0, "the reference count is wrong after concurrent use");
    } else {
        CHECK(last == 1, "Release() returned zero %u times", last);
    }
#ifndef MON_NOWRAP
    CHECK(mon_heap.live == live0, "the stream was not freed");
#endif
    EVN("thread runs", n);
    EVAL(trace);
}

/* ------------------------------------------------------------------------ */
/* C42: streams of their own in several threads, and one which is only asked
 * what it is and cloned by all of them. */

#define MAXOWN  4

typedef struct OWN { IStream* p; const u8* d; u64 size; u64 pos; unsigned refs; } OWN;

typedef struct SM {
    pthread_t id;
    pthread_barrier_t* bar;
    u64 x;
    u64 trace;
    unsigned ops;
    unsigned done;
    int bad;            /* a line of this file */
    int depth;
    IStream* shared;
    const u8* sd;       /* data of the shared stream */
    u64 ssize, spos;
    u8 d[2][120];
    OWN own[MAXOWN];
    int n;
} SM;

/* Where a thread's streams are copied into. */
typedef struct SMSINK { IStream iface; SM* t; const u8* exp; u64 n; u64 got; u64 cap; } SMSINK;

static void sm_step(SM* t);
#define SMCHECK(c)  do { if(!(c) && !t->bad) t->bad = __LINE__; } while(0)

static u64 sm_rn(SM* t, u64 n) { t->x = mon_mix(t->x + 0x9e3779b97f4a7c15ull); return n ? t->x % n : 0; }
static HRESULT smsink_QI(IStream* s, REFIID r, void** o) { (void) s; (void) r; *o = NULL; return E_NOINTERFACE; }

static HRESULT
smsink_Write(IStream* self, const void* p, ULONG n, ULONG* w)
{
    SMSINK* k = (SMSINK*) self;
    SM* t = k->t;
    /* Other streams are used while this one is being copied. */
    if(t->depth < 2) {
        t->depth++;
        while(sm_rn(t, 2))
            sm_step(t);
        t->depth--;
    }
    SMCHECK(k->got + n <= k->n);
    if(k->got + n <= k->n && n > 0)
        SMCHECK(memcmp(p, k->exp + k->got, n) == 0);
    if(n > k->cap)
        n = (ULONG) k->cap;
    k->got += n;
    if(w != NULL)
        *w = n;
    return S_OK;
}

static IStreamVtbl smsink_vtbl = {
    .QueryInterface = smsink_QI, .AddRef = sink_AddRef, .Release = sink_Release, .Read = sink_Read, .Write = smsink_Write
};

static void
sm_new(SM* t)
{
    OWN* o = &t->own[t->n];
    u64 k = sm_rn(t, 4);
    memset(o, 0, sizeof(*o));
    o->refs = 1;
    if(k == 0) {
        SMCHECK(IStream_Clone(t->shared, &o->p) == S_OK && o->p != t->shared);
        o->d = t->sd; o->size = t->ssize; o->pos = t->spos;
    } else {
        o->d = t->d[k & 1];
        o->size = 1 + sm_rn(t, sizeof(t->d[0]));
        if(k == 1) {
            res_fail = (sm_rn(t, 4) == 0) ? 1 + (int) sm_rn(t, 4) : 0;
            res_bytes = o->d;
            res_len = (DWORD) o->size;
            HRESULT hr = memstream_create_from_resource((HINSTANCE) (uintptr_t) 0x1000, (const WCHAR*) (uintptr_t) 0x3000, (const WCHAR*) (uintptr_t) 0x2000, &o->p);
            if(res_fail) {
                SMCHECK(FAILED(hr) && o->p == NULL);
                return;
            }
            SMCHECK(hr == S_OK);
        } else {
            SMCHECK(memstream_create(o->d, (ULONG) o->size, &o->p) == S_OK);
        }
    }
    if(t->bad)
        return;
    t->n++;
}

static void
sm_step(SM* t)
{
    u64 k = sm_rn(t, 8), i, rem;
    OWN o;
    LARGE_INTEGER d;
    ULARGE_INTEGER np, nw;
    STATSTG st;

    if(t->bad)
        return;
    if(sm_rn(t, 16) == 0)
        sched_yield();
    if(t->n == 0 || (k == 0 && t->n < MAXOWN)) {
        sm_new(t);
        return;
    }
    i = sm_rn(t, (u64) t->n);
    /* The steps from within a copying must not use the copied stream. */
    o = t->own[i];
    if(o.p == NULL)
        return;
    rem = (o.pos < o.size) ? o.size - o.pos : 0;
    switch(k) {
        case 0: case 1: {
            u8 b[200];
            ULONG nr = 0xeeee, n = (ULONG) sm_rn(t, sizeof(b));
            u64 want = n < rem ? n : rem;
            HRESULT hr = IStream_Read(o.p, b, n, &nr);
            SMCHECK(SUCCEEDED(hr) && nr == want);
            if(rem == 0 && n > 0) SMCHECK(hr == S_FALSE);
            if(nr == want && want > 0) SMCHECK(memcmp(b, o.d + o.pos, want) == 0);
            t->own[i].pos += want;
            break;
        }
        case 2: {
            u64 to = sm_rn(t, o.size + 3);
            DWORD origin = (DWORD) sm_rn(t, 3);
            d.QuadPart = (i64) to - (i64) (origin == STREAM_SEEK_SET ? 0 : origin == STREAM_SEEK_CUR ? o.pos : o.size);
            np.QuadPart = 0;
            SMCHECK(IStream_Seek(o.p, d, origin, &np) == S_OK && np.QuadPart == to);
            t->own[i].pos = to;
            break;
        }
        case 3: {
            SMSINK s;
            u64 n = sm_rn(t, rem + 4), want = n < rem ? n : rem;
            memset(&s, 0, sizeof(s));
            s.iface.lpVtbl = &smsink_vtbl;
            s.t = t; s.exp = o.d + (want ? o.pos : 0); s.n = want;
            s.cap = sm_rn(t, 4) ? UINT64_MAX : sm_rn(t, want + 1);
            np.QuadPart = n;
            t->own[i].p = NULL;
            {
                ULARGE_INTEGER ask = np, nr;
                nr.QuadPart = nw.QuadPart = 0xeeee;
                SMCHECK(SUCCEEDED(IStream_CopyTo(o.p, &s.iface, ask, &nr, &nw)));
                SMCHECK(nr.QuadPart == s.got && nw.QuadPart == s.got);
                if(s.cap == UINT64_MAX) SMCHECK(s.got == want);
            }
            t->own[i].p = o.p;
            t->own[i].pos += s.got;
            break;
        }
        case 4:
            if(t->n < MAXOWN) {
                OWN* c = &t->own[t->n];
                *c = o;
                c->p = NULL;
                c->refs = 1;
                SMCHECK(IStream_Clone(o.p, &c->p) == S_OK && c->p != NULL && c->p != o.p);
                if(!t->bad)
                    t->n++;
            }
            break;
        case 5:
            memset(&st, 0xee, sizeof(st));
            if(sm_rn(t, 2)) {
                SMCHECK(IStream_Stat(o.p, &st, STATFLAG_NONAME) == S_OK && st.type == STGTY_STREAM && st.cbSize.QuadPart == o.size);
            } else {
                SMCHECK(IStream_Stat(t->shared, &st, STATFLAG_NONAME) == S_OK && st.type == STGTY_STREAM && st.cbSize.QuadPart == t->ssize);
                d.QuadPart = 0;
            }
            break;
        case 6: {
            void* p = NULL;
            switch(sm_rn(t, 4)) {
                case 0: SMCHECK(IStream_QueryInterface(o.p, &IID_IStream, &p) == S_OK && p == o.p); t->own[i].refs++; break;
                case 1: SMCHECK(IStream_QueryInterface(o.p, &IID_IStorage, &p) == E_NOINTERFACE && p == NULL); break;
                case 2: SMCHECK(IStream_AddRef(o.p) == o.refs + 1); t->own[i].refs++; break;
                default: {
                    ULONG w = 1;
                    SMCHECK(FAILED(IStream_Write(o.p, "x", 1, &w)) && w == 0);
                    np.QuadPart = 1;
                    SMCHECK(FAILED(IStream_SetSize(o.p, np)));
                    break;
                }
            }
            break;
        }
        default:
            SMCHECK(IStream_Release(o.p) == o.refs - 1);
            /* (The slots may not move while a copying is under way.) */
            if(--t->own[i].refs == 0) {
                t->own[i].p = NULL;
                if(t->depth == 0 || i == (u64) t->n - 1)
                    t->own[i] = t->own[--t->n];
            }
            break;
    }
    t->trace = h4(t->trace, k, i, t->own[i].pos);
    t->done++;
}

static void*
sm_thread(void* arg)
{
    SM* t = arg;
    unsigned i;
    int j;
    pthread_barrier_wait(t->bar);
    for(i = 0; i < t->ops; i++)
        sm_step(t);
    for(j = 0; j < t->n; j++) {
        while(t->own[j].p != NULL && t->own[j].refs-- > 0)
            SMCHECK(IStream_Release(t->own[j].p) == t->own[j].refs);
    }
    return NULL;
}

static void
mode_streamsmt(u64 ep)
{
    static SM th[MAXTH];
    pthread_barrier_t bar;
    u8 sd[150];
    IStream* s;
    LARGE_INTEGER d;
    int n = 2 + (int) rn(MAXTH - 1), i;
#ifndef MON_NOWRAP
    size_t live0 = mon_heap.live;
#endif

    rnd_fill(sd, sizeof(sd));
    CHECK(memstream_create(sd, sizeof(sd), &s) == S_OK, "creation failed");
    d.QuadPart = (i64) rn(sizeof(sd) + 2);
    CHECK(IStream_Seek(s, d, STREAM_SEEK_SET, NULL) == S_OK, "seek failed");
    pthread_barrier_init(&bar, NULL, (unsigned) n);
    memset(th, 0, sizeof(th));
    for(i = 0; i < n; i++) {
        th[i].bar = &bar;
        th[i].x = rnd();
        th[i].ops = 50 + (unsigned) rn(250);
        th[i].shared = s;
        th[i].sd = sd;
        th[i].ssize = sizeof(sd);
        th[i].spos = (u64) d.QuadPart;
        rnd_fill(th[i].d, sizeof(th[i].d));
    }
    for(i = 0; i < n; i++) {
        if(pthread_create(&th[i].id, NULL, sm_thread, &th[i]) != 0)
            mon_die("pthread_create");
    }
    for(i = 0; i < n; i++)
        pthread_join(th[i].id, NULL);
    pthread_barrier_destroy(&bar);
    OP("%llu threads with streams of their own", n);
    for(i = 0; i < n; i++) {
        CHECK(!th[i].bad, "a thread got a wrong result from its own stream (line %d)", th[i].bad);
        EVN("steps on own streams", th[i].done);
        EVAL(h3(ep, th[i].trace, th[i].done));
    }
    CHECK(IStream_AddRef(s) == 2 && IStream_Release(s) == 1, "the shared stream's count changed");
    d.QuadPart = 0;
    {
        ULARGE_INTEGER np;
        CHECK(IStream_Seek(s, d, STREAM_SEEK_CUR, &np) == S_OK && np.QuadPart == th[0].spos, "the shared stream's position changed");
    }
    CHECK(IStream_Release(s) == 0, "the shared stream's count changed");
#ifndef MON_NOWRAP
    CHECK(mon_heap.live == live0, "streams leak");
#endif
    EVN("thread runs", n);
}

const struct mon_mode mon_modes[] = {
    { "stream", mode_stream },
    { "bigstream", mode_bigstream },
    { "resource", mode_resource },
#ifndef MON_NOWRAP
    { "refs", mode_refs },
    { "memfault", mode_memfault },
#endif
    { "refsmt", mode_refsmt },
    { "streamsmt", mode_streamsmt },
    { NULL, NULL }
};
