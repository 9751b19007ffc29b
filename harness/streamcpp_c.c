#include "memstream.h"
#include "memstream.h"
#include "streamcpp.h"

#define S   ((IStream*) s)
static uint32_t c_create(const unsigned char* d, uint32_t n, void** s) { IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = memstream_create(d, n, &p); *s = p; return (uint32_t) r; }
static uint32_t c_create_res(uintptr_t i, uintptr_t t, uintptr_t n, void** s)
{ IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = memstream_create_from_resource((HINSTANCE) i, (const WCHAR*) t, (const WCHAR*) n, &p); *s = p; return (uint32_t) r; }
static uint32_t c_query(void* s, int k, void** o) { return (uint32_t) S->lpVtbl->QueryInterface(S, stream_iids[k], o); }
static uint32_t c_addref(void* s) { return S->lpVtbl->AddRef(S); }
static uint32_t c_release(void* s) { return S->lpVtbl->Release(S); }
static uint32_t c_read(void* s, void* p, uint32_t n, uint32_t* r) { return (uint32_t) S->lpVtbl->Read(S, p, n, r); }
static uint32_t c_write(void* s, const void* p, uint32_t n, uint32_t* r) { return (uint32_t) S->lpVtbl->Write(S, p, n, r); }
static uint32_t c_seek(void* s, int64_t d, uint32_t o, uint64_t* np)
{ LARGE_INTEGER x; ULARGE_INTEGER y; HRESULT r; x.QuadPart = d; y.QuadPart = 0xeeee; r = S->lpVtbl->Seek(S, x, o, &y); *np = y.QuadPart; return (uint32_t) r; }
static uint32_t c_set_size(void* s, uint64_t n) { ULARGE_INTEGER x; x.QuadPart = n; return (uint32_t) S->lpVtbl->SetSize(S, x); }
static uint32_t c_commit(void* s) { return (uint32_t) S->lpVtbl->Commit(S, STGC_DEFAULT); }
static uint32_t c_revert(void* s) { return (uint32_t) S->lpVtbl->Revert(S); }
static uint32_t c_lock(void* s, uint64_t f, uint64_t n) { ULARGE_INTEGER x, y; x.QuadPart = f; y.QuadPart = n; return (uint32_t) S->lpVtbl->LockRegion(S, x, y, 1); }
static uint32_t c_unlock(void* s, uint64_t f, uint64_t n) { ULARGE_INTEGER x, y; x.QuadPart = f; y.QuadPart = n; return (uint32_t) S->lpVtbl->UnlockRegion(S, x, y, 1); }
static uint32_t c_stat(void* s, uint32_t* t, uint64_t* n)
{ STATSTG st; HRESULT r; memset(&st, 0xee, sizeof(st)); r = S->lpVtbl->Stat(S, &st, STATFLAG_NONAME); *t = st.type; *n = st.cbSize.QuadPart; return (uint32_t) r; }
static uint32_t c_clone(void* s, void** c) { IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = S->lpVtbl->Clone(S, &p); *c = p; return (uint32_t) r; }

typedef struct { IStream i; INTO* k; } CSINK;
static HRESULT cs_query(IStream* s, REFIID r, void** o) { (void) s; (void) r; *o = NULL; return E_NOINTERFACE; }
static ULONG cs_addref(IStream* s) { (void) s; return 2; }
static ULONG cs_release(IStream* s) { (void) s; return 1; }
static HRESULT cs_read(IStream* s, void* p, ULONG n, ULONG* r) { (void) s; (void) p; (void) n; if(r) *r = 0; return STG_E_ACCESSDENIED; }
static HRESULT cs_write(IStream* s, const void* p, ULONG n, ULONG* w) { return into_write(((CSINK*) s)->k, p, n, w); }
static uint32_t c_copyto(void* s, INTO* k, uint64_t n, uint64_t* r, uint64_t* w)
{
    static IStreamVtbl v = { .QueryInterface = cs_query, .AddRef = cs_addref, .Release = cs_release, .Read = cs_read, .Write = cs_write };
    CSINK cs;
    ULARGE_INTEGER a, x, y;
    HRESULT hr;
    cs.i.lpVtbl = &v; cs.k = k;
    a.QuadPart = n; x.QuadPart = y.QuadPart = 0xeeee;
    hr = S->lpVtbl->CopyTo(S, &cs.i, a, &x, &y);
    *r = x.QuadPart; *w = y.QuadPart;
    return (uint32_t) hr;
}

const SIDE side_c = { c_create, c_create_res, c_query, c_addref, c_release, c_read, c_write, c_seek, c_set_size, c_copyto, c_commit,
                      c_revert, c_lock, c_unlock, c_stat, c_clone, "C" };
