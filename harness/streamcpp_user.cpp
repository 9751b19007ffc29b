#include "memstream.h"
#include "memstream.h"
#include "streamcpp.h"

#define S   ((IStream*) s)
static uint32_t c_create(const unsigned char* d, uint32_t n, void** s) { IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = memstream_create(d, n, &p); *s = p; return (uint32_t) r; }
static uint32_t c_create_res(uintptr_t i, uintptr_t t, uintptr_t n, void** s)
{ IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = memstream_create_from_resource((HINSTANCE) i, (const WCHAR*) t, (const WCHAR*) n, &p); *s = p; return (uint32_t) r; }
static uint32_t c_query(void* s, int k, void** o) { return (uint32_t) S->QueryInterface(*stream_iids[k], o); }
static uint32_t c_addref(void* s) { return S->AddRef(); }
static uint32_t c_release(void* s) { return S->Release(); }
static uint32_t c_read(void* s, void* p, uint32_t n, uint32_t* r) { return (uint32_t) S->Read(p, n, r); }
static uint32_t c_write(void* s, const void* p, uint32_t n, uint32_t* r) { return (uint32_t) S->Write(p, n, r); }
static uint32_t c_seek(void* s, int64_t d, uint32_t o, uint64_t* np)
{ LARGE_INTEGER x; ULARGE_INTEGER y; HRESULT r; x.QuadPart = d; y.QuadPart = 0xeeee; r = S->Seek(x, o, &y); *np = y.QuadPart; return (uint32_t) r; }
static uint32_t c_set_size(void* s, uint64_t n) { ULARGE_INTEGER x; x.QuadPart = n; return (uint32_t) S->SetSize(x); }
static uint32_t c_commit(void* s) { return (uint32_t) S->Commit(STGC_DEFAULT); }
static uint32_t c_revert(void* s) { return (uint32_t) S->Revert(); }
static uint32_t c_lock(void* s, uint64_t f, uint64_t n) { ULARGE_INTEGER x, y; x.QuadPart = f; y.QuadPart = n; return (uint32_t) S->LockRegion(x, y, 1); }
static uint32_t c_unlock(void* s, uint64_t f, uint64_t n) { ULARGE_INTEGER x, y; x.QuadPart = f; y.QuadPart = n; return (uint32_t) S->UnlockRegion(x, y, 1); }
static uint32_t c_stat(void* s, uint32_t* t, uint64_t* n)
{ STATSTG st; HRESULT r; memset(&st, 0xee, sizeof(st)); r = S->Stat(&st, STATFLAG_NONAME); *t = st.type; *n = st.cbSize.QuadPart; return (uint32_t) r; }
static uint32_t c_clone(void* s, void** c) { IStream* p = (IStream*) (uintptr_t) 1; HRESULT r = S->Clone(&p); *c = p; return (uint32_t) r; }

/* A stream implemented in C++. */
struct CppSink : public IStream {
    INTO* k;
    HRESULT QueryInterface(REFIID, void** o) { *o = NULL; return E_NOINTERFACE; }
    ULONG AddRef() { return 2; }
    ULONG Release() { return 1; }
    HRESULT Read(void*, ULONG, ULONG* r) { if(r) *r = 0; return STG_E_ACCESSDENIED; }
    HRESULT Write(const void* p, ULONG n, ULONG* w) { return into_write(k, p, n, w); }
    HRESULT Seek(LARGE_INTEGER, DWORD, ULARGE_INTEGER*) { return E_NOTIMPL; }
    HRESULT SetSize(ULARGE_INTEGER) { return S_OK; }
    HRESULT CopyTo(IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*) { return E_NOTIMPL; }
    HRESULT Commit(DWORD) { return S_OK; }
    HRESULT Revert() { return S_OK; }
    HRESULT LockRegion(ULARGE_INTEGER, ULARGE_INTEGER, DWORD) { return E_NOTIMPL; }
    HRESULT UnlockRegion(ULARGE_INTEGER, ULARGE_INTEGER, DWORD) { return E_NOTIMPL; }
    HRESULT Stat(STATSTG*, DWORD) { return E_NOTIMPL; }
    HRESULT Clone(IStream**) { return E_NOTIMPL; }
};
static uint32_t c_copyto(void* s, INTO* k, uint64_t n, uint64_t* r, uint64_t* w)
{
    CppSink cs;
    ULARGE_INTEGER a, x, y;
    HRESULT hr;
    cs.k = k;
    a.QuadPart = n; x.QuadPart = y.QuadPart = 0xeeee;
    hr = S->CopyTo(&cs, a, &x, &y);
    *r = x.QuadPart; *w = y.QuadPart;
    return (uint32_t) hr;
}

extern "C" const SIDE side_cpp = { c_create, c_create_res, c_query, c_addref, c_release, c_read, c_write, c_seek, c_set_size, c_copyto,
                                   c_commit, c_revert, c_lock, c_unlock, c_stat, c_clone, "C++" };
