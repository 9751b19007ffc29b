/* What C and C++ do with memory streams alike; see h_streamcpp.c.
 *
 * Included by one C and one C++ unit, after memstream.h (which comes first and
 * twice, as it has to need nothing else). Results are plain numbers. */
#include <stdint.h>
#include <stddef.h>

/* Where a stream is copied into. */
typedef struct INTO { unsigned char* to; uint64_t room; uint64_t got; uint32_t cap; int fail; uint32_t calls; } INTO;

typedef struct SIDE {
    uint32_t (*create)(const unsigned char* d, uint32_t n, void** s);
    uint32_t (*create_res)(uintptr_t instance, uintptr_t type, uintptr_t name, void** s);
    uint32_t (*query)(void* s, int kind, void** o);     /* 0 IUnknown, 1 ISequentialStream, 2 IStream, 3 IStorage */
    uint32_t (*addref)(void* s);
    uint32_t (*release)(void* s);
    uint32_t (*read)(void* s, void* p, uint32_t n, uint32_t* r);
    uint32_t (*write)(void* s, const void* p, uint32_t n, uint32_t* r);
    uint32_t (*seek)(void* s, int64_t d, uint32_t origin, uint64_t* np);
    uint32_t (*set_size)(void* s, uint64_t n);
    uint32_t (*copyto)(void* s, INTO* k, uint64_t n, uint64_t* r, uint64_t* w);
    uint32_t (*commit)(void* s);
    uint32_t (*revert)(void* s);
    uint32_t (*lock)(void* s, uint64_t from, uint64_t n);
    uint32_t (*unlock)(void* s, uint64_t from, uint64_t n);
    uint32_t (*stat)(void* s, uint32_t* type, uint64_t* size);
    uint32_t (*clone)(void* s, void** c);
    const char* name;
} SIDE;

#ifdef __cplusplus
extern "C" const SIDE side_cpp;
#else
extern const SIDE side_c;
#endif

static const IID* const stream_iids[] = { &IID_IUnknown, &IID_ISequentialStream, &IID_IStream, &IID_IStorage };

/* The body of Write() of the stream copied into. */
static HRESULT
into_write(INTO* k, const void* p, ULONG n, ULONG* w)
{
    k->calls++;
    if(k->fail) {
        if(w != NULL) *w = 0;
        return E_FAIL;
    }
    if(n > k->cap)
        n = k->cap;
    if(n > k->room - k->got)
        n = (ULONG) (k->room - k->got + 1);     /* (Seen by the caller as too much.) */
    else if(n > 0)
        memcpy(k->to + k->got, p, n);
    k->got += n;
    if(w != NULL) *w = n;
    return S_OK;
}
