/* A stand-in for <objidl.h>. */
#ifndef SHIM_OBJIDL_H
#define SHIM_OBJIDL_H

#include <windows.h>

typedef struct tagSTATSTG {
    LPWSTR pwcsName;
    DWORD type;
    ULARGE_INTEGER cbSize;
    FILETIME mtime;
    FILETIME ctime;
    FILETIME atime;
    DWORD grfMode;
    DWORD grfLocksSupported;
    CLSID clsid;
    DWORD grfStateBits;
    DWORD reserved;
} STATSTG;

enum { STGTY_STORAGE = 1, STGTY_STREAM = 2, STGTY_LOCKBYTES = 3, STGTY_PROPERTY = 4 };
typedef enum tagSTREAM_SEEK { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 } STREAM_SEEK;
enum { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1 };
#define STGM_READ               0x00000000
#define STGM_WRITE              0x00000001
#define STGM_READWRITE          0x00000002
#define STGM_SHARE_DENY_NONE    0x00000040
#define STGM_SHARE_EXCLUSIVE    0x00000010
#define STGC_DEFAULT            0

typedef struct IStream IStream;
typedef struct IUnknown IUnknown;
typedef struct ISequentialStream ISequentialStream;

#ifdef __cplusplus
/* As C++ sees them: the same tables of functions, seen as virtual methods. */
struct IUnknown {
    virtual HRESULT STDMETHODCALLTYPE QueryInterface(REFIID riid, void** ppvObject) = 0;
    virtual ULONG STDMETHODCALLTYPE AddRef() = 0;
    virtual ULONG STDMETHODCALLTYPE Release() = 0;
};
struct ISequentialStream : public IUnknown {
    virtual HRESULT STDMETHODCALLTYPE Read(void* pv, ULONG cb, ULONG* pcbRead) = 0;
    virtual HRESULT STDMETHODCALLTYPE Write(const void* pv, ULONG cb, ULONG* pcbWritten) = 0;
};
struct IStream : public ISequentialStream {
    virtual HRESULT STDMETHODCALLTYPE Seek(LARGE_INTEGER dlibMove, DWORD dwOrigin, ULARGE_INTEGER* plibNewPosition) = 0;
    virtual HRESULT STDMETHODCALLTYPE SetSize(ULARGE_INTEGER libNewSize) = 0;
    virtual HRESULT STDMETHODCALLTYPE CopyTo(IStream* pstm, ULARGE_INTEGER cb, ULARGE_INTEGER* pcbRead, ULARGE_INTEGER* pcbWritten) = 0;
    virtual HRESULT STDMETHODCALLTYPE Commit(DWORD grfCommitFlags) = 0;
    virtual HRESULT STDMETHODCALLTYPE Revert() = 0;
    virtual HRESULT STDMETHODCALLTYPE LockRegion(ULARGE_INTEGER libOffset, ULARGE_INTEGER cb, DWORD dwLockType) = 0;
    virtual HRESULT STDMETHODCALLTYPE UnlockRegion(ULARGE_INTEGER libOffset, ULARGE_INTEGER cb, DWORD dwLockType) = 0;
    virtual HRESULT STDMETHODCALLTYPE Stat(STATSTG* pstatstg, DWORD grfStatFlag) = 0;
    virtual HRESULT STDMETHODCALLTYPE Clone(IStream** ppstm) = 0;
};
#else
typedef struct IStreamVtbl {
    HRESULT (STDMETHODCALLTYPE *QueryInterface)(IStream* This, REFIID riid, void** ppvObject);
    ULONG (STDMETHODCALLTYPE *AddRef)(IStream* This);
    ULONG (STDMETHODCALLTYPE *Release)(IStream* This);
    HRESULT (STDMETHODCALLTYPE *Read)(IStream* This, void* pv, ULONG cb, ULONG* pcbRead);
    HRESULT (STDMETHODCALLTYPE *Write)(IStream* This, const void* pv, ULONG cb, ULONG* pcbWritten);
    HRESULT (STDMETHODCALLTYPE *Seek)(IStream* This, LARGE_INTEGER dlibMove, DWORD dwOrigin, ULARGE_INTEGER* plibNewPosition);
    HRESULT (STDMETHODCALLTYPE *SetSize)(IStream* This, ULARGE_INTEGER libNewSize);
    HRESULT (STDMETHODCALLTYPE *CopyTo)(IStream* This, IStream* pstm, ULARGE_INTEGER cb, ULARGE_INTEGER* pcbRead, ULARGE_INTEGER* pcbWritten);
    HRESULT (STDMETHODCALLTYPE *Commit)(IStream* This, DWORD grfCommitFlags);
    HRESULT (STDMETHODCALLTYPE *Revert)(IStream* This);
    HRESULT (STDMETHODCALLTYPE *LockRegion)(IStream* This, ULARGE_INTEGER libOffset, ULARGE_INTEGER cb, DWORD dwLockType);
    HRESULT (STDMETHODCALLTYPE *UnlockRegion)(IStream* This, ULARGE_INTEGER libOffset, ULARGE_INTEGER cb, DWORD dwLockType);
    HRESULT (STDMETHODCALLTYPE *Stat)(IStream* This, STATSTG* pstatstg, DWORD grfStatFlag);
    HRESULT (STDMETHODCALLTYPE *Clone)(IStream* This, IStream** ppstm);
} IStreamVtbl;

struct IStream { IStreamVtbl* lpVtbl; };

#define IStream_QueryInterface(s, i, o)         ((s)->lpVtbl->QueryInterface((s), (i), (o)))
#define IStream_AddRef(s)                       ((s)->lpVtbl->AddRef(s))
#define IStream_Release(s)                      ((s)->lpVtbl->Release(s))
#define IStream_Read(s, p, n, r)                ((s)->lpVtbl->Read((s), (p), (n), (r)))
#define IStream_Write(s, p, n, w)               ((s)->lpVtbl->Write((s), (p), (n), (w)))
#define IStream_Seek(s, d, o, n)                ((s)->lpVtbl->Seek((s), (d), (o), (n)))
#define IStream_SetSize(s, n)                   ((s)->lpVtbl->SetSize((s), (n)))
#define IStream_CopyTo(s, o, n, r, w)           ((s)->lpVtbl->CopyTo((s), (o), (n), (r), (w)))
#define IStream_Commit(s, f)                    ((s)->lpVtbl->Commit((s), (f)))
#define IStream_Revert(s)                       ((s)->lpVtbl->Revert(s))
#define IStream_LockRegion(s, o, n, t)          ((s)->lpVtbl->LockRegion((s), (o), (n), (t)))
#define IStream_UnlockRegion(s, o, n, t)        ((s)->lpVtbl->UnlockRegion((s), (o), (n), (t)))
#define IStream_Stat(s, p, f)                   ((s)->lpVtbl->Stat((s), (p), (f)))
#define IStream_Clone(s, o)                     ((s)->lpVtbl->Clone((s), (o)))
#endif

#ifdef __cplusplus
static inline int IsEqualGUID(REFGUID a, REFGUID b) { return memcmp(&a, &b, sizeof(GUID)) == 0; }
extern "C" {
#else
static inline int IsEqualGUID(REFGUID a, REFGUID b) { return memcmp(a, b, sizeof(GUID)) == 0; }
#endif
#define InlineIsEqualGUID   IsEqualGUID
#define IsEqualIID(a, b)    IsEqualGUID((a), (b))
#define IsEqualCLSID(a, b)  IsEqualGUID((a), (b))

extern const IID IID_IUnknown;
extern const IID IID_IDispatch;
extern const IID IID_ISequentialStream;
extern const IID IID_IStream;
extern const IID IID_IStorage;
extern const IID IID_IMarshal;
extern const IID IID_IAgileObject;
extern const IID IID_NULL;
#define GUID_NULL   IID_NULL
#ifdef __cplusplus
}
#endif

#endif
