/* A stand-in for <windows.h>: just what a memory stream can need, with the
 * sizes of types as on Windows. */
#ifndef SHIM_WINDOWS_H
#define SHIM_WINDOWS_H

#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sched.h>

typedef uint8_t BYTE;
typedef BYTE* LPBYTE;
typedef uint8_t UCHAR;
typedef uint16_t WORD;
typedef uint16_t USHORT;
typedef uint32_t DWORD;
typedef int32_t LONG;
typedef uint32_t ULONG;
typedef int32_t INT;
typedef uint32_t UINT;
typedef int32_t INT32;
typedef uint32_t UINT32;
typedef int64_t INT64;
typedef uint64_t UINT64;
typedef int64_t LONGLONG;
typedef uint64_t ULONGLONG;
typedef int64_t LONG64;
typedef uint64_t ULONG64;
typedef uint64_t DWORD64;
typedef int32_t BOOL;
typedef char CHAR;
typedef uint16_t WCHAR;
typedef WCHAR* LPWSTR;
typedef const WCHAR* LPCWSTR;
typedef void* LPVOID;
typedef void* PVOID;
typedef const void* LPCVOID;
typedef size_t SIZE_T;
typedef uintptr_t ULONG_PTR;
typedef intptr_t LONG_PTR;
typedef uintptr_t UINT_PTR;
typedef intptr_t INT_PTR;
typedef uintptr_t DWORD_PTR;
typedef int32_t HRESULT;
typedef struct shim_instance* HINSTANCE;
typedef HINSTANCE HMODULE;
typedef struct shim_res* HRSRC;
typedef void* HGLOBAL;
typedef void* HANDLE;

typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME;

typedef struct _GUID { uint32_t Data1; uint16_t Data2; uint16_t Data3; uint8_t Data4[8]; } GUID;
typedef GUID IID;
typedef GUID CLSID;
#ifdef __cplusplus
typedef const GUID& REFIID;
typedef const GUID& REFGUID;
typedef const GUID& REFCLSID;
#else
typedef const GUID* REFIID;
typedef const GUID* REFGUID;
typedef const GUID* REFCLSID;
#endif

#ifndef TRUE
    #define TRUE    1
    #define FALSE   0
#endif
#define CONST       const
#define VOID        void
#define WINAPI
#define CALLBACK
#define APIENTRY
#define STDMETHODCALLTYPE
#define STDAPICALLTYPE
#define STDMETHODIMP    HRESULT STDMETHODCALLTYPE
#define UNREFERENCED_PARAMETER(x)   ((void) (x))

#define MAXDWORD    0xffffffffu
#define MAXULONG    0xffffffffu
#undef ULONG_MAX
#define ULONG_MAX   0xffffffffu
#undef LONG_MAX
#define LONG_MAX    0x7fffffff
#undef LONG_MIN
#define LONG_MIN    (-0x7fffffff - 1)
#define ULONGLONG_MAX   0xffffffffffffffffull
#define LONGLONG_MAX    0x7fffffffffffffffll
#define LONGLONG_MIN    (-0x7fffffffffffffffll - 1)
#ifndef min
    #define min(a, b)   (((a) < (b)) ? (a) : (b))
    #define max(a, b)   (((a) > (b)) ? (a) : (b))
#endif

#define S_OK                        ((HRESULT) 0)
#define S_FALSE                     ((HRESULT) 1)
#define E_NOTIMPL                   ((HRESULT) 0x80004001)
#define E_NOINTERFACE               ((HRESULT) 0x80004002)
#define E_POINTER                   ((HRESULT) 0x80004003)
#define E_ABORT                     ((HRESULT) 0x80004004)
#define E_FAIL                      ((HRESULT) 0x80004005)
#define E_UNEXPECTED                ((HRESULT) 0x8000ffff)
#define E_ACCESSDENIED              ((HRESULT) 0x80070005)
#define E_OUTOFMEMORY               ((HRESULT) 0x8007000e)
#define E_INVALIDARG                ((HRESULT) 0x80070057)
#define STG_E_INVALIDFUNCTION       ((HRESULT) 0x80030001)
#define STG_E_FILENOTFOUND          ((HRESULT) 0x80030002)
#define STG_E_ACCESSDENIED          ((HRESULT) 0x80030005)
#define STG_E_INSUFFICIENTMEMORY    ((HRESULT) 0x80030008)
#define STG_E_INVALIDPOINTER        ((HRESULT) 0x80030009)
#define STG_E_SEEKERROR             ((HRESULT) 0x80030019)
#define STG_E_WRITEFAULT            ((HRESULT) 0x8003001d)
#define STG_E_READFAULT             ((HRESULT) 0x8003001e)
#define STG_E_INVALIDPARAMETER      ((HRESULT) 0x80030057)
#define STG_E_MEDIUMFULL            ((HRESULT) 0x80030070)
#define STG_E_INVALIDFLAG           ((HRESULT) 0x800300ff)
#define STG_E_CANTSAVE              ((HRESULT) 0x80030103)
#define STG_E_REVERTED              ((HRESULT) 0x80030102)
#define STG_E_LOCKVIOLATION         ((HRESULT) 0x80030021)
#define STG_E_NOMOREFILES           ((HRESULT) 0x80030012)
#define STG_E_UNIMPLEMENTEDFUNCTION ((HRESULT) 0x800300fe)
#define STG_E_INVALIDHANDLE         ((HRESULT) 0x80030006)
#define E_HANDLE                    ((HRESULT) 0x80070006)
#define E_PENDING                   ((HRESULT) 0x8000000a)
#define E_BOUNDS                    ((HRESULT) 0x8000000b)
#define NOERROR                     0
#define SUCCEEDED(hr)               ((HRESULT) (hr) >= 0)
#define FAILED(hr)                  ((HRESULT) (hr) < 0)

#define ERROR_SUCCESS                   0
#define NO_ERROR                        0
#define ERROR_INVALID_FUNCTION          1
#define ERROR_FILE_NOT_FOUND            2
#define ERROR_ACCESS_DENIED             5
#define ERROR_INVALID_HANDLE            6
#define ERROR_NOT_ENOUGH_MEMORY         8
#define ERROR_INVALID_DATA              13
#define ERROR_OUTOFMEMORY               14
#define ERROR_SEEK                      25
#define ERROR_WRITE_FAULT               29
#define ERROR_READ_FAULT                30
#define ERROR_GEN_FAILURE               31
#define ERROR_HANDLE_EOF                38
#define ERROR_NOT_SUPPORTED             50
#define ERROR_INVALID_PARAMETER         87
#define ERROR_INSUFFICIENT_BUFFER       122
#define ERROR_NEGATIVE_SEEK             131
#define ERROR_SEEK_ON_DEVICE            132
#define ERROR_MORE_DATA                 234
#define ERROR_ARITHMETIC_OVERFLOW       534
#define ERROR_RESOURCE_TYPE_NOT_FOUND   1813
#define ERROR_RESOURCE_DATA_NOT_FOUND   1812
#define ERROR_RESOURCE_NAME_NOT_FOUND   1814
#define FACILITY_WIN32                  7
#define HRESULT_FROM_WIN32(x)           shim_hresult((DWORD) (x))
static inline HRESULT shim_hresult(DWORD x)
{ return ((HRESULT) x <= 0) ? (HRESULT) x : (HRESULT) ((x & 0xffff) | (FACILITY_WIN32 << 16) | 0x80000000u); }

#define InterlockedIncrement(p)                 __sync_add_and_fetch((p), 1)
#define InterlockedDecrement(p)                 __sync_sub_and_fetch((p), 1)
#define InterlockedExchange(p, v)               __atomic_exchange_n((p), (v), __ATOMIC_SEQ_CST)
#define InterlockedExchangeAdd(p, v)            __sync_fetch_and_add((p), (v))
#define InterlockedAdd(p, v)                    __sync_add_and_fetch((p), (v))
#define InterlockedCompareExchange(p, x, c)     __sync_val_compare_and_swap((p), (c), (x))
#define InterlockedOr(p, v)                     __sync_fetch_and_or((p), (v))
#define InterlockedAnd(p, v)                    __sync_fetch_and_and((p), (v))
#define MemoryBarrier()                         __sync_synchronize()
#define YieldProcessor()                        sched_yield()

#define CopyMemory(d, s, n)     memcpy((d), (s), (n))
#define MoveMemory(d, s, n)     memmove((d), (s), (n))
#define ZeroMemory(d, n)        memset((d), 0, (n))
#define FillMemory(d, n, c)     memset((d), (c), (n))

#define GetProcessHeap()            ((HANDLE) 0)
#define HEAP_ZERO_MEMORY            8
#define HeapAlloc(h, f, n)          (((f) & HEAP_ZERO_MEMORY) ? calloc(1, (n)) : malloc(n))
#define HeapFree(h, f, p)           (free(p), TRUE)
#define CoTaskMemAlloc(n)           malloc(n)
#define CoTaskMemFree(p)            free(p)

#define RtlCopyMemory           CopyMemory
#define RtlMoveMemory           MoveMemory
#define RtlZeroMemory           ZeroMemory
#define SecureZeroMemory        ZeroMemory
#define HeapReAlloc(h, f, p, n) realloc((p), (n))
#define LocalAlloc(f, n)        (((f) & 0x40) ? calloc(1, (n)) : malloc(n))
#define LocalFree(p)            (free(p), (HANDLE) 0)
#define CoTaskMemRealloc(p, n)  realloc((p), (n))
#define ARRAYSIZE(a)            (sizeof(a) / sizeof((a)[0]))
#define FIELD_OFFSET(t, f)      ((LONG) offsetof(t, f))
#define CONTAINING_RECORD(p, t, f)  ((t*) ((char*) (p) - offsetof(t, f)))
#define C_ASSERT(e)             _Static_assert((e), #e)
#define MAXLONG                 0x7fffffff
#define MAXLONGLONG             0x7fffffffffffffffll
#define MAXUINT                 0xffffffffu
#define FORCEINLINE             static inline
#define InterlockedIncrementNoFence     InterlockedIncrement
#define InterlockedIncrementAcquire     InterlockedIncrement
#define InterlockedIncrementRelease     InterlockedIncrement
#define InterlockedDecrementNoFence     InterlockedDecrement
#define InterlockedDecrementAcquire     InterlockedDecrement
#define InterlockedDecrementRelease     InterlockedDecrement
#define InterlockedCompareExchangeAcquire   InterlockedCompareExchange
#define InterlockedCompareExchangeRelease   InterlockedCompareExchange
#define _InterlockedIncrement           InterlockedIncrement
#define _InterlockedDecrement           InterlockedDecrement
#define _InterlockedExchangeAdd         InterlockedExchangeAdd
#define _InterlockedCompareExchange     InterlockedCompareExchange
#define ReadAcquire(p)                  __atomic_load_n((p), __ATOMIC_ACQUIRE)
#define ReadNoFence(p)                  __atomic_load_n((p), __ATOMIC_RELAXED)
#define WriteRelease(p, v)              __atomic_store_n((p), (v), __ATOMIC_RELEASE)
#define _In_
#define _Out_
#define _Inout_
#define _In_opt_
#define _Out_opt_
#define __int64                 long long

#ifdef __cplusplus
extern "C" {
#endif
DWORD GetLastError(void);
void SetLastError(DWORD err);
HRSRC FindResourceW(HMODULE instance, LPCWSTR name, LPCWSTR type);
DWORD SizeofResource(HMODULE instance, HRSRC res);
HGLOBAL LoadResource(HMODULE instance, HRSRC res);
LPVOID LockResource(HGLOBAL res);
#ifdef __cplusplus
}
#endif
#define UnlockResource(r)   (0)
#define FreeResource(r)     (0)

#endif
