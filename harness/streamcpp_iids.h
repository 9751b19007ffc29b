const IID IID_IUnknown = { 0x00000000, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IDispatch = { 0x00020400, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0x00, 0xaa, 0x00, 0x44, 0x77, 0x3d } };
const IID IID_IStream = { 0x0000000c, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IStorage = { 0x0000000b, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IMarshal = { 0x00000003, 0x0000, 0x0000, { 0xc0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IAgileObject = { 0x94ea2b94, 0xe9cc, 0x49e0, { 0xc0, 0xff, 0xee, 0x64, 0xca, 0x8f, 0x5b, 0x90 } };
const IID IID_NULL = { 0, 0, 0, { 0 } };

/* One resource. */
static const unsigned char res_bytes[] = "the bytes of a resource";
DWORD GetLastError(void) { return ERROR_RESOURCE_NAME_NOT_FOUND; }
void SetLastError(DWORD e) { (void) e; }
HRSRC FindResourceW(HMODULE i, LPCWSTR n, LPCWSTR t)
{
    return ((uintptr_t) i == 0x1000 && (uintptr_t) n == 0x2000 && (uintptr_t) t == 0x3000) ? (HRSRC) (uintptr_t) 0x4000 : NULL;
}
DWORD SizeofResource(HMODULE i, HRSRC r) { (void) i; (void) r; return sizeof(res_bytes); }
HGLOBAL LoadResource(HMODULE i, HRSRC r) { (void) i; (void) r; return (HGLOBAL) (uintptr_t) 0x5000; }
LPVOID LockResource(HGLOBAL g) { (void) g; return (void*) res_bytes; }
