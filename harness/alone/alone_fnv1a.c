#include "fnv1a.h"
#include "fnv1a.h"
#include "alone.h"
ALONE(fnv1a)
{
    uint32_t a = fnv1a_32(FNV1A_BASE_32, "a", 1);
    uint64_t b = fnv1a_64(FNV1A_BASE_64, "a", 1);
    WRONG(a == 0xe40c292cu && (uint32_t) (b >> 32) == 0xaf63dc4cu && (uint32_t) b == 0x8601ec8cu);
    return 0;
}
