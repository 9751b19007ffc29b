#include "crc32.h"
#include "crc32.h"
#include "alone.h"
ALONE(crc32)
{
    uint32_t c = crc32("123456789", 9);
    WRONG(c == 0xcbf43926u);
    return 0;
}
