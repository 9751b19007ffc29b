#include "hex.h"
#include "hex.h"
#include "alone.h"
ALONE(hex)
{
    char a[8];
    WRONG(hex_encode("\xff\x01", 2, a, 8, 1) == 4 && a[0] == 'f' && a[3] == '1');
    WRONG(hex_decode("41", 2, a, 8) == 1 && a[0] == 0x41);
    return 0;
}
