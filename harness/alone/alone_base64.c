#include "base64.h"
#include "base64.h"
#include "alone.h"
ALONE(base64)
{
    static const BASE64_OPTIONS o = { '-', '_', 0 };
    char a[8];
    WRONG(base64_encode("\xff\xff", 2, a, 8, &o) == 3 && a[0] == '_' && a[2] == '8' && base64_encode("x", 1, a, 8, ZERO) == 4);
    WRONG(base64_decode("__8", 3, a, 8, &o) == 2 && a[0] == (char) 0xff);
    return 0;
}
