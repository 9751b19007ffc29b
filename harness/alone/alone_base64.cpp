#include "alone_base64.c"
