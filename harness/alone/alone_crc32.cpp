#include "alone_crc32.c"
