#include "alone_hex.c"
