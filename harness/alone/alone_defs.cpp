#include "alone_defs.c"
