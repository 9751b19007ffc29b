#include "alone_memchunk.c"
