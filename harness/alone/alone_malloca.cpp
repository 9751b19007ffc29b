#include "alone_malloca.c"
