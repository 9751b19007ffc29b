#define PART(x) partly2_##x
#include "defs_partly.c"
