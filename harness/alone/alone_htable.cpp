#include "alone_htable.c"
