#include "alone_value.c"
