#include "alone_list.c"
