#include "alone_order.c"
