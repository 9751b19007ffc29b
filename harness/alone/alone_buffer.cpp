#include "alone_buffer.c"
