#include "alone_cmdline.c"
