#include "alone_rbtree.c"
