#include "alone_fnv1a.c"
