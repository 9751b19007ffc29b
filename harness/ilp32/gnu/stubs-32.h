/* The C library here has no 32-bit part; nothing is a stub. */
