/* Stands in for canon.c when it does not compile against the sources. */
#include "sim.h"
const char *canonOf(const void *value, size_t *len, unsigned *objects){ (void)value; *len = 0; *objects = 0; return ""; }
