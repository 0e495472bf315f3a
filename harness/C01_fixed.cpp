#define BITSET_FIXED
#include "C01_body.inc"
