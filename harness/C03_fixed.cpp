#define BITSET_FIXED
#include "C03_body.inc"
