#define BITSET_FIXED
#include "C04_body.inc"
