#define BITSET_HYBRID
#include "C04_body.inc"
