#define BITSET_HYBRID
#include "C03_body.inc"
