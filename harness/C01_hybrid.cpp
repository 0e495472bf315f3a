#define BITSET_HYBRID
#include "C01_body.inc"
