#define BITSET_VEC
#include "C01_body.inc"
