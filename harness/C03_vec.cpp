#define BITSET_VEC
#include "C03_body.inc"
