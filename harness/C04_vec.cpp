#define BITSET_VEC
#include "C04_body.inc"
