#define BITSET_VEC
#include "C02_body.inc"
