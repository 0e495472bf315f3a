#define BITSET_FIXED
#include "C02_body.inc"
