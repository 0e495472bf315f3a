#define BITSET_HYBRID
#include "C02_body.inc"
