#include "nested.hpp"
#if NESTED_HERE & 1
NESTED("Bitset", Nz::Bitset<>)
NESTED("HybridBitset", Nz::HybridBitset<std::uint8_t, 8>)
#endif
#if NESTED_HERE & 2
NESTED("FixedBitset", Nz::FixedBitset<std::uint16_t, 40>)
#endif
