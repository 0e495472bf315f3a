#include "nested.hpp"
using namespace nested;
#if NESTED_HERE & 1
NESTED("HybridVector of move-only objects", Nz::HybridVector<std::unique_ptr<int>, 2>)
#endif
#if NESTED_HERE & 2
NESTED("FixedVector of strings", Nz::FixedVector<std::string, 3>)
NESTED("HybridVector of FixedVector of Bitset", Nz::HybridVector<Nz::FixedVector<Nz::Bitset<>, 2>, 1>)
#endif
