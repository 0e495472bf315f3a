#include "nested.hpp"
using namespace nested;
#if NESTED_HERE & 1
NESTED("PrivateImpl", Nz::PrivateImpl<Nz::FixedVector<std::string, 2>>)
#endif
#if NESTED_HERE & 2
NESTED("MemoryPool", Pool)
NESTED("PrivateImpl in place", Nz::PrivateImpl<Nz::Bitset<>, 48>)
#endif
