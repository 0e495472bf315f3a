#include "nested.hpp"
using namespace nested;
#if NESTED_HERE & 1
NESTED("Result", Nz::Result<std::string, int>)
NESTED("Result of void", Nz::Result<void, std::string>)
#endif
#if NESTED_HERE & 2
NESTED("Result of move-only objects", Nz::Result<std::unique_ptr<int>, std::string>)
NESTED("Result of HybridVector of Result", Nz::Result<Nz::HybridVector<Nz::Result<std::string, int>, 2>, Nz::Bitset<>>)
#endif
