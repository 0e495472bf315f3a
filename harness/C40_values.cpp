#include "nested.hpp"
using namespace nested;
#if NESTED_HERE & 1
NESTED("EnumArray", Nz::EnumArray<K3, std::string>)
NESTED("MovablePtr and MovableLiteral", Owner)
NESTED("SparsePtr and FunctionRef", Views)
#endif
#if NESTED_HERE & 2
NESTED("EnumArray of PrivateImpl", Nz::EnumArray<K3, Nz::HybridVector<std::unique_ptr<int>, 1>>)
NESTED("MovableValue", Nz::MovableValue<std::string>)
#endif
