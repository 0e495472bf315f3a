#include "nested.hpp"
using namespace nested;
#if NESTED_HERE & 1
NESTED("Signal", Nz::Signal<int*>)
NESTED("Result of Signal", Nz::Result<Emitter, std::string>)
#endif
#if NESTED_HERE & 2
NESTED("Signal with its guard", Emitter)
#endif
