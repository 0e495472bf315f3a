#include "vechist.hpp"
using namespace vec;
PBT_TARGET("HybridVector<int, 4>", 240000, &history<HybridKind<int, 4>, int>)
PBT_TARGET("HybridVector<uint16_t, 1>", 90000, &history<HybridKind<std::uint16_t, 1>, std::uint16_t>)
PBT_TARGET("HybridVector<std::string, 3>", 240000, &history<HybridKind<std::string, 3>, std::string>)
PBT_TARGET("HybridVector<std::unique_ptr, 2>", 120000, &history<HybridKind<std::unique_ptr<int>, 2>, std::unique_ptr<int>>)
PBT_TARGET("HybridVector<no default constructor, 3>", 120000, &history<HybridKind<Rigid, 3>, Rigid>)
// capacities past what 8 and 16 bits count
PBT_TARGET("HybridVector<int, 300>", 2400, &history<HybridKind<int, 300>, int>)
PBT_TARGET("HybridVector<std::string, 130>", 1200, &history<HybridKind<std::string, 130>, std::string>)
PBT_TARGET("HybridVector<uint16_t, 33000>", 120, &history<HybridKind<std::uint16_t, 33000>, std::uint16_t>)
