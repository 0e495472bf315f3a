#include "vechist.hpp"
using namespace vec;
PBT_TARGET("FixedVector<int, 4>", 240000, &history<FixedKind<int, 4>, int>)
PBT_TARGET("FixedVector<uint8_t, 1>", 90000, &history<FixedKind<std::uint8_t, 1>, std::uint8_t>)
PBT_TARGET("FixedVector<uint64_t, 7>", 150000, &history<FixedKind<std::uint64_t, 7>, std::uint64_t>)
PBT_TARGET("FixedVector<std::string, 5>", 180000, &history<FixedKind<std::string, 5>, std::string>)
PBT_TARGET("FixedVector<std::unique_ptr, 3>", 120000, &history<FixedKind<std::unique_ptr<int>, 3>, std::unique_ptr<int>>)
PBT_TARGET("FixedVector<no default constructor, 4>", 120000, &history<FixedKind<Rigid, 4>, Rigid>)
// capacities past what 8 and 16 bits count
PBT_TARGET("FixedVector<int, 300>", 2400, &history<FixedKind<int, 300>, int>)
PBT_TARGET("FixedVector<std::string, 256>", 1200, &history<FixedKind<std::string, 256>, std::string>)
PBT_TARGET("FixedVector<uint8_t, 66000>", 120, &history<FixedKind<std::uint8_t, 66000>, std::uint8_t>)
