#include "poolhist.hpp"
using namespace pool;
PBT_TARGET("MemoryPool<pair of int>", 60000, &history<Pair>)
PBT_TARGET("MemoryPool<byte, aligned on 16>", 40000, &history<Byte, 16>)
PBT_TARGET("MemoryPool<pair of int, aligned on 64>", 30000, &history<Pair, 64>)
PBT_TARGET("MemoryPool<over-aligned>", 30000, &history<Wide>)
PBT_TARGET("MemoryPool<std::string>", 50000, &history<std::string>)
PBT_TARGET("large MemoryPool<pair of int>", 900, &history<Pair, alignof(Pair), false, Scale::Large>)
PBT_TARGET("large MemoryPool<over-aligned>", 600, &history<Wide, alignof(Wide), false, Scale::Large>)
PBT_TARGET("huge MemoryPool<byte>", 30, &history<Byte, 1, false, Scale::Huge>)
