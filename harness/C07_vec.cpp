#include "vechist.hpp"
using namespace vec;
using obj::Opt; using obj::Tracked;
using All = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove>;
using Slow = Tracked<Opt::Copy | Opt::Default>;
using MoveOnly = Tracked<Opt::Default>;
PBT_TARGET("faults: FixedVector<tracked, 4>", 360000, &history<FixedKind<All, 4>, All, true>)
PBT_TARGET("faults: FixedVector<tracked throwing move, 4>", 300000, &history<FixedKind<Slow, 4>, Slow, true>)
PBT_TARGET("faults: FixedVector<tracked move-only, 3>", 180000, &history<FixedKind<MoveOnly, 3>, MoveOnly, true>)
PBT_TARGET("faults: FixedVector<tracked, 260>", 1200, &history<FixedKind<All, 260>, All, true>)
PBT_TARGET("faults: HybridVector<tracked, 130>", 1200, &history<HybridKind<All, 130>, All, true>)
PBT_TARGET("faults: HybridVector<tracked, 4>", 360000, &history<HybridKind<All, 4>, All, true>)
PBT_TARGET("faults: HybridVector<tracked throwing move, 3>", 300000, &history<HybridKind<Slow, 3>, Slow, true>)
PBT_TARGET("faults: HybridVector<tracked move-only, 2>", 180000, &history<HybridKind<MoveOnly, 2>, MoveOnly, true>)
