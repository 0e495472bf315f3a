#include "vechist.hpp"
using namespace vec;
using obj::Opt; using obj::Tracked;
using All = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove>;
using AllAligned = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove | Opt::Align>;
using MoveOnly = Tracked<Opt::NothrowMove>;
using MoveOnlyDefault = Tracked<Opt::NothrowMove | Opt::Default>;
using Slow = Tracked<Opt::Copy | Opt::Default>;
PBT_TARGET("FixedVector<tracked, 4>", 240000, &history<FixedKind<All, 4>, All>)
PBT_TARGET("FixedVector<tracked over-aligned, 3>", 120000, &history<FixedKind<AllAligned, 3>, AllAligned>)
PBT_TARGET("FixedVector<tracked move-only, 4>", 150000, &history<FixedKind<MoveOnly, 4>, MoveOnly>)
PBT_TARGET("FixedVector<tracked throwing move, 2>", 120000, &history<FixedKind<Slow, 2>, Slow>)
PBT_TARGET("HybridVector<tracked, 4>", 300000, &history<HybridKind<All, 4>, All>)
PBT_TARGET("HybridVector<tracked over-aligned, 2>", 120000, &history<HybridKind<AllAligned, 2>, AllAligned>)
PBT_TARGET("HybridVector<tracked move-only, 3>", 180000, &history<HybridKind<MoveOnlyDefault, 3>, MoveOnlyDefault>)
PBT_TARGET("HybridVector<tracked throwing move, 1>", 120000, &history<HybridKind<Slow, 1>, Slow>)
PBT_TARGET("FixedVector<tracked, 260>", 1200, &history<FixedKind<All, 260>, All>)
PBT_TARGET("HybridVector<tracked, 130>", 1200, &history<HybridKind<All, 130>, All>)
