#include "vechist.hpp"
using namespace vec;
using obj::Opt; using obj::Tracked;
using All = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove>;
using Slow = Tracked<Opt::Copy | Opt::Default>;
using MoveOnly = Tracked<Opt::Default>;
PBT_TARGET("faults: StackVector<tracked>", 300000, &history<StackKind<All>, All, true>)
PBT_TARGET("faults: StackVector<tracked, large>", 1200, &history<StackKind<All, 260>, All, true>)
PBT_TARGET("faults: StackVector<tracked throwing move>", 240000, &history<StackKind<Slow>, Slow, true>)
PBT_TARGET("faults: StackVector<tracked move-only>", 180000, &history<StackKind<MoveOnly>, MoveOnly, true>)
#include "stackarray.hpp"
PBT_TARGET("faults: StackArray<tracked>", 150000, &arrayHistory<All, true>)
