#include "vechist.hpp"
using namespace vec;
using obj::Opt; using obj::Tracked;
using All = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove>;
using AllAligned = Tracked<Opt::Copy | Opt::Default | Opt::NothrowMove | Opt::Align>;
using MoveOnly = Tracked<Opt::NothrowMove>;
PBT_TARGET("StackVector<tracked>", 240000, &history<StackKind<All>, All>)
PBT_TARGET("StackVector<tracked over-aligned>", 90000, &history<StackKind<AllAligned>, AllAligned>)
using Slow = Tracked<Opt::Copy | Opt::Default>;
PBT_TARGET("StackVector<tracked throwing move>", 90000, &history<StackKind<Slow>, Slow>)
PBT_TARGET("StackVector<tracked, large>", 1200, &history<StackKind<All, 260>, All>)
PBT_TARGET("StackVector<tracked, very large>", 160, &history<StackKind<All, 66000>, All>)
PBT_TARGET("StackVector<tracked move-only>", 150000, &history<StackKind<MoveOnly>, MoveOnly>)
#include "stackarray.hpp"
PBT_TARGET("StackArray<tracked>", 100000, &arrayHistory<All>)
PBT_TARGET("StackArray<tracked over-aligned>", 50000, &arrayHistory<AllAligned>)
PBT_TARGET("StackArray<tracked move-only>", 50000, &arrayHistory<MoveOnly>)
