// Connections, guards and moves of signals
#include "pbt.hpp"
#include <NazaraUtils/Signal.hpp>
#include <memory>
#include <optional>
#include <vector>

namespace
{
	using Sig = Nz::Signal<std::vector<int>*>;
	using Conn = Sig::Connection;
	using Guard = Sig::ConnectionGuard;
	constexpr int None = -1;

	struct Owner
	{
		NazaraSignal(OnEvent, std::vector<int>* /*calls*/);
		NazaraSlot(Owner, OnEvent, slot);
	};

	struct Receiver
	{
		int id;
		void on(std::vector<int>* calls) { calls->push_back(id); }
		void onConst(std::vector<int>* calls) const { calls->push_back(id); }
	};

	struct World
	{
		pbt::Case& c;
		static constexpr int Signals = 3, Handles = 4, Guards = 3;
		std::optional<Sig> signals[Signals];
		std::optional<Conn> conns[Handles];
		int connSlot[Handles];
		std::unique_ptr<Guard> guards[Guards];
		int guardSlot[Guards];
		std::vector<int> slotSignal; // slot -> signal, or None once disconnected
		std::vector<int> owned; // slot -> slot guarded by a guard which its callback owns, or None
		std::vector<std::shared_ptr<int>> watch; // state captured by the callback of each slot (null for methods)
		std::vector<std::unique_ptr<Receiver>> receivers;

		explicit World(pbt::Case& cc) : c(cc)
		{
			for (auto& s : signals) s.emplace();
			for (int i = 0; i < Handles; ++i) { conns[i].emplace(); connSlot[i] = None; }
			for (int i = 0; i < Guards; ++i) { guards[i] = std::make_unique<Guard>(); guardSlot[i] = None; }
		}

		bool connected(int slot) const { return slot != None && slotSignal[static_cast<std::size_t>(slot)] != None; }
		// a slot which goes takes what its callback owns along
		void drop(int slot)
		{
			for (; connected(slot); slot = owned[static_cast<std::size_t>(slot)])
				slotSignal[static_cast<std::size_t>(slot)] = None;
		}
		void dropAll(int signal)
		{
			for (std::size_t i = 0; i < slotSignal.size(); ++i)
				if (slotSignal[i] == signal)
					drop(static_cast<int>(i));
		}
		int newSlot(int signal) { slotSignal.push_back(signal); owned.push_back(None); watch.push_back(nullptr); return static_cast<int>(slotSignal.size() - 1); }

		// connects something new to a signal, giving the connection to f
		template<typename F> int make(int signal, F&& f)
		{
			int slot = newSlot(signal);
			Sig& s = *signals[signal];
			switch (c.below(6))
			{
				case 0:
				{
					receivers.push_back(std::make_unique<Receiver>(Receiver{ slot }));
					f(s, *receivers.back(), &Receiver::on);
					break;
				}
				case 1:
				{
					receivers.push_back(std::make_unique<Receiver>(Receiver{ slot }));
					f(s, receivers.back().get(), &Receiver::on);
					break;
				}
				case 2:
				{
					receivers.push_back(std::make_unique<Receiver>(Receiver{ slot }));
					f(s, static_cast<const Receiver*>(receivers.back().get()), &Receiver::onConst);
					break;
				}
				case 3:
				{
					auto state = std::make_shared<int>(slot);
					watch.back() = state;
					Sig::Callback callback = [state](std::vector<int>* calls) { calls->push_back(*state); };
					state.reset();
					f(s, std::as_const(callback), 0);
					break;
				}
				case 4: // the callback owns a guard of another slot, of any signal
				{
					auto state = std::make_shared<int>(slot);
					watch.back() = state;
					std::size_t h = c.below(Handles);
					LOG("  slot " << slot << " owns a guard of slot " << connSlot[h]);
					owned.back() = connSlot[h];
					if (connected(connSlot[h]))
					{
						c.nontrivial();
						c.tag(slotSignal[static_cast<std::size_t>(connSlot[h])] == signal ? "callback owning a guard, same signal" : "callback owning a guard, other signal");
					}
					auto guard = std::make_shared<Guard>(std::as_const(*conns[h]));
					f(s, [state = std::move(state), guard = std::move(guard)](std::vector<int>* calls) { calls->push_back(*state); }, 0);
					break;
				}
				default:
				{
					auto state = std::make_shared<int>(slot);
					watch.back() = state;
					f(s, [state = std::move(state)](std::vector<int>* calls) { calls->push_back(*state); }, 0);
					break;
				}
			}
			return slot;
		}

		template<typename A, typename B> static Conn plug(Sig& s, A&& a, B b)
		{
			if constexpr (std::is_same_v<B, int>) return s.Connect(std::forward<A>(a));
			else return s.Connect(std::forward<A>(a), b);
		}

		void step()
		{
			int s = static_cast<int>(c.below(Signals)), s2 = static_cast<int>((static_cast<unsigned>(s) + 1 + c.below(Signals - 1)) % Signals);
			int h = static_cast<int>(c.below(Handles)), h2 = static_cast<int>((static_cast<unsigned>(h) + 1 + c.below(Handles - 1)) % Handles);
			int g = static_cast<int>(c.below(Guards)), g2 = static_cast<int>((static_cast<unsigned>(g) + 1 + c.below(Guards - 1)) % Guards);
			switch (c.below(26))
			{
				default: // connection kept in a handle; the one it had is left connected
					LOG("c" << h << " = s" << s << ".Connect()  [slot " << slotSignal.size() << "]");
					connSlot[h] = make(s, [&](Sig& sig, auto&& a, auto b) { conns[h] = plug(sig, std::forward<decltype(a)>(a), b); });
					break;
				case 4:
					LOG("c" << h << ".Connect(s" << s << ")  [slot " << slotSignal.size() << "]");
					connSlot[h] = make(s, [&](Sig& sig, auto&& a, auto b)
					{
						if constexpr (std::is_same_v<decltype(b), int>) conns[h]->Connect(sig, std::forward<decltype(a)>(a));
						else conns[h]->Connect(sig, std::forward<decltype(a)>(a), b);
					});
					break;
				case 5:
					LOG("s" << s << ".Connect() ignored  [slot " << slotSignal.size() << "]");
					make(s, [&](Sig& sig, auto&& a, auto b) { plug(sig, std::forward<decltype(a)>(a), b); });
					break;
				case 6:
					LOG("c" << h << " = c" << h2);
					*conns[h] = *conns[h2];
					connSlot[h] = connSlot[h2];
					break;
				case 7:
					LOG("c" << h << " = std::move(c" << h2 << ")");
					*conns[h] = std::move(*conns[h2]);
					connSlot[h] = connSlot[h2];
					connSlot[h2] = None;
					break;
				case 8:
					LOG("c" << h << " built from " << "std::move(c" << h2 << ")");
					conns[h].reset();
					conns[h].emplace(std::move(*conns[h2]));
					connSlot[h] = connSlot[h2];
					connSlot[h2] = None;
					break;
				case 9:
					LOG("c" << h << " destroyed");
					conns[h].emplace();
					connSlot[h] = None;
					break;
				case 10: case 11:
					LOG("c" << h << ".Disconnect()");
					if (connected(connSlot[h])) c.nontrivial();
					conns[h]->Disconnect();
					drop(connSlot[h]);
					break;
				case 12:
					LOG("g" << g << ".Connect(s" << s << ")  [slot " << slotSignal.size() << "]");
					drop(guardSlot[g]);
					guardSlot[g] = make(s, [&](Sig& sig, auto&& a, auto b)
					{
						if constexpr (std::is_same_v<decltype(b), int>) guards[g]->Connect(sig, std::forward<decltype(a)>(a));
						else guards[g]->Connect(sig, std::forward<decltype(a)>(a), b);
					});
					c.tag("guard");
					break;
				case 13: case 14:
				{
					if (c.chance(1, 5)) // from the connection of a guard, maybe its own
					{
						int from = c.coin() ? g : g2;
						LOG("g" << g << " = std::move(g" << from << ".GetConnection())");
						if (from != g)
						{
							if (guardSlot[g] != None && guardSlot[g] == guardSlot[from]) return;
							drop(guardSlot[g]);
							guardSlot[g] = guardSlot[from];
							guardSlot[from] = None;
						}
						Guard& r = (*guards[g] = std::move(guards[from]->GetConnection()));
						CHECK(&r == guards[g].get());
						c.tag("guard moved");
						break;
					}
					bool move = c.coin();
					LOG("g" << g << " = " << (move ? "std::move(c" : "(c") << h << ")");
					if (connSlot[h] != None && connSlot[h] == guardSlot[g]) return; // assigning it what it already guards is not specified
					drop(guardSlot[g]);
					if (move)
					{
						Guard& r = (*guards[g] = std::move(*conns[h]));
						CHECK(&r == guards[g].get());
						guardSlot[g] = connSlot[h];
						connSlot[h] = None;
					}
					else
					{
						Guard& r = (*guards[g] = std::as_const(*conns[h]));
						CHECK(&r == guards[g].get());
						guardSlot[g] = connSlot[h];
					}
					c.tag("guard");
					c.nontrivial();
					break;
				}
				case 15:
				{
					unsigned how = static_cast<unsigned>(c.below(2));
					LOG("g" << g << " destroyed, then built from c" << h << (how ? " moved" : ""));
					guards[g].reset();
					drop(guardSlot[g]);
					if (how)
					{
						guards[g] = std::make_unique<Guard>(std::move(*conns[h]));
						guardSlot[g] = connSlot[h];
						connSlot[h] = None;
					}
					else
					{
						guards[g] = std::make_unique<Guard>(std::as_const(*conns[h]));
						guardSlot[g] = connSlot[h];
					}
					c.tag("guard");
					c.nontrivial();
					break;
				}
				case 16:
				{
					bool self = c.chance(1, 6);
					int from = self ? g : g2;
					LOG("g" << g << " = std::move(g" << from << ")");
					if (!self && guardSlot[g] != None && guardSlot[g] == guardSlot[g2]) return;
					if (!self)
						drop(guardSlot[g]);
					Guard& r = (*guards[g] = std::move(*guards[from]));
					CHECK(&r == guards[g].get());
					if (!self)
					{
						guardSlot[g] = guardSlot[g2];
						guardSlot[g2] = None;
					}
					c.tag("guard moved");
					c.nontrivial();
					break;
				}
				case 17:
					LOG("g" << g << " destroyed, then built from std::move(g" << g2 << ")");
					guards[g].reset();
					drop(guardSlot[g]);
					guards[g] = std::make_unique<Guard>(std::move(*guards[g2]));
					guardSlot[g] = guardSlot[g2];
					guardSlot[g2] = None;
					c.tag("guard moved");
					c.nontrivial();
					break;
				case 18:
					LOG("g" << g << " destroyed");
					if (connected(guardSlot[g])) c.nontrivial();
					guards[g].reset();
					drop(guardSlot[g]);
					guards[g] = std::make_unique<Guard>();
					guardSlot[g] = None;
					break;
				case 19:
				{
					bool viaConnection = c.coin();
					LOG("g" << g << (viaConnection ? ".GetConnection()" : "") << ".Disconnect()");
					if (viaConnection) guards[g]->GetConnection().Disconnect();
					else guards[g]->Disconnect();
					drop(guardSlot[g]);
					break;
				}
				case 20: // the connection is taken out of the guard
					LOG("c" << h << " = std::move(g" << g << ".GetConnection())");
					*conns[h] = std::move(guards[g]->GetConnection());
					connSlot[h] = guardSlot[g];
					guardSlot[g] = None;
					break;
				case 21: case 22:
				{
					unsigned how = static_cast<unsigned>(c.below(3));
					LOG("s" << s << (how == 0 ? " = " : how == 1 ? " destroyed, then built from " : " self ") << "std::move(s" << s2 << ")");
					if (how == 2)
					{
						Sig& self = *signals[s];
						*signals[s] = std::move(self);
						// whatever this does to its slots, it does it for good
						std::vector<int> calls;
						(*signals[s])(&calls);
						for (std::size_t i = 0; i < slotSignal.size(); ++i)
							if (slotSignal[i] == s && std::find(calls.begin(), calls.end(), static_cast<int>(i)) == calls.end())
								drop(static_cast<int>(i));
						c.tag("signal moved to itself");
						break;
					}
					dropAll(s);
					if (how == 0)
					{
						Sig& r = (*signals[s] = std::move(*signals[s2]));
						CHECK(&r == &*signals[s]);
					}
					else
					{
						signals[s].reset();
						signals[s].emplace(std::move(*signals[s2]));
					}
					for (int& o : slotSignal)
						if (o == s2) { o = s; c.nontrivial(); c.tag("signal with slots moved"); }
					break;
				}
				case 23:
				{
					bool assign = c.coin();
					LOG("s" << s << (assign ? " = s" : " built as a copy of s") << s2);
					if (assign)
						*signals[s] = std::as_const(*signals[s2]); // does nothing
					else
					{
						signals[s].reset();
						dropAll(s);
						signals[s].emplace(std::as_const(*signals[s2])); // has no slot
					}
					c.tag("signal copied");
					break;
				}
				case 24:
					LOG("s" << s << " destroyed");
					signals[s].reset();
					dropAll(s);
					verifyHandles();
					signals[s].emplace();
					break;
				case 25:
					LOG("s" << s << ".Clear()");
					signals[s]->Clear();
					dropAll(s);
					break;
			}
		}

		void verifyHandles()
		{
			for (int i = 0; i < Handles; ++i)
				CHECK_EQ(conns[i]->IsConnected(), connected(connSlot[i]), "connection", i, "of slot", connSlot[i]);
			for (int i = 0; i < Guards; ++i)
			{
				CHECK_EQ(guards[i]->IsConnected(), connected(guardSlot[i]), "guard", i, "of slot", guardSlot[i]);
				CHECK_EQ(guards[i]->GetConnection().IsConnected(), connected(guardSlot[i]), "guard", i, "of slot", guardSlot[i]);
			}
			// what a callback captured lives as long as its slot
			for (std::size_t i = 0; i < slotSignal.size(); ++i)
				if (watch[i])
					CHECK_EQ(watch[i].use_count() > 1, slotSignal[i] != None, "captured state of slot", i);
		}

		void verify()
		{
			verifyHandles();
			for (int s = 0; s < Signals; ++s)
			{
				std::vector<int> calls;
				std::vector<int> expected;
				(*signals[s])(&calls);
				for (std::size_t i = 0; i < slotSignal.size(); ++i)
					if (slotSignal[i] == s)
						expected.push_back(static_cast<int>(i));
				std::sort(calls.begin(), calls.end());
				CHECK(calls == expected, "signal", s, "called", calls.size(), "slots, expected", expected.size());
			}
			verifyHandles();
		}
	};

	template<bool Crowded> void connections(pbt::Case& c)
	{
		World w(c);
		if (Crowded)
		{
			// more slots than 8 bits count, some of them with a handle
			int s = static_cast<int>(c.below(World::Signals));
			std::size_t n = c.sizeAround(400, { 255, 256, 300 });
			LOG("s" << s << ".Connect(), " << n << " times  [slots 0 to " << n << "]");
			for (std::size_t i = 0; i < n; ++i)
				w.make(s, [&](Sig& sig, auto&& a, auto b) { World::plug(sig, std::forward<decltype(a)>(a), b); });
			for (int h = 0; h < World::Handles; ++h)
			{
				LOG("c" << h << " = s" << s << ".Connect()  [slot " << w.slotSignal.size() << "]");
				w.connSlot[h] = w.make(s, [&](Sig& sig, auto&& a, auto b) { w.conns[h] = World::plug(sig, std::forward<decltype(a)>(a), b); });
			}
			if (n > 256) c.tag("more than 256 slots");
			w.verify();
		}
		for (std::size_t k = 0, n = c.size(1, 16); k < n; ++k)
		{
			w.step();
			w.verify();
		}
		// guards disconnect when they are destroyed, in any order relatively to the signals
		if (c.coin())
		{
			for (auto& s : w.signals) s.reset();
			for (int& s : w.slotSignal) s = None;
			w.verifyHandles();
		}
		else
			for (int g = 0; g < World::Guards; ++g)
			{
				w.guards[g] = std::make_unique<Guard>();
				w.drop(w.guardSlot[g]);
				w.guardSlot[g] = None;
				w.verify();
			}
	}

	// the class macros: an object with a signal and a slot, copied and moved
	void macros(pbt::Case& c)
	{
		Owner a;
		std::vector<int> calls;
		Owner other;
		other.slot.Connect(a.OnEvent, [](std::vector<int>* v) { v->push_back(1); });
		int extra = static_cast<int>(c.below(3));
		for (int i = 0; i < extra; ++i)
			a.OnEvent.Connect([](std::vector<int>* v) { v->push_back(2); });
		static_cast<const Owner&>(a).OnEvent(&calls);
		CHECK_EQ(calls.size(), static_cast<std::size_t>(extra + 1));
		Owner moved(std::move(a));
		calls.clear();
		a.OnEvent(&calls);
		CHECK(calls.empty());
		moved.OnEvent(&calls);
		CHECK_EQ(calls.size(), static_cast<std::size_t>(extra + 1));
		if (c.coin())
		{
			calls.clear();
			Owner third(std::move(other));
			moved.OnEvent(&calls);
			CHECK_EQ(calls.size(), static_cast<std::size_t>(extra + 1));
		}
		else
			other.slot.Disconnect();
		calls.clear();
		moved.OnEvent(&calls);
		CHECK_EQ(calls.size(), static_cast<std::size_t>(extra));
		c.nontrivial();
	}
}
PBT_TARGET("connections", 150000, &connections<false>)
PBT_TARGET("connections of many slots", 2500, &connections<true>)
PBT_TARGET("class macros", 60, &macros)
