// Delivery of signals whose slots connect, disconnect, clear and emit while they are called
#include "pbt.hpp"
#include <NazaraUtils/Signal.hpp>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace
{
	struct Boom {};

	using Sig = Nz::Signal<unsigned, std::string, const std::string&, int&>;

	struct Emission
	{
		std::string first, second;
		std::map<int, int> calls;       // slot -> calls by this emission
		std::set<int> before;           // connected when it started
		std::set<int> gone;             // disconnected since it started
		int counter = 0;
		bool cleared = false;
	};

	struct World
	{
		pbt::Case& c;
		std::unique_ptr<Sig> signal;
		std::map<int, Sig::Connection> connections; // every slot ever connected
		std::set<int> connected;
		std::vector<Emission*> running;
		int nextSlot = 0;
		int budget = 0;
		std::size_t deepest = 3; // emissions in progress
		bool quiet = false; // slots only count
		int methodCalls = 0;
		unsigned emissions = 0;
		int alive = 0; // callbacks objects

		explicit World(pbt::Case& cc) : c(cc) {}
		~World()
		{
			running.clear();
			signal.reset();
		}

		struct Captured
		{
			World* w;
			std::string secret;
			explicit Captured(World* ww, int id) : w(ww), secret("the captured state of slot number " + std::to_string(id)) {}
		};

		// a guard of another slot, owned by a callback: what it guards goes when the callback does
		struct Owned
		{
			World* w;
			int target;
			Sig::ConnectionGuard guard;
			Owned(World* ww, int t) : w(ww), target(t), guard(std::as_const(ww->connections[t])) {}
			~Owned()
			{
				w->connected.erase(target);
				for (Emission* e : w->running)
					e->gone.insert(target);
			}
		};

		struct Listener
		{
			World* w;
			int id;
			void plain(unsigned t, std::string a, const std::string& b, int& n) { w->called(id, t, a, b, n); a.clear(); }
			void constant(unsigned t, std::string a, const std::string& b, int& n) const { w->called(id, t, a, b, n); a += "changed by a slot"; }
		};
		std::vector<std::unique_ptr<Listener>> listeners;

		void connect()
		{
			int id = nextSlot++;
			unsigned form = static_cast<unsigned>(c.below(7));
			LOG("connect slot " << id << " (form " << form << ")");
			std::shared_ptr<Owned> owned;
			if (form < 3 && !quiet && !connected.empty() && c.chance(1, 6))
			{
				int target = anyConnected();
				LOG("  it owns a guard of slot " << target);
				c.tag("callback owning a guard");
				owned = std::make_shared<Owned>(this, target);
			}
			auto function = [this, id, owned = std::move(owned), captured = std::make_shared<Captured>(this, id), own = Captured(this, id), count = 0](unsigned t, std::string a, const std::string& b, int& n) mutable
			{
				count++;
				int before = count;
				std::weak_ptr<Captured> watch = captured;
				called(id, t, a, b, n);
				a = "changed by a slot"; // its own copy
				// whatever happened, what was captured is still there until the callback returns
				CHECK(!watch.expired(), "captured objects were destroyed while their callback was running");
				std::string expected = "the captured state of slot number " + std::to_string(id);
				CHECK(own.secret == expected && captured->secret == expected);
				CHECK(count >= before);
			};
			switch (form)
			{
				case 0: case 1: connections[id] = signal->Connect(std::move(function)); break;
				case 2:
				{
					const Sig::Callback callback = function;
					connections[id] = signal->Connect(callback);
					break;
				}
				case 3: case 4: case 5:
				{
					listeners.push_back(std::make_unique<Listener>(Listener{ this, id }));
					Listener& l = *listeners.back();
					if (form == 3) connections[id] = signal->Connect(l, &Listener::plain);
					else if (form == 4) connections[id] = signal->Connect(&l, &Listener::plain);
					else connections[id] = signal->Connect(static_cast<const Listener&>(l), &Listener::constant);
					break;
				}
				default:
				{
					listeners.push_back(std::make_unique<Listener>(Listener{ this, id }));
					const Listener* l = listeners.back().get();
					connections[id].Connect(*signal, l, &Listener::constant);
					break;
				}
			}
			connected.insert(id);
			CHECK(connections[id].IsConnected());
		}

		void disconnect(int id)
		{
			LOG("disconnect slot " << id);
			connections[id].Disconnect();
			connected.erase(id);
			for (Emission* e : running)
				e->gone.insert(id);
			CHECK(!connections[id].IsConnected(), "still connected after Disconnect");
		}

		int anyConnected()
		{
			auto it = connected.begin();
			std::advance(it, static_cast<std::ptrdiff_t>(c.below(connected.size())));
			return *it;
		}

		void clear()
		{
			LOG("clear");
			signal->Clear();
			for (Emission* e : running)
			{
				for (int id : connected)
					e->gone.insert(id);
				e->cleared = true;
			}
			connected.clear();
		}

		void emit()
		{
			Emission e;
			e.first = "an argument given by value to each slot, emission " + std::to_string(emissions++);
			e.second = std::to_string(emissions);
			e.before = connected;
			running.push_back(&e);
			if (running.size() > 100) c.tag("more than 100 emissions in progress");
			if (e.before.size() > 256) c.tag("more than 256 slots");
			if (running.size() > 1)
			{
				c.tag("emission from a slot");
				c.nontrivial();
			}
			LOG("emit {");
			bool thrown = false;
			try
			{
				(*signal)(static_cast<unsigned>(running.size() - 1), e.first, e.second, e.counter);
			}
			catch (const Boom&) { thrown = true; }
			LOG("}");
			running.pop_back();
			int total = 0;
			for (auto& [id, n] : e.calls)
			{
				CHECK(n == 1, "slot", id, "called several times by one emission:", n);
				total += n;
			}
			CHECK_EQ(e.counter, total, "the referenced argument");
			if (thrown)
			{
				c.tag("slot throws");
				if (!running.empty())
					throw Boom{};
				return;
			}
			for (int id : e.before)
				if (!e.gone.count(id))
					CHECK(e.calls.count(id) == 1, "slot", id, "was connected all along and was not called");
			if (e.before.size() >= 2) c.nontrivial();
		}

		void called(int id, unsigned level, const std::string& a, const std::string& b, int& n)
		{
			LOG("slot " << id << " called");
			CHECK(connected.count(id) == 1, "slot", id, "was called while not connected");
			CHECK(!running.empty() && level + 1 == running.size(), "called with the arguments of another emission");
			Emission& e = *running[level];
			CHECK_EQ(a, e.first, "first argument of slot", id);
			CHECK(&b == &e.second, "second argument of slot", id, "is not the one emitted");
			CHECK(&n == &e.counter, "the reference given to slot", id, "is not the one emitted");
			n++;
			CHECK(++e.calls[id] == 1, "slot", id, "called twice by one emission");
			if (quiet) return;

			for (unsigned k = 0, actions = static_cast<unsigned>(deepest > 3 && budget > 0 ? 1 + c.below(2) : c.below(3)); k < actions && budget > 0; ++k)
			{
				budget--;
				switch (deepest > 3 && c.below(40) != 0 ? 7 : c.below(9))
				{
					case 0: case 1:
						if (connected.count(id))
						{
							c.tag("slot disconnects itself");
							c.nontrivial();
							disconnect(id);
						}
						break;
					case 2: case 3: case 4:
						if (!connected.empty())
						{
							c.tag("slot disconnects another one");
							c.nontrivial();
							disconnect(anyConnected());
						}
						break;
					case 5: case 6:
						c.tag("slot connects another one");
						connect();
						break;
					case 7:
						if (running.size() < deepest)
							emit();
						break;
					case 8:
						if (c.chance(1, 4))
						{
							c.tag("slot clears the signal");
							clear();
						}
						else if (c.chance(1, 3))
							throw Boom{};
						break;
				}
			}
		}

		void verify()
		{
			for (auto& [id, connection] : connections)
				CHECK_EQ(connection.IsConnected(), connected.count(id) == 1, "state of slot", id);
		}
	};

	enum class Crowd { Few, Many, Most, Deep };

	template<Crowd How> void delivery(pbt::Case& c)
	{
		World w(c);
		w.signal = std::make_unique<Sig>();
		if (How == Crowd::Deep) w.deepest = 400;
		if (How == Crowd::Most) w.quiet = true;
		std::size_t slots = How == Crowd::Many ? c.sizeAround(400, { 255, 256, 300 }) : How == Crowd::Most ? c.sizeAround(66000, { 4096, 65535, 65537 }) : c.size(0, 5);
		for (std::size_t i = 0; i < slots; ++i)
			w.connect();
		for (std::size_t k = 0, n = c.size(1, 8); k < n; ++k)
		{
			if ((How == Crowd::Many || How == Crowd::Most) && c.chance(1, 3))
			{
				// most of them, whichever they are
				std::size_t step = 1 + c.below(4), i = 0;
				std::vector<int> which;
				for (int id : w.connected)
					if (i++ % step != 0)
						which.push_back(id);
				for (int id : which)
					w.disconnect(id);
				c.tag("most slots disconnected");
			}
			switch (c.below(6))
			{
				case 0: w.connect(); break;
				case 1: if (!w.connected.empty()) w.disconnect(w.anyConnected()); break;
				case 2: if (c.chance(1, 5)) w.clear(); break;
				default:
					w.budget = static_cast<int>(c.below(How == Crowd::Few ? 12 : 600));
					w.emit();
					break;
			}
			w.verify();
		}
		// without anything happening in the slots, every connected one is called once
		w.budget = 0;
		w.emit();
		w.verify();
		w.signal.reset();
		for (auto& [id, connection] : w.connections)
			CHECK(!connection.IsConnected(), "connected to a destroyed signal", id);
	}
}
PBT_TARGET("delivery", 200000, &delivery<Crowd::Few>)
PBT_TARGET("delivery to many slots", 3000, &delivery<Crowd::Many>)
PBT_TARGET("delivery to very many slots", 20, &delivery<Crowd::Most>)
PBT_TARGET("delivery by many emissions at once", 4000, &delivery<Crowd::Deep>)
