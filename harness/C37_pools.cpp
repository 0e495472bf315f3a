// C37: operations interrupted by a failed memory allocation report it, leak nothing and leave every object valid.
#include "memfault.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/Signal.hpp>

namespace
{
	using namespace fault;

	// --- pools
	template<typename T> void pools(pbt::Case& c)
	{
		Scope scope;
		{
			using P = Nz::MemoryPool<T>;
			const std::size_t size = c.coin() ? c.size(1, 4) : c.size(1, 80);
			std::unique_ptr<P> v[2];
			struct Item { T* p; int value; };
			std::map<std::size_t, Item> m[2];
			for (auto& p : v)
				p = std::make_unique<P>(size);
			const std::size_t steps = c.size(1, 16);
			for (std::size_t s = 0; s < steps; ++s)
			{
				const std::size_t w = c.below(2), o = 1 - w;
				P& x = *v[w];
				std::size_t blocks = x.GetBlockCount();
				switch (c.below(12))
				{
					case 0: case 1: case 2: case 3: case 4:
					{
						for (std::size_t n = c.below(3) == 0 ? c.size(1, 2 * size) : 1; n > 0; --n)
						{
							const int value = static_cast<int>(c.range(1, 1000));
							std::size_t index = 12345;
							T* p = nullptr;
							bool room = x.GetFreeEntryCount() > 0;
							if (attempt(c, "Allocate", [&] { p = x.Allocate(index, value); }))
							{
								CHECK(m[w].find(index) == m[w].end(), "an index in use was given", index);
								m[w][index] = { p, value };
							}
							if (room)
								CHECK_EQ(x.GetBlockCount(), blocks, "a block was allocated while there was room");
							blocks = x.GetBlockCount();
						}
						break;
					}
					case 5:
					{
						std::size_t index = 0;
						T* p = nullptr;
						if (attempt(c, "Allocate without constructing", [&] { p = x.Allocate(x.DeferConstruct, index); }))
						{
							const int value = static_cast<int>(c.range(1, 1000));
							new (p) T(value);
							CHECK(m[w].find(index) == m[w].end(), "an index in use was given", index);
							m[w][index] = { p, value };
						}
						break;
					}
					case 6: case 7:
					{
						if (m[w].empty()) break;
						auto it = m[w].begin();
						std::advance(it, static_cast<std::ptrdiff_t>(c.below(m[w].size())));
						never(c, "Free", [&] { x.Free(it->first); });
						m[w].erase(it);
						break;
					}
					case 8: { never(c, "Reset", [&] { x.Reset(); }); m[w].clear(); break; }
					case 9: { never(c, "Clear", [&] { x.Clear(); }); m[w].clear(); CHECK_EQ(x.GetBlockCount(), std::size_t(0)); break; }
					case 10: { never(c, "move assignment", [&] { x = std::move(*v[o]); v[o]->Clear(); }); m[w] = m[o]; m[o].clear(); break; }
					case 11:
					{
						std::unique_ptr<P> made;
						void* mem = ::operator new(sizeof(P));
						P* q = nullptr;
						bool built = attempt(c, "construction", [&] { q = new (mem) P(size); });
						if (built) { CHECK_EQ(q->GetFreeEntryCount(), size); q->~P(); }
						::operator delete(mem);
						break;
					}
				}
				for (std::size_t k = 0; k < 2; ++k)
				{
					P& q = *v[k];
					CHECK_EQ(q.GetAllocatedEntryCount(), m[k].size(), "allocated entries of pool", k);
					CHECK_EQ(q.GetFreeEntryCount() + m[k].size(), q.GetBlockCount() * size, "free entries of pool", k);
					for (auto&& [index, item] : m[k])
					{
						CHECK(q.RetrieveFromIndex(index) == item.p, "address of entry", index);
						CHECK_EQ(q.RetrieveEntryIndex(item.p), index);
						CHECK_EQ(raw(*item.p), item.value, "value of entry", index);
					}
					std::size_t seen = 0;
					for (T& t : q) { (void) t; seen++; }
					CHECK_EQ(seen, m[k].size(), "entries seen by iterating pool", k);
				}
			}
		}
		scope.end();
	}
	PBT_TARGET("MemoryPool<int>", 30000, &pools<int>)
	PBT_TARGET("MemoryPool<memory>", 50000, &pools<Mem>)

	// --- signals
	void signals(pbt::Case& c)
	{
		Scope scope;
		{
			using S = Nz::Signal<int>;
			S sig;
			std::vector<int> seen, expected;
			struct Entry { S::Connection con; int id; };
			std::vector<std::unique_ptr<Entry>> m;
			const std::size_t steps = c.size(1, 20);
			for (std::size_t s = 0; s < steps; ++s)
			{
				switch (c.below(8))
				{
					case 0: case 1: case 2:
					{
						const int id = static_cast<int>(s);
						S::Connection con;
						// (big enough not to fit in place within the function)
						struct Slot { std::vector<int>* seen; int id; void* pad[4]; void operator()(int v) const { fault::armed ? void() : void(); bool was = fault::armed; fault::armed = false; seen->push_back(v * 1000 + id); fault::armed = was; } };
						if (attempt(c, "Connect", [&] { con = sig.Connect(Slot{ &seen, id, {} }); }))
							m.push_back(std::make_unique<Entry>(Entry{ con, id }));
						else
							CHECK(!con.IsConnected());
						break;
					}
					case 3:
					{
						if (m.empty()) break;
						// replacing a connection: the former slot stays connected, only the handle changes
						std::size_t i = c.below(m.size());
						const int id = static_cast<int>(s);
						S::Connection con(m[i]->con);
						struct Slot { std::vector<int>* seen; int id; void* pad[4]; void operator()(int v) const { bool was = fault::armed; fault::armed = false; seen->push_back(v * 1000 + id); fault::armed = was; } };
						if (attempt(c, "Connection::Connect", [&] { con.Connect(sig, Slot{ &seen, id, {} }); }))
							m.push_back(std::make_unique<Entry>(Entry{ con, id }));
						else
						{
							CHECK(con.IsConnected(), "the former slot was lost");
							CHECK(m[i]->con.IsConnected(), "the former slot was disconnected");
						}
						break;
					}
					case 4:
					{
						if (m.empty()) break;
						std::size_t i = c.below(m.size());
						never(c, "Disconnect", [&] { m[i]->con.Disconnect(); });
						CHECK(!m[i]->con.IsConnected());
						m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
						break;
					}
					case 5:
					{
						std::function<void(int)> f = [&seen, a = 1L, b = 2L, d = 3L](int v) { bool was = fault::armed; fault::armed = false; seen.push_back(v * 1000 + 999 + static_cast<int>(a + b + d) - 6); fault::armed = was; };
						S::Connection con;
						if (attempt(c, "Connect(function)", [&] { con = sig.Connect(f); }))
							m.push_back(std::make_unique<Entry>(Entry{ con, 999 }));
						CHECK(static_cast<bool>(f), "the function was moved from");
						break;
					}
					case 6:
					{
						never(c, "moves", [&] { S other(std::move(sig)); sig = std::move(other); S copy(sig); copy = sig; });
						break;
					}
					case 7: { never(c, "Clear", [&] { sig.Clear(); }); for (auto& e : m) CHECK(!e->con.IsConnected()); m.clear(); break; }
				}
				seen.clear();
				never(c, "emission", [&] { sig(7); });
				expected.clear();
				for (auto& e : m)
				{
					CHECK(e->con.IsConnected(), "slot", e->id, "is not connected any more");
					expected.push_back(7000 + e->id);
				}
				std::sort(expected.begin(), expected.end());
				std::sort(seen.begin(), seen.end());
				CHECK(seen == expected, "slots called:", seen.size(), "connected:", expected.size());
			}
		}
		scope.end();
	}
	PBT_TARGET("Signal", 50000, &signals)
}
