// Histories of operations on memory pools
#pragma once
#include "vechist.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <map>

namespace pool
{
	using vec::Elem;

	struct Pair { Pair(int v) : a(v), b(~v) {} int a, b; };
	struct alignas(32) Wide { Wide(int v) : value(v) {} unsigned char pad[3]; int value; };
	struct Byte { Byte(int v) : value(static_cast<unsigned char>(v)) {} unsigned char value; };
	template<typename T> int get(const T& t) { return Elem<T>::get(t); }
	inline int get(const Pair& p) { return p.b == ~p.a ? p.a : -1; }
	inline int get(const Wide& w) { return w.value; }
	inline int get(const Byte& b) { return b.value; }
	template<typename T> int norm(int v) { return Elem<T>::norm(v); }
	template<> inline int norm<Pair>(int v) { return v; }
	template<> inline int norm<Wide>(int v) { return v; }
	template<> inline int norm<Byte>(int v) { return v & 0xFF; }
	template<typename T> struct Traits { static constexpr bool Tracked = false; static auto arg(int v) { if constexpr (std::is_same_v<T, std::string>) return Elem<T>::make(v); else return v; } };
	template<unsigned O> struct Traits<obj::Tracked<O>> { static constexpr bool Tracked = true; static int arg(int v) { return v; } };

	// how many entries and blocks: a few, more than 8 bits count, more than 16 bits count
	enum class Scale { Small, Large, Huge };

	template<typename T, std::size_t Alignment, Scale S>
	class History
	{
		using P = Nz::MemoryPool<T, Alignment>;

		struct Item { T* ptr; int value; };
		struct Slot
		{
			std::unique_ptr<P> p;
			std::map<std::size_t, Item> items;
			std::map<const unsigned char*, std::size_t> addresses;
			std::size_t blockSize = 0;
			std::size_t blocks = 0; // expected
			bool moved = false;
		};

		public:
			History(pbt::Case& cc, bool faults) : c(cc), m_faults(faults) {}

			void run()
			{
				obj::reg.reset();
				m_count = c.size(1, 2);
				for (std::size_t i = 0; i < m_count; ++i)
					create(i);
				verify();
				std::size_t ops = S == Scale::Huge ? c.size(1, 6) : c.size(1, c.chance(1, 4) ? 40 : 16);
				for (std::size_t k = 0; k < ops; ++k)
				{
					step();
					verify();
				}
				for (std::size_t i = 0; i < m_count; ++i)
					m_slots[i].p.reset();
				c.flush();
				if constexpr (Traits<T>::Tracked)
					CHECK_EQ(obj::reg.live, std::size_t(0), "objects still alive once every pool was destroyed");
				else
					for (std::size_t i = 0; i < m_count; ++i)
						m_slots[i].items.clear();
			}

		private:
			pbt::Case& c;
			bool m_faults;
			Slot m_slots[2];
			std::size_t m_count = 0;
			int m_next = 1;

			int fresh() { return m_next++; }

			void create(std::size_t idx)
			{
				Slot& s = m_slots[idx];
				if constexpr (S == Scale::Large)
					s.blockSize = c.pick<std::size_t>({ 1, 2, 9, 64, 128, 255, 256, 257, 300, 1000 });
				else if constexpr (S == Scale::Huge)
					s.blockSize = c.pick<std::size_t>({ 500, 4096, 65535, 65536, 66000 });
				else
					s.blockSize = c.pick<std::size_t>({ 1, 2, 3, 4, 5, 8, 63, 64, 65, 70 });
				LOG("p" << idx << ": new pool, " << s.blockSize << " entries per block");
				s.p = std::make_unique<P>(s.blockSize);
				s.items.clear();
				s.addresses.clear();
				s.blocks = 1;
				s.moved = false;
				CHECK_EQ(s.p->GetBlockCount(), std::size_t(1));
			}

			void allocate(std::size_t idx, unsigned how, bool quiet = false)
			{
				Slot& s = m_slots[idx];
				std::size_t index = ~std::size_t(0) - 5;
				int v = fresh();
				T* ptr;
				if (!quiet) LOG("p" << idx << ".Allocate(" << v << ")" << (how == 0 ? " deferred" : ""));
				bool full = s.items.size() == s.blocks * s.blockSize;
				if (how == 0)
				{
					std::size_t liveBefore = obj::reg.live;
					ptr = s.p->Allocate(P::DeferConstruct, index);
					CHECK(obj::reg.live == liveBefore, "an object was constructed although it was asked not to");
					Nz::PlacementNew(ptr, Traits<T>::arg(v));
					c.tag("deferred construction");
				}
				else
				{
					if constexpr (Traits<T>::Tracked)
					{
						if (m_faults && c.chance(1, 3))
						{
							LOG("   (its constructor throws)");
							obj::reg.countdown = 0;
							bool thrown = false;
							try { s.p->Allocate(index, Traits<T>::arg(v)); } catch (const obj::Fault&) { thrown = true; }
							obj::reg.countdown = -1;
							CHECK(thrown, "the exception was lost");
							s.blocks = s.p->GetBlockCount(); // a block may have been allocated for it
							CHECK(s.blocks * s.blockSize >= s.items.size());
							c.tag("constructor interrupted by an exception");
							c.nontrivial();
							return;
						}
					}
					ptr = s.p->Allocate(index, Traits<T>::arg(v));
				}
				CHECK(ptr != nullptr);
				CHECK(s.items.find(index) == s.items.end(), "an index in use was given again", index);
				CHECK(index != P::InvalidIndex);
				CHECK(reinterpret_cast<std::uintptr_t>(ptr) % Alignment == 0, "alignment of the object");
				const unsigned char* address = reinterpret_cast<const unsigned char*>(ptr);
				auto next = s.addresses.lower_bound(address);
				if (next != s.addresses.end())
					CHECK(address + sizeof(T) <= next->first, "an object was placed over another one", next->second, index);
				if (next != s.addresses.begin())
				{
					--next;
					CHECK(next->first + sizeof(T) <= address, "an object was placed over another one", next->second, index);
				}
				s.addresses[address] = index;
				s.items[index] = Item{ ptr, norm<T>(v) };
				if (full)
				{
					s.blocks++;
					c.tag("block added");
				}
				if (s.items.size() >= 2) c.nontrivial();
			}

			void erase(Slot& s, std::size_t index)
			{
				s.addresses.erase(reinterpret_cast<const unsigned char*>(s.items[index].ptr));
				s.items.erase(index);
			}

			std::size_t anyIndex(Slot& s)
			{
				auto it = s.items.begin();
				std::advance(it, static_cast<std::ptrdiff_t>(c.below(s.items.size())));
				return it->first;
			}

			void step()
			{
				std::size_t idx = c.below(m_count);
				Slot& s = m_slots[idx];
				if (s.moved)
				{
					// what is left by a move is only asked to be given a pool again, or to be destroyed
					if (c.coin() && m_count == 2 && !m_slots[1 - idx].moved)
						moveAssign(idx, 1 - idx);
					else
					{
						LOG("p" << idx << " (moved) destroyed");
						s.p.reset();
						create(idx);
					}
					return;
				}
				switch (c.below(14))
				{
					default:
						allocate(idx, static_cast<unsigned>(c.below(4)));
						break;
					case 5: // fill a block
					{
						if (s.items.size() > (S == Scale::Small ? 150u : S == Scale::Large ? 1500u : 80000u)) return;
						std::size_t n = s.blocks * s.blockSize - s.items.size();
						n = n + c.below(3);
						if (S != Scale::Small && c.coin())
						{
							n += c.below(S == Scale::Large ? 400 : 40000);
							if (n > 256) c.tag("more than 256 objects at once");
							if (n > 65536) c.tag("more than 65536 objects at once");
						}
						if (n > 100) LOG("p" << idx << ": " << n << " allocations from Allocate(" << m_next << ") on");
						for (std::size_t i = 0; i < n; ++i)
							allocate(idx, 1, n > 100);
						break;
					}
					case 6: case 7: case 8:
					{
						if (s.items.empty()) return;
						std::size_t index = anyIndex(s);
						LOG("p" << idx << ".Free(" << index << ")");
						if (c.chance(1, 4))
						{
							Nz::PlacementDestroy(s.items[index].ptr);
							s.p->Free(index, P::NoDestruction);
							c.tag("freed without destruction");
						}
						else
							s.p->Free(index);
						erase(s, index);
						c.nontrivial();
						break;
					}
					case 9: // free several
					{
						std::vector<std::size_t> which;
						std::size_t k = 0, mask = c.below(16);
						for (auto& [i, item] : s.items)
							if (k++ < 100 ? c.coin() : ((k * 2654435761u >> 11) & mask) == 0)
								which.push_back(i);
						if (which.size() > 100) LOG("p" << idx << ": " << which.size() << " objects freed");
						for (std::size_t i : which)
						{
							if (which.size() <= 100) LOG("p" << idx << ".Free(" << i << ")");
							s.p->Free(i);
							erase(s, i);
						}
						break;
					}
					case 10:
						LOG("p" << idx << ".Reset()");
						s.p->Reset();
						if (!s.items.empty()) c.tag("reset with live objects");
						s.items.clear();
						s.addresses.clear();
						CHECK_EQ(s.p->GetFreeEntryCount(), s.blocks * s.blockSize, "Reset did not free every entry");
						break;
					case 11:
						LOG("p" << idx << ".Clear()");
						s.p->Clear();
						if (!s.items.empty()) c.tag("clear with live objects");
						s.items.clear();
						s.addresses.clear();
						s.blocks = 0;
						CHECK_EQ(s.p->GetBlockCount(), std::size_t(0), "Clear did not free every block");
						break;
					case 12:
					{
						std::size_t o = 1 - idx;
						if (m_count != 2) return;
						LOG("p" << o << " destroyed, then built from std::move(p" << idx << ")");
						m_slots[o].p.reset();
						m_slots[o].p = std::make_unique<P>(std::move(*s.p));
						transfer(o, idx);
						break;
					}
					case 13:
						if (m_count == 2 && !c.chance(1, 8))
							moveAssign(1 - idx, idx);
						else
						{
							LOG("p" << idx << " = std::move(p" << idx << ")");
							P& self = *s.p;
							*s.p = std::move(self);
							c.tag("self move assignment");
						}
						break;
				}
			}

			void moveAssign(std::size_t to, std::size_t from)
			{
				LOG("p" << to << " = std::move(p" << from << ")");
				P& r = (*m_slots[to].p = std::move(*m_slots[from].p));
				CHECK(&r == m_slots[to].p.get());
				if (!m_slots[to].items.empty() && !m_slots[to].moved) c.tag("move over live objects");
				transfer(to, from);
			}

			void transfer(std::size_t to, std::size_t from)
			{
				m_slots[to].items = std::move(m_slots[from].items);
				m_slots[to].addresses = std::move(m_slots[from].addresses);
				m_slots[from].addresses.clear();
				m_slots[to].blockSize = m_slots[from].blockSize;
				m_slots[to].blocks = m_slots[from].blocks;
				m_slots[to].moved = false;
				m_slots[from].items.clear();
				m_slots[from].moved = true;
				c.tag("move");
				c.nontrivial();
			}

			void verify()
			{
				c.flush();
				std::size_t total = 0;
				for (std::size_t k = 0; k < m_count; ++k)
				{
					Slot& s = m_slots[k];
					if (s.moved)
					{
						CHECK_EQ(s.p->GetAllocatedEntryCount(), std::size_t(0), "objects in a moved pool");
						continue;
					}
					P& p = *s.p;
					const P& cp = p;
					total += s.items.size();
					CHECK_EQ(cp.GetBlockSize(), s.blockSize, "p", k);
					CHECK_EQ(cp.GetAllocatedEntryCount(), s.items.size(), "p", k);
					CHECK_EQ(p.size(), s.items.size(), "p", k);
					CHECK_EQ(cp.GetBlockCount(), s.blocks, "p", k, "blocks (one is added only when every entry is in use)");
					CHECK_EQ(cp.GetFreeEntryCount(), s.blocks * s.blockSize - s.items.size(), "p", k);
					for (auto& [index, item] : s.items)
					{
						CHECK(p.RetrieveFromIndex(index) == item.ptr, "p", k, "object", index, "is not where it was allocated");
						CHECK(cp.RetrieveFromIndex(index) == item.ptr, "p", k, "object", index, "is not where it was allocated");
						CHECK_EQ(get(*item.ptr), item.value, "p", k, "object", index);
						CHECK_EQ(p.RetrieveEntryIndex(item.ptr), index, "p", k);
					}
					std::map<std::size_t, int> seen;
					for (auto it = p.begin(); it != p.end(); ++it)
					{
						CHECK(seen.size() <= s.items.size(), "the iteration does not end");
						std::size_t index = it.GetIndex();
						CHECK(s.items.count(index) == 1, "p", k, "iteration over a free entry", index);
						CHECK(&*it == s.items[index].ptr, "p", k, "iteration", index);
						CHECK(++seen[index] == 1, "p", k, "visited twice", index);
					}
					CHECK_EQ(seen.size(), s.items.size(), "p", k, "objects visited");
					std::size_t n = 0;
					auto it = cp.begin();
					while (it != cp.end())
					{
						CHECK(n <= s.items.size());
						auto old = it++;
						CHECK(s.items.count(old.GetIndex()) == 1 && &*old == s.items[old.GetIndex()].ptr);
						CHECK(it != old);
						n++;
					}
					CHECK_EQ(n, s.items.size(), "p", k, "objects visited (const)");
					CHECK((p.begin() == p.end()) == s.items.empty());
					CHECK((cp.cbegin() == cp.cend()) == s.items.empty());
					// pointers which are not of this pool
					alignas(T) unsigned char foreign[sizeof(T)] = {};
					CHECK(p.RetrieveEntryIndex(reinterpret_cast<const T*>(foreign)) == P::InvalidIndex, "index of a foreign pointer");
					std::size_t o = 1 - k;
					if (m_count == 2 && !m_slots[o].items.empty())
						CHECK(p.RetrieveEntryIndex(m_slots[o].items.begin()->second.ptr) == P::InvalidIndex, "index of an object of another pool");
				}
				c.flush();
				if constexpr (Traits<T>::Tracked)
					CHECK_EQ(obj::reg.live, total, "objects alive");
			}
	};

	template<typename T, std::size_t Alignment = alignof(T), bool Faults = false, Scale S = Scale::Small> void history(pbt::Case& c)
	{
		History<T, Alignment, S> h(c, Faults);
		h.run();
	}
}
