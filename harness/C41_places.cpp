// C41: an operation touches only the elements it concerns, which keep their place, and as few times as promised.
#include "pbt.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <memory>
#include <new>
#include <vector>

namespace
{
	// what happened, during the last operation, to each element ever made
	struct Count { unsigned moves = 0, copies = 0, ends = 0; };
	constexpr std::size_t MaxElements = 1u << 15;
	Count g_counts[MaxElements];
	std::size_t g_made;
	std::uint64_t g_moves; // since the beginning

	int made()
	{
		CHECK(g_made < MaxElements, "far more elements were made than the operations call for");
		return static_cast<int>(g_made++);
	}

	struct Elem
	{
		int id; // negative once moved from
		std::uintptr_t tag;

		Elem() : id(made()), tag(5) {}
		explicit Elem(std::uintptr_t t) : id(made()), tag(t) {}
		Elem(const Elem& e) : id(made()), tag(e.tag) { count(e.id).copies++; }
		Elem(Elem&& e) noexcept : id(e.id), tag(e.tag) { moved(e); }
		~Elem() { end(); }
		Elem& operator=(const Elem& e)
		{
			count(e.id).copies++;
			if (this != &e)
			{
				end();
				id = made();
				tag = e.tag;
			}
			return *this;
		}
		Elem& operator=(Elem&& e) noexcept
		{
			if (this != &e)
			{
				end();
				id = e.id;
				tag = e.tag;
				moved(e);
			}
			return *this;
		}

		private:
			static Count none;
			static Count& count(int id) { return id < 0 ? none : g_counts[static_cast<std::size_t>(id)]; }
			void moved(Elem& e)
			{
				count(id).moves++;
				g_moves++;
				e.id = -1;
			}
			void end()
			{
				count(id).ends++;
				id = -1;
			}
	};
	Count Elem::none;

	const Count& of(int id) { return g_counts[static_cast<std::size_t>(id)]; }
	void forget() { std::fill(g_counts, g_counts + g_made, Count()); }
	void restart() { forget(); g_made = 0; }

	// elements of a vector and where they are
	struct Places
	{
		std::vector<int> ids;
		std::vector<const Elem*> where;
		template<typename V> explicit Places(const V& v)
		{
			for (const Elem& e : v)
			{
				ids.push_back(e.id);
				where.push_back(&e);
			}
		}
	};

	template<std::size_t Cap> struct FixedKind
	{
		static constexpr bool Grows = false, Copies = true, Reserves = true;
		static constexpr std::size_t Border = Cap;
		using V = Nz::FixedVector<Elem, Cap>;
		struct Box { V v; std::shared_ptr<void> memory; };
	};
	template<std::size_t Cap> struct HybridKind
	{
		static constexpr bool Grows = true, Copies = true, Reserves = true;
		static constexpr std::size_t Border = Cap;
		using V = Nz::HybridVector<Elem, Cap>;
		struct Box { V v; std::shared_ptr<void> memory; };
	};
	template<std::size_t Cap> struct StackKind
	{
		static constexpr bool Grows = false, Copies = false, Reserves = false;
		static constexpr std::size_t Border = Cap;
		using V = Nz::StackVector<Elem>;
		struct Box
		{
			struct Memory { alignas(Elem) unsigned char bytes[sizeof(Elem) * Cap]; };
			std::shared_ptr<void> memory = std::make_shared<Memory>();
			V v{ static_cast<Elem*>(memory.get()), Cap };
		};
	};

	template<typename V> bool inside(const V& v)
	{
		// std::less gives a total order
		const void* p = v.data();
		return !std::less<const void*>()(p, &v) && std::less<const void*>()(p, &v + 1);
	}

	template<typename K> void vectors(pbt::Case& c)
	{
		using V = typename K::V;
		restart();
		std::shared_ptr<void> kept[2]; // the memory of stack vectors outlives both
		auto box = std::make_unique<typename K::Box>();
		auto otherBox = std::make_unique<typename K::Box>();
		kept[0] = box->memory;
		kept[1] = otherBox->memory;
		V* v = &box->v;
		V* other = &otherBox->v;
		std::uintptr_t tag = 100;
		const std::size_t limit = K::Grows ? K::Border * 2 + 8 : K::Border;
		for (std::size_t n = c.sizeAround(limit, { K::Border }); v->size() < n;)
			v->emplace_back(tag++);
		for (std::size_t n = c.sizeAround(limit, { K::Border }); other->size() < n;)
			other->emplace_back(tag++);

		// elements [0, kept) were not concerned; those from the position were displaced
		auto check = [&](const Places& before, std::size_t from, std::size_t removed, bool grown)
		{
			for (std::size_t i = 0; i < before.ids.size(); ++i)
			{
				const Count& n = of(before.ids[i]);
				if (i >= from && i < from + removed)
				{
					CHECK(n.ends == 1 && n.copies == 0, "element", i, "was removed and destroyed", n.ends, "times");
					continue;
				}
				CHECK(n.ends == 0, "element", i, "was destroyed");
				CHECK(n.copies == 0, "element", i, "was copied");
				if (grown)
					CHECK(n.moves <= (i < from ? 1u : 8u), "element", i, "was moved", n.moves, "times for the vector to grow");
				else if (i < from)
				{
					CHECK(n.moves == 0, "element", i, "is not concerned and was moved", n.moves, "times");
					CHECK(i < v->size() && &(*v)[i] == before.where[i], "element", i, "is not concerned and is now elsewhere");
				}
				else
					CHECK(n.moves <= 8, "element", i, "was moved", n.moves, "times");
			}
		};

		for (std::size_t step = 0, steps = c.size(1, 14); step < steps; ++step)
		{
			std::size_t n = v->size(), cap = v->capacity();
			bool room = K::Grows || n < K::Border;
			bool grown = K::Grows && n == cap;
			std::size_t pos = c.chance(1, 4) ? n : c.below(n + 1);
			Places before(*v);
			if (n > 1) c.nontrivial();
			switch (c.below(17))
			{
				case 0: case 1: case 2:
				{
					if (!room) break;
					unsigned how = static_cast<unsigned>(c.below(3));
					LOG("append (" << how << ") to " << n << " elements, capacity " << cap);
					Elem value(tag++);
					forget();
					Elem& r = how == 0 ? v->push_back(std::as_const(value)) : how == 1 ? v->push_back(std::move(value)) : v->emplace_back(tag++);
					CHECK(&r == &v->back());
					check(before, n, 0, grown);
					CHECK(of(r.id).moves <= 4);
					if (grown) c.tag("growth");
					break;
				}
				case 3: case 4: case 5:
				{
					if (!room) break;
					unsigned how = static_cast<unsigned>(c.below(3));
					LOG("insert (" << how << ") at " << pos << " in " << n << " elements, capacity " << cap);
					Elem value(tag++);
					forget();
					auto it = how == 0 ? v->insert(v->begin() + static_cast<std::ptrdiff_t>(pos), std::as_const(value)) : how == 1 ? v->insert(v->begin() + static_cast<std::ptrdiff_t>(pos), std::move(value)) : v->emplace(v->begin() + static_cast<std::ptrdiff_t>(pos), tag++);
					CHECK(it == v->begin() + static_cast<std::ptrdiff_t>(pos));
					check(before, pos, 0, grown);
					// however it is brought to its place
					CHECK(of(it->id).moves <= 4 * n + 8);
					if (grown) c.tag("growth");
					if (pos > 0 && pos < n) c.tag("insertion inside");
					break;
				}
				case 6: case 7:
				{
					if (n == 0) break;
					std::size_t at = c.below(n), count = c.chance(1, 2) ? 1 : c.below(n - at + 1);
					bool one = count == 1 && c.coin();
					LOG("erase " << count << " at " << at << " in " << n);
					forget();
					if (one) v->erase(v->begin() + static_cast<std::ptrdiff_t>(at));
					else v->erase(v->begin() + static_cast<std::ptrdiff_t>(at), v->begin() + static_cast<std::ptrdiff_t>(at + count));
					check(before, at, count, false);
					if (at + count < n) c.tag("erasure inside");
					break;
				}
				case 8:
					if (n == 0) break;
					LOG("pop_back from " << n);
					forget();
					v->pop_back();
					check(before, n - 1, 1, false);
					break;
				case 9: case 10:
				{
					std::size_t count = c.chance(1, 3) ? std::min(limit, K::Border) : c.below(limit + 1);
					bool with = c.coin();
					LOG("resize from " << n << " to " << count << ", capacity " << cap);
					{
						Elem value(tag++);
						forget();
						if (with) v->resize(count, value);
						else v->resize(count);
						check(before, std::min(n, count), n > count ? n - count : 0, count > cap);
						if (with) CHECK(of(value.id).ends == 0 && of(value.id).moves == 0);
						for (std::size_t i = n; i < v->size(); ++i)
						{
							const Count& k = of((*v)[i].id);
							CHECK(k.copies == 0 && k.moves <= 4 && k.ends == 0, "new element", i, "was copied", k.copies, "times and moved", k.moves, "times");
						}
					}
					break;
				}
				case 11:
					if (!c.chance(1, 3)) break;
					LOG("clear " << n);
					forget();
					v->clear();
					check(before, 0, n, false);
					break;
				case 12:
					if constexpr (K::Reserves)
					{
						std::size_t count = K::Grows ? c.below(limit * 2) : c.below(limit + 1);
						LOG("reserve " << count << " for " << n << " elements, capacity " << cap);
						forget();
						v->reserve(count);
						check(before, n, 0, count > cap);
						CHECK(v->capacity() >= count);
						c.tag("reserve");
					}
					break;
				case 13:
				{
					forget();
					std::uintptr_t sum = 0;
					for (const Elem& e : std::as_const(*v)) sum += e.tag;
					for (auto it = v->rbegin(); it != v->rend(); ++it) sum += it->tag;
					for (std::size_t i = 0; i < n; ++i) sum += (*v)[i].tag + std::as_const(*v)[i].tag;
					if (n) sum += v->front().tag + v->back().tag + v->data()->tag;
					CHECK(n == 0 || sum > 0);
					check(before, n, 0, false);
					break;
				}
				case 14:
					if constexpr (K::Copies)
					{
						bool assign = c.coin();
						LOG((assign ? "copy assignment of " : "copy of ") << n);
						forget();
						if (assign) *other = std::as_const(*v);
						else
						{
							auto fresh = std::make_unique<V>(std::as_const(*v));
							CHECK(fresh->size() == n);
						}
						for (std::size_t i = 0; i < n; ++i)
						{
							const Count& k = of(before.ids[i]);
							CHECK(k.copies == 1 && k.moves == 0 && k.ends == 0 && &(*v)[i] == before.where[i], "element", i, "of the source of a copy: copies", k.copies, "moves", k.moves);
						}
						c.tag("copy");
					}
					break;
				case 15: case 16:
				{
					// what is not stored in the vector itself stays where it is
					unsigned how = K::Copies ? static_cast<unsigned>(c.below(3)) : 2;
					bool stays = !inside(*v) , otherStays = !inside(*other);
					LOG((how == 0 ? "move assignment of " : how == 1 ? "move construction from " : "swap with ") << n << (stays ? " elements kept outside" : " elements kept inside"));
					Places others(*other);
					forget();
					if (how == 0)
					{
						*other = std::move(*v);
						std::swap(v, other);
						std::swap(box, otherBox);
						if constexpr (K::Copies) { other->~V(); new (other) V(); }
					}
					else if (how == 1)
					{
						if constexpr (K::Copies)
						{
							auto fresh = std::make_unique<typename K::Box>();
							fresh->v.~V();
							new (&fresh->v) V(std::move(*v));
							box = std::move(fresh);
							v = &box->v;
						}
						else break;
					}
					else
					{
						std::swap(*v, *other);
						std::swap(v, other);
						std::swap(box, otherBox);
						for (std::size_t i = 0; i < others.ids.size(); ++i)
						{
							const Count& k = of(others.ids[i]);
							CHECK(k.copies == 0 && k.ends == 0 && k.moves <= (otherStays ? 0u : 6u), "element", i, "of the other vector of a swap: moves", k.moves);
							CHECK(!otherStays || &(*other)[i] == others.where[i], "element", i, "kept outside of the other vector of a swap is now elsewhere");
						}
					}
					CHECK(v->size() == n);
					for (std::size_t i = 0; i < n; ++i)
					{
						const Count& k = of(before.ids[i]);
						CHECK(k.copies == 0 && k.ends == 0 && k.moves <= (stays ? 0u : 6u), "element", i, "moves", k.moves, "copies", k.copies);
						CHECK(!stays || &(*v)[i] == before.where[i], "element", i, "was kept outside of the moved vector and is now elsewhere");
					}
					c.tag(stays ? "moved, kept outside" : "moved, kept inside");
					break;
				}
			}
		}
	}

	// appending one by one moves each element a bounded number of times in the long run
	template<typename V> void amortized(pbt::Case& c)
	{
		restart();
		V v;
		std::uint64_t start = g_moves;
		std::size_t n = c.sizeAround(3000, { 64, 1024 });
		unsigned how = static_cast<unsigned>(c.below(4));
		if (c.chance(1, 3)) v.reserve(c.below(n + 1));
		LOG("append " << n << " elements one by one (" << how << ")");
		for (std::size_t i = 0; i < n; ++i)
			switch (how)
			{
				case 0: v.emplace_back(i); break;
				case 1: { Elem e(i); v.push_back(e); break; }
				case 2: v.push_back(Elem(i)); break;
				default: v.emplace(v.end(), i); break;
			}
		for (std::size_t i = 0; i < n; ++i)
			CHECK_EQ(v[i].tag, i);
		std::uint64_t moves = g_moves - start;
		CHECK(moves <= 4 * n + 64, n, "elements appended one by one were moved", moves, "times");
		if (n > 64) c.nontrivial();
	}

	// the same about memory, for bitsets
	template<typename B> void bitGrowth(pbt::Case& c)
	{
		std::size_t n = c.sizeAround(6000, { 512, 1024, 4096 });
		unsigned how = static_cast<unsigned>(c.below(4));
		LOG("append " << n << " bits (" << how << ")");
		B b;
		std::uint64_t before = pbt::allocationCount();
		for (std::size_t i = 0; i < n; ++i)
			switch (how)
			{
				case 0: b.AppendBits(1u, 1); break;
				case 1: b.UnboundedSet(i); break;
				case 2: b.AppendBits(5u, 3); break;
				default: b.Resize(b.GetSize() + 1, true); break;
			}
		std::uint64_t count = pbt::allocationCount() - before;
		CHECK(count <= 64, n, "appends took", count, "allocations");
		CHECK_EQ(b.GetSize(), how == 2 ? 3 * n : n);
		if (n > 64) c.nontrivial();
	}

	// entries of a pool, whatever happens to the others
	void pools(pbt::Case& c)
	{
		restart();
		std::size_t blockSize = 1 + c.below(6);
		auto pool = std::make_unique<Nz::MemoryPool<Elem>>(blockSize);
		struct Entry { std::size_t index; Elem* where; int id; };
		std::vector<Entry> entries;
		auto verify = [&](const char* what)
		{
			for (const Entry& e : entries)
			{
				const Count& k = of(e.id);
				CHECK(k.moves == 0 && k.copies == 0 && k.ends == 0, what, "touched the entry", e.index);
				CHECK(pool->RetrieveFromIndex(e.index) == e.where && e.where->id == e.id, what, "displaced the entry", e.index);
			}
		};
		LOG("pool of blocks of " << blockSize);
		for (std::size_t step = 0, steps = c.size(1, 24); step < steps; ++step)
		{
			forget();
			switch (c.below(8))
			{
				default:
				{
					std::size_t index;
					Elem* e = pool->Allocate(index, std::uintptr_t(step));
					LOG("allocate: " << index);
					CHECK(of(e->id).moves == 0 && of(e->id).copies == 0, "an entry was not made in its place");
					verify("an allocation");
					entries.push_back({ index, e, e->id });
					break;
				}
				case 4: case 5:
				{
					if (entries.empty()) break;
					std::size_t which = c.below(entries.size());
					Entry e = entries[which];
					entries.erase(entries.begin() + static_cast<std::ptrdiff_t>(which));
					LOG("free " << e.index);
					pool->Free(e.index);
					CHECK(of(e.id).ends == 1 && of(e.id).moves == 0);
					verify("a release");
					if (entries.size() > 1) c.nontrivial();
					break;
				}
				case 6:
				{
					std::size_t n = 0;
					for (Elem& e : *pool) n += e.id >= 0;
					CHECK_EQ(n, entries.size());
					verify("a traversal");
					break;
				}
				case 7:
				{
					LOG("move");
					auto target = std::make_unique<Nz::MemoryPool<Elem>>(1 + c.below(6));
					if (c.coin()) *target = std::move(*pool);
					else target = std::make_unique<Nz::MemoryPool<Elem>>(std::move(*pool));
					pool = std::move(target);
					verify("a move");
					c.tag("pool moved");
					break;
				}
			}
		}
	}

	// owners and slots
	void owners(pbt::Case& c)
	{
		restart();
		{
			Nz::PrivateImpl<Elem> a(std::uintptr_t(1)), b(std::uintptr_t(2));
			Elem* pa = a.Get();
			Elem* pb = b.Get();
			int ia = pa->id, ib = pb->id;
			forget();
			std::swap(a, b);
			CHECK(a.Get() == pb && b.Get() == pa && of(ia).moves == 0 && of(ib).moves == 0, "a swap moved what is owned");
			Nz::PrivateImpl<Elem> d(std::move(a));
			CHECK(d.Get() == pb && of(ib).moves == 0 && of(ib).ends == 0);
			b = std::move(d);
			CHECK(b.Get() == pb && of(ib).moves == 0 && of(ib).ends == 0);
		}
		{
			Nz::PrivateImpl<Elem, 64, 16> a(std::uintptr_t(1)), b(std::uintptr_t(2));
			int ia = a->id;
			forget();
			b = std::move(a);
			CHECK(b->id == ia && of(ia).moves == 1 && of(ia).copies == 0);
		}
		// callables connected to a signal
		Nz::Signal<> signal;
		std::vector<Nz::Signal<>::Connection> connections;
		struct Slot
		{
			Elem e;
			std::vector<int>* order;
			void operator()() const { order->push_back(e.id); }
		};
		std::vector<int> order;
		std::vector<bool> connected;
		for (std::size_t k = 0, n = c.size(1, 12); k < n; ++k)
		{
			forget();
			if (connections.empty() || c.below(3) != 0)
			{
				LOG("connect");
				Slot s{ Elem(k), &order };
				connections.push_back(signal.Connect(std::move(s)));
				connected.push_back(true);
			}
			else
			{
				std::size_t which = c.below(connections.size());
				LOG("disconnect " << which);
				connections[which].Disconnect();
				connected[which] = false;
			}
			forget();
			order.clear();
			signal();
			for (std::size_t i = 0; i < g_made; ++i)
			{
				const Count& k2 = g_counts[i];
				CHECK(k2.copies == 0 && k2.ends == 0 && k2.moves == 0, "an emission copied, moved or destroyed what a callable holds");
			}
			Nz::Signal<> target(std::move(signal));
			for (std::size_t i = 0; i < g_made; ++i)
				CHECK(g_counts[i].copies == 0 && g_counts[i].ends == 0, "a move copied or destroyed what a callable holds");
			signal = std::move(target);
			CHECK_EQ(order.size(), static_cast<std::size_t>(std::count(connected.begin(), connected.end(), true)));
			if (order.size() > 1) c.nontrivial();
		}
	}
}
PBT_TARGET("FixedVector<8>", 120000, &vectors<FixedKind<8>>)
PBT_TARGET("FixedVector<300>", 3000, &vectors<FixedKind<300>>)
PBT_TARGET("HybridVector<1>", 80000, &vectors<HybridKind<1>>)
PBT_TARGET("HybridVector<6>", 120000, &vectors<HybridKind<6>>)
PBT_TARGET("HybridVector<260>", 2000, &vectors<HybridKind<260>>)
PBT_TARGET("StackVector, 8", 120000, &vectors<StackKind<8>>)
PBT_TARGET("StackVector, 300", 3000, &vectors<StackKind<300>>)
PBT_TARGET("growth of HybridVector<1>", 800, &amortized<Nz::HybridVector<Elem, 1>>)
PBT_TARGET("growth of HybridVector<40>", 800, &amortized<Nz::HybridVector<Elem, 40>>)
PBT_TARGET("growth of Bitset<uint8_t>", 800, &bitGrowth<Nz::Bitset<Nz::UInt8>>)
PBT_TARGET("growth of Bitset<uint64_t>", 800, &bitGrowth<Nz::Bitset<Nz::UInt64>>)
PBT_TARGET("growth of HybridBitset", 800, &bitGrowth<Nz::HybridBitset<Nz::UInt16, 64>>)
PBT_TARGET("pools", 100000, &pools)
PBT_TARGET("owners and slots", 60000, &owners)
