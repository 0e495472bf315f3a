// Histories of operations on stack arrays
#pragma once
#include "vechist.hpp"
#include <NazaraUtils/StackArray.hpp>

namespace vec
{
	template<typename T>
	class ArrayHistory
	{
		using A = Nz::StackArray<T>;
		using E = Elem<T>;
		static constexpr bool Copyable = std::is_copy_assignable_v<T>;

		struct Slot
		{
			A* a = nullptr;
			std::vector<int> model;
			bool moved = false;
		};

		public:
			ArrayHistory(pbt::Case& cc, bool faults) : c(cc), m_faults(faults) {}

			void run()
			{
				obj::reg.reset();
				m_count = c.size(1, 3);
				for (std::size_t i = 0; i < m_count; ++i)
					create(i);
				verify("construction");
				std::size_t ops = c.size(1, 10);
				for (std::size_t k = 0; k < ops; ++k)
				{
					step();
					verify("operation");
				}
				for (std::size_t i = 0; i < m_count; ++i)
					destroy(m_slots[i]);
				for (void* p : m_memory)
					::operator delete(p, std::align_val_t(64));
				m_memory.clear();
				c.flush();
				if constexpr (E::HasFaults)
					CHECK_EQ(obj::reg.live, std::size_t(0), "elements still alive once every array was destroyed");
			}

		private:
			pbt::Case& c;
			bool m_faults;
			Slot m_slots[3];
			std::size_t m_count = 0;
			std::vector<void*> m_memory;
			int m_next = 1;

			int fresh() { return E::norm(m_next++ % 1000 + 1); }

			void destroy(Slot& s)
			{
				delete s.a;
				s.a = nullptr;
				s.model.clear();
				s.moved = false;
			}

			void create(std::size_t idx)
			{
				Slot& s = m_slots[idx];
				s.model.clear();
				s.moved = false;
				if (c.chance(1, 10))
				{
					LOG("a" << idx << ": new()");
					s.a = new A();
					return;
				}
				std::size_t n = c.chance(1, 40) ? c.sizeAround(600, { 255, 256, 300 }) : c.sizeAround(9, { 1, 4 });
				void* mem = ::operator new(n * sizeof(T), std::align_val_t(64));
				m_memory.push_back(mem);
				std::memset(mem, 0xA5, n * sizeof(T));
				if constexpr (std::is_default_constructible_v<T>)
				{
					if (c.below(3) != 2)
					{
						LOG("a" << idx << ": new(" << n << ")");
						if constexpr (E::HasFaults)
						{
							if (m_faults && c.coin())
							{
								std::size_t before = obj::reg.live;
								obj::reg.countdown = static_cast<long>(c.below(n + 2));
								LOG("   (element operation " << obj::reg.countdown << " throws)");
								try { s.a = new A(static_cast<T*>(mem), n); obj::reg.countdown = -1; }
								catch (const obj::Fault&)
								{
									obj::reg.countdown = -1;
									s.a = nullptr;
									c.flush();
									CHECK_EQ(obj::reg.live, before, "elements of an array whose construction failed are alive");
									c.nontrivial();
									c.tag("constructor interrupted by an exception");
									return;
								}
								s.model.assign(n, E::def());
								return;
							}
						}
						s.a = new A(static_cast<T*>(mem), n);
						s.model.assign(n, E::def());
						if (n > 0) c.nontrivial();
						return;
					}
				}
				LOG("a" << idx << ": new(" << n << ", without initialization)");
				std::size_t before = obj::reg.live;
				s.a = new A(static_cast<T*>(mem), n, typename A::NoInitTag{});
				if constexpr (E::HasFaults)
					CHECK_EQ(obj::reg.live, before, "elements constructed although it was asked not to");
				else
					for (std::size_t i = 0; i < n * sizeof(T); ++i)
						CHECK(static_cast<unsigned char*>(mem)[i] == 0xA5, "the memory was written although it was asked not to");
				for (std::size_t i = 0; i < n; ++i)
				{
					int x = fresh();
					Nz::PlacementNew(s.a->data() + i, E::make(x));
					s.model.push_back(x);
				}
				if (n > 0) c.nontrivial();
				c.tag("built without initialization");
			}

			void step()
			{
				std::size_t idx = c.below(m_count);
				Slot& s = m_slots[idx];
				if (!s.a)
				{
					create(idx);
					return;
				}
				A& a = *s.a;
				std::size_t size = s.model.size();
				switch (c.below(7))
				{
					case 0: case 1:
					{
						if (size == 0 || s.moved) return;
						std::size_t i = c.below(size);
						int x = fresh();
						unsigned how = static_cast<unsigned>(c.below(6));
						LOG("a" << idx << "[" << i << "] = " << x << " form " << how);
						switch (how)
						{
							case 0: E::set(a[i], x); break;
							case 1: E::set(*(a.begin() + static_cast<std::ptrdiff_t>(i)), x); break;
							case 2: E::set(*(a.rbegin() + static_cast<std::ptrdiff_t>(size - 1 - i)), x); break;
							case 3: E::set(a.data()[i], x); break;
							case 4: i = 0; E::set(a.front(), x); break;
							default: i = size - 1; E::set(a.back(), x); break;
						}
						s.model[i] = x;
						break;
					}
					case 2:
						if constexpr (Copyable)
						{
							if (s.moved) return;
							int x = fresh();
							bool own = size != 0 && c.chance(1, 3);
							std::size_t i = own ? c.below(size) : 0;
							LOG("a" << idx << ".fill(" << (own ? "one of its elements" : std::to_string(x)) << ")");
							T value = E::make(x);
							int v = own ? s.model[i] : x;
							a.fill(own ? a[i] : value);
							s.model.assign(size, v);
						}
						break;
					case 3: case 4: // move construction
					{
						std::size_t o = (idx + 1) % m_count;
						if (o == idx || s.moved) return;
						LOG("a" << o << " destroyed, then built from std::move(a" << idx << ")");
						destroy(m_slots[o]);
						m_slots[o].a = new A(std::move(a));
						m_slots[o].model = s.model;
						s.moved = true;
						s.model.clear();
						c.tag("move");
						c.nontrivial();
						break;
					}
					case 5: // move assignment
					{
						std::size_t o = c.chance(1, 8) ? idx : (idx + 1) % m_count;
						if (s.moved || !m_slots[o].a) return;
						LOG("a" << o << " = std::move(a" << idx << ")");
						A& r = (*m_slots[o].a = std::move(a));
						CHECK(&r == m_slots[o].a);
						if (o == idx)
						{
							c.tag("self move assignment");
							return; // the swap of an array with itself: checked below to still hold live elements
						}
						m_slots[o].model = s.model;
						m_slots[o].moved = false;
						s.moved = true;
						s.model.clear();
						c.tag("move");
						c.nontrivial();
						break;
					}
					case 6:
						LOG("a" << idx << ": destroyed");
						destroy(s);
						break;
				}
			}

			void verify(const char* what)
			{
				c.flush();
				std::size_t total = 0;
				for (std::size_t k = 0; k < m_count; ++k)
				{
					Slot& s = m_slots[k];
					if (!s.a)
						continue;
					if (s.moved)
					{
						total += s.a->size();
						continue;
					}
					A& a = *s.a;
					const A& ca = a;
					const std::vector<int>& m = s.model;
					total += m.size();
					CHECK_EQ(ca.size(), m.size(), "a", k, what);
					CHECK_EQ(ca.max_size(), m.size(), "a", k, what);
					CHECK_EQ(ca.empty(), m.empty(), "a", k, what);
					CHECK(a.data() == ca.data() && a.begin() == a.data() && ca.begin() == ca.data() && ca.cbegin() == ca.data());
					CHECK(static_cast<std::size_t>(a.end() - a.begin()) == m.size());
					CHECK(static_cast<std::size_t>(ca.end() - ca.begin()) == m.size());
					CHECK(static_cast<std::size_t>(ca.cend() - ca.cbegin()) == m.size());
					for (std::size_t i = 0; i < m.size(); ++i)
					{
						CHECK_EQ(E::get(ca[i]), m[i], "a", k, "element", i, what);
						CHECK(&a[i] == ca.data() + i && &ca[i] == ca.data() + i);
					}
					if (!m.empty())
					{
						CHECK(&a.front() == ca.data() && &ca.front() == ca.data());
						CHECK(&a.back() == ca.data() + m.size() - 1 && &ca.back() == ca.data() + m.size() - 1);
					}
					std::size_t i = m.size();
					for (auto it = a.rbegin(); it != a.rend(); ++it) { CHECK(i > 0); CHECK(&*it == ca.data() + --i, "rbegin"); }
					CHECK(i == 0);
					i = m.size();
					for (auto it = ca.rbegin(); it != ca.rend(); ++it) { CHECK(i > 0); CHECK(&*it == ca.data() + --i, "const rbegin"); }
					CHECK(i == 0);
					i = m.size();
					for (auto it = ca.crbegin(); it != ca.crend(); ++it) { CHECK(i > 0); CHECK(&*it == ca.data() + --i, "crbegin"); }
					CHECK(i == 0);
				}
				c.flush();
				if constexpr (E::HasFaults)
					CHECK_EQ(obj::reg.live, total, "elements alive", what);
			}
	};

	template<typename T, bool Faults = false> void arrayHistory(pbt::Case& c)
	{
		ArrayHistory<T> h(c, Faults);
		h.run();
	}
}
