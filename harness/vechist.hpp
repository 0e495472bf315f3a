// Histories of operations on several vectors of one type, against std::vector<int> models.
#pragma once
#include "pbt.hpp"
#include "obj.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace vec
{
	// --- element types: how to make one from an integer, and which integer it stands for
	template<typename T, typename = void> struct Elem;

	template<typename T> struct Elem<T, std::enable_if_t<std::is_integral_v<T>>>
	{
		static constexpr bool HasFaults = false;
		static T make(int v) { return static_cast<T>(v); }
		static int norm(int v) { return static_cast<int>(static_cast<T>(v)); }
		static int get(const T& t) { return static_cast<int>(t); }
		static int def() { return 0; }
		static void set(T& t, int v) { t = make(v); }
		static constexpr bool MoveKeeps = true;
	};

	template<> struct Elem<std::string>
	{
		static constexpr bool HasFaults = false;
		static std::string make(int v) { return v == 0 ? std::string() : (v % 2 ? "" : "a string which does not fit in the string object ") + std::to_string(v); }
		static int norm(int v) { return v; }
		static int get(const std::string& t) { if (t.empty()) return 0; std::size_t p = t.rfind(' '); return std::atoi(t.c_str() + (p == std::string::npos ? 0 : p + 1)); }
		static int def() { return 0; }
		static void set(std::string& t, int v) { t = make(v); }
		static constexpr bool MoveKeeps = false;
	};

	template<> struct Elem<std::unique_ptr<int>>
	{
		static constexpr bool HasFaults = false;
		static std::unique_ptr<int> make(int v) { return v == 0 ? nullptr : std::make_unique<int>(v); }
		static int norm(int v) { return v; }
		static int get(const std::unique_ptr<int>& t) { return t ? *t : 0; }
		static int def() { return 0; }
		static void set(std::unique_ptr<int>& t, int v) { t = make(v); }
		static constexpr bool MoveKeeps = false;
	};

	// no default constructor, no assignment
	struct Rigid
	{
		explicit Rigid(int v) : value(v) {}
		const int* self() const { return &value; }
		int value;
	};
	template<> struct Elem<Rigid>
	{
		static constexpr bool HasFaults = false;
		static Rigid make(int v) { return Rigid(v); }
		static int norm(int v) { return v; }
		static int get(const Rigid& t) { return t.value; }
		static void set(Rigid& t, int v) { t.value = v; }
		static constexpr bool MoveKeeps = true;
	};

	template<unsigned O> struct Elem<obj::Tracked<O>>
	{
		using T = obj::Tracked<O>;
		static constexpr bool HasFaults = true;
		static T make(int v) { return T(v); }
		static int norm(int v) { return v; }
		static int get(const T& t) { return t.value(); }
		static int def() { return obj::DefaultValue; }
		static void set(T& t, int v) { t.set(v); }
		static constexpr bool MoveKeeps = false;
	};

	// --- vector kinds
	template<typename T, std::size_t Cap> struct FixedKind
	{
		using V = Nz::FixedVector<T, Cap>;
		static constexpr bool Inline = true, Bounded = true, Stack = false, Reserve = true;
		static constexpr std::size_t Border = Cap;
	};

	template<typename T, std::size_t Cap> struct HybridKind
	{
		using V = Nz::HybridVector<T, Cap>;
		static constexpr bool Inline = false, Bounded = false, Stack = false, Reserve = true;
		static constexpr std::size_t Border = Cap;
	};

	template<typename T, std::size_t Max = 10> struct StackKind
	{
		using V = Nz::StackVector<T>;
		static constexpr bool Inline = false, Bounded = true, Stack = true, Reserve = false;
		static constexpr std::size_t Border = Max <= 10 ? 4 : Max - 3, Largest = Max;
	};

	template<typename K, typename T>
	class History
	{
		using V = typename K::V;
		using E = Elem<T>;
		static constexpr bool Copyable = std::is_copy_constructible_v<T>;
		static constexpr bool CopyAssignable = std::is_copy_assignable_v<T>;
		static constexpr bool Default = std::is_default_constructible_v<T>;

		static constexpr std::size_t MaxSlots = 3;

		struct Slot
		{
			// every object has its own allocation, and the memory given to stack vectors has exactly the right size
			void* object = nullptr;
			V* v = nullptr;
			std::size_t capacity = 0; // bounded: what it may hold
			std::vector<int> model;
			bool specified = true; // false once moved from: only cleared, assigned or destroyed
			std::size_t reserved = 0;
		};

		public:
			History(pbt::Case& cc, bool faults) : c(cc), m_faults(faults) {}

			void run(unsigned maxOps)
			{
				obj::reg.reset();
				std::size_t slotCount = c.size(1, MaxSlots);
				for (std::size_t i = 0; i < slotCount; ++i)
				{
					m_slots[i] = Slot{};
					create(i);
				}
				m_count = slotCount;
				verify("construction");

				std::size_t ops = c.size(1, maxOps);
				for (std::size_t k = 0; k < ops; ++k)
				{
					step();
					c.flush();
				}

				for (std::size_t i = 0; i < m_count; ++i)
					destroy(m_slots[i]);
				freeAll();
				c.flush();
				if constexpr (E::HasFaults)
					CHECK_EQ(obj::reg.live, std::size_t(0), "elements still alive once every vector was destroyed");
			}

			void freeAll()
			{
				for (void* p : m_memory)
					::operator delete(p, std::align_val_t(64));
				m_memory.clear();
			}

		private:
			pbt::Case& c;
			bool m_faults;
			Slot m_slots[MaxSlots];
			std::size_t m_count = 0;
			std::vector<void*> m_memory;
			int m_next = 1;
			bool m_interrupted = false;

			int fresh() { int v = E::norm(m_next++ % 1000 + 1); return v; }

			void* memory(std::size_t size)
			{
				void* p = ::operator new(size, std::align_val_t(64));
				m_memory.push_back(p);
				return p;
			}

			template<typename... Args> V* build(Slot& s, Args&&... args)
			{
				s.object = ::operator new(sizeof(V), std::align_val_t(64));
				std::memset(s.object, 0xA5, sizeof(V));
				V* v;
				try { v = new (s.object) V(std::forward<Args>(args)...); }
				catch (...)
				{
					::operator delete(s.object, std::align_val_t(64));
					s.object = nullptr;
					s.v = nullptr;
					throw;
				}
				s.v = v;
				s.specified = true;
				s.reserved = 0;
				return v;
			}

			void destroy(Slot& s)
			{
				if (!s.v)
					return;
				s.v->~V();
				s.v = nullptr;
				::operator delete(s.object, std::align_val_t(64));
				s.object = nullptr;
			}

			std::size_t roomMax() const { return K::Border * 2 + 3; }
			std::size_t limit(const Slot& s) const { return K::Bounded ? s.capacity : roomMax(); }

			// [0, n): in a large vector, often near its end or where 8 and 16 bits stop counting
			std::size_t at(std::size_t n)
			{
				if (n > 1000 && c.below(3) != 0)
				{
					if (c.coin())
						return n - 1 - c.below(std::min<std::size_t>(n, 500));
					return std::min(n - 1, c.sizeAround(n - 1, { 255, 256, 65535, 65536 }));
				}
				return c.below(n);
			}

			std::vector<int> freshValues(std::size_t n)
			{
				std::vector<int> r;
				for (std::size_t i = 0; i < n; ++i)
					r.push_back(fresh());
				return r;
			}

			void makeDefault(Slot& s)
			{
				if constexpr (K::Stack)
				{
					if (c.chance(1, 12))
					{
						build(s);
						s.capacity = 0;
					}
					else
					{
						s.capacity = c.sizeAround(K::Largest, { 1, K::Border });
						T* mem = static_cast<T*>(memory(s.capacity * sizeof(T)));
						build(s, mem, s.capacity);
					}
				}
				else
				{
					build(s);
					s.capacity = K::Border;
				}
				s.model.clear();
			}

			void create(std::size_t idx)
			{
				Slot& s = m_slots[idx];
				if constexpr (K::Stack)
				{
					LOG("v" << idx << ": new");
					makeDefault(s);
				}
				else
				{
					std::size_t max = K::Bounded ? K::Border : roomMax();
					s.capacity = K::Border;
					switch (c.below(5))
					{
						case 1:
							if constexpr (Copyable)
							{
								std::size_t n = c.sizeAround(max, { K::Border });
								int v = fresh();
								LOG("v" << idx << ": new(" << n << ", " << v << ")");
								T value = E::make(v);
								if constexpr (Default)
								{
									if (c.chance(1, 4))
									{
										build(s, n);
										s.model.assign(n, E::def());
										return;
									}
								}
								build(s, n, value);
								s.model.assign(n, v);
								return;
							}
							break;
						case 2:
						{
							std::vector<int> values = freshValues(c.sizeAround(max, { K::Border }));
							LOG("v" << idx << ": new(range of " << values.size() << ")");
							std::vector<T> src;
							for (int v : values)
								src.push_back(E::make(v));
							if constexpr (Copyable)
							{
								build(s, src.begin(), src.end());
								for (std::size_t i = 0; i < values.size(); ++i)
									CHECK_EQ(E::get(src[i]), values[i], "the source range was changed");
							}
							else
								build(s, std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
							s.model = values;
							return;
						}
						case 3:
							if constexpr (Copyable)
							{
								std::vector<int> v = freshValues(3);
								LOG("v" << idx << ": new{3 values}");
								if (max >= 3)
								{
									build(s, std::initializer_list<T>{ E::make(v[0]), E::make(v[1]), E::make(v[2]) });
									s.model = v;
								}
								else
								{
									v.resize(1);
									build(s, std::initializer_list<T>{ E::make(v[0]) });
									s.model = v;
								}
								return;
							}
							break;
					}
					LOG("v" << idx << ": new");
					makeDefault(s);
				}
			}

			template<typename F> bool guarded(F&& f)
			{
				if constexpr (E::HasFaults)
				{
					if (m_faults && c.chance(1, 2))
					{
						obj::reg.thrown = false;
						obj::reg.countdown = static_cast<long>(c.below(1 + std::min<std::size_t>(K::Border > 12 && c.coin() ? K::Border : 12, limit(m_slots[0]) + 4)));
						LOG("   (element operation " << obj::reg.countdown << " throws)");
						try { f(); obj::reg.countdown = -1; return true; }
						catch (const obj::Fault&)
						{
							obj::reg.countdown = -1;
							c.tag("operation interrupted by an exception");
							c.nontrivial();
							return false;
						}
					}
				}
				f();
				return true;
			}

			// an operation on one slot which may be interrupted. strong: then the vector must not have changed
			template<typename F> bool mutate(Slot& s, bool strong, const std::vector<int>& after, F&& f)
			{
				if (guarded(std::forward<F>(f)))
				{
					s.model = after;
					return true;
				}
				resync(s, strong);
				m_interrupted = true;
				return false;
			}

			void resync(Slot& s, bool strong)
			{
				if (strong)
					return; // the model is unchanged: the comparison tells
				// basic guarantee: whatever it holds, every element is alive and it holds nothing else
				std::size_t n = s.v->size();
				CHECK(n <= std::max(limit(s) + 2, s.model.size() + 2), n);
				std::vector<int> now;
				for (std::size_t i = 0; i < n; ++i)
					now.push_back(E::get(s.v->data()[i]));
				c.flush();
				s.model = now;
				c.tag("basic guarantee used");
			}

			bool relocates(const Slot& s, std::size_t wanted) const { return !K::Bounded && wanted > s.v->capacity(); }

			std::size_t other(std::size_t i) { return m_count == 1 ? i : (i + 1 + c.below(m_count - 1)) % m_count; }

			void step()
			{
				std::size_t idx = c.below(m_count);
				Slot& s = m_slots[idx];
				if (!s.v)
				{
					createFaulty(idx);
					verify("construction");
					return;
				}
				if (!s.specified)
				{
					reuse(idx);
					verify("use of a moved vector");
					return;
				}

				V& v = *s.v;
				std::vector<int> m = s.model;
				std::size_t size = m.size();
				std::size_t max = limit(s);
				bool room = size < max;
				const char* what = "?";
				m_interrupted = false;
				const T* firstBefore = v.data();
				std::size_t capacityBefore = v.capacity();
				std::size_t copies = 0; // what the operation may copy
				if constexpr (E::HasFaults) obj::reg.copies = 0;
				std::size_t stable = size; // elements before this one must not have moved in memory, if the capacity was enough

				// a large vector is first given enough elements
				switch ((K::Border > 200 && size < 200 && c.coin()) ? 17 : c.below(27))
				{
					case 0: case 1: // push_back(const&)
						if constexpr (Copyable)
						{
							if (!room) return;
							what = "push_back(const&)"; copies = 1;
							int x = fresh();
							T value = E::make(x);
							LOG("v" << idx << ".push_back(" << x << ")");
							m.push_back(x);
							mutate(s, !relocates(s, size + 1), m, [&] { auto& r = v.push_back(value); CHECK(&r == v.data() + size, "returned reference"); });
							CHECK_EQ(E::get(value), x, "the value pushed was changed");
							if (size + 1 > K::Border) c.tag("grew past the inline capacity");
							c.nontrivial();
						}
						break;
					case 2: // push_back(&&)
					{
						if (!room) return;
						what = "push_back(&&)";
						int x = fresh();
						LOG("v" << idx << ".push_back(&&" << x << ")");
						m.push_back(x);
						mutate(s, !relocates(s, size + 1), m, [&] { auto& r = v.push_back(E::make(x)); CHECK(&r == v.data() + size, "returned reference"); });
						c.nontrivial();
						break;
					}
					case 3: case 4: // emplace_back
					{
						if (!room) return;
						what = "emplace_back";
						int x = fresh();
						LOG("v" << idx << ".emplace_back(" << x << ")");
						m.push_back(x);
						mutate(s, !relocates(s, size + 1), m, [&]
						{
							if constexpr (E::HasFaults)
							{
								if (x % 2)
								{
									auto& r = v.emplace_back(x - 1, 1);
									CHECK(&r == v.data() + size, "returned reference");
									return;
								}
							}
							auto& r = v.emplace_back(E::make(x));
							CHECK(&r == v.data() + size, "returned reference");
						});
						c.nontrivial();
						break;
					}
					case 5: // append one of its own elements
						if constexpr (Copyable)
						{
							if (!room || size == 0) return;
							what = "append its own element"; copies = 2;
							std::size_t i = at(size);
							unsigned how = static_cast<unsigned>(c.below(2));
							LOG("v" << idx << (how ? ".emplace_back(v[" : ".push_back(v[") << i << "])");
							m.push_back(m[i]);
							mutate(s, !relocates(s, size + 1), m, [&] { if (how) v.emplace_back(v[i]); else v.push_back(v[i]); });
							c.tag("element of the vector as an argument");
							c.nontrivial();
						}
						break;
					case 6: // append one of its own elements, moved: its former place is then given a value again
					{
						if (!room || size == 0) return;
						what = "append its own element, moved";
						std::size_t i = at(size);
						int x = fresh();
						LOG("v" << idx << ".push_back(std::move(v[" << i << "])), v[" << i << "] = " << x);
						m.push_back(m[i]);
						m[i] = x;
						if (mutate(s, false, m, [&] { v.push_back(std::move(v[i])); }))
							E::set(v[i], x);
						c.tag("element of the vector as an argument");
						break;
					}
					case 7: case 8: case 9: // insert / emplace
						if constexpr (std::is_move_assignable_v<T>)
						{
							if (!room) return;
							what = "insert";
							std::size_t pos = at(size + 1);
							int x = fresh();
							unsigned how = static_cast<unsigned>(c.below(4));
							LOG("v" << idx << ".insert(" << pos << ", " << x << ") form " << how);
							copies = how == 0 && Copyable;
							m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), x);
							stable = pos;
							mutate(s, false, m, [&]
							{
								typename V::iterator it;
								if (how == 0)
								{
									if constexpr (Copyable)
									{
										T value = E::make(x);
										it = v.insert(v.cbegin() + static_cast<std::ptrdiff_t>(pos), value);
										CHECK_EQ(E::get(value), x, "the value inserted was changed");
									}
									else
										it = v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), E::make(x));
								}
								else if (how == 1)
									it = v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), E::make(x));
								else if constexpr (std::is_constructible_v<T, int>)
									it = v.emplace(v.begin() + static_cast<std::ptrdiff_t>(pos), x);
								else
									it = v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(pos), E::make(x));
								CHECK(it == v.begin() + static_cast<std::ptrdiff_t>(pos), "returned iterator");
							});
							if (pos != size) c.tag("insertion in the middle");
							if (size + 1 > K::Border) c.tag("grew past the inline capacity");
							c.nontrivial();
						}
						break;
					case 10: case 11: // insert one of its own elements
						if constexpr (Copyable && std::is_move_assignable_v<T>)
						{
							if (!room || size == 0) return;
							what = "insert its own element"; copies = 2;
							std::size_t pos = at(size + 1);
							std::size_t i = at(size);
							bool useInsert = c.coin();
							LOG("v" << idx << (useInsert ? ".insert(" : ".emplace(") << pos << ", v[" << i << "])");
							m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), s.model[i]);
							stable = pos;
							mutate(s, false, m, [&]
							{
								typename V::iterator it;
								if (useInsert)
									it = v.insert(v.cbegin() + static_cast<std::ptrdiff_t>(pos), v[i]);
								else
									it = v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(pos), v[i]);
								CHECK(it == v.begin() + static_cast<std::ptrdiff_t>(pos), "returned iterator");
							});
							c.tag("element of the vector as an argument");
							c.nontrivial();
						}
						break;
					case 12: case 13: // erase(pos)
						if constexpr (std::is_move_assignable_v<T>)
						{
							if (size == 0) return;
							what = "erase";
							std::size_t pos = at(size);
							LOG("v" << idx << ".erase(" << pos << ")");
							m.erase(m.begin() + static_cast<std::ptrdiff_t>(pos));
							stable = pos;
							mutate(s, false, m, [&]
							{
								auto it = v.erase(v.cbegin() + static_cast<std::ptrdiff_t>(pos));
								CHECK(it == v.begin() + static_cast<std::ptrdiff_t>(pos), "returned iterator");
							});
							c.nontrivial();
						}
						break;
					case 14: case 15: // erase(first, last)
						if constexpr (std::is_move_assignable_v<T>)
						{
							what = "erase range";
							std::size_t a = at(size + 1);
							std::size_t b = a + at(size - a + 1);
							LOG("v" << idx << ".erase(" << a << ", " << b << ")");
							m.erase(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b));
							stable = a;
							mutate(s, false, m, [&]
							{
								auto it = v.erase(v.cbegin() + static_cast<std::ptrdiff_t>(a), v.cbegin() + static_cast<std::ptrdiff_t>(b));
								CHECK(it == v.begin() + static_cast<std::ptrdiff_t>(a), "returned iterator");
							});
							if (a != b) { c.nontrivial(); c.tag("range erased"); }
						}
						break;
					case 16: // pop_back
						if (size == 0) return;
						what = "pop_back";
						LOG("v" << idx << ".pop_back()");
						m.pop_back();
						v.pop_back();
						s.model = m;
						stable = size - 1;
						break;
					case 17: // resize(n)
						if constexpr (Default)
						{
							what = "resize(n)";
							std::size_t n = c.sizeAround(max, { K::Border, size });
							LOG("v" << idx << ".resize(" << n << ")");
							m.resize(n, E::def());
							stable = std::min(n, size);
							mutate(s, false, m, [&] { v.resize(n); });
							if (n > size) c.nontrivial();
							if (n > K::Border && size <= K::Border) c.tag("grew past the inline capacity");
						}
						break;
					case 18: // resize(n, value)
						if constexpr (Copyable)
						{
							what = "resize(n, value)";
							std::size_t n = c.sizeAround(max, { K::Border, size });
							int x = fresh();
							bool own = size != 0 && c.chance(1, 3);
							std::size_t i = own ? at(size) : 0;
							LOG("v" << idx << ".resize(" << n << ", " << (own ? "one of its elements" : std::to_string(x)) << ")");
							m.resize(n, own ? s.model[i] : x);
							stable = std::min(n, size);
							T value = E::make(x);
							copies = (n > size ? n - size : 0) + 2;
							mutate(s, false, m, [&] { if (own) v.resize(n, v[i]); else v.resize(n, value); });
							if (own) c.tag("element of the vector as an argument");
							if (n > size) c.nontrivial();
						}
						break;
					case 19: // reserve
						if constexpr (K::Reserve)
						{
							what = "reserve";
							std::size_t n = c.sizeAround(max, { K::Border, size });
							LOG("v" << idx << ".reserve(" << n << ")");
							if (mutate(s, false, m, [&] { v.reserve(n); }))
							{
								CHECK(v.capacity() >= n, n);
								s.reserved = n;
							}
						}
						break;
					case 20:
						if (!c.chance(1, 3)) return;
						what = "clear";
						LOG("v" << idx << ".clear()");
						v.clear();
						s.model.clear();
						stable = 0;
						break;
					case 21: // copy assignment
						if constexpr (Copyable && !K::Stack)
						{
							what = "copy assignment";
							std::size_t o = c.chance(1, 8) ? idx : other(idx);
							Slot& so = m_slots[o];
							if (!so.v || !so.specified) return;
							LOG("v" << idx << " = v" << o);
							std::vector<int> om = so.model;
							copies = om.size();
							mutate(s, idx == o, om, [&] { V& r = (v = *so.v); CHECK(&r == &v); });
							s.reserved = 0;
							if (idx != o) stable = 0;
							else c.tag("self assignment");
							c.nontrivial();
							if (om.size() > K::Border || size > K::Border) c.tag("assignment with heap storage");
						}
						break;
					case 22: // move assignment
					{
						what = "move assignment";
						std::size_t o = c.chance(1, 10) ? idx : other(idx);
						Slot& so = m_slots[o];
						if (!so.v || !so.specified) return;
						LOG("v" << idx << " = std::move(v" << o << ")");
						if (o == idx)
						{
							// moved from and assigned at once: any value, but a valid vector
							V& r = (v = std::move(*so.v));
							CHECK(&r == &v);
							if (K::Stack) s.capacity = s.v->capacity();
							s.specified = false;
							s.reserved = 0;
							checkCopies(0, what);
							c.tag("self move assignment");
							verify(what);
							return;
						}
						std::vector<int> om = so.model;
						V& r = (v = std::move(*so.v));
						CHECK(&r == &v);
						s.model = om;
						if (K::Stack) s.capacity = s.v->capacity(), so.capacity = so.v->capacity();
						so.specified = false;
						so.reserved = 0;
						s.reserved = 0;
						stable = 0;
						c.tag("move");
						c.nontrivial();
						if (om.size() > K::Border || size > K::Border) c.tag("assignment with heap storage");
						break;
					}
					case 23: // move construction
					{
						what = "move construction";
						std::size_t o = other(idx);
						if (o == idx) return;
						Slot& so = m_slots[o];
						if (!so.v || !so.specified) return;
						LOG("v" << idx << " destroyed, then built from std::move(v" << o << ")");
						destroy(s);
						std::size_t cap = so.capacity;
						std::vector<int> om = so.model;
						build(s, std::move(*so.v));
						s.model = om;
						s.capacity = cap;
						if (K::Stack) { CHECK_EQ(s.v->capacity(), cap, "capacity of the new vector"); so.capacity = so.v->capacity(); }
						so.specified = false;
						so.reserved = 0;
						c.tag("move");
						c.nontrivial();
						checkCopies(0, what);
						verify(what);
						return;
					}
					case 24: // copy construction
						if constexpr (Copyable && !K::Stack)
						{
							what = "copy construction";
							std::size_t o = other(idx);
							if (o == idx) return;
							Slot& so = m_slots[o];
							if (!so.v || !so.specified) return;
							LOG("v" << idx << " destroyed, then built from v" << o);
							destroy(s);
							s.model.clear();
							std::vector<int> om = so.model;
							const V& src = *so.v;
							if (guarded([&] { build(s, src); }))
								s.model = om;
							checkCopies(om.size(), what);
							c.nontrivial();
							verify(what);
							return;
						}
						break;
					case 25: // writes through every kind of access
					{
						if (size == 0) return;
						what = "write";
						std::size_t i = at(size);
						int x = fresh();
						m[i] = x;
						unsigned how = static_cast<unsigned>(c.below(6));
						LOG("v" << idx << "[" << i << "] = " << x << " form " << how);
						auto pos = static_cast<std::ptrdiff_t>(i);
						switch (how)
						{
							case 0: E::set(v[i], x); break;
							case 1: E::set(*(v.begin() + pos), x); break;
							case 2: E::set(*(v.rbegin() + static_cast<std::ptrdiff_t>(size - 1 - i)), x); break;
							case 3: E::set(v.data()[i], x); break;
							case 4: m = s.model; m.front() = x; E::set(v.front(), x); break;
							default: m = s.model; m.back() = x; E::set(v.back(), x); break;
						}
						s.model = m;
						break;
					}
					case 26: // destruction
						if (c.coin())
						{
							LOG("v" << idx << ": destroyed and created again");
							destroy(s);
							s.model.clear();
							createFaulty(idx);
							verify("construction");
							return;
						}
						else if constexpr (std::is_move_assignable_v<T>)
						{
							LOG("v" << idx << ": reversed through its iterators");
							std::reverse(v.begin(), v.end());
							std::reverse(m.begin(), m.end());
							s.model = m;
							stable = 0;
							firstBefore = v.data();
							what = "reverse";
						}
						break;
				}
				if (what[0] == '?')
					return;
				checkCopies(copies, what);
				// growth within the capacity leaves the elements before the change where they are
				if (!m_interrupted && stable > 0 && s.model.size() <= capacityBefore && v.size() >= stable && (std::strcmp(what, "reserve") != 0 || s.reserved <= capacityBefore))
					CHECK(v.data() == firstBefore, "elements were moved elsewhere although the capacity was enough");
				verify(what);
			}

			// elements are copied when the operation asks for it only (std::vector, which holds what does not fit in a hybrid
			// vector, copies the elements whose move may throw)
			void checkCopies([[maybe_unused]] std::size_t most, [[maybe_unused]] const char* what)
			{
				if constexpr (E::HasFaults && (K::Bounded || std::is_nothrow_move_constructible_v<T>))
					CHECK(obj::reg.copies <= most, "elements copied:", obj::reg.copies, what);
			}

			void createFaulty(std::size_t idx)
			{
				m_slots[idx].model.clear();
				if (!guarded([&] { create(idx); }))
				{
					m_slots[idx].model.clear();
					c.tag("constructor interrupted by an exception");
				}
			}

			// a vector which was moved from: any of the things it must still support
			void reuse(std::size_t idx)
			{
				Slot& s = m_slots[idx];
				V& v = *s.v;
				// it can be looked at
				std::size_t n = v.size();
				CHECK(n <= v.capacity() || K::Stack, n);
				CHECK_EQ(v.empty(), n == 0);
				switch (c.below(4))
				{
					case 0:
						LOG("v" << idx << ".clear() (after being moved)");
						v.clear();
						s.model.clear();
						s.specified = true;
						break;
					case 1:
					{
						std::size_t o = other(idx);
						if (o == idx || !m_slots[o].v || !m_slots[o].specified) { v.clear(); s.model.clear(); s.specified = true; break; }
						if constexpr (Copyable && !K::Stack)
						{
							LOG("v" << idx << " (moved) = v" << o);
							v = *m_slots[o].v;
							s.model = m_slots[o].model;
						}
						else
						{
							LOG("v" << idx << " (moved) = std::move(v" << o << ")");
							v = std::move(*m_slots[o].v);
							s.model = m_slots[o].model;
							m_slots[o].specified = false;
							m_slots[o].reserved = 0;
							if (K::Stack) s.capacity = v.capacity(), m_slots[o].capacity = m_slots[o].v->capacity();
						}
						s.specified = true;
						break;
					}
					case 2:
						LOG("v" << idx << " (moved) destroyed");
						destroy(s);
						s.model.clear();
						create(idx);
						break;
					default:
						if constexpr (!K::Stack)
						{
							LOG("v" << idx << " (moved) = {}");
							V fresh;
							v = std::move(fresh);
							s.model.clear();
							s.specified = true;
						}
						else
						{
							v.clear();
							s.model.clear();
							s.specified = true;
						}
						break;
				}
				if (K::Stack && s.v)
					s.capacity = s.v->capacity();
				c.tag("moved vector used again");
			}

			void verify(const char* what)
			{
				c.flush();
				std::size_t total = 0;
				for (std::size_t k = 0; k < m_count; ++k)
				{
					Slot& s = m_slots[k];
					if (!s.v)
						continue;
					if (!s.specified)
					{
						total += s.v->size();
						continue;
					}
					verifyOne(s, k, what);
					total += s.model.size();
				}
				c.flush();
				if constexpr (E::HasFaults)
					CHECK_EQ(obj::reg.live, total, "elements alive", what);
			}

			void verifyOne(Slot& s, std::size_t k, const char* what)
			{
				V& v = *s.v;
				const V& cv = v;
				const std::vector<int>& m = s.model;
				CHECK_EQ(cv.size(), m.size(), "v", k, what);
				CHECK_EQ(cv.empty(), m.empty(), "v", k, what);
				CHECK(cv.capacity() >= m.size(), "v", k, what);
				CHECK(cv.max_size() >= m.size(), "v", k, what);
				if constexpr (K::Bounded)
					CHECK_EQ(cv.capacity(), s.capacity, "v", k, what);
				if constexpr (K::Inline)
				{
					const unsigned char* p = reinterpret_cast<const unsigned char*>(cv.data());
					const unsigned char* o = static_cast<const unsigned char*>(s.object);
					CHECK(p >= o && p + K::Border * sizeof(T) <= o + sizeof(V), "the storage is not in the object");
				}
				CHECK(reinterpret_cast<std::uintptr_t>(cv.data()) % alignof(T) == 0, "alignment");
				CHECK(v.data() == cv.data() && v.begin() == v.data() && cv.begin() == cv.data() && cv.cbegin() == cv.data());
				CHECK(static_cast<std::size_t>(v.end() - v.begin()) == m.size());
				CHECK(static_cast<std::size_t>(cv.end() - cv.begin()) == m.size());
				CHECK(static_cast<std::size_t>(cv.cend() - cv.cbegin()) == m.size());
				if (m.size() > 2000)
				{
					// enough elements for the checks below to be slow
					std::size_t i = 0, back = m.size();
					for (const T& e : cv)
					{
						if (E::get(e) != m[i] || &e != &cv[i] || &e != &v[i])
							pbt::fail("element " + std::to_string(i) + " of " + std::to_string(m.size()) + " differs (" + what + ")");
						++i;
					}
					CHECK_EQ(i, m.size());
					for (auto it = cv.rbegin(); it != cv.rend(); ++it)
						if (back == 0 || &*it != cv.data() + --back)
							pbt::fail("rbegin");
					CHECK_EQ(back, std::size_t(0));
					CHECK(&cv.front() == cv.data() && &cv.back() == cv.data() + m.size() - 1);
					c.tag("more than 2000 elements");
					return;
				}
				for (std::size_t i = 0; i < m.size(); ++i)
				{
					CHECK_EQ(E::get(cv[i]), m[i], "v", k, "element", i, what);
					CHECK(&v[i] == cv.data() + i && &cv[i] == cv.data() + i);
				}
				if (m.size() > 200) c.tag("more than 200 elements");
				if (!m.empty())
				{
					CHECK(&v.front() == cv.data() && &cv.front() == cv.data());
					CHECK(&v.back() == cv.data() + m.size() - 1 && &cv.back() == cv.data() + m.size() - 1);
				}
				std::size_t i = m.size();
				for (auto it = v.rbegin(); it != v.rend(); ++it) { CHECK(i > 0); CHECK(&*it == cv.data() + --i, "rbegin"); }
				CHECK(i == 0, "rbegin/rend do not visit every element");
				i = m.size();
				for (auto it = cv.rbegin(); it != cv.rend(); ++it) { CHECK(i > 0); CHECK(&*it == cv.data() + --i, "const rbegin"); }
				CHECK(i == 0, "const rbegin/rend do not visit every element");
				i = m.size();
				for (auto it = cv.crbegin(); it != cv.crend(); ++it) { CHECK(i > 0); CHECK(&*it == cv.data() + --i, "crbegin"); }
				CHECK(i == 0, "crbegin/crend do not visit every element");
				if constexpr (K::Reserve && !K::Bounded)
					CHECK(cv.capacity() >= s.reserved || s.reserved == 0, "reserve was forgotten");
			}
	};

	template<typename K, typename T, bool Faults = false> void history(pbt::Case& c)
	{
		History<K, T> h(c, Faults);
		h.run(Faults ? 12 : 16);
	}
}
