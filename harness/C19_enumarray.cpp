// Arrays indexed by an enumeration
#include "pbt.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <algorithm>
#include <iterator>
#include <memory>
#include <string>
#include <vector>

namespace
{
	enum class One { Only, Max = Only };
	enum class Three : unsigned char { A, B, C, Max = C };
	enum class Eight { A, B, C, D, E, F, G, H, Count };
	enum class Big : signed char { First, Max = 99 };
	enum Plain { Plain_A, Plain_B, Plain_C };
	enum class Huge : unsigned short { First, Count = 300 };

	static_assert(Nz::EnumValueCount_v<One> == 1 && Nz::EnumValueCount_v<Three> == 3 && Nz::EnumValueCount_v<Eight> == 8 && Nz::EnumValueCount_v<Big> == 100 && Nz::EnumValueCount_v<Huge> == 300);

	template<typename V> struct Make { static V of(int i) { return static_cast<V>(i); } static int read(const V& v) { return static_cast<int>(v); } };
	template<> struct Make<std::string> { static std::string of(int i) { return std::to_string(i) + std::string(static_cast<std::size_t>(i < 0 ? -i : i) % 40, '.'); } static int read(const std::string& v) { return std::stoi(v); } };
	template<> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> of(int i) { return std::make_unique<int>(i); } static int read(const std::unique_ptr<int>& v) { return *v; } };

	template<typename E, typename V, std::size_t N> struct Subject
	{
		using A = Nz::EnumArray<E, V>;
		using M = Make<V>;
		static E key(std::size_t i) { return static_cast<E>(i); }

		static void compare(const A& ca, const std::vector<int>& m)
		{
			A& a = const_cast<A&>(ca);
			CHECK_EQ(ca.size(), N);
			CHECK_EQ(static_cast<std::size_t>(ca.end() - ca.begin()), N);
			for (std::size_t i = 0; i < N; ++i)
			{
				CHECK_EQ(M::read(ca[key(i)]), m[i], "entry", i);
				CHECK(&a[key(i)] == &ca[key(i)] && &ca[key(i)] == ca.data() + i);
			}
			// key-value iteration
			std::size_t i = 0;
			for (auto&& [k, v] : a.iter_kv())
			{
				CHECK(i < N && k == key(i) && &v == &a[key(i)]);
				static_assert(std::is_same_v<decltype((v)), V&>);
				i++;
			}
			CHECK_EQ(i, N);
			i = 0;
			for (auto&& [k, v] : ca.iter_kv())
			{
				CHECK(i < N && k == key(i) && &v == &ca[key(i)]);
				static_assert(std::is_same_v<decltype((v)), const V&>);
				i++;
			}
			CHECK_EQ(i, N);
		}

		template<typename Range, typename Arr> static void iterators(pbt::Case& c, Range range, Arr& a)
		{
			auto b = range.begin(), e = range.end();
			using It = decltype(b);
			auto at = [&](const It& it, std::size_t i)
			{
				auto [k, v] = *it;
				CHECK(k == key(i) && &v == &a[key(i)], "iterator at", i);
				auto [k2, v2] = b[static_cast<std::ptrdiff_t>(i)];
				CHECK(k2 == key(i) && &v2 == &a[key(i)], "operator[] at", i);
				// [] counts from where the iterator is
				std::size_t to = static_cast<std::size_t>(c.below(N));
				auto [k3, v3] = it[static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(i)];
				CHECK(k3 == key(to) && &v3 == &a[key(to)], "operator[] from", i, "to", to);
				auto [k4, v4] = e[static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(N)];
				CHECK(k4 == key(to) && &v4 == &a[key(to)], "operator[] from the end to", to);
			};
			It it = b;
			std::ptrdiff_t pos = 0;
			constexpr std::ptrdiff_t S = static_cast<std::ptrdiff_t>(N);
			std::size_t steps = c.size(1, 12);
			for (std::size_t s = 0; s < steps; ++s)
			{
				std::ptrdiff_t n = c.range(-pos, S - pos); // stays inside [begin, end]
				unsigned op = static_cast<unsigned>(c.below(9));
				LOG("iterator op " << op << " from " << pos << " by " << n);
				switch (op)
				{
					case 0: if (pos == S) break; { It& r = ++it; CHECK(&r == &it); pos++; break; }
					case 1: if (pos == S) break; { It old = it++; CHECK(old != it); at(old, static_cast<std::size_t>(pos)); pos++; break; }
					case 2: if (pos == 0) break; { It& r = --it; CHECK(&r == &it); pos--; break; }
					case 3: if (pos == 0) break; { It old = it--; CHECK(old > it); pos--; if (pos + 1 < S) at(old, static_cast<std::size_t>(pos + 1)); break; }
					case 4: it = std::as_const(it) + n; pos += n; break;
					case 5: it = std::as_const(it) - (-n); pos += n; break;
					case 6: { It& r = (it += n); CHECK(&r == &it); pos += n; break; }
					case 7: { It& r = (it -= -n); CHECK(&r == &it); pos += n; break; }
					default: it = n + std::as_const(it); pos += n; break;
				}
				if (pos < S)
					at(it, static_cast<std::size_t>(pos));
				CHECK((it == e) == (pos == S) && (it != e) == (pos != S) && (it == b) == (pos == 0));
				CHECK((it < e) == (pos < S) && (it > b) == (pos > 0) && (it <= b) == (pos == 0) && (it >= e) == (pos == S) && it <= e && it >= b);
				CHECK_EQ(it - b, pos);
				CHECK_EQ(e - it, S - pos);
				if (n != 0) c.nontrivial();
			}
			static_assert(std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>);
			CHECK_EQ(std::distance(b, e), S);
			// standard algorithms work on it
			std::size_t target = c.below(N);
			auto found = std::find_if(b, e, [&](auto&& kv) { return kv.first == key(target); });
			CHECK_EQ(found - b, static_cast<std::ptrdiff_t>(target));
			auto lower = std::partition_point(b, e, [&](auto&& kv) { return static_cast<std::size_t>(kv.first) < target; });
			CHECK_EQ(lower - b, static_cast<std::ptrdiff_t>(target));
		}

		static void run(pbt::Case& c)
		{
			A a[2] = {};
			std::vector<int> m[2];
			int next = static_cast<int>(c.below(1000));
			for (int k = 0; k < 2; ++k)
			{
				m[k].resize(N);
				for (std::size_t i = 0; i < N; ++i)
				{
					m[k][i] = (next += 7);
					a[k][key(i)] = M::of(m[k][i]);
				}
				compare(a[k], m[k]);
			}
			std::size_t steps = c.size(1, 8);
			for (std::size_t s = 0; s < steps; ++s)
			{
				std::size_t x = c.below(2), i = c.below(N);
				int v = static_cast<int>(c.range(-120, 120));
				switch (c.below(7))
				{
					case 0:
					case 1:
						LOG("a" << x << "[" << i << "] = " << v);
						a[x][key(i)] = M::of(v);
						m[x][i] = v;
						c.nontrivial();
						break;
					case 2:
						LOG("assign through key-value iteration");
						for (auto&& [k, value] : a[x].iter_kv())
							value = M::of(static_cast<int>(static_cast<std::size_t>(k)) % 100 + v % 20);
						for (std::size_t j = 0; j < N; ++j)
							m[x][j] = static_cast<int>(j) % 100 + v % 20;
						c.nontrivial();
						break;
					case 3:
						if constexpr (std::is_copy_assignable_v<V>)
						{
							LOG("copy, then change one");
							a[x] = a[1 - x];
							m[x] = m[1 - x];
							A copy(a[x]);
							compare(copy, m[x]);
							copy[key(i)] = M::of(v);
							compare(a[x], m[x]);
							CHECK((copy == a[x]) == (v == m[x][i]));
						}
						break;
					case 4:
						if constexpr (std::is_copy_assignable_v<V>)
						{
							LOG("fill");
							a[x].fill(M::of(v));
							m[x].assign(N, v);
						}
						break;
					case 5:
						LOG("move and swap");
						std::swap(a[0], a[1]);
						std::swap(m[0], m[1]);
						break;
					default:
						if (c.coin())
							iterators(c, a[x].iter_kv(), a[x]);
						else
							iterators(c, std::as_const(a[x]).iter_kv(), std::as_const(a[x]));
						break;
				}
				compare(a[0], m[0]);
				compare(a[1], m[1]);
			}
		}
	};
	PBT_TARGET("1 entry", 6000, &Subject<One, int, 1>::run)
	PBT_TARGET("3 entries", 12000, &Subject<Three, int, 3>::run)
	PBT_TARGET("8 strings", 8000, &Subject<Eight, std::string, 8>::run)
	PBT_TARGET("8 pointers", 6000, &Subject<Eight, std::unique_ptr<int>, 8>::run)
	PBT_TARGET("100 entries", 2000, &Subject<Big, short, 100>::run)
	PBT_TARGET("300 entries", 1000, &Subject<Huge, int, 300>::run)

	constexpr Nz::EnumArray<Three, int> ct{ 5, 6, 7 };
	static_assert(ct[Three::A] == 5 && ct[Three::B] == 6 && ct[Three::C] == 7 && ct.size() == 3);
}
