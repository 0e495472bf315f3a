// Vector preconditions: stopped by an assertion exactly when violated
#include "death.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>

#ifndef NDEBUG
namespace
{
	constexpr std::size_t Cap = 6;
	template<typename V> constexpr bool Grows = false;
	template<typename T, std::size_t N, typename F> constexpr bool Grows<Nz::FixedVector<T, N, F>> = !std::is_void_v<F>;

	std::size_t genIndex(pbt::Case& c, std::size_t limit)
	{
		switch (c.below(5))
		{
			case 0: return limit;
			case 1: return limit + 1 + c.below(3);
			case 2: return c.pick({ std::size_t(-1), std::size_t(1) << 63, std::size_t(1) << 32 });
			default: return limit ? c.below(limit) : 0;
		}
	}

	template<typename V, typename Model> void step(pbt::Case& c, V& v, Model& m, std::size_t capacity)
	{
		const V& cv = v;
		const std::size_t n = m.size();
		const bool room = Grows<V> || n < capacity;
		bool valid = true, failed = false;
		const int value = static_cast<int>(c.range(1, 1000));
		std::string op;
		using It = typename V::const_iterator;
		switch (c.below(18))
		{
			case 0: { auto i = genIndex(c, n); valid = i < n; op = "[" + pbt::str(i) + "]"; failed = pbt::asserts([&] { (void) v[i]; }); break; }
			case 1: { auto i = genIndex(c, n); valid = i < n; op = "const [" + pbt::str(i) + "]"; failed = pbt::asserts([&] { (void) cv[i]; }); break; }
			case 2: op = "front"; valid = n > 0; failed = pbt::asserts([&] { (void) v.front(); }); break;
			case 3: op = "const front"; valid = n > 0; failed = pbt::asserts([&] { (void) cv.front(); }); break;
			case 4: op = "back"; valid = n > 0; failed = pbt::asserts([&] { (void) v.back(); }); break;
			case 5: op = "const back"; valid = n > 0; failed = pbt::asserts([&] { (void) cv.back(); }); break;
			case 6: op = "pop_back"; valid = n > 0; failed = pbt::asserts([&] { v.pop_back(); }); if (valid) m.pop_back(); break;
			case 7: op = "push_back copy"; valid = room; failed = pbt::asserts([&] { v.push_back(value); }); if (valid) m.push_back(value); break;
			case 8: op = "push_back move"; valid = room; failed = pbt::asserts([&] { int x = value; v.push_back(std::move(x)); }); if (valid) m.push_back(value); break;
			case 9: op = "emplace_back"; valid = room; failed = pbt::asserts([&] { v.emplace_back(value); }); if (valid) m.push_back(value); break;
			case 10:
			case 11:
			{
				std::ptrdiff_t at = c.range(-1, static_cast<std::int64_t>(n) + 2);
				valid = room && at >= 0 && at <= static_cast<std::ptrdiff_t>(n);
				op = "insert at " + pbt::str(at);
				It it = v.cbegin() + at;
				unsigned how = static_cast<unsigned>(c.below(3));
				failed = pbt::asserts([&] { if (how == 0) v.insert(it, value); else if (how == 1) { int x = value; v.insert(it, std::move(x)); } else v.emplace(it, value); });
				if (valid) m.insert(m.begin() + at, value);
				break;
			}
			case 12:
			{
				std::ptrdiff_t at = c.range(0, static_cast<std::int64_t>(n) + 2);
				valid = at < static_cast<std::ptrdiff_t>(n);
				op = "erase at " + pbt::str(at);
				It it = v.cbegin() + at;
				failed = pbt::asserts([&] { v.erase(it); });
				if (valid) m.erase(m.begin() + at);
				break;
			}
			case 13:
			{
				std::ptrdiff_t first = c.range(-1, static_cast<std::int64_t>(n) + 1), last = c.range(-1, static_cast<std::int64_t>(n) + 2);
				if (first == last) { first = 0; last = 0; }
				valid = first >= 0 && first <= last && last <= static_cast<std::ptrdiff_t>(n);
				op = "erase " + pbt::str(first) + " to " + pbt::str(last);
				It a = v.cbegin() + first, b = v.cbegin() + last;
				// (the standard container used past the inline capacity checks nothing)
				if (Grows<V> && !valid && n > capacity) { failed = true; break; }
				failed = pbt::asserts([&] { v.erase(a, b); });
				if (valid) m.erase(m.begin() + first, m.begin() + last);
				break;
			}
			case 14:
			case 15:
			{
				std::size_t count = Grows<V> ? c.size(0, 2 * capacity) : c.coin() ? c.size(0, capacity + 3) : genIndex(c, capacity);
				bool withValue = c.coin();
				valid = Grows<V> || count <= capacity;
				op = std::string("resize") + (withValue ? " with value to " : " to ") + pbt::str(count);
				failed = pbt::asserts([&] { if (withValue) v.resize(count, value); else v.resize(count); });
				if (valid) m.resize(count, withValue ? value : 0);
				break;
			}
			default: op = "clear"; if (n > 4) { v.clear(); m.clear(); } break;
		}
		if constexpr (Grows<V>)
		{
			// past the inline capacity, the fallback vector decides: its own debug mode is not what is tested
		}
		LOG(n << " elements: " << op);
		if (!valid) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(failed, !valid, op, " with ", n, " elements");
		CHECK_EQ(v.size(), m.size(), "size after ", op);
		for (std::size_t i = 0; i < m.size(); ++i)
			CHECK_EQ(v[i], m[i], "element ", i, " after ", op);
	}

	PBT_TARGET("FixedVector", 20000, [](pbt::Case& c)
	{
		Nz::FixedVector<int, Cap> v;
		std::vector<int> m;
		for (std::size_t k = 0, steps = 1 + c.size(0, 10); k < steps; ++k)
			step(c, v, m, Cap);
	})
	PBT_TARGET("large FixedVector", 1500, [](pbt::Case& c)
	{
		constexpr std::size_t LargeCap = 300;
		Nz::FixedVector<int, LargeCap> v;
		std::vector<int> m(c.sizeAround(LargeCap, { 255, 256, 299 }));
		v.resize(m.size());
		for (std::size_t k = 0, steps = 1 + c.size(0, 10); k < steps; ++k)
			step(c, v, m, LargeCap);
	})
	PBT_TARGET("large StackVector", 1500, [](pbt::Case& c)
	{
		std::size_t cap = c.sizeAround(700, { 255, 256, 512 });
		Nz::StackVector<int> v = NazaraStackVector(int, cap);
		std::vector<int> m(c.coin() ? cap : c.size(0, cap));
		v.resize(m.size());
		for (std::size_t k = 0, steps = 1 + c.size(0, 10); k < steps; ++k)
			step(c, v, m, cap);
	})
	PBT_TARGET("FixedVector reserve", 500, [](pbt::Case& c)
	{
		Nz::FixedVector<int, Cap> v;
		std::size_t count = genIndex(c, Cap + 1);
		LOG("reserve " << count);
		if (count > Cap) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(pbt::asserts([&] { v.reserve(count); }), count > Cap, "reserve ", count);
	})
	PBT_TARGET("StackVector", 20000, [](pbt::Case& c)
	{
		std::size_t cap = c.size(0, 7);
		Nz::StackVector<int> v = NazaraStackVector(int, cap);
		std::vector<int> m;
		for (std::size_t k = 0, steps = 1 + c.size(0, 10); k < steps; ++k)
			step(c, v, m, cap);
	})

	PBT_TARGET("StackArray", 5000, [](pbt::Case& c)
	{
		std::size_t n = c.size(0, 6);
		Nz::StackArray<int> a = NazaraStackArray(int, n);
		const auto& ca = a;
		for (std::size_t i = 0; i < n; ++i) a[i] = static_cast<int>(i);
		bool valid = n > 0, failed;
		auto i = genIndex(c, n);
		switch (c.below(6))
		{
			case 0: LOG("back"); failed = pbt::asserts([&] { (void) a.back(); }); break;
			case 1: LOG("const back"); failed = pbt::asserts([&] { (void) ca.back(); }); break;
			case 2: case 3: valid = i < n; LOG("[" << i << "]"); failed = pbt::asserts([&] { (void) a[i]; }); break;
			default: valid = i < n; LOG("const [" << i << "]"); failed = pbt::asserts([&] { (void) ca[i]; }); break;
		}
		if (!valid) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(failed, !valid, n, " elements");
	})

	// the hybrid vector has the same preconditions, but no capacity, while its elements are inline
	PBT_TARGET("HybridVector", 10000, [](pbt::Case& c)
	{
		using V = Nz::HybridVector<int, Cap>;
		V v;
		std::vector<int> m;
		for (std::size_t k = 0, steps = 1 + c.size(0, 10); k < steps; ++k)
		{
			const V& cv = v;
			const std::size_t n = m.size();
			bool valid = true, failed = false;
			const int value = static_cast<int>(c.range(1, 1000));
			std::string op;
			const bool isInline = v.size() <= Cap && v.capacity() <= Cap;
			switch (c.below(10))
			{
				case 0: { auto i = genIndex(c, n); valid = i < n; op = "[" + pbt::str(i) + "]"; failed = pbt::asserts([&] { (void) v[i]; }); break; }
				case 1: { auto i = genIndex(c, n); valid = i < n; op = "const [" + pbt::str(i) + "]"; failed = pbt::asserts([&] { (void) cv[i]; }); break; }
				case 2: op = "front"; valid = n > 0; failed = pbt::asserts([&] { (void) v.front(); }); break;
				case 3: op = "const back"; valid = n > 0; failed = pbt::asserts([&] { (void) cv.back(); }); break;
				case 4: op = "pop_back"; valid = n > 0; if (valid || isInline) failed = pbt::asserts([&] { v.pop_back(); }); else failed = true; if (valid) m.pop_back(); break;
				case 5:
				{
					std::ptrdiff_t at = c.range(-1, static_cast<std::int64_t>(n) + 2);
					valid = at >= 0 && at <= static_cast<std::ptrdiff_t>(n);
					op = "insert at " + pbt::str(at);
					auto it = v.cbegin() + at;
					failed = pbt::asserts([&] { v.insert(it, value); });
					if (valid) m.insert(m.begin() + at, value);
					break;
				}
				case 6:
				{
					std::ptrdiff_t at = c.range(0, static_cast<std::int64_t>(n) + 2);
					valid = at < static_cast<std::ptrdiff_t>(n);
					op = "erase at " + pbt::str(at);
					auto it = v.cbegin() + at;
					failed = pbt::asserts([&] { v.erase(it); });
					if (valid) m.erase(m.begin() + at);
					break;
				}
				default: op = "push_back"; v.push_back(value); m.push_back(value); break;
			}
			LOG(n << " elements: " << op);
			if (!valid) { c.nontrivial(); c.tag("violated"); }
			CHECK_EQ(failed, !valid, op, " with ", n, " elements");
			CHECK_EQ(v.size(), m.size(), "size after ", op);
			for (std::size_t i = 0; i < m.size(); ++i)
				CHECK_EQ(v[i], m[i], "element ", i, " after ", op);
		}
	})
}
#endif
