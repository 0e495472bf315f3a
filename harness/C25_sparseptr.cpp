// Sparse pointers against positions in a buffer
#include "pbt.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <algorithm>
#include <cstring>
#include <memory>
#include <numeric>
#include <sys/mman.h>

namespace
{
	struct Left { int left; };
	struct Right { short right; };
	struct Both : Left, Right { int own; };
	struct Vertex { float x, y; std::uint16_t id; };
	bool operator==(const Vertex& a, const Vertex& b) { return a.id == b.id && a.x == b.x && a.y == b.y; }

	template<typename T> T make(std::size_t i)
	{
		if constexpr (std::is_same_v<T, Vertex>) return Vertex{ static_cast<float>(i), static_cast<float>(i) / 2, static_cast<std::uint16_t>(i) };
		else return static_cast<T>(i * 7 + 3);
	}

	// an offset as any integer type which can hold it
	template<typename F> void asAny(pbt::Case& c, std::ptrdiff_t v, F&& f)
	{
		auto as = [&](auto type)
		{
			using I = decltype(type);
			if (static_cast<std::ptrdiff_t>(static_cast<I>(v)) == v && (v >= 0 || std::is_signed_v<I>)) f(static_cast<I>(v));
			else f(v);
		};
		switch (c.below(v >= 0 ? 8 : 4))
		{
			case 0: as(int()); break;
			case 1: as(std::ptrdiff_t()); break;
			case 2: as(short()); break;
			case 3: as(static_cast<signed char>(0)); break;
			case 4: as(unsigned()); break;
			case 5: as(std::size_t()); break;
			case 6: as(std::uint8_t()); break;
			default: as(std::uint16_t()); break;
		}
	}

	// Elements are at [0, count) of a buffer, stride bytes apart (in units of the alignment), in decreasing addresses when negative
	template<typename T> struct Field
	{
		std::unique_ptr<unsigned char[]> memory;
		std::ptrdiff_t stride, count;
		unsigned char* first;
		std::size_t bytes;
		Field(pbt::Case& c)
		{
			count = static_cast<std::ptrdiff_t>(c.chance(1, 30) ? c.size(1, 400) : c.size(1, 12));
			std::size_t gap = (c.chance(1, 40) ? c.size(0, 300) : c.size(0, 5)) * alignof(T);
			std::size_t size = (sizeof(T) + alignof(T) - 1) / alignof(T) * alignof(T) + gap;
			bytes = static_cast<std::size_t>(count - 1) * size + sizeof(T);
			memory.reset(new unsigned char[bytes]());
			stride = static_cast<std::ptrdiff_t>(size);
			first = memory.get();
			if (c.chance(1, 3))
			{
				first += (count - 1) * stride;
				stride = -stride;
			}
			for (std::ptrdiff_t i = 0; i < count; ++i)
				new (first + i * stride) T(make<T>(static_cast<std::size_t>(i)));
		}
		T* at(std::ptrdiff_t i) const { return reinterpret_cast<T*>(first + i * stride); }
	};

	template<typename T, typename CT> void walk(pbt::Case& c)
	{
		Field<T> f(c);
		LOG(f.count << " elements, " << f.stride << " bytes apart");
		const int stride = static_cast<int>(f.stride);
		std::ptrdiff_t pos = 0, pos2 = 0;
		Nz::SparsePtr<CT> p(f.first, stride), q;
		CHECK(!q && q.GetPtr() == nullptr && q.GetStride() == 0 && static_cast<CT*>(q) == nullptr);
		q.SetPtr(f.first);
		q.SetStride(stride);
		if (f.count > 1) c.nontrivial();
		if (stride > 0)
		{
			Nz::SparsePtr<CT> viaSize(f.first, static_cast<std::size_t>(stride));
			CHECK(viaSize == p && viaSize.GetStride() == stride);
		}
		auto check = [&]
		{
			CHECK(p.GetPtr() == f.at(pos) && static_cast<CT*>(p) == f.at(pos), "position", pos);
			CHECK_EQ(p.GetStride(), stride);
			CHECK(static_cast<bool>(p));
			if (pos >= 0 && pos < f.count)
			{
				CHECK(&*p == f.at(pos) && *p == make<T>(static_cast<std::size_t>(pos)), "element", pos);
				CHECK(p.operator->() == f.at(pos));
			}
			CHECK_EQ(p - q, pos - pos2);
			CHECK_EQ(q - p, pos2 - pos);
			bool before = f.at(pos) < f.at(pos2), same = pos == pos2;
			CHECK((p == q) == same && (p != q) == !same);
			CHECK((p < q) == before && (p <= q) == (before || same) && (p > q) == (!before && !same) && (p >= q) == !before);
		};
		check();
		for (std::size_t n = c.size(1, 8); n > 0; --n)
		{
			std::ptrdiff_t to = static_cast<std::ptrdiff_t>(c.size(0, static_cast<std::size_t>(f.count - 1))), d = to - pos;
			switch (c.below(10))
			{
				case 0: LOG("++ from " << pos); if (pos + 1 < f.count) { auto& r = ++p; CHECK(&r == &p); ++pos; } break;
				case 1: LOG("postfix ++ from " << pos); if (pos + 1 < f.count) { auto old = p++; CHECK(old.GetPtr() == f.at(pos) && old.GetStride() == stride); ++pos; } break;
				case 2: LOG("-- from " << pos); if (pos > 0) { auto& r = --p; CHECK(&r == &p); --pos; } break;
				case 3: LOG("postfix -- from " << pos); if (pos > 0) { auto old = p--; CHECK(old.GetPtr() == f.at(pos) && old.GetStride() == stride); --pos; } break;
				case 4: LOG("+= " << d); asAny(c, d, [&](auto k) { auto& r = (p += k); CHECK(&r == &p); }); pos = to; break;
				case 5: LOG("-= " << -d); asAny(c, -d, [&](auto k) { auto& r = (p -= k); CHECK(&r == &p); }); pos = to; break;
				case 6: LOG("+ " << d); asAny(c, d, [&](auto k) { auto r = p + k; CHECK(r.GetStride() == stride && r - p == d); p = r; }); pos = to; break;
				case 7: LOG("- " << -d); asAny(c, -d, [&](auto k) { auto r = p - k; CHECK(r.GetStride() == stride && r - p == d); p = r; }); pos = to; break;
				case 8:
					LOG("[" << d << "]");
					asAny(c, d, [&](auto k) { CHECK(&p[k] == f.at(to), "element at", d); });
					break;
				default: LOG("swap"); std::swap(p, q); std::swap(pos, pos2); break;
			}
			check();
		}
		// resets
		Nz::SparsePtr<CT> r(q);
		CHECK(r == q && r.GetStride() == stride);
		r.Reset();
		CHECK(!r && r.GetStride() == 0);
		r.Reset(p);
		CHECK(r == p && r.GetStride() == stride);
		r.Reset(f.at(0));
		CHECK(r.GetPtr() == f.at(0) && r.GetStride() == static_cast<int>(sizeof(T)));
		r.Reset(f.first, stride);
		CHECK(r.GetPtr() == f.first && r.GetStride() == stride);
		Nz::SparsePtr<CT> plain(f.at(0));
		CHECK(plain.GetPtr() == f.at(0) && plain.GetStride() == static_cast<int>(sizeof(T)));
		// to const
		Nz::SparsePtr<const T> k(p);
		CHECK(k.GetPtr() == f.at(pos) && k.GetStride() == stride);
		k.Reset(q);
		CHECK(k.GetPtr() == f.at(pos2) && k.GetStride() == stride);
	}
	PBT_TARGET("int", 40000, &walk<int, int>)
	PBT_TARGET("const int", 20000, &walk<int, const int>)
	PBT_TARGET("UInt8", 20000, &walk<std::uint8_t, std::uint8_t>)
	PBT_TARGET("UInt64", 20000, &walk<std::uint64_t, std::uint64_t>)
	PBT_TARGET("struct", 20000, &walk<Vertex, Vertex>)
	PBT_TARGET("const struct", 20000, &walk<Vertex, const Vertex>)

	PBT_TARGET("writes and algorithms", 40000, [](pbt::Case& c)
	{
		Field<int> f(c);
		if (f.stride < 0) { f.first += (f.count - 1) * f.stride; f.stride = -f.stride; }
		std::vector<int> model;
		Nz::SparsePtr<int> begin(f.first, static_cast<int>(f.stride)), end = begin + f.count;
		using Traits = std::iterator_traits<Nz::SparsePtr<int>>;
		static_assert(std::is_same_v<Traits::reference, int&> && std::is_same_v<Traits::value_type, int>);
		static_assert(std::is_same_v<std::iterator_traits<Nz::SparsePtr<const int>>::reference, const int&> && std::is_same_v<std::iterator_traits<Nz::SparsePtr<const int>>::value_type, int>);
		std::vector<unsigned char> gaps(f.memory.get(), f.memory.get() + f.bytes);
		for (std::ptrdiff_t i = 0; i < f.count; ++i)
		{
			int v = i < 40 ? static_cast<int>(c.range(-5, 20)) : static_cast<int>(i * 7919 % 23);
			begin[i] = v;
			model.push_back(v);
		}
		LOG(f.count << " elements " << f.stride << " bytes apart");
		if (f.count > 2) c.nontrivial();
		for (std::size_t n = c.size(0, 3); n > 0; --n)
		{
			switch (c.below(6))
			{
				case 0: LOG("sort"); std::sort(begin, end); std::sort(model.begin(), model.end()); break;
				case 1: LOG("reverse"); std::reverse(begin, end); std::reverse(model.begin(), model.end()); break;
				case 2:
				{
					std::size_t k = c.size(0, model.size());
					LOG("rotate " << k);
					std::rotate(begin, begin + k, end);
					std::rotate(model.begin(), model.begin() + static_cast<std::ptrdiff_t>(k), model.end());
					break;
				}
				case 3:
				{
					LOG("backwards");
					std::reverse_iterator<Nz::SparsePtr<int>> rb(end), re(begin);
					std::size_t i = model.size();
					for (; rb != re; ++rb) { CHECK_EQ(*rb, model[--i]); *rb = *rb + 1; model[i]++; }
					CHECK_EQ(i, 0u);
					break;
				}
				case 4:
					LOG("fill and accumulate");
					CHECK_EQ(std::accumulate(begin, end, 0), std::accumulate(model.begin(), model.end(), 0));
					*std::max_element(begin, end) = -50;
					*std::max_element(model.begin(), model.end()) = -50;
					break;
				default:
					LOG("copy");
					CHECK(std::vector<int>(begin, end) == model);
					CHECK_EQ(std::distance(begin, end), f.count);
					break;
			}
		}
		for (std::ptrdiff_t i = 0; i < f.count; ++i)
			CHECK_EQ(begin[i], model[static_cast<std::size_t>(i)], "element", i);
		// the bytes between elements are untouched
		for (std::ptrdiff_t i = 0; i + 1 < f.count; ++i)
			for (std::ptrdiff_t k = static_cast<std::ptrdiff_t>(sizeof(int)); k < f.stride; ++k)
				CHECK_EQ(static_cast<int>(f.memory[static_cast<std::size_t>(i * f.stride + k)]), static_cast<int>(gaps[static_cast<std::size_t>(i * f.stride + k)]), "gap byte");
	})

	PBT_TARGET("to base classes", 20000, [](pbt::Case& c)
	{
		std::vector<Both> objects(c.size(1, 6));
		for (std::size_t i = 0; i < objects.size(); ++i)
		{
			objects[i].left = static_cast<int>(i);
			objects[i].right = static_cast<short>(100 + i);
			objects[i].own = static_cast<int>(200 + i);
		}
		std::size_t i = c.size(0, objects.size() - 1);
		LOG(objects.size() << " objects, at " << i);
		c.nontrivial();
		Nz::SparsePtr<Both> p(objects.data());
		Nz::SparsePtr<Left> l(p);
		Nz::SparsePtr<Right> r(p);
		Nz::SparsePtr<const Right> cr(p);
		CHECK_EQ(l[i].left, static_cast<int>(i));
		CHECK(&r[i] == static_cast<Right*>(&objects[i]), "second base");
		CHECK(&cr[i] == static_cast<Right*>(&objects[i]), "const second base");
		CHECK_EQ(r[i].right, static_cast<short>(100 + i));
		Nz::SparsePtr<Right> nul{ Nz::SparsePtr<Both>() };
		CHECK(!nul);
		r.Reset(p + i);
		CHECK(r.operator->() == static_cast<Right*>(&objects[i]));
		// a field of each object
		Nz::SparsePtr<int> own(&objects[0].own, sizeof(Both));
		CHECK_EQ(own[i], static_cast<int>(200 + i));
		Nz::SparsePtr deduced(&objects[0].own, static_cast<int>(sizeof(Both)));
		static_assert(std::is_same_v<decltype(deduced), Nz::SparsePtr<int>>);
		CHECK_EQ(*(deduced + i), static_cast<int>(200 + i));
		const Both& co = objects[0];
		Nz::SparsePtr deducedConst(&co.own, sizeof(Both));
		static_assert(std::is_same_v<decltype(deducedConst), Nz::SparsePtr<const int>>);
		CHECK_EQ(deducedConst[i], static_cast<int>(200 + i));
	})

	PBT_TARGET("far elements", 3000, [](pbt::Case& c)
	{
		// address space only: a few pages are touched
		constexpr std::size_t Space = std::size_t(12) << 30;
		static unsigned char* base = static_cast<unsigned char*>(mmap(nullptr, Space, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (base == MAP_FAILED)
			return;
		unsigned char* middle = base + (Space / 2);
		int stride = static_cast<int>(c.coin() ? c.range(1, 1 << 27) : c.range(1, 40)) * 8 * (c.coin() ? 1 : -1);
		std::ptrdiff_t limit = static_cast<std::ptrdiff_t>(Space / 2 - 8) / std::abs(stride);
		std::ptrdiff_t i = c.coin() ? c.range(-limit, limit) : c.range(-std::min<std::ptrdiff_t>(limit, 120), std::min<std::ptrdiff_t>(limit, 120));
		LOG("stride " << stride << ", index " << i);
		c.nontrivial();
		Nz::SparsePtr<int> p(middle, stride);
		int* expected = reinterpret_cast<int*>(middle + i * static_cast<std::ptrdiff_t>(stride));
		asAny(c, i, [&](auto k)
		{
			CHECK(&p[k] == expected);
			auto r = p + k;
			CHECK(r.operator->() == expected);
			CHECK_EQ(r - p, i);
			auto back = r - k;
			CHECK(back == p);
			r -= k;
			CHECK(r == p);
			r += k;
			CHECK(r.GetPtr() == expected);
		});
	})
}
