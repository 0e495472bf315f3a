// Preconditions of the other classes and functions: stopped by an assertion exactly when violated
#include "death.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <map>
#include <unordered_map>

#ifndef NDEBUG
namespace
{
	void expect(pbt::Case& c, bool valid, bool failed, const std::string& what)
	{
		LOG(what);
		if (!valid) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(failed, !valid, what);
	}

	template<typename T> void bits(pbt::Case& c)
	{
		const T number = c.integer<T>();
		constexpr int width = static_cast<int>(sizeof(T) * 8);
		T bit = c.chance(1, 4) ? c.integer<T>() : static_cast<T>(c.range(std::is_signed_v<T> ? -2 : 0, width + 2));
		bool valid = !(bit < T(0)) && static_cast<std::uint64_t>(bit) < static_cast<std::uint64_t>(width);
		std::string args = "(" + pbt::str(+number) + ", " + pbt::str(+bit) + ")";
		switch (c.below(7))
		{
			case 0: expect(c, valid, pbt::asserts([&] { (void) Nz::SetBit(number, bit); }), "SetBit" + args); break;
			case 1: expect(c, valid, pbt::asserts([&] { (void) Nz::ClearBit(number, bit); }), "ClearBit" + args); break;
			case 2: expect(c, valid, pbt::asserts([&] { (void) Nz::TestBit(number, bit); }), "TestBit" + args); break;
			case 3: expect(c, valid, pbt::asserts([&] { (void) Nz::ToggleBit(number, bit); }), "ToggleBit" + args); break;
			case 4:
			{
				T small = static_cast<T>(number / 2 < 0 ? 0 : number / 2), alignment = bit;
				expect(c, alignment > 0, pbt::asserts([&] { (void) Nz::Align(T(0), alignment); }), "Align to " + pbt::str(+alignment));
				(void) small;
				break;
			}
			case 5:
			{
				T alignment = bit;
				bool pow2 = alignment > 0 && (static_cast<std::uint64_t>(alignment) & (static_cast<std::uint64_t>(alignment) - 1)) == 0;
				expect(c, pow2, pbt::asserts([&] { (void) Nz::AlignPow2(T(0), alignment); }), "AlignPow2 to " + pbt::str(+alignment));
				break;
			}
			default:
			{
				T v = c.coin() ? T(0) : number;
				if (v == std::numeric_limits<T>::lowest() && std::is_signed_v<T>) v = T(1);
				expect(c, v != 0, pbt::asserts([&] { (void) Nz::IsPow2(v); }), "IsPow2 " + pbt::str(+v));
			}
		}
	}
	PBT_TARGET("bits Int8", 4000, &bits<std::int8_t>)
	PBT_TARGET("bits UInt8", 4000, &bits<std::uint8_t>)
	PBT_TARGET("bits Int16", 2000, &bits<std::int16_t>)
	PBT_TARGET("bits UInt16", 2000, &bits<std::uint16_t>)
	PBT_TARGET("bits Int32", 4000, &bits<std::int32_t>)
	PBT_TARGET("bits UInt32", 4000, &bits<std::uint32_t>)
	PBT_TARGET("bits Int64", 4000, &bits<std::int64_t>)
	PBT_TARGET("bits UInt64", 4000, &bits<std::uint64_t>)

	template<typename M> void retrieve(pbt::Case& c)
	{
		M map;
		for (std::size_t k = 0, n = c.size(0, 6); k < n; ++k)
			map[static_cast<int>(c.below(8))] = static_cast<int>(c.below(100));
		int key = static_cast<int>(c.range(-1, 9));
		bool valid = map.count(key) != 0;
		const M& cmap = map;
		if (c.coin())
		{
			expect(c, valid, pbt::asserts([&] { (void) Nz::Retrieve(map, key); }), "Retrieve key " + pbt::str(key));
			if (valid) CHECK(&Nz::Retrieve(map, key) == &map.find(key)->second);
		}
		else
		{
			expect(c, valid, pbt::asserts([&] { (void) Nz::Retrieve(cmap, key); }), "const Retrieve key " + pbt::str(key));
			if (valid) CHECK(&Nz::Retrieve(cmap, key) == &map.find(key)->second);
		}
	}
	PBT_TARGET("Retrieve map", 3000, &retrieve<std::map<int, int>>)
	PBT_TARGET("Retrieve unordered_map", 3000, &retrieve<std::unordered_map<int, int>>)

	PBT_TARGET("MemoryPool", 12000, [](pbt::Case& c)
	{
		const std::size_t blockSize = 1 + c.size(0, 8);
		Nz::MemoryPool<int> pool(blockSize), other(blockSize);
		std::map<std::size_t, int*> live;
		for (std::size_t k = 0, n = c.size(0, 14); k < n; ++k)
		{
			if (!live.empty() && c.chance(1, 4))
			{
				auto it = std::next(live.begin(), static_cast<std::ptrdiff_t>(c.below(live.size())));
				pool.Free(it->first);
				live.erase(it);
			}
			else
			{
				std::size_t index;
				int* p = pool.Allocate(index, 5);
				live.emplace(index, p);
			}
		}
		(void) c;
		std::size_t index = c.size(0, 3 * blockSize + 2);
		if (c.chance(1, 3) && !live.empty()) index = std::next(live.begin(), static_cast<std::ptrdiff_t>(c.below(live.size())))->first;
		bool isLive = live.count(index) != 0;
		const auto& cpool = pool;
		switch (c.below(6))
		{
			case 0: expect(c, isLive, pbt::asserts([&] { (void) pool.RetrieveFromIndex(index); }), "RetrieveFromIndex " + pbt::str(index)); break;
			case 1:
				expect(c, isLive, pbt::asserts([&] { pool.Free(index); }), "Free " + pbt::str(index));
				if (isLive)
				{
					expect(c, false, pbt::asserts([&] { pool.Free(index); }), "second Free " + pbt::str(index));
					live.erase(index);
				}
				break;
			case 2:
			{
				bool atEnd = c.coin() || live.empty();
				auto it = atEnd ? pool.end() : pool.begin();
				expect(c, !atEnd, pbt::asserts([&] { (void) *it; }), "iterator dereferenced");
				expect(c, !atEnd, pbt::asserts([&] { (void) it.GetIndex(); }), "iterator index");
				break;
			}
			case 3:
			{
				auto it = cpool.begin();
				bool atEnd = live.empty();
				expect(c, !atEnd, pbt::asserts([&] { (void) *it; }), "const iterator dereferenced");
				expect(c, !atEnd, pbt::asserts([&] { ++it; }), "const iterator incremented");
				break;
			}
			case 4:
			{
				bool same = c.coin();
				auto a = pool.begin(), b = same ? pool.end() : other.end();
				expect(c, same, pbt::asserts([&] { (void) (a == b); }), "iterators compared");
				expect(c, same, pbt::asserts([&] { (void) (a != b); }), "iterators compared (!=)");
				break;
			}
			default:
				if (!live.empty())
				{
					auto it = std::next(live.begin(), static_cast<std::ptrdiff_t>(c.below(live.size())));
					std::size_t shift = c.below(4);
					const int* p = reinterpret_cast<const int*>(reinterpret_cast<const char*>(it->second) + shift);
					if (shift == 0)
						expect(c, true, pbt::asserts([&] { (void) pool.RetrieveEntryIndex(p); }), "RetrieveEntryIndex of an entry");
				}
				break;
		}
		CHECK_EQ(pool.GetAllocatedEntryCount(), live.size(), "entries");
		for (auto&& [i, p] : live)
			CHECK(pool.RetrieveFromIndex(i) == p, "entry ", i);
	})

	enum class Small { A, B, C, Max = C };
}
template<> struct Nz::EnumAsFlags<Small> { static constexpr Small max = Small::Max; };
namespace
{
	PBT_TARGET("Flags iterators", 500, [](pbt::Case& c)
	{
		Nz::Flags<Small> f;
		for (Small s : { Small::A, Small::B, Small::C })
			if (c.coin()) f |= s;
		auto it = f.begin();
		std::size_t n = 0;
		for (Small s : { Small::A, Small::B, Small::C }) n += f.Test(s);
		for (std::size_t k = 0; k < n; ++k)
		{
			expect(c, true, pbt::asserts([&] { (void) *it; }), "flag " + pbt::str(k));
			expect(c, true, pbt::asserts([&] { ++it; }), "increment " + pbt::str(k));
		}
		expect(c, false, pbt::asserts([&] { (void) *it; }), "end dereferenced");
		expect(c, false, pbt::asserts([&] { ++it; }), "end incremented");
	})

	PBT_TARGET("EnumArray iterators", 500, [](pbt::Case& c)
	{
		Nz::EnumArray<Small, int> a{}, b{};
		bool same = c.coin();
		auto va = a.iter_kv(), vb = same ? a.iter_kv() : b.iter_kv();
		auto i = va.begin(), j = vb.begin();
		switch (c.below(7))
		{
			case 0: expect(c, same, pbt::asserts([&] { (void) (i == j); }), "=="); break;
			case 1: expect(c, same, pbt::asserts([&] { (void) (i != j); }), "!="); break;
			case 2: expect(c, same, pbt::asserts([&] { (void) (i < j); }), "<"); break;
			case 3: expect(c, same, pbt::asserts([&] { (void) (i <= j); }), "<="); break;
			case 4: expect(c, same, pbt::asserts([&] { (void) (i > j); }), ">"); break;
			case 5: expect(c, same, pbt::asserts([&] { (void) (i >= j); }), ">="); break;
			default: expect(c, same, pbt::asserts([&] { (void) (i - j); }), "-"); break;
		}
	})

	PBT_TARGET("PrivateImpl", 500, [](pbt::Case& c)
	{
		Nz::PrivateImpl<int> p(nullptr);
		bool exists = c.coin();
		if (exists) p.Emplace(3);
		if (exists && c.coin()) { p.Reset(); exists = false; }
		bool failed = pbt::asserts([&] { p.Emplace(4); });
		expect(c, !exists, failed, "Emplace");
		CHECK_EQ(*p.Get(), exists ? 3 : 4);
	})

	PBT_TARGET("Signal", 500, [](pbt::Case& c)
	{
		Nz::Signal<int> s;
		bool empty = c.coin();
		Nz::Signal<int>::Callback f;
		if (!empty) f = [](int) {};
		// the function being connected is owned by the caller when the call is interrupted
		bool failed = pbt::asserts([&] { s.Connect(std::move(f)); });
		expect(c, !empty, failed, "Connect");
	})

	PBT_TARGET("SparsePtr", 500, [](pbt::Case& c)
	{
		int x = 0;
		std::size_t stride = c.coin() ? c.integer<std::uint64_t>() : static_cast<std::size_t>(c.range(0x7FFFFFF0, 0x80000010));
		expect(c, stride <= 0x7FFFFFFF, pbt::asserts([&] { Nz::SparsePtr<int> p(&x, stride); (void) p; }), "stride " + pbt::str(stride));
	})
}
#endif
