#pragma once
#include "pbt.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <algorithm>
#include <string>
#include <vector>

// Reference model: the plain sequence of bits
using Model = std::vector<unsigned char>;

template<typename B> struct BlockOf;
template<typename Block, typename Cont> struct BlockOf<Nz::Bitset<Block, Cont>> { using type = Block; using container = Cont; };

template<typename B> constexpr std::size_t MaxBits = 300;
template<typename Block, std::size_t N> constexpr std::size_t MaxBits<Nz::Bitset<Block, Nz::FixedVector<Block, N, void>>> = (N * Nz::BitCount<Block> < 300 || N >= 200) ? N * Nz::BitCount<Block> : 300;

// more blocks than 8 bits count, more bits than 16 bits count
template<typename Block, std::size_t N> constexpr std::size_t MaxBits<Nz::Bitset<Block, Nz::HybridVector<Block, N>>> = (N >= 100) ? N * Nz::BitCount<Block> * 5 / 4 : 300;
template<typename T> struct LargeAllocator : std::allocator<T>
{
	LargeAllocator() = default;
	template<typename U> LargeAllocator(const LargeAllocator<U>&) noexcept {}
	template<typename U> struct rebind { using other = LargeAllocator<U>; };
};
template<typename Block> constexpr std::size_t MaxBits<Nz::Bitset<Block, std::vector<Block, LargeAllocator<Block>>>> = 300 * Nz::BitCount<Block>;
// more blocks than 16 bits count
template<typename T> struct HugeAllocator : std::allocator<T>
{
	HugeAllocator() = default;
	template<typename U> HugeAllocator(const HugeAllocator<U>&) noexcept {}
	template<typename U> struct rebind { using other = HugeAllocator<U>; };
};
template<typename Block> constexpr std::size_t MaxBits<Nz::Bitset<Block, std::vector<Block, HugeAllocator<Block>>>> = 66000 * Nz::BitCount<Block>;

inline std::string modelStr(const Model& m)
{
	std::string s(m.size(), '0');
	for (std::size_t i = 0; i < m.size(); ++i)
		if (m[i])
			s[m.size() - 1 - i] = '1';
	return s;
}

template<typename B> std::size_t genSize(pbt::Case& c, std::size_t max = MaxBits<B>)
{
	constexpr std::size_t bpb = B::bitsPerBlock;
	if (c.below(4) == 0)
		return c.size(0, std::min<std::size_t>(max, 12));
	if (MaxBits<B> > 65600 && c.coin())
		return c.sizeAround(max, { std::min<std::size_t>(max, 32767 * bpb), std::min<std::size_t>(max, 65535 * bpb), 65535, 65536, max - max / 8, max });
	if (MaxBits<B> > 1000 && c.coin())
		return c.sizeAround(max, { 255 * bpb, 256 * bpb, 257 * bpb, 128 * bpb, std::min<std::size_t>(max, 65536), max - max / 5, 1024 });
	return c.sizeAround(max, { bpb, 2 * bpb, 3 * bpb, 4 * bpb, 8, 64, 128, 256 });
}

// how many bits to add: few, or in a large bitset as many as it takes
template<typename B> std::size_t genCount(pbt::Case& c, std::size_t few)
{
	return (MaxBits<B> > 1000 && c.coin()) ? genSize<B>(c) : c.below(few);
}

inline Model genBits(pbt::Case& c, std::size_t n)
{
	Model m(n);
	switch (c.below(5))
	{
		case 0: break; // zeros
		case 1: std::fill(m.begin(), m.end(), 1); break;
		case 2: // sparse
			for (std::size_t k = 0, count = c.size(0, 4); k < count && n > 0; ++k)
				m[c.below(n)] = 1;
			break;
		case 3: // runs
		{
			bool v = c.coin();
			std::uint64_t x = c.below(1000);
			for (std::size_t i = 0; i < n;)
			{
				std::size_t run = 1 + (i < 5000 ? c.below(40) : (x = pbt::mix(x)) % (n / 40));
				for (std::size_t k = 0; k < run && i < n; ++k, ++i)
					m[i] = v;
				v = !v;
			}
			break;
		}
		default:
		{
			std::uint64_t x = 1;
			for (std::size_t i = 0; i < n; i += 32)
			{
				// past the first ones the bits are derived from a single choice
				std::uint64_t w = i < 20000 ? c.below(std::uint64_t(1) << 32) : pbt::mix(x += 77);
				if (i == 0) x += w;
				for (std::size_t k = 0; k < 32 && i + k < n; ++k)
					m[i + k] = (w >> k) & 1;
			}
			break;
		}
	}
	return m;
}

// builds a bitset with the wanted content, through one of several histories
template<typename B> B makeBitset(pbt::Case& c, const Model& m)
{
	B b;
	switch (c.below(6))
	{
		case 0: b = B(modelStr(m)); break;
		case 1:
			b.Resize(m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				b.Set(i, m[i] != 0);
			break;
		case 2: // shrunk from something larger that was full
		{
			std::size_t extra = std::min<std::size_t>(c.below(70), MaxBits<B> - m.size());
			b.Resize(m.size() + extra, true);
			b.Resize(m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				b.Set(i, m[i] != 0);
			break;
		}
		case 3: // grown with ones, then cleared bit by bit
			b.Resize(m.size(), true);
			for (std::size_t i = 0; i < m.size(); ++i)
				if (!m[i])
					b.Reset(i);
			break;
		case 4:
			for (std::size_t i = 0; i < m.size(); ++i)
				b.AppendBits(static_cast<Nz::UInt8>(m[i]), 1);
			break;
		default: // complement of the complement
			b.Resize(m.size(), true);
			for (std::size_t i = 0; i < m.size(); ++i)
				b[i] = (m[i] == 0);
			b.Flip();
			break;
	}
	return b;
}

// Every observation must agree with the model
template<typename B> void checkAgainst(const B& b, const Model& m, const char* where)
{
	using Block = typename BlockOf<B>::type;
	constexpr std::size_t bpb = B::bitsPerBlock;
	CHECK_EQ(b.GetSize(), m.size(), where);
	std::size_t blocks = (m.size() + bpb - 1) / bpb;
	CHECK_EQ(b.GetBlockCount(), blocks, where);
	CHECK(b.GetCapacity() >= b.GetSize(), where);
	std::size_t count = 0;
	for (std::size_t i = 0; i < m.size(); ++i)
	{
		bool bit = m[i] != 0;
		count += bit;
		if (b.Test(i) != bit)
			pbt::fail(std::string("bit ") + std::to_string(i) + " differs from the model (" + where + "): " + b.ToString() + " vs " + modelStr(m));
	}
	for (std::size_t k = 0; k < blocks; ++k)
	{
		Block expected = 0;
		for (std::size_t i = 0; i < bpb && k * bpb + i < m.size(); ++i)
			if (m[k * bpb + i])
				expected = static_cast<Block>(expected | (Block(1) << i));
		CHECK_EQ(b.GetBlock(k), expected, where);
	}
	CHECK_EQ(b.Count(), count, where);
	CHECK_EQ(b.TestAll(), count == m.size(), where);
	CHECK_EQ(b.TestAny(), count != 0, where);
	CHECK_EQ(b.TestNone(), count == 0, where);
	std::size_t first = B::npos;
	for (std::size_t i = 0; i < m.size() && first == B::npos; ++i)
		if (m[i])
			first = i;
	CHECK_EQ(b.FindFirst(), first, where);
	CHECK_EQ(b.ToString(), modelStr(m), where);
}

// -1, 0, 1: order of the numbers the bits spell
inline int compareModels(const Model& a, const Model& b)
{
	std::size_t n = std::max(a.size(), b.size());
	for (std::size_t i = n; i-- > 0;)
	{
		int x = i < a.size() ? a[i] : 0;
		int y = i < b.size() ? b[i] : 0;
		if (x != y)
			return x < y ? -1 : 1;
	}
	return 0;
}

inline Model shiftedLeft(const Model& m, std::size_t pos)
{
	Model r(m.size(), 0);
	for (std::size_t i = 0; i < m.size(); ++i)
		if (i >= pos)
			r[i] = m[i - pos];
	return r;
}

inline Model shiftedRight(const Model& m, std::size_t pos)
{
	Model r(m.size(), 0);
	for (std::size_t i = 0; i < m.size(); ++i)
		if (pos < m.size() - i)
			r[i] = m[i + pos];
	return r;
}

template<typename F> Model combine(const Model& a, const Model& b, F f)
{
	Model r(std::max(a.size(), b.size()), 0);
	for (std::size_t i = 0; i < r.size(); ++i)
		r[i] = f(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0) ? 1 : 0;
	return r;
}

#if defined(BITSET_VEC)
	#define BITSET_TARGETS(fn, n) \
		PBT_TARGET5("large vector/32/" #fn, n / 60, &fn<Nz::Bitset<Nz::UInt32, std::vector<Nz::UInt32, LargeAllocator<Nz::UInt32>>>>) PBT_TARGET6("huge vector/8/" #fn, n / 300, &fn<Nz::Bitset<Nz::UInt8, std::vector<Nz::UInt8, HugeAllocator<Nz::UInt8>>>>) \
		PBT_TARGET("vector/8/" #fn, n, &fn<Nz::Bitset<Nz::UInt8>>) PBT_TARGET2("vector/16/" #fn, n, &fn<Nz::Bitset<Nz::UInt16>>) \
		PBT_TARGET3("vector/32/" #fn, n, &fn<Nz::Bitset<Nz::UInt32>>) PBT_TARGET4("vector/64/" #fn, n, &fn<Nz::Bitset<Nz::UInt64>>)
#elif defined(BITSET_FIXED)
	#define BITSET_TARGETS(fn, n) \
		PBT_TARGET5("large fixed/8/" #fn, n / 30, &fn<Nz::Bitset<Nz::UInt8, Nz::FixedVector<Nz::UInt8, 300>>>) PBT_TARGET6("large fixed/64/" #fn, n / 150, &fn<Nz::Bitset<Nz::UInt64, Nz::FixedVector<Nz::UInt64, 1100>>>) \
		PBT_TARGET("fixed/8/" #fn, n, &fn<Nz::FixedBitset<Nz::UInt8, 256>>) PBT_TARGET2("fixed/16/" #fn, n, &fn<Nz::FixedBitset<Nz::UInt16, 100>>) \
		PBT_TARGET3("fixed/32/" #fn, n, &fn<Nz::FixedBitset<Nz::UInt32, 50>>) PBT_TARGET4("fixed/64/" #fn, n, &fn<Nz::FixedBitset<Nz::UInt64, 40>>)
#elif defined(BITSET_HYBRID)
	#define BITSET_TARGETS(fn, n) \
		PBT_TARGET5("large hybrid/16/" #fn, n / 60, &fn<Nz::Bitset<Nz::UInt16, Nz::HybridVector<Nz::UInt16, 257>>>) \
		PBT_TARGET("hybrid/8/" #fn, n, &fn<Nz::HybridBitset<Nz::UInt8, 64>>) PBT_TARGET2("hybrid/16/" #fn, n, &fn<Nz::HybridBitset<Nz::UInt16, 32>>) \
		PBT_TARGET3("hybrid/32/" #fn, n, &fn<Nz::HybridBitset<Nz::UInt32, 8>>) PBT_TARGET4("hybrid/64/" #fn, n, &fn<Nz::HybridBitset<Nz::UInt64, 16>>)
#endif
#define PBT_TARGET2(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg2_, __LINE__)(name, quick, __VA_ARGS__);
#define PBT_TARGET3(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg3_, __LINE__)(name, quick, __VA_ARGS__);
#define PBT_TARGET4(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg4_, __LINE__)(name, quick, __VA_ARGS__);
#define PBT_TARGET5(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg5_, __LINE__)(name, quick, __VA_ARGS__);
#define PBT_TARGET6(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg6_, __LINE__)(name, quick, __VA_ARGS__);
