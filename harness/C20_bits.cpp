// Bit helpers against bit-by-bit loops
#include "pbt.hpp"
#include <NazaraUtils/MathUtils.hpp>

namespace
{
	template<typename T> void value(pbt::Case& c, T v)
	{
		using U = std::make_unsigned_t<T>;
		constexpr unsigned W = sizeof(T) * 8;
		U u = static_cast<U>(v);
		LOG((std::is_signed_v<T> ? "Int" : "UInt") << W << ' ' << pbt::str(v));
		bool bits[W];
		unsigned count = 0, first = 0, last = 0;
		for (unsigned i = 0; i < W; ++i)
		{
			bits[i] = (static_cast<std::uint64_t>(u) >> i) & 1;
			if (bits[i])
			{
				count++;
				if (!first) first = i + 1;
				last = i + 1;
			}
		}
		if (count > 0 && count < W) c.nontrivial();
		CHECK_EQ(Nz::CountBits(v), count);
		CHECK_EQ(Nz::FindFirstBit(v), first);
		CHECK_EQ(Nz::FindLastBit(v), last);

		U mirrored = 0;
		for (unsigned i = 0; i < W; ++i)
			if (bits[i])
				mirrored = static_cast<U>(mirrored | (U(1) << (W - 1 - i)));
		T reversed = Nz::ReverseBits(v);
		CHECK_EQ(static_cast<U>(reversed), mirrored);
		CHECK_EQ(Nz::ReverseBits(reversed), v);

		for (unsigned i = 0; i < W; ++i)
		{
			T b = static_cast<T>(i);
			U mask = static_cast<U>(U(1) << i);
			CHECK_EQ(Nz::TestBit(v, b), bits[i], "bit", i);
			CHECK_EQ(static_cast<U>(Nz::SetBit(v, b)), static_cast<U>(u | mask), "bit", i);
			CHECK_EQ(static_cast<U>(Nz::ClearBit(v, b)), static_cast<U>(u & static_cast<U>(~mask)), "bit", i);
			CHECK_EQ(static_cast<U>(Nz::ToggleBit(v, b)), static_cast<U>(u ^ mask), "bit", i);

			// floor(v / 2^i)
			T expected = 0;
			for (unsigned k = 0; k < W; ++k)
			{
				bool from = (k + i < W) ? bits[k + i] : (std::is_signed_v<T> && bits[W - 1]);
				if (from)
					expected = static_cast<T>(static_cast<U>(expected) | static_cast<U>(U(1) << k));
			}
			CHECK_EQ(Nz::ArithmeticRightShift(v, static_cast<int>(i)), expected, "shift", i);
			CHECK_EQ(Nz::ArithmeticRightShift(v, i), expected, "shift", i);
			CHECK_EQ(Nz::ArithmeticRightShift(v, static_cast<T>(i)), expected, "shift", i);
			CHECK_EQ(Nz::ArithmeticRightShift(v, static_cast<unsigned char>(i)), expected, "shift", i);
			CHECK_EQ(Nz::ArithmeticRightShift(v, static_cast<long long>(i)), expected, "shift", i);
		}

		// logarithms and powers of two, of numbers which have one
		if (v == 0)
		{
			CHECK_EQ(Nz::IntegralLog2(v), 0u);
			CHECK_EQ(Nz::IntegralLog2Pot(v), 0u);
		}
		else if (v > 0)
		{
			CHECK_EQ(Nz::IntegralLog2(v), last - 1);
			CHECK_EQ(Nz::IsPow2(v), count == 1);
			if (count == 1)
				CHECK_EQ(Nz::IntegralLog2Pot(v), first - 1);
			// smallest power of two which is not smaller, when it can be represented
			std::uint64_t p = 1;
			bool fits = true;
			while (p < static_cast<std::uint64_t>(u))
			{
				if (p == (std::uint64_t(1) << 63)) { fits = false; break; }
				p <<= 1;
			}
			if (fits && p <= static_cast<std::uint64_t>(std::numeric_limits<T>::max()))
			{
				CHECK_EQ(static_cast<std::uint64_t>(Nz::GetNearestPowerOfTwo(v)), p);
				CHECK_EQ(static_cast<std::uint64_t>(Nz::RoundToPow2(v)), p);
			}
		}
		else
			CHECK_EQ(Nz::GetNearestPowerOfTwo(v), T(1));
	}

	template<typename T> void exhaustive(pbt::Case& c) { value<T>(c, static_cast<T>(c.below(std::uint64_t(1) << (sizeof(T) * 8)))); }
	template<typename T> void random(pbt::Case& c) { value<T>(c, c.integer<T>()); }

	PBT_SWEEP("every Int8", 256, &exhaustive<std::int8_t>)
	PBT_SWEEP("every UInt8", 256, &exhaustive<std::uint8_t>)
	PBT_SWEEP("every Int16", 65536, &exhaustive<std::int16_t>)
	PBT_SWEEP("every UInt16", 65536, &exhaustive<std::uint16_t>)
	PBT_TARGET("Int32", 100000, &random<std::int32_t>)
	PBT_TARGET("UInt32", 100000, &random<std::uint32_t>)
	PBT_TARGET("Int64", 100000, &random<std::int64_t>)
	PBT_TARGET("UInt64", 100000, &random<std::uint64_t>)
	PBT_TARGET("long long", 20000, &random<long long>)
	PBT_TARGET("unsigned long long", 20000, &random<unsigned long long>)

	// every 64-bit value with one or two bits set, or a run of ones
	void structured(pbt::Case& c)
	{
		auto i = c.below(64 * 64);
		unsigned a = static_cast<unsigned>(i / 64), b = static_cast<unsigned>(i % 64);
		std::uint64_t two = (std::uint64_t(1) << a) | (std::uint64_t(1) << b);
		std::uint64_t run = (~std::uint64_t(0) >> a) << b;
		value<std::uint64_t>(c, two);
		value<std::int64_t>(c, static_cast<std::int64_t>(two));
		value<std::uint64_t>(c, run);
		value<std::int64_t>(c, static_cast<std::int64_t>(run));
		value<std::uint32_t>(c, static_cast<std::uint32_t>(two));
		value<std::int32_t>(c, static_cast<std::int32_t>(run));
		value<std::uint32_t>(c, static_cast<std::uint32_t>(run));
	}
	PBT_SWEEP("one or two bits, runs of ones", 4096, &structured)
}
