// Byte order: swaps and conversions against bytes taken one by one
#include "pbt.hpp"
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <array>
#include <cstring>
#include <memory>

namespace
{
	template<typename T> std::array<unsigned char, sizeof(T)> bytes(const T& v)
	{
		std::array<unsigned char, sizeof(T)> r;
		std::memcpy(r.data(), &v, sizeof(T));
		return r;
	}
	template<typename T> T fromBytes(const std::array<unsigned char, sizeof(T)>& b)
	{
		T r;
		std::memcpy(&r, b.data(), sizeof(T));
		return r;
	}

	static_assert(Nz::PlatformEndianness == Nz::Endianness::LittleEndian || Nz::PlatformEndianness == Nz::Endianness::BigEndian);

	template<typename T> T gen(pbt::Case& c)
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
			U u;
			if (c.coin()) u = c.integer<U>();
			else { T v = static_cast<T>(c.range(-1000, 1000)) / 8; std::memcpy(&u, &v, sizeof(T)); }
			T r;
			std::memcpy(&r, &u, sizeof(T));
			return r;
		}
		else if constexpr (sizeof(T) == 1) return static_cast<T>(c.below(256));
		else if constexpr (sizeof(T) == 2) return static_cast<T>(c.integer<std::uint16_t>());
		else if constexpr (sizeof(T) == 4) return static_cast<T>(c.integer<std::uint32_t>());
		else return static_cast<T>(c.integer<std::uint64_t>());
	}

	template<typename T> void swapped(pbt::Case& c, T v)
	{
		auto b = bytes(v);
		std::array<unsigned char, sizeof(T)> r;
		for (std::size_t i = 0; i < sizeof(T); ++i)
			r[i] = b[sizeof(T) - 1 - i];
		if (r != b) c.nontrivial();
		if (c.tracing())
		{
			std::ostringstream ss;
			ss << "bytes in memory:";
			for (auto x : b) ss << ' ' << static_cast<int>(x);
			c.log(ss.str());
		}

		CHECK(bytes(Nz::ByteSwap(v)) == r, "ByteSwap");
		CHECK(bytes(Nz::ByteSwap(Nz::ByteSwap(v))) == b, "swapped twice");

		T viaBuffer = v;
		Nz::SwapBytes(&viaBuffer, sizeof(T));
		CHECK(bytes(viaBuffer) == r, "SwapBytes");

		// what is the number whose big (little) endian bytes are b?
		unsigned long long big = 0, little = 0, host = 0;
		for (std::size_t i = 0; i < sizeof(T); ++i)
		{
			big = (big << 8) | b[i];
			little |= static_cast<unsigned long long>(b[i]) << (8 * i);
		}
		auto number = [](T x) -> unsigned long long
		{
			if constexpr (std::is_floating_point_v<T>)
			{
				using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
				U u;
				std::memcpy(&u, &x, sizeof(T));
				return u;
			}
			else
			{
				unsigned long long all = static_cast<unsigned long long>(x);
				return sizeof(T) == 8 ? all : all & ((1ull << (sizeof(T) * 8 % 64)) - 1);
			}
		};
		host = number(v);
		CHECK_EQ(number(Nz::BigEndianToHost(v)), big);
		CHECK_EQ(number(Nz::LittleEndianToHost(v)), little);

		// the other way: bytes of the converted number
		auto toBig = bytes(Nz::HostToBigEndian(v)), toLittle = bytes(Nz::HostToLittleEndian(v));
		for (std::size_t i = 0; i < sizeof(T); ++i)
		{
			CHECK_EQ(static_cast<int>(toBig[i]), static_cast<int>((host >> (8 * (sizeof(T) - 1 - i))) & 0xFF), "HostToBigEndian byte", i);
			CHECK_EQ(static_cast<int>(toLittle[i]), static_cast<int>((host >> (8 * i)) & 0xFF), "HostToLittleEndian byte", i);
		}
		CHECK(bytes(Nz::BigEndianToHost(Nz::HostToBigEndian(v))) == b && bytes(Nz::LittleEndianToHost(Nz::HostToLittleEndian(v))) == b, "round trips");
	}

	template<typename T> void generated(pbt::Case& c) { swapped<T>(c, gen<T>(c)); }
	PBT_SWEEP("Int8", 256, [](pbt::Case& c) { swapped<std::int8_t>(c, static_cast<std::int8_t>(c.below(256))); })
	PBT_SWEEP("UInt8", 256, [](pbt::Case& c) { swapped<std::uint8_t>(c, static_cast<std::uint8_t>(c.below(256))); })
	PBT_SWEEP("Int16", 65536, [](pbt::Case& c) { swapped<std::int16_t>(c, static_cast<std::int16_t>(c.below(65536))); })
	PBT_SWEEP("UInt16", 65536, [](pbt::Case& c) { swapped<std::uint16_t>(c, static_cast<std::uint16_t>(c.below(65536))); })
	PBT_SWEEP("char16_t", 65536, [](pbt::Case& c) { swapped<char16_t>(c, static_cast<char16_t>(c.below(65536))); })
	PBT_TARGET("Int32", 60000, &generated<std::int32_t>)
	PBT_TARGET("UInt32", 60000, &generated<std::uint32_t>)
	PBT_TARGET("Int64", 60000, &generated<std::int64_t>)
	PBT_TARGET("UInt64", 60000, &generated<std::uint64_t>)
	PBT_TARGET("long long", 20000, &generated<long long>)
	PBT_TARGET("char32_t", 20000, &generated<char32_t>)
	PBT_TARGET("wchar_t", 20000, &generated<wchar_t>)
	PBT_TARGET("float", 60000, &generated<float>)
	PBT_TARGET("double", 60000, &generated<double>)

	PBT_TARGET("SwapBytes", 80000, [](pbt::Case& c)
	{
		// any size at any address, nothing around changes (exact-size allocation)
		std::size_t size = c.coin() ? c.size(0, 24) : c.chance(1, 400) ? c.sizeAround(70000, { 4096, 65536 }) : c.size(0, 300), before = c.size(0, 9);
		std::unique_ptr<unsigned char[]> buffer(new unsigned char[before + size]), expected(new unsigned char[before + size]);
		for (std::size_t i = 0; i < before + size; ++i)
			expected[i] = buffer[i] = static_cast<unsigned char>(i < 400 ? c.below(256) : i * 2654435761u >> 15);
		LOG("SwapBytes of " << size << " bytes at offset " << before);
		for (std::size_t i = 0; i < size; ++i)
			expected[before + i] = buffer[before + size - 1 - i];
		Nz::SwapBytes(buffer.get() + before, size);
		for (std::size_t i = 0; i < before + size; ++i)
			CHECK_EQ(static_cast<int>(buffer[i]), static_cast<int>(expected[i]), "byte", i);
		if (size > 1) c.nontrivial();
	})
}
