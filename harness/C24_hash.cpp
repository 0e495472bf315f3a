// Hashes against the published algorithms
#include "pbt.hpp"
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <array>
#include <cstring>
#include <memory>
#include <unordered_map>
#include <unordered_set>

namespace
{
	// bit by bit, reflected, polynomial 0x04C11DB7
	std::uint32_t refCrc(const std::vector<unsigned char>& d)
	{
		std::uint32_t reg = 0xFFFFFFFFu;
		for (unsigned char byte : d)
			for (int bit = 0; bit < 8; ++bit)
			{
				bool in = ((byte >> bit) & 1) != (reg & 1);
				reg >>= 1;
				if (in) reg ^= 0xEDB88320u;
			}
		return reg ^ 0xFFFFFFFFu;
	}
	// hash = (hash xor octet) * prime, with the prime as sums of shifts
	std::uint32_t refFnv32(const std::vector<unsigned char>& d)
	{
		std::uint32_t h = 2166136261u;
		for (unsigned char b : d)
		{
			h ^= b;
			h = (h << 24) + (h << 8) + (h << 7) + (h << 4) + (h << 1) + h;
		}
		return h;
	}
	std::uint64_t refFnv64(const std::vector<unsigned char>& d)
	{
		std::uint64_t h = 14695981039346656037ull;
		for (unsigned char b : d)
		{
			h ^= b;
			h = (h << 40) + (h << 8) + (h << 7) + (h << 5) + (h << 4) + (h << 1) + h;
		}
		return h;
	}

	std::vector<unsigned char> genBytes(pbt::Case& c, bool noNul)
	{
		std::size_t n = c.coin() ? c.size(0, 12) : c.chance(1, 60) ? c.sizeAround(2000, { 255, 256, 1024 }) : c.chance(1, 400) ? c.sizeAround(70000, { 4096, 65536 }) : c.size(0, 80);
		std::vector<unsigned char> d(n);
		unsigned kind = static_cast<unsigned>(c.below(3));
		for (std::size_t i = 0; i < n; ++i)
		{
			unsigned char& b = d[i];
			b = static_cast<unsigned char>(i >= 300 ? i * 2654435761u >> 17 : kind == 0 ? c.range(32, 126) : kind == 1 ? c.range(128, 255) : c.below(256));
			if (noNul && b == 0) b = 1;
		}
		return d;
	}

	struct Crc { using H = Nz::CRC32Hash; static auto ref(const std::vector<unsigned char>& d) { return refCrc(d); } template<typename... A> static auto nz(A&&... a) { return Nz::CRC32(std::forward<A>(a)...); } };
	struct F32 { using H = Nz::FNV1a32Hash; static auto ref(const std::vector<unsigned char>& d) { return refFnv32(d); } template<typename... A> static auto nz(A&&... a) { return Nz::FNV1a32(std::forward<A>(a)...); } };
	struct F64 { using H = Nz::FNV1a64Hash; static auto ref(const std::vector<unsigned char>& d) { return refFnv64(d); } template<typename... A> static auto nz(A&&... a) { return Nz::FNV1a64(std::forward<A>(a)...); } };

	template<typename A> void hash(pbt::Case& c)
	{
		bool noNul = c.chance(2, 3);
		auto d = genBytes(c, noNul);
		if (c.tracing())
		{
			std::ostringstream ss;
			for (auto b : d) ss << static_cast<int>(b) << ' ';
			c.log(ss.str());
		}
		if (!d.empty()) c.nontrivial();
		bool high = false;
		for (auto b : d) high |= b >= 128;
		if (high) c.tag("bytes above 127");
		auto ref = A::ref(d);
		static_assert(std::is_same_v<decltype(ref), decltype(A::nz(std::string_view()))>);

		// exact-size copies: nothing is read past the end
		std::unique_ptr<Nz::UInt8[]> raw(new Nz::UInt8[d.size()]);
		if (!d.empty()) std::memcpy(raw.get(), d.data(), d.size());
		CHECK_EQ(A::nz(static_cast<const Nz::UInt8*>(raw.get()), d.size()), ref, "bytes");
		std::string_view view(reinterpret_cast<const char*>(raw.get()), d.size());
		CHECK_EQ(A::nz(view), ref, "string_view");
		CHECK_EQ(A::nz(std::string(view)), ref, "string");
		typename A::H functor;
		CHECK_EQ(functor(view), ref, "functor");
		CHECK_EQ(functor(static_cast<const Nz::UInt8*>(raw.get()), d.size()), ref, "functor of bytes");
		CHECK_EQ(Nz::HashFunctor<typename A::H>{}(view), static_cast<std::size_t>(ref), "HashFunctor");

		// C strings stop at the first null character
		std::size_t len = 0;
		while (len < d.size() && d[len] != 0) ++len;
		auto refC = A::ref(std::vector<unsigned char>(d.begin(), d.begin() + static_cast<std::ptrdiff_t>(len)));
		std::unique_ptr<char[]> text(new char[len + 1]);
		if (len) std::memcpy(text.get(), d.data(), len);
		text[len] = 0;
		CHECK_EQ(A::nz(static_cast<const char*>(text.get())), refC, "const char*");
		CHECK_EQ(functor(static_cast<const char*>(text.get())), refC, "functor of const char*");
		auto asArray = [&](auto& array)
		{
			std::memcpy(array, text.get(), len + 1);
			CHECK_EQ(A::nz(array), refC, "char array");
			const auto& constArray = array;
			CHECK_EQ(A::nz(constArray), refC, "const char array");
			CHECK_EQ(functor(array), refC, "functor of a char array");
		};
		if (len < 96)
		{
			char array[96];
			asArray(array);
		}
		else
		{
			static char array[80000];
			asArray(array);
			c.tag("more than 95 bytes");
		}
		if (len >= 4)
		{
			// no null character to stop at
			std::unique_ptr<std::array<char[4], 1>> tight(new std::array<char[4], 1>);
			std::memcpy((*tight)[0], text.get(), 4);
			CHECK_EQ(A::nz((*tight)[0]), A::ref(std::vector<unsigned char>(d.begin(), d.begin() + 4)), "array without null character");
		}

		// usable as the hash of a container
		if (len == d.size())
		{
			std::unordered_map<std::string, int, Nz::HashFunctor<typename A::H>> map;
			map[std::string(view)] = 3;
			CHECK_EQ(map.at(std::string(text.get())), 3);
		}
	}
	PBT_TARGET("CRC32", 60000, &hash<Crc>)
	PBT_TARGET("FNV1a32", 60000, &hash<F32>)
	PBT_TARGET("FNV1a64", 60000, &hash<F64>)

	// --- combination of hashes
	std::uint64_t refCombine(std::uint64_t seed, std::uint64_t h)
	{
		// Hash128to64 of CityHash
		const std::uint64_t k = 0x9ddfea08eb382d69ull;
		std::uint64_t a = (h ^ seed) * k;
		a ^= a >> 47;
		std::uint64_t b = (seed ^ a) * k;
		b ^= b >> 47;
		return b * k;
	}

	struct Odd { std::uint64_t v; };
}
template<> struct std::hash<Odd> { std::size_t operator()(const Odd& o) const { return static_cast<std::size_t>(o.v * 3 + 1); } };
namespace
{
	PBT_TARGET("HashCombine", 60000, [](pbt::Case& c)
	{
		std::uint64_t x = c.integer<std::uint64_t>(), y = c.integer<std::uint64_t>();
		int i = c.integer<int>();
		std::string s(c.size(0, 5), static_cast<char>('a' + c.below(26)));
		Odd o{ c.integer<std::uint64_t>() };
		LOG("seed " << x << ", values " << y << ' ' << i << " '" << s << "' " << o.v);
		c.nontrivial();
		std::size_t seed = x;
		Nz::HashCombine(seed, y);
		CHECK_EQ(seed, refCombine(x, std::hash<std::uint64_t>{}(y)));
		seed = x;
		Nz::HashCombine(seed, s);
		CHECK_EQ(seed, refCombine(x, std::hash<std::string>{}(s)));
		seed = x;
		Nz::HashCombine(seed, o);
		CHECK_EQ(seed, refCombine(x, o.v * 3 + 1));

		std::uint64_t hs = std::hash<std::string>{}(s), hi = std::hash<int>{}(i), ho = o.v * 3 + 1;
		CHECK_EQ(Nz::HashCombine(i), hi);
		CHECK_EQ(Nz::HashCombine(o), ho);
		// the hash of a sequence is the hash of its first value combined with the hash of the rest
		std::size_t os = refCombine(ho, std::hash<std::size_t>{}(hs)), ios = refCombine(hi, std::hash<std::size_t>{}(os));
		CHECK_EQ(Nz::HashCombine(o, s), os);
		CHECK_EQ(Nz::HashCombine(i, o, s), ios);
		CHECK_EQ(Nz::HashCombine(s, i, o, s), refCombine(hs, ios));
		// order and values matter
		if (ho != hs)
			CHECK(Nz::HashCombine(o, s) != Nz::HashCombine(s, o));
		std::uint64_t z = c.integer<std::uint64_t>();
		if (z != y)
		{
			std::size_t a = x, b = x;
			Nz::HashCombine(a, y);
			Nz::HashCombine(b, z);
			CHECK(a != b, "different values combined with the same seed");
		}
	})

	// --- transparent hash of strings
	template<typename Ch> void stringHash(pbt::Case& c)
	{
		std::size_t n = c.coin() ? c.size(0, 6) : c.chance(1, 60) ? c.sizeAround(1000, { 255, 256 }) : c.size(0, 60);
		std::basic_string<Ch> s;
		for (std::size_t i = 0; i < n; ++i)
			s += static_cast<Ch>(c.chance(1, 12) ? 0 : c.coin() ? c.range(1, 255) : c.range('a', 'c'));
		LOG("string of " << n);
		if (n) c.nontrivial();
		Nz::StringHash<Ch> h;
		std::unique_ptr<Ch[]> exact(new Ch[n]);
		std::copy(s.begin(), s.end(), exact.get());
		std::basic_string_view<Ch> view(exact.get(), n);
		std::size_t ref = std::hash<std::basic_string_view<Ch>>{}(view);
		CHECK_EQ(h(view), ref);
		CHECK_EQ(h(s), ref);
		// texts which stop at the first null character
		std::basic_string<Ch> cut(s.c_str());
		CHECK_EQ(h(s.c_str()), std::hash<std::basic_string<Ch>>{}(cut));
		CHECK_EQ(h(s.c_str()), h(cut));
		// lookups by any kind of string
		std::unordered_map<std::basic_string<Ch>, int, Nz::StringHash<Ch>, std::equal_to<>> map;
		map.emplace(s, 1);
		map.emplace(cut + static_cast<Ch>('x'), 2);
		CHECK_EQ(map.at(s), 1);
#if __cplusplus >= 202002L
		CHECK(map.find(view) != map.end() && map.find(view)->second == 1);
		if (cut.size() == s.size())
			CHECK(map.find(s.c_str()) != map.end() && map.find(s.c_str())->second == 1);
#endif
		std::basic_string<Ch> other = s;
		if (!other.empty())
		{
			std::size_t p = c.size(0, n - 1);
			other[p] = static_cast<Ch>(other[p] + 1);
			CHECK(h(other) != ref, "one different character", p);
		}
	}
	PBT_TARGET("StringHash<char>", 30000, &stringHash<char>)
	PBT_TARGET("StringHash<wchar_t>", 20000, &stringHash<wchar_t>)
	PBT_TARGET("StringHash<char16_t>", 20000, &stringHash<char16_t>)
	PBT_TARGET("StringHash<char32_t>", 20000, &stringHash<char32_t>)
}
