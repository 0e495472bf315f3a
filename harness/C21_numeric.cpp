// Numeric helpers against exact arithmetic
#include "pbt.hpp"
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <cmath>

namespace
{
	using Wide = __int128;

	std::string wide(Wide v)
	{
		if (v == 0) return "0";
		bool neg = v < 0;
		std::string s;
		unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
		while (u) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; }
		return neg ? "-" + s : s;
	}
	template<typename T> bool fits(Wide v) { return v >= static_cast<Wide>(std::numeric_limits<T>::min()) && v <= static_cast<Wide>(std::numeric_limits<T>::max()); }
	template<typename T> void same(T got, Wide expected, const char* what)
	{
		CHECK(static_cast<Wide>(got) == expected, what, "got", wide(static_cast<Wide>(got)), "expected", wide(expected));
	}

	// near one another, or anything
	template<typename T> void two(pbt::Case& c, T& a, T& b)
	{
		a = c.integer<T>();
		switch (c.below(3))
		{
			case 0: b = c.integer<T>(); break;
			case 1: b = a; break;
			default:
			{
				Wide w = static_cast<Wide>(a) + c.range(-20, 20);
				b = fits<T>(w) ? static_cast<T>(w) : a;
				break;
			}
		}
	}

	template<typename T> void integers(pbt::Case& c)
	{
		T a, b;
		two(c, a, b);
		T n = c.coin() ? c.integer<T>() : static_cast<T>(c.below(64));
		auto op = c.below(9);
		LOG("op " << op << " on " << pbt::str(a) << ", " << pbt::str(b) << ", " << pbt::str(n));
		switch (op)
		{
			case 0: // alignment
			{
				T alignment = (n == 0) ? T(1) : n;
				if (alignment < 0) alignment = (alignment == std::numeric_limits<T>::min()) ? T(1) : static_cast<T>(-alignment);
				Wide w = static_cast<Wide>(a), al = static_cast<Wide>(alignment);
				Wide r = ((w % al) + al) % al;
				Wide expected = (r == 0) ? w : w + al - r;
				if (!fits<T>(expected))
					break;
				same(Nz::Align(a, alignment), expected, "Align");
				if (r != 0) c.nontrivial();
				if ((al & (al - 1)) == 0)
					same(Nz::AlignPow2(a, alignment), expected, "AlignPow2");
				break;
			}
			case 1:
			{
				constexpr unsigned W = sizeof(T) * 8 - (std::is_signed_v<T> ? 1 : 0);
				T alignment = static_cast<T>(T(1) << c.below(W));
				Wide w = static_cast<Wide>(a), al = static_cast<Wide>(alignment);
				Wide r = ((w % al) + al) % al;
				Wide expected = (r == 0) ? w : w + al - r;
				if (!fits<T>(expected))
					break;
				same(Nz::AlignPow2(a, alignment), expected, "AlignPow2");
				same(Nz::Align(a, alignment), expected, "Align");
				if (r != 0) c.nontrivial();
				break;
			}
			case 2: // one step towards the objective, never past it
			case 3:
			{
				T inc = n;
				if (inc < 0) inc = (inc == std::numeric_limits<T>::min()) ? std::numeric_limits<T>::max() : static_cast<T>(-inc);
				Wide v = static_cast<Wide>(a), o = static_cast<Wide>(b), i = static_cast<Wide>(inc);
				Wide expected = (v < o) ? std::min(v + i, o) : (v > o) ? std::max(v - i, o) : v;
				same(Nz::Approach(a, b, inc), expected, "Approach");
				if (a != b) c.nontrivial();
				break;
			}
			case 4:
			{
				T lo = std::min(a, b), hi = std::max(a, b);
				T expected = n < lo ? lo : n > hi ? hi : n;
				CHECK_EQ(Nz::Clamp(n, lo, hi), expected);
				CHECK_EQ(Nz::Clamp(a, lo, hi), a);
				c.nontrivial();
				break;
			}
			case 5:
			{
				T tol = (n < 0) ? T(0) : n;
				Wide d = static_cast<Wide>(a) - static_cast<Wide>(b);
				if (d < 0) d = -d;
				CHECK_EQ(Nz::NumberEquals(a, b, tol), d <= static_cast<Wide>(tol));
				CHECK_EQ(Nz::NumberEquals(b, a, tol), d <= static_cast<Wide>(tol));
				CHECK_EQ(Nz::NumberEquals(a, b), a == b);
				if (fits<T>(d)) // exactly at the tolerance, and just below
				{
					CHECK(Nz::NumberEquals(a, b, static_cast<T>(d)));
					if (d > 0)
						CHECK(!Nz::NumberEquals(a, b, static_cast<T>(d - 1)));
				}
				if (a != b) c.nontrivial();
				break;
			}
			case 6:
			{
				T base = static_cast<T>(std::is_signed_v<T> ? c.range(-12, 12) : c.range(0, 20));
				unsigned e = static_cast<unsigned>(c.below(65));
				Wide p = 1;
				bool ok = true;
				for (unsigned i = 0; i < e && ok; ++i)
				{
					p *= static_cast<Wide>(base);
					ok = fits<T>(p);
				}
				if (!ok)
					break;
				same(Nz::IntegralPow(base, e), p, "IntegralPow");
				if (e > 1) c.nontrivial();
				break;
			}
			case 7:
				if (b == 0 || (std::is_signed_v<T> && b == T(-1)))
					break;
				same(Nz::Mod(a, b), static_cast<Wide>(a) % static_cast<Wide>(b), "Mod");
				c.nontrivial();
				break;
			default:
			{
				// products which fit, intermediate included
				Wide prod, r;
				if (__builtin_mul_overflow(static_cast<Wide>(a), static_cast<Wide>(n), &prod) || __builtin_add_overflow(prod, static_cast<Wide>(b), &r))
					break;
				if (!fits<T>(prod) || !fits<T>(r) || !fits<std::int64_t>(prod))
					break;
				same(Nz::MultiplyAdd(a, n, b), r, "MultiplyAdd");
				if (prod != 0) c.nontrivial();
				break;
			}
		}
	}
	PBT_TARGET("Int8", 40000, &integers<std::int8_t>)
	PBT_TARGET("UInt8", 40000, &integers<std::uint8_t>)
	PBT_TARGET("Int16", 40000, &integers<std::int16_t>)
	PBT_TARGET("UInt16", 40000, &integers<std::uint16_t>)
	PBT_TARGET("Int32", 60000, &integers<std::int32_t>)
	PBT_TARGET("UInt32", 60000, &integers<std::uint32_t>)
	PBT_TARGET("Int64", 60000, &integers<std::int64_t>)
	PBT_TARGET("UInt64", 60000, &integers<std::uint64_t>)

	// --- interpolation
	template<typename T> void lerpInt(pbt::Case& c)
	{
		// exactly representable: 20 bits values, factor in 256ths
		constexpr std::int64_t Max = sizeof(T) == 1 ? 100 : sizeof(T) == 2 ? 30000 : (1 << 20);
		T a = static_cast<T>(c.range(std::is_signed_v<T> ? -Max : 0, Max)), b = static_cast<T>(c.range(std::is_signed_v<T> ? -Max : 0, Max));
		int k = static_cast<int>(c.range(0, 256));
		LOG("Lerp(" << pbt::str(a) << ", " << pbt::str(b) << ", " << k << "/256)");
		if (a != b && k != 0) c.nontrivial();
		double t = k / 256.0;
		double exact = static_cast<double>(a) + (static_cast<double>(b) - static_cast<double>(a)) * t;
		CHECK_EQ(Nz::Lerp(a, b, t), static_cast<T>(exact), "double factor");
		double err = std::abs(static_cast<double>(Nz::Lerp(a, b, static_cast<float>(t))) - exact);
		CHECK(err <= 1.01, "float factor", err);
		CHECK_EQ(Nz::Lerp(a, b, 0.0), a);
		CHECK_EQ(Nz::Lerp(a, b, 1.0), b);
		CHECK_EQ(Nz::Lerp(a, b, 0), a);
		CHECK_EQ(Nz::Lerp(a, b, 1), b);
	}
	PBT_TARGET("Lerp Int8", 8000, &lerpInt<std::int8_t>)
	PBT_TARGET("Lerp UInt8", 8000, &lerpInt<std::uint8_t>)
	PBT_TARGET("Lerp Int32", 8000, &lerpInt<std::int32_t>)
	PBT_TARGET("Lerp UInt16", 8000, &lerpInt<std::uint16_t>)
	PBT_TARGET("Lerp UInt32", 8000, &lerpInt<std::uint32_t>)
	PBT_TARGET("Lerp UInt64", 8000, &lerpInt<std::uint64_t>)

	// --- floating point
	template<typename T> T genFloat(pbt::Case& c)
	{
		switch (c.below(6))
		{
			case 0: return static_cast<T>(c.range(-1000, 1000));
			case 1: return static_cast<T>(c.range(-100000, 100000)) / T(1024);
			case 2: return std::ldexp(static_cast<T>(c.range(-1000, 1000)), static_cast<int>(c.range(-60, 40)));
			case 3: return c.pick<T>({ T(0), -T(0), T(1), T(-1), T(0.5), std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon(), T(360), T(180), T(90) });
			default: return static_cast<T>(static_cast<double>(static_cast<std::int64_t>(c.u64())) / 9007199254740992.0);
		}
	}

	template<typename T> void floats(pbt::Case& c)
	{
		constexpr T eps = std::numeric_limits<T>::epsilon();
		T a = genFloat<T>(c), b = genFloat<T>(c), n = genFloat<T>(c);
		auto op = c.below(9);
		LOG("op " << op << " on " << pbt::str(a) << ", " << pbt::str(b) << ", " << pbt::str(n));
		c.nontrivial();
		using L = long double;
		switch (op)
		{
			case 0:
			{
				T inc = std::abs(n);
				T r = Nz::Approach(a, b, inc);
				if (a < b) { CHECK(r >= a && r <= b); CHECK(r == (a + inc < b ? a + inc : b)); }
				else if (a > b) { CHECK(r <= a && r >= b); CHECK(r == (a - inc > b ? a - inc : b)); }
				else CHECK(r == a);
				break;
			}
			case 1:
			{
				T lo = std::min(a, b), hi = std::max(a, b);
				CHECK(Nz::Clamp(n, lo, hi) == (n < lo ? lo : n > hi ? hi : n));
				break;
			}
			case 2: // degrees and radians
			{
				L exact = static_cast<L>(a) * std::acos(L(-1)) / 180;
				T r = Nz::DegreeToRadian(a);
				CHECK(std::abs(static_cast<L>(r) - exact) <= std::abs(exact) * 4 * eps + std::numeric_limits<T>::min(), "DegreeToRadian", r, static_cast<double>(exact));
				L back = static_cast<L>(a) * 180 / std::acos(L(-1));
				T d = Nz::RadianToDegree(a);
				CHECK(std::abs(static_cast<L>(d) - back) <= std::abs(back) * 4 * eps + std::numeric_limits<T>::min(), "RadianToDegree", d, static_cast<double>(back));
				CHECK(std::abs(Nz::RadianToDegree(r) - a) <= std::abs(a) * 8 * eps + 128 * std::numeric_limits<T>::min());
				break;
			}
			case 3:
			{
				T tol = std::abs(n);
				bool expected = std::abs(a - b) <= tol;
				CHECK(Nz::NumberEquals(a, b, tol) == expected);
				CHECK(Nz::NumberEquals(b, a, tol) == expected);
				CHECK(Nz::NumberEquals(a, a));
				CHECK(Nz::NumberEquals(a, b) == (std::abs(a - b) <= eps));
				T nan = std::numeric_limits<T>::quiet_NaN();
				CHECK(!Nz::NumberEquals(nan, b, tol) && !Nz::NumberEquals(a, nan, tol) && !Nz::NumberEquals(nan, nan));
				break;
			}
			case 4: // interpolation: exact at both ends of small numbers, between them elsewhere
			{
				T t = static_cast<T>(c.range(0, 1024)) / T(1024);
				L exact = static_cast<L>(a) + static_cast<L>(t) * (static_cast<L>(b) - static_cast<L>(a));
				T r = Nz::Lerp(a, b, t);
				L scale = std::max(std::abs(static_cast<L>(a)), std::abs(static_cast<L>(b)));
				CHECK(std::abs(static_cast<L>(r) - exact) <= scale * 4 * eps + std::numeric_limits<T>::min(), "Lerp", r, static_cast<double>(exact));
				CHECK(Nz::Lerp(a, b, T(0)) == a);
				CHECK(Nz::Lerp(a, a, t) == a);
				break;
			}
			case 5:
			{
				if (b == 0)
					break;
				CHECK(Nz::Mod(a, b) == std::fmod(a, b));
				break;
			}
			case 6:
			{
				L exact = static_cast<L>(a) * static_cast<L>(b) + static_cast<L>(n);
				L scale = std::abs(static_cast<L>(a) * static_cast<L>(b)) + std::abs(static_cast<L>(n));
				T r = Nz::MultiplyAdd(a, b, n);
				CHECK(std::abs(static_cast<L>(r) - exact) <= scale * 2 * eps + std::numeric_limits<T>::min(), "MultiplyAdd", r, static_cast<double>(exact));
				break;
			}
			case 7: // classification, from the bits
			{
				using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
				constexpr int mant = std::numeric_limits<T>::digits - 1;
				U bits = static_cast<U>(c.u64());
				constexpr U expMask = ((U(1) << (sizeof(T) * 8 - 1 - mant)) - 1) << mant;
				if (c.coin())
					bits |= expMask;
				if (c.coin())
					bits &= ~((U(1) << mant) - 1);
				T v;
				std::memcpy(&v, &bits, sizeof(T));
				bool special = (bits & expMask) == expMask;
				bool mantissa = (bits & ((U(1) << mant) - 1)) != 0;
				CHECK_EQ(Nz::IsFinite(v), !special, "bits", static_cast<std::uint64_t>(bits));
				CHECK_EQ(Nz::IsInfinity(v), special && !mantissa, "bits", static_cast<std::uint64_t>(bits));
				CHECK_EQ(Nz::IsNaN(v), special && mantissa, "bits", static_cast<std::uint64_t>(bits));
				CHECK(Nz::IsFinite(a) && !Nz::IsInfinity(a) && !Nz::IsNaN(a));
				break;
			}
			default: // constants
			{
				auto close = [](T got, L exact) { return std::abs(static_cast<L>(got) - exact) <= exact * eps; };
				L pi = std::acos(L(-1));
				CHECK(close(Nz::Pi<T>(), pi) && close(Nz::HalfPi<T>(), pi / 2) && close(Nz::Tau<T>(), 2 * pi));
				CHECK(close(Nz::Sqrt2<T>(), std::sqrt(L(2))) && close(Nz::Sqrt3<T>(), std::sqrt(L(3))) && close(Nz::Sqrt5<T>(), std::sqrt(L(5))));
				CHECK(Nz::Infinity<T>() == std::numeric_limits<T>::infinity() && Nz::NaN<T>() != Nz::NaN<T>());
				CHECK(Nz::MaxValue<T>() == std::numeric_limits<T>::max() && Nz::MinValue<T>() == std::numeric_limits<T>::min());
				// constants of a type to be deduced
				T p = Nz::Pi(), s = Nz::Sqrt2();
				CHECK(p == Nz::Pi<T>() && s == Nz::Sqrt2<T>());
				T prod = a * Nz::Pi<T>();
				CHECK(std::isnan(prod) || prod == a * Nz::Pi<T>());
				break;
			}
		}
	}
	PBT_TARGET("float", 80000, &floats<float>)
	PBT_TARGET("double", 80000, &floats<double>)
	PBT_TARGET("long double is accepted", 2000, [](pbt::Case& c)
	{
		long double a = genFloat<double>(c), b = genFloat<double>(c);
		CHECK(Nz::Clamp(a, std::min(a, b), std::max(a, b)) == a);
		CHECK(Nz::Lerp(a, b, 0.0L) == a);
		CHECK(Nz::IsFinite(a) && !Nz::IsNaN(a) && !Nz::IsInfinity(b));
		CHECK(std::abs(Nz::Pi<long double>() - std::acos(-1.0L)) < 1e-18L);
		CHECK(std::abs(Nz::HalfPi<long double>() - std::acos(-1.0L) / 2) < 1e-18L);
		CHECK(std::abs(Nz::Tau<long double>() - 2 * std::acos(-1.0L)) < 2e-18L);
		CHECK(std::abs(Nz::Sqrt2<long double>() - std::sqrt(2.0L)) < 1e-18L);
		CHECK(std::abs(Nz::Sqrt3<long double>() - std::sqrt(3.0L)) < 1e-18L);
		CHECK(std::abs(Nz::Sqrt5<long double>() - std::sqrt(5.0L)) < 1e-18L);
		c.nontrivial();
	})

	static_assert(std::is_same_v<Nz::FloatType_t<32>, float> && std::is_same_v<Nz::FloatType_t<64>, double>);
	template<std::size_t B> constexpr bool IntTypes = sizeof(Nz::SignedIntegerType_t<B>) * 8 == B && sizeof(Nz::UnsignedIntegerType_t<B>) * 8 == B && std::is_signed_v<Nz::SignedIntegerType_t<B>> && std::is_unsigned_v<Nz::UnsignedIntegerType_t<B>>;
	static_assert(IntTypes<8> && IntTypes<16> && IntTypes<32> && IntTypes<64>);
}
