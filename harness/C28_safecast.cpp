// Checked casts: the value is kept, and casts which would change it are stopped when checks are enabled
#include "death.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <cmath>

#if defined(NAZARA_DEBUG) && !defined(NDEBUG)
	#define CHECKED 1
#else
	#define CHECKED 0
#endif

namespace
{
	using Wide = __int128;

	template<typename T> T gen(pbt::Case& c)
	{
		if constexpr (std::is_same_v<T, bool>) return c.coin();
		else if constexpr (std::is_integral_v<T>)
		{
			if (c.chance(1, 3))
			{
				// around the limits of every width
				unsigned w = c.pick({ 8u, 16u, 32u, 64u });
				Wide limit = (Wide(1) << (w - c.below(2))) * (c.coin() ? 1 : -1) + static_cast<Wide>(c.range(-2, 2));
				return static_cast<T>(limit);
			}
			return static_cast<T>(c.integer<std::conditional_t<std::is_signed_v<T>, std::conditional_t<sizeof(T) == 8, std::int64_t, std::conditional_t<sizeof(T) == 4, std::int32_t, std::conditional_t<sizeof(T) == 2, std::int16_t, std::int8_t>>>,
				std::conditional_t<sizeof(T) == 8, std::uint64_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::conditional_t<sizeof(T) == 2, std::uint16_t, std::uint8_t>>>>>());
		}
		else
		{
			switch (c.below(6))
			{
				case 0: return static_cast<T>(c.range(-300, 300));
				case 1: return static_cast<T>(c.range(-300, 300)) / 4;
				case 2:
				{
					T v = std::ldexp(T(1), static_cast<int>(c.range(6, 65)));
					switch (c.below(3)) { case 0: break; case 1: v = std::nextafter(v, T(0)); break; default: v = v - 1; break; }
					return c.coin() ? v : -v;
				}
				case 3: return static_cast<T>(c.integer<std::int64_t>());
				case 4:
				{
					T v = std::ldexp(static_cast<T>(c.range(1, 1 << 20)), static_cast<int>(c.range(-200, 400)));
					return std::isfinite(v) ? (c.coin() ? v : -v) : std::numeric_limits<T>::max();
				}
				default: return c.pick({ std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), T(0), -T(0), T(0.5), T(-0.5) });
			}
		}
	}

	// is the value of From exactly a value of To?
	template<typename To, typename From> bool representable(From v)
	{
		if constexpr (std::is_integral_v<To> && std::is_integral_v<From>)
			return static_cast<Wide>(v) >= static_cast<Wide>(std::numeric_limits<To>::lowest()) && static_cast<Wide>(v) <= static_cast<Wide>(std::numeric_limits<To>::max());
		else if constexpr (std::is_integral_v<To>)
		{
			long double l = v; // exact
			if (!(l >= -1e30L && l <= 1e30L) || std::floor(l) != l)
				return false;
			Wide w = static_cast<Wide>(l);
			return w >= static_cast<Wide>(std::numeric_limits<To>::lowest()) && w <= static_cast<Wide>(std::numeric_limits<To>::max());
		}
		else if constexpr (std::is_floating_point_v<From>)
			return static_cast<long double>(v) <= static_cast<long double>(std::numeric_limits<To>::max()) && static_cast<long double>(v) >= static_cast<long double>(std::numeric_limits<To>::lowest());
		else
			return true; // rounding is not checked
	}

	template<typename To, typename From> void one(pbt::Case& c)
	{
		const From v = gen<From>(c);
		bool fits = representable<To>(v);
		LOG("from " << sizeof(From) << " bytes" << (std::is_floating_point_v<From> ? " floating" : std::is_signed_v<From> ? " signed" : " unsigned") << " to " << sizeof(To) << " bytes" << (std::is_floating_point_v<To> ? " floating" : std::is_signed_v<To> ? " signed" : " unsigned") << ", " << pbt::str(v));
		if (!(v == From(0))) c.nontrivial();
		if (fits)
		{
			To expected = static_cast<To>(v);
			From lvalue = v;
			CHECK(Nz::SafeCast<To>(v) == expected, "const lvalue");
			CHECK(Nz::SafeCast<To>(lvalue) == expected, "lvalue");
			CHECK(Nz::SafeCast<To>(From(v)) == expected, "rvalue");
			To converted = Nz::SafeCaster(v), converted2 = Nz::SafeCaster(From(v));
			CHECK(converted == expected && converted2 == expected, "SafeCaster");
			static_assert(std::is_same_v<decltype(Nz::SafeCast<To>(v)), To>);
			c.tag("kept");
		}
		else
		{
			c.tag("not representable");
#if CHECKED
			From lvalue = v;
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<To>(v); }), "const lvalue accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<To>(lvalue); }), "lvalue accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<To>(From(v)); }), "rvalue accepted");
			CHECK(pbt::asserts([&] { To t = Nz::SafeCaster(lvalue); (void) t; }), "SafeCaster accepted");
#endif
		}
	}
	template<typename From> void from(pbt::Case& c)
	{
		switch (c.below(13))
		{
			case 0: one<std::int8_t, From>(c); break;
			case 1: one<std::uint8_t, From>(c); break;
			case 2: one<std::int16_t, From>(c); break;
			case 3: one<std::uint16_t, From>(c); break;
			case 4: one<std::int32_t, From>(c); break;
			case 5: one<std::uint32_t, From>(c); break;
			case 6: one<std::int64_t, From>(c); break;
			case 7: one<std::uint64_t, From>(c); break;
			case 8: one<float, From>(c); break;
			case 9: one<double, From>(c); break;
			case 10: one<long long, From>(c); break;
			case 11: one<char, From>(c); break;
			default: one<bool, From>(c); break;
		}
	}
	PBT_TARGET("from Int8", 16000, &from<std::int8_t>)
	PBT_TARGET("from UInt8", 16000, &from<std::uint8_t>)
	PBT_TARGET("from Int16", 16000, &from<std::int16_t>)
	PBT_TARGET("from UInt16", 16000, &from<std::uint16_t>)
	PBT_TARGET("from Int32", 20000, &from<std::int32_t>)
	PBT_TARGET("from UInt32", 20000, &from<std::uint32_t>)
	PBT_TARGET("from Int64", 20000, &from<std::int64_t>)
	PBT_TARGET("from UInt64", 20000, &from<std::uint64_t>)
	PBT_TARGET("from bool", 2000, &from<bool>)
	PBT_TARGET("from float", 30000, &from<float>)
	PBT_TARGET("from double", 30000, &from<double>)

	// --- enumerations
	enum class Small : std::int8_t { A = -128, B = 0, C = 127 };
	enum class Big : std::uint32_t { A = 0, B = 0xFFFFFFFFu };
	enum Plain : unsigned short { PlainA, PlainB };
	template<typename E, typename I> void enums(pbt::Case& c)
	{
		using U = std::underlying_type_t<E>;
		const U u = gen<U>(c);
		const I i = gen<I>(c);
		LOG("enum " << pbt::str(u) << ", integer " << pbt::str(i));
		c.nontrivial();
		E e = static_cast<E>(u);
		CHECK_EQ(Nz::UnderlyingCast(e), u);
		static_assert(std::is_same_v<decltype(Nz::UnderlyingCast(e)), U>);
		if (representable<I>(u))
		{
			CHECK_EQ(Nz::SafeCast<I>(e), static_cast<I>(u));
			CHECK_EQ(Nz::SafeCast<I>(static_cast<E>(u)), static_cast<I>(u));
		}
#if CHECKED
		else
		{
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<I>(e); }), "enum value accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<I>(static_cast<E>(u)); }), "enum rvalue accepted");
		}
#endif
		if (representable<U>(i))
			CHECK(Nz::SafeCast<E>(i) == static_cast<E>(i));
#if CHECKED
		else
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<E>(i); }), "integer accepted as enum");
#endif
	}
	PBT_TARGET("enum Int8 / Int32", 10000, &enums<Small, std::int32_t>)
	PBT_TARGET("enum Int8 / UInt8", 10000, &enums<Small, std::uint8_t>)
	PBT_TARGET("enum UInt32 / Int16", 10000, &enums<Big, std::int16_t>)
	PBT_TARGET("enum UInt32 / Int64", 10000, &enums<Big, std::int64_t>)
	PBT_TARGET("enum UInt16 / Int64", 10000, &enums<Plain, std::int64_t>)

	// --- class hierarchies
	struct Base { virtual ~Base() = default; int b = 1; };
	struct Other { virtual ~Other() = default; int o = 2; };
	struct D1 : Base { int d = 3; };
	struct D2 : Other, Base { int d = 4; };
	struct D3 : D2 { int e = 5; };
	struct PlainBase { int x; };
	struct PlainDerived : PlainBase { int y; };

	template<typename To> void pointers(pbt::Case& c, Base* base, Base& ref, bool is)
	{
		const Base* cbase = base;
		const Base& cref = ref;
		if (is)
		{
			To* expected = dynamic_cast<To*>(base);
			CHECK(Nz::SafeCast<To*>(base) == expected);
			CHECK(Nz::SafeCast<const To*>(cbase) == expected);
			CHECK(Nz::SafeCast<const To*>(base) == expected);
			CHECK(&Nz::SafeCast<To&>(ref) == expected);
			CHECK(&Nz::SafeCast<const To&>(cref) == expected);
			CHECK(&Nz::SafeCast<const To&>(ref) == expected);
			CHECK(Nz::SafeCast<Base*>(expected) == base, "to the base class");
			CHECK(&Nz::SafeCast<Base&>(*expected) == base, "to the base class");
			c.tag("valid downcast");
		}
#if CHECKED
		else
		{
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<To*>(base); }), "pointer accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<const To*>(cbase); }), "const pointer accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<To&>(ref); }), "reference accepted");
			CHECK(pbt::asserts([&] { (void) Nz::SafeCast<const To&>(cref); }), "const reference accepted");
			c.tag("invalid downcast");
		}
#endif
	}
	PBT_TARGET("hierarchies", 20000, [](pbt::Case& c)
	{
		Base base;
		D1 d1;
		D2 d2;
		D3 d3;
		unsigned dyn = static_cast<unsigned>(c.below(4)), to = static_cast<unsigned>(c.below(3));
		Base* p = dyn == 0 ? &base : dyn == 1 ? static_cast<Base*>(&d1) : dyn == 2 ? static_cast<Base*>(&d2) : static_cast<Base*>(&d3);
		LOG("object of class " << dyn << " to class " << to + 1);
		c.nontrivial();
		switch (to)
		{
			case 0: pointers<D1>(c, p, *p, dyn == 1); break;
			case 1: pointers<D2>(c, p, *p, dyn >= 2); break;
			default: pointers<D3>(c, p, *p, dyn == 3); break;
		}
		Base* null = nullptr;
		CHECK(Nz::SafeCast<D2*>(null) == nullptr && Nz::SafeCast<D1*>(nullptr) == nullptr);
		CHECK(Nz::SafeCast<void*>(p) == p);
		PlainDerived pd;
		PlainBase* pb = &pd;
		CHECK(Nz::SafeCast<PlainDerived*>(pb) == &pd && &Nz::SafeCast<PlainDerived&>(*pb) == &pd);
		CHECK(Nz::SafeCast<PlainBase*>(&pd) == &pd);
	})

	PBT_TARGET("unique pointers", 20000, [](pbt::Case& c)
	{
		static int s_alive;
		struct Counted : D2 { Counted() { s_alive++; } ~Counted() override { s_alive--; } };
		int before = s_alive;
		{
			std::unique_ptr<Base> base;
			bool null = c.chance(1, 5);
			Counted* raw = null ? nullptr : new Counted;
			base.reset(raw);
			LOG((null ? "null" : "object"));
			if (!null) c.nontrivial();
			auto cast = Nz::StaticUniquePointerCast<Counted>(std::move(base));
			static_assert(std::is_same_v<decltype(cast), std::unique_ptr<Counted>>);
			CHECK(!base && cast.get() == raw);
			CHECK_EQ(s_alive, before + (null ? 0 : 1));
			if (c.coin())
			{
				std::unique_ptr<Base> back = Nz::StaticUniquePointerCast<Base>(std::move(cast));
				CHECK(back.get() == raw && !cast);
			}
			else if (c.coin() && !null)
			{
				std::unique_ptr<Other> other = Nz::StaticUniquePointerCast<Other>(std::move(cast));
				CHECK(other.get() == static_cast<Other*>(raw));
			}
		}
		CHECK_EQ(s_alive, before);
	})

	PBT_TARGET("pointers and integers", 20000, [](pbt::Case& c)
	{
		std::uint64_t v = c.coin() ? c.below(1u << 16) : c.integer<std::uint64_t>();
		LOG("address " << v);
		if (v) c.nontrivial();
		int* p = Nz::IntegerToPointer<int*>(v);
		CHECK_EQ(reinterpret_cast<std::uintptr_t>(p), static_cast<std::uintptr_t>(v));
		CHECK_EQ(Nz::PointerToInteger<std::uint64_t>(p), v);
		CHECK_EQ(Nz::PointerToInteger<std::uintptr_t>(static_cast<const char*>(Nz::IntegerToPointer<const char*>(v))), static_cast<std::uintptr_t>(v));
		if (v <= 0xFFFFFFFFu)
		{
			CHECK_EQ(Nz::PointerToInteger<std::uint32_t>(p), static_cast<std::uint32_t>(v));
			CHECK(Nz::IntegerToPointer<int*>(static_cast<std::uint32_t>(v)) == p);
		}
#if CHECKED
		else
			CHECK(pbt::asserts([&] { (void) Nz::PointerToInteger<std::uint32_t>(p); }), "address truncated");
		std::int64_t negative = -1 - static_cast<std::int64_t>(v >> 1);
		CHECK(pbt::asserts([&] { (void) Nz::IntegerToPointer<int*>(negative); }), "negative address accepted");
#endif
	})
}
