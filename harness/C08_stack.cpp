#include "stackarray.hpp"
#include <cstdint>
#include <cstring>
using namespace vec;
PBT_TARGET("StackVector<int>", 200000, &history<StackKind<int>, int>)
PBT_TARGET("StackVector<uint8_t>", 100000, &history<StackKind<std::uint8_t>, std::uint8_t>)
PBT_TARGET("StackVector<std::string>", 200000, &history<StackKind<std::string>, std::string>)
PBT_TARGET("StackVector<std::unique_ptr>", 120000, &history<StackKind<std::unique_ptr<int>>, std::unique_ptr<int>>)
PBT_TARGET("StackVector<no default constructor>", 120000, &history<StackKind<Rigid>, Rigid>)
PBT_TARGET("StackVector<int, large>", 2400, &history<StackKind<int, 300>, int>)
PBT_TARGET("StackVector<std::string, large>", 1200, &history<StackKind<std::string, 260>, std::string>)
PBT_TARGET("StackVector<uint8_t, larger>", 120, &history<StackKind<std::uint8_t, 66000>, std::uint8_t>)
PBT_TARGET("StackArray<int>", 150000, &arrayHistory<int>)
PBT_TARGET("StackArray<std::string>", 100000, &arrayHistory<std::string>)
PBT_TARGET("StackArray<std::unique_ptr>", 100000, &arrayHistory<std::unique_ptr<int>>)
PBT_TARGET("StackArray<no default constructor>", 50000, &arrayHistory<Rigid>)

namespace
{
	// types which need more alignment than what alloca gives
	template<std::size_t A> struct alignas(A) Aligned
	{
		Aligned() : value(0), self(this) {}
		explicit Aligned(int v) : value(v), self(this) {}
		Aligned(const Aligned& o) : value(o.value), self(this) {}
		Aligned& operator=(const Aligned& o) { value = o.value; return *this; }
		~Aligned() { self = nullptr; }
		void where() const
		{
			std::uintptr_t address;
			const void* p = this;
			std::memcpy(&address, &p, sizeof(p)); // the compiler would know what the remainder is
			CHECK_EQ(address % A, std::uintptr_t(0), "alignment of the object");
			CHECK(self == this);
		}
		int value;
		const Aligned* self;
	};
}
namespace vec
{
	template<std::size_t A> struct Elem<Aligned<A>>
	{
		using T = Aligned<A>;
		static constexpr bool HasFaults = false;
		static T make(int v) { return T(v); }
		static int norm(int v) { return v; }
		static int get(const T& t) { t.where(); return t.value; }
		static int def() { return 0; }
		static void set(T& t, int v) { t.where(); t.value = v; }
		static constexpr bool MoveKeeps = true;
	};
}

namespace
{
	// fills everything the stack array/vector/array without initialization claims to have
	template<typename T, typename Array, typename Vector> void fillAll(Array& arr, Vector& vec, Array& raw, std::size_t n1, std::size_t n2)
	{
		using E = Elem<T>;
		CHECK_EQ(arr.size(), n1, "array");
		CHECK_EQ(vec.capacity(), n2, "vector");
		CHECK_EQ(raw.size(), n1, "array without initialization");
		for (std::size_t i = 0; i < n1; ++i)
			Nz::PlacementNew(&raw[i], E::make(static_cast<int>(i + 3)));
		for (std::size_t i = 0; i < n1; ++i)
			E::set(arr[i], E::norm(static_cast<int>(i + 1)));
		for (std::size_t i = 0; i < n2; ++i)
			vec.push_back(E::make(static_cast<int>(100 + i)));
		for (std::size_t i = 0; i < n1; ++i)
		{
			CHECK_EQ(E::get(arr[i]), E::norm(static_cast<int>(i + 1)), "array");
			CHECK_EQ(E::get(raw[i]), E::norm(static_cast<int>(i + 3)), "array without initialization");
		}
		for (std::size_t i = 0; i < n2; ++i)
			CHECK_EQ(E::get(vec[i]), E::norm(static_cast<int>(100 + i)), "vector");
	}

	// n elements in the arrays and m in the vector, asked for with expressions in which operators of low precedence come last
	template<typename T> void expressions(pbt::Case& c, std::size_t n, std::size_t m, unsigned shape, bool which)
	{
		std::size_t high = n & ~std::size_t(3), low = n & 3, mhigh = m & ~std::size_t(3), mlow = m & 3;
		LOG("expressions of shape " << shape << " giving " << n << " and " << m);
		switch (shape)
		{
			case 0:
			{
				auto arr = NazaraStackArray(T, low + high);
				auto vec = NazaraStackVector(T, mlow + mhigh);
				auto raw = NazaraStackArrayNoInit(T, low + high);
				fillAll<T>(arr, vec, raw, n, m);
				break;
			}
			case 1:
			{
				auto arr = NazaraStackArray(T, low | high);
				auto vec = NazaraStackVector(T, mlow | mhigh);
				auto raw = NazaraStackArrayNoInit(T, low | high);
				fillAll<T>(arr, vec, raw, n, m);
				break;
			}
			case 2:
			{
				auto arr = NazaraStackArray(T, which ? n : n + 7);
				auto vec = NazaraStackVector(T, which ? m : m + 7);
				auto raw = NazaraStackArrayNoInit(T, which ? n : n + 7);
				fillAll<T>(arr, vec, raw, which ? n : n + 7, which ? m : m + 7);
				break;
			}
			default:
			{
				auto arr = NazaraStackArray(T, n + 12 - 12);
				auto vec = NazaraStackVector(T, m << 1 >> 1);
				auto raw = NazaraStackArrayNoInit(T, n ^ 0);
				fillAll<T>(arr, vec, raw, n, m);
				break;
			}
		}
	}

	// the macros, as they are used: several buffers of the same function must not overlap
	template<typename T> void macros(pbt::Case& c)
	{
		obj::reg.reset();
		using E = Elem<T>;
		std::size_t n1 = c.sizeAround(40, { 1, 16 }), n2 = c.sizeAround(40, { 1, 16 }), n3 = c.sizeAround(40, { 1, 16 });
		if (c.coin()) // the size is an expression, of any precedence; its side effects are not the subject
		{
			unsigned shape = unsigned(c.below(4));
			bool which = c.coin();
			expressions<T>(c, n1, n2, shape, which);
			c.tag("size given as an expression");
		}
		{
			auto arr = NazaraStackArray(T, n1);
			auto vec = NazaraStackVector(T, n2);
			auto raw = NazaraStackArrayNoInit(T, n3);
			for (std::size_t i = 0; i < n3; ++i)
				Nz::PlacementNew(&raw[i], E::make(static_cast<int>(i + 3)));
			CHECK_EQ(arr.size(), n1);
			CHECK_EQ(vec.size(), std::size_t(0));
			CHECK_EQ(vec.capacity(), n2);
			CHECK_EQ(raw.size(), n3);
			for (std::size_t i = 0; i < n1; ++i)
				CHECK_EQ(E::get(arr[i]), E::def());
			int k = 0;
			for (T& v : arr)
				E::set(v, E::norm(++k));
			for (std::size_t i = 0; i < n2; ++i)
				vec.push_back(E::make(static_cast<int>(100 + i)));
			for (std::size_t i = 0; i < n1; ++i)
				CHECK_EQ(E::get(arr[i]), E::norm(static_cast<int>(i + 1)), "array");
			for (std::size_t i = 0; i < n2; ++i)
				CHECK_EQ(E::get(vec[i]), E::norm(static_cast<int>(100 + i)), "vector");
			for (std::size_t i = 0; i < n3; ++i)
				CHECK_EQ(E::get(raw[i]), E::norm(static_cast<int>(i + 3)), "array without initialization");
			if (E::HasFaults)
				CHECK_EQ(obj::reg.live, n1 + n2 + n3);
			if (n1 && n2) c.nontrivial();
		}
		c.flush();
		CHECK_EQ(obj::reg.live, std::size_t(0));
	}
}
PBT_TARGET("stack macros, int", 20000, &macros<int>)
PBT_TARGET("stack macros, std::string", 20000, &macros<std::string>)
PBT_TARGET("stack macros, tracked", 20000, &macros<obj::Tracked<obj::Opt::Copy | obj::Opt::Default>>)
PBT_TARGET("stack macros, alignas(32)", 15000, &macros<Aligned<32>>)
PBT_TARGET("stack macros, alignas(64)", 15000, &macros<Aligned<64>>)
PBT_TARGET("stack macros, alignas(512)", 10000, &macros<Aligned<512>>)
