// Generic helpers: memory access by offset, bit casts, counts, placement construction, offsets
#include "pbt.hpp"
#include "obj.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <array>
#include <cstddef>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <variant>

namespace
{
	// --- bit casts
	template<typename To, typename From> void bitCast(pbt::Case& c)
	{
		static_assert(sizeof(To) == sizeof(From));
		unsigned char in[sizeof(From)], out[sizeof(To)];
		for (auto& b : in) b = static_cast<unsigned char>(c.pick({ 0u, 0xFFu, 0x80u, 0x7Fu, static_cast<unsigned>(c.below(256)) }));
		From from;
		std::memcpy(&from, in, sizeof(from));
		LOG("bit cast of " << sizeof(From) << " bytes");
		c.nontrivial();
		To to = Nz::BitCast<To>(from);
		std::memcpy(out, &to, sizeof(to));
		CHECK(std::memcmp(in, out, sizeof(in)) == 0, "bytes changed");
		From back = Nz::BitCast<From>(to);
		std::memcpy(out, &back, sizeof(back));
		CHECK(std::memcmp(in, out, sizeof(in)) == 0, "bytes changed on the way back");
	}
	struct Bytes4 { unsigned char b[4]; };
	struct Bytes16 { unsigned char b[16]; };
	PBT_TARGET("BitCast float / UInt32", 3000, (&bitCast<std::uint32_t, float>))
	PBT_TARGET("BitCast UInt32 / bytes", 3000, (&bitCast<Bytes4, std::uint32_t>))
	PBT_TARGET("BitCast double / UInt64", 3000, (&bitCast<std::uint64_t, double>))
	PBT_TARGET("BitCast Int64 / array", 3000, (&bitCast<std::array<std::uint8_t, 8>, std::int64_t>))
	PBT_TARGET("BitCast bytes / two UInt64", 3000, (&bitCast<std::array<std::uint64_t, 2>, Bytes16>))
	PBT_TARGET("BitCast UInt8 / Int8", 1000, (&bitCast<std::int8_t, std::uint8_t>))

	// --- access by offset
	template<typename T> void access(pbt::Case& c)
	{
		alignas(16) unsigned char memory[128];
		for (std::size_t i = 0; i < sizeof(memory); ++i) memory[i] = static_cast<unsigned char>(c.below(256));
		unsigned char expected[128];
		std::memcpy(expected, memory, sizeof(memory));
		std::size_t base = c.below(4) * alignof(T), count = (sizeof(memory) - base) / sizeof(T);
		std::size_t offset = c.below(count) * sizeof(T);
		T value;
		unsigned char raw[sizeof(T)];
		for (auto& b : raw) b = static_cast<unsigned char>(c.below(256));
		std::memcpy(&value, raw, sizeof(T));
		LOG("base " << base << " offset " << offset << " size " << sizeof(T));
		if (offset != 0) c.nontrivial();
		void* basePtr = memory + base;
		const void* cbasePtr = basePtr;
		T* at = reinterpret_cast<T*>(memory + base + offset);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<T&>(basePtr, offset)), T&>);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<T*>(basePtr, offset)), T*>);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<const T&>(cbasePtr, offset)), const T&>);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<const T*>(cbasePtr, offset)), const T*>);
		CHECK(&Nz::AccessByOffset<T&>(basePtr, offset) == at, "reference");
		CHECK(Nz::AccessByOffset<T*>(basePtr, offset) == at, "pointer");
		CHECK(&Nz::AccessByOffset<const T&>(basePtr, offset) == at, "const reference");
		CHECK(&Nz::AccessByOffset<const T&>(cbasePtr, offset) == at, "const reference, const base");
		CHECK(Nz::AccessByOffset<const T*>(cbasePtr, offset) == at, "const pointer, const base");
		std::memcpy(expected + base + offset, raw, sizeof(T));
		Nz::AccessByOffset<T&>(basePtr, offset) = value;
		CHECK(std::memcmp(memory, expected, sizeof(memory)) == 0, "bytes written");
	}
	PBT_TARGET("AccessByOffset UInt8", 3000, &access<std::uint8_t>)
	PBT_TARGET("AccessByOffset UInt16", 3000, &access<std::uint16_t>)
	PBT_TARGET("AccessByOffset Int64", 3000, &access<std::int64_t>)
	PBT_TARGET("AccessByOffset bytes", 3000, &access<Bytes4>)

	// --- offsets of members
	struct Plain { char a; double b; short c; int d[5]; const char* e; bool f; };
	struct First { int x; char y; };
	struct Second { double z; short w; };
	struct Derived : First, Second { int own; char tail; };
	struct DeepDerived : Plain, Derived { long long last; };
	struct Virtual { virtual ~Virtual() = default; char p; std::uint64_t q; };
	struct alignas(32) Aligned { char a; alignas(16) char b; char c; };
	template<typename T> std::size_t offsetIn(const T& object, const void* member)
	{
		return static_cast<std::size_t>(static_cast<const unsigned char*>(member) - reinterpret_cast<const unsigned char*>(&object));
	}
	PBT_TARGET("NazaraOffsetOf", 2000, [](pbt::Case& c)
	{
		static Plain plain; static Derived derived; static DeepDerived deep; static Virtual virt; static Aligned aligned;
		struct Entry { const char* name; std::size_t value, expected; };
#define ENTRY(type, object, member) Entry{ #type "::" #member, NazaraOffsetOf(type, member), offsetIn(object, &object.member) }
		const Entry entries[] = {
			ENTRY(Plain, plain, a), ENTRY(Plain, plain, b), ENTRY(Plain, plain, c), ENTRY(Plain, plain, e), ENTRY(Plain, plain, f),
			ENTRY(Derived, derived, x), ENTRY(Derived, derived, y), ENTRY(Derived, derived, z), ENTRY(Derived, derived, w), ENTRY(Derived, derived, own), ENTRY(Derived, derived, tail),
			ENTRY(DeepDerived, deep, b), ENTRY(DeepDerived, deep, f), ENTRY(DeepDerived, deep, x), ENTRY(DeepDerived, deep, z), ENTRY(DeepDerived, deep, w), ENTRY(DeepDerived, deep, own), ENTRY(DeepDerived, deep, last),
			ENTRY(Virtual, virt, p), ENTRY(Virtual, virt, q), ENTRY(Aligned, aligned, a), ENTRY(Aligned, aligned, b), ENTRY(Aligned, aligned, c),
		};
		const Entry& e = entries[c.below(std::size(entries))];
		LOG(e.name);
		if (e.expected != 0) c.nontrivial();
		CHECK_EQ(e.value, e.expected, e.name);

		// both helpers together
		Derived object{};
		object.z = c.range(-5, 5);
		CHECK(&Nz::AccessByOffset<double&>(&object, NazaraOffsetOf(Derived, z)) == &object.z);
		CHECK(&Nz::AccessByOffset<const char&>(&object, NazaraOffsetOf(Derived, tail)) == &object.tail);
	})

	// --- counts
	struct Sized { std::size_t n; std::size_t size() const { return n; } };
	template<std::size_t N> void countArray(pbt::Case& c)
	{
		static int ints[N];
		static const double doubles[N] = {};
		static std::string strings[N < 1000 ? N : 1]; // no need for many of these
		static int matrix[N][3];
		static unsigned char bytes[N];
		CHECK_EQ(Nz::CountOf(ints), N); CHECK_EQ(Nz::CountOf(doubles), N); CHECK_EQ(Nz::CountOf(strings), N < 1000 ? N : 1); CHECK_EQ(Nz::CountOf(matrix), N); CHECK_EQ(Nz::CountOf(bytes), N);
		CHECK_EQ(Nz::CountOf(matrix[0]), 3u);
		static std::array<int, N> a{};
		CHECK_EQ(Nz::CountOf(a), N);
		(void) c;
	}
	PBT_TARGET("CountOf", 2000, [](pbt::Case& c)
	{
		std::size_t n = c.chance(1, 6) ? c.sizeAround(70000, { 255, 256, 65535, 65536 }) : c.size(0, 40);
		LOG("count " << n);
		if (n) c.nontrivial();
		CHECK_EQ(Nz::CountOf(std::vector<int>(n)), n);
		CHECK_EQ(Nz::CountOf(std::string(n, 'x')), n);
		CHECK_EQ(Nz::CountOf(std::list<int>(n)), n);
		CHECK_EQ(Nz::CountOf(std::deque<char>(n)), n);
		std::string text(n, '\0');
		const std::string_view view(text);
		CHECK_EQ(Nz::CountOf(view), n);
		std::map<int, int> m;
		for (std::size_t i = 0; i < n; ++i) m[static_cast<int>(i)] = 1;
		CHECK_EQ(Nz::CountOf(m), n);
		CHECK_EQ(Nz::CountOf(Sized{ n }), n);
		switch (c.below(7))
		{
			case 0: countArray<1>(c); break;
			case 1: countArray<2>(c); break;
			case 2: countArray<7>(c); break;
			case 3: countArray<255>(c); break;
			case 4: countArray<256>(c); break;
			case 5: countArray<70000>(c); break;
			default: countArray<300>(c); break;
		}
		// characters of a literal, its null-terminator excluded
		CHECK_EQ(Nz::CountOf(""), 0u);
		CHECK_EQ(Nz::CountOf("a"), 1u);
		CHECK_EQ(Nz::CountOf("some text"), 9u);
		CHECK_EQ(Nz::CountOf("a\0b"), 3u);
		static_assert(Nz::CountOf("12345") == 5);
		static const char longText[70001] = {};
		CHECK_EQ(Nz::CountOf(longText), 70000u);
	})

	// --- placement
	struct Agg { int a; std::string b; };
	struct Many
	{
		Many(int& r, std::unique_ptr<int>&& p, const std::string& s) : ref(&r), ptr(std::move(p)), str(s) {}
		int* ref; std::unique_ptr<int> ptr; std::string str;
	};
	int g_alive = 0;
	struct Counted
	{
		Counted(int v, bool fail) : value(v) { if (fail) throw 1; ++g_alive; }
		Counted(const Counted&) = delete;
		~Counted() { --g_alive; }
		int value;
	};
	PBT_TARGET("PlacementNew", 6000, [](pbt::Case& c)
	{
		c.nontrivial();
		// several slots: only the one asked is written, built once and destroyed once
		struct alignas(16) Slot { unsigned char b[64]; };
		std::unique_ptr<Slot[]> slots(new Slot[4]);
		std::memset(slots.get(), 0xA5, 4 * sizeof(Slot));
		std::size_t at = c.below(4);
		int value = static_cast<int>(c.range(-1000, 1000));
		bool fail = c.chance(1, 4);
		LOG("slot " << at << " value " << value << (fail ? ", constructor throws" : ""));
		auto untouched = [&](std::size_t used)
		{
			for (std::size_t i = 0; i < 4; ++i)
				for (std::size_t k = i == at ? used : 0; k < sizeof(Slot); ++k)
					CHECK(slots[i].b[k] == 0xA5, "slot ", i, " byte ", k, " was written");
		};
		switch (c.below(5))
		{
			case 0:
			{
				Counted* ptr = reinterpret_cast<Counted*>(slots[at].b);
				int before = g_alive;
				bool thrown = false;
				try
				{
					Counted* p = Nz::PlacementNew(ptr, value, fail);
					CHECK(p == ptr);
					CHECK_EQ(p->value, value);
					CHECK_EQ(g_alive, before + 1);
					Nz::PlacementDestroy(p);
				}
				catch (int) { thrown = true; }
				CHECK_EQ(thrown, fail);
				CHECK_EQ(g_alive, before, "objects left");
				untouched(sizeof(Counted));
				break;
			}
			case 1:
			{
				std::string s(static_cast<std::size_t>(c.range(0, 50)), 'k');
				auto owned = std::make_unique<int>(value);
				int* raw = owned.get();
				Many* p = Nz::PlacementNew(reinterpret_cast<Many*>(slots[at].b), value, std::move(owned), s);
				CHECK(p->ref == &value && p->ptr.get() == raw && p->str == s && !owned, "arguments");
				Nz::PlacementDestroy(p);
				untouched(sizeof(Many));
				break;
			}
			case 2:
			{
				std::uint16_t* p = Nz::PlacementNew(reinterpret_cast<std::uint16_t*>(slots[at].b));
				CHECK_EQ(*p, 0, "value initialization");
				Nz::PlacementDestroy(p);
				untouched(sizeof(std::uint16_t));
				break;
			}
			case 3:
			{
				std::string* p = Nz::PlacementNew(reinterpret_cast<std::string*>(slots[at].b), static_cast<std::size_t>(c.range(0, 60)), 'z');
				std::string* q = Nz::PlacementNew(reinterpret_cast<std::string*>(slots[(at + 1) % 4].b), std::move(*p));
				CHECK(q->find_first_not_of('z') == q->npos, "content");
				Nz::PlacementDestroy(p);
				Nz::PlacementDestroy(q);
				break;
			}
			default:
			{
				Counted* none = nullptr;
				int before = g_alive;
				Nz::PlacementDestroy(none);
				CHECK_EQ(g_alive, before, "null pointer destroyed");
				untouched(0);
				break;
			}
		}
	})

	// --- alternatives of a set of functions
	PBT_TARGET("Overloaded", 4000, [](pbt::Case& c)
	{
		using V = std::variant<int, double, std::string, std::vector<int>>;
		V v;
		int i = static_cast<int>(c.range(-100, 100));
		std::size_t kind = c.below(4);
		switch (kind) { case 0: v = i; break; case 1: v = i / 2.0; break; case 2: v = std::string(static_cast<std::size_t>(i + 100), 's'); break; default: v = std::vector<int>(3, i); }
		LOG("alternative " << kind << " of " << i);
		c.nontrivial();
		int calls = 0;
		std::size_t which = std::visit(Nz::Overloaded{ [&](int x) -> std::size_t { ++calls; CHECK_EQ(x, i); return 0; }, [&](double x) -> std::size_t { ++calls; CHECK_EQ(x, i / 2.0); return 1; },
			[&](const std::string& s) -> std::size_t { ++calls; CHECK_EQ(s.size(), static_cast<std::size_t>(i + 100)); return 2; }, [&](const auto& other) -> std::size_t { ++calls; CHECK_EQ(other.size(), 3u); return 3; } }, v);
		CHECK_EQ(which, kind);
		CHECK_EQ(calls, 1);
		// mutable and move-only functions
		auto owned = std::make_unique<int>(i);
		auto f = Nz::Overloaded{ [p = std::move(owned)](int add) { return *p += add; }, [n = 0](const char*) mutable { return ++n; } };
		CHECK_EQ(f(2), i + 2); CHECK_EQ(f(3), i + 5); CHECK_EQ(f(""), 1); CHECK_EQ(f(""), 2);
	})
}
