// Sets of enumeration flags
#include "pbt.hpp"
#include <NazaraUtils/Flags.hpp>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// --- enumerations, enabled in every documented way
namespace flagtest
{
	enum class Auto3 { A, B, C };                                   // EnumAsFlags::max
	enum class Auto8 : unsigned char { F0, F1, F2, F3, F4, F5, F6, F7, Max = F7 };
	constexpr bool EnableEnumAsNzFlags(Auto8) { return true; }
	enum class Auto9 { F0, F1, F2, F3, F4, F5, F6, F7, F8, Count };
	constexpr bool EnableEnumAsNzFlags(Auto9) { return true; }
	enum class Auto17 : short { First, Max = 16 };
	constexpr bool EnableEnumAsNzFlags(Auto17) { return true; }
	enum class Auto32 { First, Max = 31 };
	constexpr bool EnableEnumAsNzFlags(Auto32) { return true; }
	enum class Auto33 { First, Max = 32 };
	constexpr bool EnableEnumAsNzFlags(Auto33) { return true; }
	enum class Auto48 : unsigned char { First, Max = 47 };
	constexpr bool EnableEnumAsNzFlags(Auto48) { return true; }
	enum class Auto64 : signed char { First, Max = 63 };
	constexpr bool EnableEnumAsNzFlags(Auto64) { return true; }
	enum Plain { Plain_A, Plain_B, Plain_C, Plain_D };              // not an enum class

	// values are bits
	enum class Bits3 { A = 1, B = 2, C = 4, Count };
	constexpr bool EnableEnumAsNzFlags(Bits3) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(Bits3) { return false; }
	enum class Bits8 : unsigned char { A = 1, B = 2, C = 4, D = 8, E = 16, F = 32, G = 64, H = 128, Max = H };
	constexpr bool EnableEnumAsNzFlags(Bits8) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(Bits8) { return false; }
	enum class Bits40 : unsigned long long { A = 1, Z = 1ull << 39, Max = Z };
	constexpr bool EnableEnumAsNzFlags(Bits40) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(Bits40) { return false; }
	enum class Not { A, B, Max = B };
}
template<> struct Nz::EnumAsFlags<flagtest::Auto3> { static constexpr flagtest::Auto3 max = flagtest::Auto3::C; };
template<> struct Nz::EnumAsFlags<flagtest::Plain> { static constexpr flagtest::Plain max = flagtest::Plain_D; };

namespace
{
	using namespace flagtest;
	static_assert(Nz::IsEnumFlag<Auto3>::value && Nz::IsEnumFlag<Auto8>::value && Nz::IsEnumFlag<Plain>::value && !Nz::IsEnumFlag<Not>::value);

	template<typename E, unsigned N, bool BitValues> struct Subject
	{
		using F = Nz::Flags<E>;
		using U = std::uint64_t;
		static constexpr U All = (N == 64) ? ~U(0) : (U(1) << (N % 64)) - 1;
		static_assert(sizeof(typename F::BitField) * 8 >= N);
		static E flag(unsigned i) { return BitValues ? static_cast<E>(U(1) << i) : static_cast<E>(i); }
		static U raw(const F& f) { return static_cast<U>(f); }

		static std::string show(U m) { std::ostringstream ss; ss << "0x" << std::hex << m; return ss.str(); }

		// the same set, built through enumeration values
		static F build(pbt::Case& c, U m)
		{
			switch (c.below(4))
			{
				case 0: return F(static_cast<typename F::BitField>(m));
				case 1:
				{
					F f;
					for (unsigned i = 0; i < N; ++i)
						if (m & (U(1) << i))
							f |= flag(i);
					return f;
				}
				case 2:
				{
					F f;
					for (unsigned i = N; i-- > 0;)
						if (m & (U(1) << i))
							f.Set(flag(i));
					return f;
				}
				default:
				{
					F f = ~F();
					for (unsigned i = 0; i < N; ++i)
						if (!(m & (U(1) << i)))
							f.Clear(flag(i));
					return f;
				}
			}
		}

		static U gen(pbt::Case& c)
		{
			U m = 0;
			switch (c.below(4))
			{
				case 0: m = c.u64(); break;
				case 1: m = c.u64() & c.u64() & c.u64(); break;
				case 2: m = U(1) << c.below(N); break;
				default: m = (U(1) << c.below(N)) | (U(1) << c.below(N)) | (U(1) << (N - 1)); break;
			}
			return m & All;
		}

		static void compare(pbt::Case& c, const F& f, U m)
		{
			CHECK_EQ(raw(f), m, "value of the flags");
			CHECK(static_cast<bool>(f) == (m != 0));
			CHECK(static_cast<typename F::BitField>(f) == static_cast<typename F::BitField>(m));
			unsigned n = 0;
			for (unsigned i = 0; i < N; ++i)
				n += (m >> i) & 1;
			CHECK_EQ(f.Count(), n);
			CHECK_EQ(f.size(), n);
			// iteration: exactly the flags set, in increasing order
			std::vector<E> seen;
			for (E e : f)
			{
				seen.push_back(e);
				CHECK(seen.size() <= N, "iteration does not end");
			}
			std::size_t k = 0;
			for (unsigned i = 0; i < N; ++i)
			{
				bool set = (m >> i) & 1;
				CHECK(f.Test(flag(i)) == set, "Test of flag", i);
				CHECK(static_cast<bool>(f & flag(i)) == set);
				CHECK(static_cast<bool>(flag(i) & f) == set);
				if (set)
				{
					CHECK(k < seen.size() && seen[k] == flag(i), "iteration skipped flag", i);
					k++;
				}
			}
			CHECK_EQ(k, seen.size(), "flags iterated");
			// post-increment
			auto it = f.begin();
			for (std::size_t i = 0; i < n; ++i)
			{
				CHECK(it != f.end());
				auto copy = it;
				CHECK(*it++ == seen[i] && *copy == seen[i] && it != copy);
			}
			CHECK(it == f.end());
		}

		static void run(pbt::Case& c)
		{
			constexpr std::size_t M = 3;
			F f[M];
			U m[M];
			for (std::size_t i = 0; i < M; ++i)
			{
				CHECK_EQ(raw(f[i]), U(0), "default flags");
				m[i] = gen(c);
				f[i] = build(c, m[i]);
				LOG("f" << i << " = " << show(m[i]));
				compare(c, f[i], m[i]);
			}
			std::size_t steps = c.size(1, 8);
			for (std::size_t s = 0; s < steps; ++s)
			{
				std::size_t x = c.below(M), y = c.below(M), z = c.below(M);
				unsigned a = static_cast<unsigned>(c.below(N)), b = static_cast<unsigned>(c.below(N));
				U ma = U(1) << a, mb = U(1) << b;
				unsigned op = static_cast<unsigned>(c.below(18));
				LOG("op " << op << " on f" << x << ", f" << y << ", f" << z << ", flags " << a << ", " << b);
				if (m[x] != 0) c.nontrivial();
				switch (op)
				{
					case 0: f[z] = f[x] & f[y]; m[z] = m[x] & m[y]; break;
					case 1: f[z] = f[x] | f[y]; m[z] = m[x] | m[y]; break;
					case 2: f[z] = f[x] ^ f[y]; m[z] = m[x] ^ m[y]; break;
					case 3: f[z] = ~f[x]; m[z] = ~m[x] & All; break;
					case 4: f[x] &= f[y]; m[x] &= m[y]; break;
					case 5: f[x] |= f[y]; m[x] |= m[y]; break;
					case 6: f[x] ^= f[y]; m[x] ^= m[y]; break;
					case 7: f[z] = ~flag(a); m[z] = ~ma & All; break;
					case 8: f[z] = flag(a) | flag(b); m[z] = ma | mb; break;
					case 9: f[z] = flag(a) & flag(b); m[z] = ma & mb; break;
					case 10: f[z] = flag(a) ^ flag(b); m[z] = ma ^ mb; break;
					case 11: f[z] = flag(a) | f[x]; m[z] = ma | m[x]; break;
					case 12: f[z] = f[x] ^ flag(a); m[z] = m[x] ^ ma; break;
					case 13: f[z] = flag(a) ^ f[x]; m[z] = ma ^ m[x]; break;
					case 14:
						if (c.coin()) { f[x].Clear(f[y]); m[x] &= ~m[y]; }
						else { f[x].Clear(flag(a)); m[x] &= ~ma; }
						break;
					case 15:
						if (c.coin()) { f[x].Set(f[y]); m[x] |= m[y]; }
						else { f[x].Set(flag(a)); m[x] |= ma; }
						break;
					case 16: f[x].Clear(); m[x] = 0; break;
					default: f[x] = flag(a); m[x] = ma; break;
				}
				for (std::size_t i = 0; i < M; ++i)
					compare(c, f[i], m[i]);
				for (std::size_t i = 0; i < M; ++i)
					for (std::size_t j = 0; j < M; ++j)
					{
						CHECK((f[i] == f[j]) == (m[i] == m[j]));
						CHECK((f[i] != f[j]) == (m[i] != m[j]));
						CHECK(f[i].Test(f[j]) == ((m[i] & m[j]) == m[j]), "Test of several flags");
						if (m[i] == m[j])
							CHECK(std::hash<F>()(f[i]) == std::hash<F>()(f[j]));
					}
			}
			CHECK(F::GetFlagValue(flag(N - 1)) == static_cast<typename F::BitField>(U(1) << (N - 1)));
			CHECK_EQ(static_cast<U>(F::ValueMask), All);
			// as a key
			std::unordered_set<F> set;
			std::unordered_map<U, int> ref;
			for (std::size_t i = 0; i < M; ++i)
			{
				set.insert(f[i]);
				ref[m[i]] = 1;
			}
			CHECK_EQ(set.size(), ref.size());
			for (std::size_t i = 0; i < M; ++i)
				CHECK(set.count(build(c, m[i])) == 1);
		}
	};

	PBT_TARGET("3 flags", 8000, &Subject<Auto3, 3, false>::run)
	PBT_TARGET("4 flags, plain enum", 8000, &Subject<Plain, 4, false>::run)
	PBT_TARGET("8 flags", 8000, &Subject<Auto8, 8, false>::run)
	PBT_TARGET("9 flags", 8000, &Subject<Auto9, 9, false>::run)
	PBT_TARGET("17 flags", 8000, &Subject<Auto17, 17, false>::run)
	PBT_TARGET("32 flags", 8000, &Subject<Auto32, 32, false>::run)
	PBT_TARGET("33 flags", 8000, &Subject<Auto33, 33, false>::run)
	PBT_TARGET("48 flags", 8000, &Subject<Auto48, 48, false>::run)
	PBT_TARGET("64 flags", 8000, &Subject<Auto64, 64, false>::run)
	PBT_TARGET("3 bit values", 8000, &Subject<Bits3, 3, true>::run)
	PBT_TARGET("8 bit values", 8000, &Subject<Bits8, 8, true>::run)
	PBT_TARGET("40 bit values", 8000, &Subject<Bits40, 40, true>::run)

	// every subset and pair of subsets of a small enumeration
	void pairs(pbt::Case& c)
	{
		using F = Nz::Flags<Auto3>;
		auto i = c.below(64);
		unsigned a = static_cast<unsigned>(i / 8), b = static_cast<unsigned>(i % 8);
		F x(static_cast<F::BitField>(a)), y(static_cast<F::BitField>(b));
		LOG(a << " and " << b);
		c.nontrivial();
		CHECK_EQ(static_cast<unsigned>(x & y), a & b);
		CHECK_EQ(static_cast<unsigned>(x | y), a | b);
		CHECK_EQ(static_cast<unsigned>(x ^ y), a ^ b);
		CHECK_EQ(static_cast<unsigned>(~x), ~a & 7);
		CHECK(~~x == x);
		CHECK(~(x & y) == (~x | ~y));
		CHECK((x ^ y) == ((x | y) & ~(x & y)));
		CHECK(x.Test(y) == ((a & b) == b));
		F s = x; s.Set(y); CHECK(s == (x | y));
		F r = x; r.Clear(y); CHECK(r == (x & ~y));
	}
	PBT_SWEEP("every pair of sets of 3 flags", 64, &pairs)

	// compile time
	constexpr Nz::Flags<Auto33> ct = Auto33::First | Auto33::Max;
	static_assert(ct.Test(Auto33::Max) && static_cast<std::uint64_t>(ct) == ((1ull << 32) | 1));
	static_assert(static_cast<std::uint64_t>(~Nz::Flags<Auto64>()) == ~0ull);
	static_assert(static_cast<std::uint64_t>(~Bits8::A) == 254u);
	static_assert(!static_cast<bool>(Nz::Flags<Auto3>()) && static_cast<bool>(Auto3::A & Auto3::A) && !static_cast<bool>(Auto3::A & Auto3::B));
}
