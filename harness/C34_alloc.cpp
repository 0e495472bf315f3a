// C34: types which hold their content in place never allocate, and the others allocate only when they must.
#include "pbt.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <string>
#include <vector>

namespace
{
	enum class Col { Red, Green, Blue, Cyan, Pink, Max = Pink };
	constexpr bool EnableEnumAsNzFlags(Col) { return true; }
	using Cols = Nz::Flags<Col>;

	// runs an operation and returns how many allocations it made
	template<typename F> std::uint64_t allocationsOf(F&& f)
	{
		std::uint64_t before = pbt::allocationCount();
		f();
		return pbt::allocationCount() - before;
	}
	#define NO_ALLOCATION(what, ...) do { std::uint64_t pbt_n = allocationsOf([&] { __VA_ARGS__; }); CHECK_EQ(pbt_n, std::uint64_t(0), "allocations made by", std::string(what)); } while (0)
	#define ALLOCATIONS(count, what, ...) do { std::uint64_t pbt_n = allocationsOf([&] { __VA_ARGS__; }); CHECK_EQ(pbt_n, std::uint64_t(count), "allocations made by", std::string(what)); } while (0)

	struct Elem // no memory of its own, not trivial
	{
		int v = 0;
		int* self = &v;
		Elem() = default;
		Elem(int x) : v(x) {}
		Elem(const Elem& o) : v(o.v) {}
		Elem& operator=(const Elem& o) { v = o.v; return *this; }
		~Elem() { v = -1; }
		bool operator==(const Elem& o) const { return v == o.v; }
	};
	inline int raw(int v) { return v; }
	inline int raw(const Elem& e) { return e.v; }

	// --- vectors: no operation allocates while the content fits the storage
	template<typename V, typename = void> struct HasReserve : std::false_type {};
	template<typename V> struct HasReserve<V, std::void_t<decltype(std::declval<V&>().reserve(std::size_t(1)))>> : std::true_type {};

	template<typename V> void vectorSteps(pbt::Case& c, V& v, std::size_t cap)
	{
		using T = typename V::value_type;
		std::vector<int> m;
		for (const T& e : v)
			m.push_back(raw(e));
		std::size_t steps = c.size(1, 14);
		for (std::size_t s = 0; s < steps; ++s)
		{
			int x = static_cast<int>(c.below(100));
			std::size_t pos = c.below(m.size() + 1);
			bool room = m.size() < cap;
			auto mp = [&] { return m.begin() + static_cast<std::ptrdiff_t>(pos); };
			switch (c.below(12))
			{
				case 0: if (!room) break; LOG("push_back " << x); NO_ALLOCATION("push_back", v.push_back(T(x))); m.push_back(x); break;
				case 1: if (!room) break; LOG("emplace_back " << x); NO_ALLOCATION("emplace_back", v.emplace_back(x)); m.push_back(x); break;
				case 2: { if (!room) break; T e(x); LOG("insert " << pos << " " << x); NO_ALLOCATION("insert", v.insert(v.begin() + pos, e)); m.insert(mp(), x); break; }
				case 3: if (!room) break; LOG("emplace " << pos << " " << x); NO_ALLOCATION("emplace", v.emplace(v.begin() + pos, x)); m.insert(mp(), x); break;
				case 4: if (pos == m.size()) break; LOG("erase " << pos); NO_ALLOCATION("erase", v.erase(v.begin() + pos)); m.erase(mp()); break;
				case 5:
				{
					std::size_t last = pos + c.below(m.size() - pos + 1);
					LOG("erase " << pos << " to " << last);
					NO_ALLOCATION("erase of a range", v.erase(v.begin() + pos, v.begin() + last));
					m.erase(mp(), m.begin() + static_cast<std::ptrdiff_t>(last));
					break;
				}
				case 6: if (m.empty()) break; LOG("pop_back"); NO_ALLOCATION("pop_back", v.pop_back()); m.pop_back(); break;
				case 7:
				{
					std::size_t n = c.below(cap + 1);
					LOG("resize " << n);
					NO_ALLOCATION("resize", v.resize(n));
					while (m.size() < n) m.push_back(raw(v[m.size()]));
					m.resize(n);
					break;
				}
				case 8:
				{
					std::size_t n = c.below(cap + 1);
					T e(x);
					LOG("resize " << n << " " << x);
					NO_ALLOCATION("resize with a value", v.resize(n, e));
					m.resize(n, x);
					break;
				}
				case 9: LOG("clear"); NO_ALLOCATION("clear", v.clear()); m.clear(); break;
				case 10:
				{
					if constexpr (HasReserve<V>::value) {
					std::size_t n = c.below(cap + 1);
					LOG("reserve " << n);
					NO_ALLOCATION("reserve within the capacity", v.reserve(n)); }
					break;
				}
				default:
				{
					long sum = 0;
					NO_ALLOCATION("reading", for (const T& e : v) sum += raw(e); for (auto it = v.rbegin(); it != v.rend(); ++it) sum -= raw(*it));
					CHECK_EQ(sum, 0L);
					break;
				}
			}
			if (!m.empty())
				c.nontrivial();
			CHECK_EQ(v.size(), m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				CHECK_EQ(raw(v[i]), m[i]);
		}
	}

	template<typename T, std::size_t N, template<typename, std::size_t> class Vec> void inPlace(pbt::Case& c)
	{
		using V = Vec<T, N>;
		NO_ALLOCATION("default construction and destruction", V v);
		V a, b;
		vectorSteps(c, a, N);
		NO_ALLOCATION("copy construction", V k(a));
		NO_ALLOCATION("copy assignment", b = a);
		CHECK_EQ(b.size(), a.size());
		vectorSteps(c, b, N);
		NO_ALLOCATION("move construction", V k(std::move(a)); CHECK(k.size() <= N));
		NO_ALLOCATION("move assignment", a = std::move(b));
		CHECK(a.capacity() >= N);
		std::size_t n = c.below(N + 1);
		T val(3);
		NO_ALLOCATION("construction with a size", V k(n, val); CHECK_EQ(k.size(), n));
		int src[N];
		for (std::size_t i = 0; i < N; ++i) src[i] = static_cast<int>(i);
		NO_ALLOCATION("construction from a range", V k(src, src + n); CHECK_EQ(k.size(), n));
		NO_ALLOCATION("construction from a list", V k({ T(4) }); CHECK_EQ(raw(k[0]), 4));
	}
	template<typename T, std::size_t N> using Fixed = Nz::FixedVector<T, N>;
	template<typename T, std::size_t N> using Hybrid = Nz::HybridVector<T, N>;

	// once in its fallback, a hybrid vector allocates no more than what reserve announced
	void hybridReserve(pbt::Case& c)
	{
		Nz::HybridVector<int, 4> v;
		std::size_t have = c.below(7);
		for (std::size_t i = 0; i < have; ++i)
			v.push_back(static_cast<int>(i));
		std::size_t n = 5 + c.below(60);
		LOG(have << " elements, reserve " << n);
		v.reserve(n);
		CHECK(v.capacity() >= n);
		std::size_t steps = c.size(1, 60);
		std::vector<int> m(v.begin(), v.end());
		m.reserve(n + 1);
		const int* data = v.data();
		for (std::size_t s = 0; s < steps; ++s)
		{
			if (m.size() < n && c.below(4) != 0)
			{
				int x = static_cast<int>(c.below(100));
				std::size_t pos = c.coin() ? m.size() : c.below(m.size() + 1);
				NO_ALLOCATION("growth up to the reserved capacity", if (pos == v.size()) v.push_back(x); else v.insert(v.begin() + pos, x));
				m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), x);
			}
			else if (!m.empty())
			{
				std::size_t pos = c.below(m.size());
				NO_ALLOCATION("erasure", v.erase(v.begin() + pos));
				m.erase(m.begin() + static_cast<std::ptrdiff_t>(pos));
			}
			CHECK(std::equal(m.begin(), m.end(), v.begin(), v.end()));
			CHECK(v.data() == data, "the elements moved though the capacity was reserved");
		}
		c.nontrivial();
		// moving hands the memory over
		NO_ALLOCATION("move construction", Nz::HybridVector<int, 4> w(std::move(v)); CHECK(std::equal(m.begin(), m.end(), w.begin(), w.end())));
	}

	template<typename T> void stackVec(pbt::Case& c)
	{
		std::size_t cap = 1 + c.below(12);
		alignas(T) unsigned char mem[sizeof(T) * 16];
		Nz::StackVector<T> v;
		NO_ALLOCATION("StackVector construction", Nz::StackVector<T> w(reinterpret_cast<T*>(mem), cap); v = std::move(w));
		vectorSteps(c, v, cap);
		NO_ALLOCATION("StackVector move", Nz::StackVector<T> w(std::move(v)); v = std::move(w));
		vectorSteps(c, v, cap);
		NO_ALLOCATION("StackVector destruction", Nz::StackVector<T> w(std::move(v)));
		std::size_t n = c.below(20);
		NO_ALLOCATION("NazaraStackArray", auto a = NazaraStackArray(T, n); a.fill(T(5)); for (T& e : a) CHECK_EQ(raw(e), 5); CHECK_EQ(a.size(), n));
		NO_ALLOCATION("NazaraStackVector", auto a = NazaraStackVector(T, n); for (std::size_t i = 0; i < n; ++i) a.push_back(T(static_cast<int>(i))));
	}

	PBT_TARGET("FixedVector<int,6>", 20000, &inPlace<int, 6, Fixed>)
	PBT_TARGET("FixedVector<Elem,5>", 20000, &inPlace<Elem, 5, Fixed>)
	PBT_TARGET("HybridVector<int,6>", 20000, &inPlace<int, 6, Hybrid>)
	PBT_TARGET("HybridVector<Elem,1>", 10000, &inPlace<Elem, 1, Hybrid>)
	PBT_TARGET("HybridVector<Elem,5>", 20000, &inPlace<Elem, 5, Hybrid>)
	PBT_TARGET("HybridVector reserved", 15000, &hybridReserve)
	PBT_TARGET("StackVector<int>", 15000, &stackVec<int>)
	PBT_TARGET("StackVector<Elem>", 15000, &stackVec<Elem>)

	// --- bitsets
	template<typename BS> void readBits(pbt::Case& c, const BS& b, const BS& o, const std::vector<bool>& m)
	{
		std::size_t at = c.below(m.size() + 1);
		std::size_t sum = 0;
		NO_ALLOCATION("reading a bitset", sum += b.Count(); (void) b.FindFirst(); if (at < m.size()) { (void) b.FindNext(at); (void) b.Test(at); (void) b[at]; } (void) b.UnboundedTest(at + 50); (void) b.TestAll(); (void) b.TestAny(); (void) b.TestNone();
			for (std::size_t bit : b.IterBits()) sum += bit * 0; (void) (b == o); (void) (b < o); (void) (b <= o); (void) b.Intersects(o); (void) b.GetBlockCount(); (void) b.GetCapacity(); if (b.GetSize() <= 64) (void) b.template To<Nz::UInt64>());
		CHECK_EQ(sum, static_cast<std::size_t>(std::count(m.begin(), m.end(), true)));
	}

	// storage in place: no operation allocates at all
	template<typename BS, std::size_t Max> void inPlaceBits(pbt::Case& c)
	{
		BS a, b;
		std::vector<bool> m;
		std::size_t steps = c.size(1, 12);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t n = c.sizeAround(Max, { 8, 16, 32, 64, Max });
			bool val = c.coin();
			std::size_t k = c.below(Max + 10);
			switch (c.below(14))
			{
				case 0: LOG("resize " << n << val); NO_ALLOCATION("Resize", a.Resize(n, val)); m.resize(n, val); break;
				case 1: if (n >= Max) break; LOG("unbounded set " << n); NO_ALLOCATION("UnboundedSet", a.UnboundedSet(n, val)); if (val && m.size() <= n) m.resize(n + 1); if (n < m.size()) m[n] = val; break;
				case 2: if (n >= m.size()) break; LOG("set " << n); NO_ALLOCATION("Set", a.Set(n, val)); m[n] = val; break;
				case 3: NO_ALLOCATION("Flip", a.Flip()); m.flip(); break;
				case 4: LOG("reverse"); NO_ALLOCATION("Reverse", a.Reverse()); std::reverse(m.begin(), m.end()); break;
				case 5:
					LOG("<<= " << k);
					NO_ALLOCATION("<<=", a <<= k);
					for (std::size_t i = m.size(); i-- > 0;) m[i] = i >= k && m[i - k];
					break;
				case 6:
					LOG(">>= " << k);
					NO_ALLOCATION(">>=", a >>= k);
					for (std::size_t i = 0; i < m.size(); ++i) m[i] = i + k < m.size() && m[i + k];
					break;
				case 7:
				{
					LOG("logic with a copy");
					BS r;
					NO_ALLOCATION("logic", r = a & a; r |= a; r ^= b; r ^= b; r = a | a; r = ~a; r = ~r; r = a ^ a; r.PerformsNOT(a); r.PerformsAND(a, a));
					CHECK_EQ(r.Count(), a.Count());
					break;
				}
				case 8: LOG("copies"); NO_ALLOCATION("copy", BS k2(a); b = k2; BS k3(std::move(k2)); k3.Swap(b); b = a << 1; b = a >> 1); break;
				case 9:
				{
					std::string t(n, '0');
					for (char& ch : t) ch = c.coin() ? '1' : '0';
					LOG("text of " << n);
					NO_ALLOCATION("text", a = std::string_view(t));
					m.assign(n, false);
					for (std::size_t i = 0; i < n; ++i) m[i] = t[n - 1 - i] == '1';
					break;
				}
				case 10:
				{
					unsigned char buf[Max / 8 + 2];
					for (auto& x : buf) x = static_cast<unsigned char>(c.below(256));
					if (n == 0) break;
					LOG("pointer, " << n);
					NO_ALLOCATION("FromPointer", a = BS::FromPointer(buf, n));
					m.assign(n, false);
					for (std::size_t i = 0; i < n; ++i) m[i] = (buf[i / 8] >> (i % 8)) & 1;
					break;
				}
				case 11:
				{
					Nz::UInt16 v = static_cast<Nz::UInt16>(c.below(65536));
					std::size_t count = 1 + c.below(16);
					if (m.size() + count > Max) break;
					LOG("append " << count);
					NO_ALLOCATION("AppendBits", a.AppendBits(v, count));
					for (std::size_t i = 0; i < count; ++i) m.push_back((v >> i) & 1);
					break;
				}
				case 12: LOG("clear"); NO_ALLOCATION("Clear", a.Clear()); m.clear(); break;
				default: LOG("reset"); NO_ALLOCATION("Set/Reset", if (val) a.Set(); else a.Reset()); m.assign(m.size(), val); break;
			}
			if (m.size() > 1)
				c.nontrivial();
			CHECK_EQ(a.GetSize(), m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				CHECK_EQ(a.Test(i), bool(m[i]));
			readBits(c, a, b, m);
		}
	}
	// in FixedBitset<Block, N> and HybridBitset<Block, N> the number of blocks in place is (N + 7) / 8
	PBT_TARGET("Bitset in a FixedVector<u8,13>", 20000, &inPlaceBits<Nz::Bitset<Nz::UInt8, Nz::FixedVector<Nz::UInt8, 13>>, 104>)
	PBT_TARGET("Bitset in a FixedVector<u32,4>", 20000, &inPlaceBits<Nz::Bitset<Nz::UInt32, Nz::FixedVector<Nz::UInt32, 4>>, 128>)
	PBT_TARGET("Bitset in a HybridVector<u64,3>", 20000, &inPlaceBits<Nz::Bitset<Nz::UInt64, Nz::HybridVector<Nz::UInt64, 3>>, 192>)
	PBT_TARGET("FixedBitset<u16,64>", 15000, &inPlaceBits<Nz::FixedBitset<Nz::UInt16, 64>, 64>)
	PBT_TARGET("HybridBitset<u8,64>", 15000, &inPlaceBits<Nz::HybridBitset<Nz::UInt8, 64>, 64>)

	// a bitset in a vector: no reading allocates, nor growing up to what was reserved, nor shrinking, nor moving
	template<typename Block> void reservedBits(pbt::Case& c)
	{
		using BS = Nz::Bitset<Block>;
		BS a, b(37);
		std::vector<bool> m;
		std::size_t reserved = 0;
		std::size_t steps = c.size(1, 16);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t n = c.sizeAround(300, { 8, 64, 128, 256 });
			bool val = c.coin();
			switch (c.below(9))
			{
				case 0: if (n < reserved) break; LOG("reserve " << n); a.Reserve(n); reserved = n; CHECK(a.GetCapacity() >= n); break;
				case 1: case 2: if (n > std::max(reserved, m.size())) break; LOG("resize " << n << " of " << reserved); NO_ALLOCATION("Resize within what was reserved", a.Resize(n, val)); m.resize(n, val); break;
				case 3: if (n >= std::max(reserved, m.size())) break; LOG("unbounded set " << n); NO_ALLOCATION("UnboundedSet within what was reserved", a.UnboundedSet(n, val)); if (val && m.size() <= n) m.resize(n + 1); if (n < m.size()) m[n] = val; break;
				case 4:
				{
					std::size_t count = 1 + c.below(8);
					if (m.size() + count > reserved) break;
					Nz::UInt8 v = static_cast<Nz::UInt8>(c.below(256));
					LOG("append " << count);
					NO_ALLOCATION("AppendBits within what was reserved", a.AppendBits(v, count));
					for (std::size_t i = 0; i < count; ++i) m.push_back((v >> i) & 1);
					break;
				}
				case 5: LOG("flip"); NO_ALLOCATION("Flip", a.Flip(); a.Set(); a.Flip(); a.Flip()); m.assign(m.size(), true); break;
				case 6: LOG("reverse"); NO_ALLOCATION("Reverse", a.Reverse()); std::reverse(m.begin(), m.end()); break;
				case 7: LOG("moves"); NO_ALLOCATION("moves and swaps", BS k(std::move(a)); BS l; l = std::move(k); a = std::move(l); a.Swap(b); a.Swap(b); std::swap(a, b); std::swap(a, b)); break;
				default: LOG("clear"); NO_ALLOCATION("Clear", a.Clear()); m.clear(); break;
			}
			if (m.size() > 1)
				c.nontrivial();
			CHECK_EQ(a.GetSize(), m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				CHECK_EQ(a.Test(i), bool(m[i]));
			readBits(c, a, b, m);
		}
	}
	PBT_TARGET("Bitset<u8>", 20000, &reservedBits<Nz::UInt8>)
	PBT_TARGET("Bitset<u64>", 20000, &reservedBits<Nz::UInt64>)

	// --- pools: a pool with a free entry does not allocate
	void pools(pbt::Case& c)
	{
		std::size_t blockSize = 1 + c.below(40);
		Nz::MemoryPool<Elem> pool(blockSize);
		std::vector<std::size_t> live;
		LOG("blocks of " << blockSize);
		std::size_t steps = c.size(1, 60);
		for (std::size_t s = 0; s < steps; ++s)
		{
			switch (c.below(8))
			{
				case 0: case 1: case 2: case 3:
				{
					std::size_t index;
					std::size_t blocks = pool.GetBlockCount();
					if (pool.GetFreeEntryCount() > 0)
					{
						NO_ALLOCATION("Allocate with a free entry", pool.Allocate(index, static_cast<int>(s)));
						CHECK_EQ(pool.GetBlockCount(), blocks);
						c.nontrivial();
					}
					else
					{
						pool.Allocate(index, static_cast<int>(s));
						CHECK_EQ(pool.GetBlockCount(), blocks + 1, "a full pool grows by one block");
					}
					live.push_back(index);
					break;
				}
				case 4: case 5:
				{
					if (live.empty()) break;
					std::size_t k = c.below(live.size());
					LOG("free " << live[k]);
					NO_ALLOCATION("Free", pool.Free(live[k]));
					live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
					break;
				}
				case 6:
				{
					std::size_t count = 0;
					NO_ALLOCATION("reading", for (Elem& e : pool) count += (e.self == &e.v); for (std::size_t i : live) (void) pool.RetrieveEntryIndex(pool.RetrieveFromIndex(i)); (void) pool.GetAllocatedEntryCount());
					CHECK_EQ(count, live.size());
					break;
				}
				default:
					if (c.below(4) == 0)
					{
						LOG("reset");
						NO_ALLOCATION("Reset", pool.Reset());
						live.clear();
					}
					else
					{
						LOG("move");
						NO_ALLOCATION("move construction", Nz::MemoryPool<Elem> other(std::move(pool)); CHECK_EQ(other.GetAllocatedEntryCount(), live.size()); pool = std::move(other));
					}
					break;
			}
			CHECK_EQ(pool.GetAllocatedEntryCount(), live.size());
		}
		NO_ALLOCATION("Clear", pool.Clear());
	}
	PBT_TARGET("MemoryPool", 15000, &pools)

	// --- owners
	struct Impl { std::array<int, 8> v{}; Impl() = default; explicit Impl(int x) { v.fill(x); } };
	struct Holder { Nz::MovablePtr<int> ptr; Nz::MovableLiteral<int, 4> lit; Nz::MovableValue<Elem> val; };

	Nz::Result<int, Elem> step(int v) { if (v % 4 == 0) return Nz::Err(Elem(v)); return Nz::Ok(v / 2); }
	Nz::Result<Elem, Elem> chain(int v)
	{
		NAZARA_TRY_VALUE(int a, step(v));
		NAZARA_TRY(step(a));
		return Nz::Ok(Elem(a));
	}

	void owners(pbt::Case& c)
	{
		int x = static_cast<int>(c.below(100)), y = static_cast<int>(c.below(100));
		LOG("values " << x << ", " << y);
		NO_ALLOCATION("PrivateImpl in place", Nz::PrivateImpl<Impl, sizeof(Impl)> a(x); Nz::PrivateImpl<Impl, sizeof(Impl)> b(a); Nz::PrivateImpl<Impl, sizeof(Impl)> d(std::move(a)); d = b; b = std::move(d); CHECK_EQ(b->v[3], x));
		{
			ALLOCATIONS(1, "construction of a PrivateImpl", Nz::PrivateImpl<Impl> a(x); CHECK_EQ(a->v[0], x));
			ALLOCATIONS(0, "construction of an empty PrivateImpl", Nz::PrivateImpl<Impl> a(nullptr); CHECK(!a.HasValue()));
			Nz::PrivateImpl<Impl> a(x), b(y), n(nullptr);
			const Impl* pa = a.Get();
			ALLOCATIONS(0, "move of a PrivateImpl", Nz::PrivateImpl<Impl> k(std::move(a)); CHECK(k.Get() == pa); a = std::move(k); CHECK(a.Get() == pa));
			ALLOCATIONS(1, "copy construction of a PrivateImpl", Nz::PrivateImpl<Impl> k(a); CHECK_EQ(k->v[0], x));
			ALLOCATIONS(0, "copy of an empty PrivateImpl", Nz::PrivateImpl<Impl> k(n); CHECK(!k.HasValue()));
			ALLOCATIONS(0, "Reset of a PrivateImpl", b.Reset());
			ALLOCATIONS(0, "reading a PrivateImpl", CHECK_EQ((*a).v[1], x); CHECK(bool(a)); CHECK(!b));
			ALLOCATIONS(1, "Emplace in an empty PrivateImpl", b.Emplace(y));
			CHECK_EQ(b->v[7], y);
		}
		int target[4] = { x, y, x + y, 0 };
		NO_ALLOCATION("Movable holders", Holder h{ &target[0], x, Elem(y) }; Holder k(std::move(h)); h = std::move(k); Holder l(h); l = h; CHECK_EQ(l.val.Get().v, y); l.val = Elem(x); l.lit = y);
		int calls = 0;
		NO_ALLOCATION("CallOnExit", {
			std::array<int*, 12> capture; capture.fill(&calls);
			Nz::CallOnExit e([capture] { for (int* p : capture) ++*p; });
			NAZARA_DEFER({ calls += 100; });
			if (x & 1) e.CallAndReset();
			if (x & 2) e.Reset();
		});
		CHECK_EQ(calls, 100 + (((x & 1) || !(x & 2)) ? 12 : 0));
		{
			std::array<int, 40> big; big.fill(x);
			auto f = [big](int i) { return big[static_cast<std::size_t>(i)]; };
			int got = 0;
			NO_ALLOCATION("FunctionRef", Nz::FunctionRef<int(int)> r(f); Nz::FunctionRef<int(int)> s(r); Nz::FunctionRef<int(int)> n(nullptr); n = s; if (n) got = n(3));
			CHECK_EQ(got, x);
		}
		NO_ALLOCATION("SparsePtr", Nz::SparsePtr<int> p(target, static_cast<int>(sizeof(int))); p += 2; --p; CHECK_EQ(*p, y); Nz::SparsePtr<const int> q(p); CHECK_EQ(q[1], x + y); CHECK((q + 1) > q));
		{
			bool ok = x % 4 != 0 && (x / 2) % 4 != 0;
			NO_ALLOCATION("Result", auto r = chain(x); CHECK_EQ(r.IsOk(), ok); auto k = r; auto l = std::move(k); k = l; auto m = r.Map([](const Elem& e) { return e.v + 1; }); CHECK_EQ(m.IsOk(), ok);
				auto mm = std::move(l).Map([](Elem&& e) { return e.v + 1L; }); CHECK_EQ(mm.IsOk(), ok); (void) r.GetValueOr(Elem(3)); (void) bool(r); Nz::Result<Elem, Elem> conv(std::move(r)); if (ok) { conv.Expect("no error"); CHECK_EQ(conv.GetValue().v, x / 2); } else (void) conv.GetError());
			Nz::Result<void, int> v = Nz::Ok();
			NO_ALLOCATION("Result<void>", Nz::Result<void, int> w(v); w = Nz::Err(x); v = w; auto m = w.Map([] { return 4; }); CHECK(!m.IsOk()); CHECK_EQ(v.GetError(), x));
		}
		NO_ALLOCATION("EnumArray", Nz::EnumArray<Col, Elem> a; a[Col::Blue] = Elem(x); auto b = a; int sum = 0; for (auto&& [k, e] : b.iter_kv()) sum += e.v + 0 * static_cast<int>(k); CHECK_EQ(sum, x));
		NO_ALLOCATION("Flags", Cols f = Cols(Col::Red) | Cols(static_cast<Col>(x % 5)); std::size_t k = 0; for (Col e : f) k += static_cast<std::size_t>(e) * 0 + 1; CHECK_EQ(k, f.Count()); f = ~f; f.Clear(Col::Red); f.Set(Col::Blue); (void) f.Test(Col::Pink));
		c.nontrivial();
	}
	PBT_TARGET("owners, results, references", 20000, &owners)

	// --- signals: moving one, and everything about its connections but connecting
	void signals(pbt::Case& c)
	{
		Nz::Signal<int> s;
		std::size_t n = c.below(6);
		std::vector<Nz::Signal<int>::Connection> con;
		con.reserve(n);
		int calls = 0;
		for (std::size_t i = 0; i < n; ++i)
			con.push_back(s.Connect([&calls](int) { calls++; }));
		LOG(n << " slots");
		NO_ALLOCATION("moving a signal", Nz::Signal<int> t(std::move(s)); s = std::move(t); Nz::Signal<int> none; none = std::move(t));
		if (n > 0)
		{
			std::size_t k = c.below(n);
			NO_ALLOCATION("handling connections", Nz::Signal<int>::Connection a(con[k]); Nz::Signal<int>::Connection b(std::move(a)); a = b; CHECK(a.IsConnected()); { Nz::Signal<int>::ConnectionGuard g(b); CHECK(g.IsConnected()); Nz::Signal<int>::ConnectionGuard h(std::move(g)); CHECK(h.IsConnected()); } CHECK(!a.IsConnected()));
			s(3);
			CHECK_EQ(calls, static_cast<int>(n) - 1);
			c.nontrivial();
		}
		NO_ALLOCATION("copying a signal", Nz::Signal<int> t(s));
		NO_ALLOCATION("clearing a signal", s.Clear());
	}
	PBT_TARGET("signals", 15000, &signals)

	// --- functions
	void functions(pbt::Case& c)
	{
		std::string t;
		for (std::size_t i = c.below(90); i > 0; --i)
			t += static_cast<char>('a' + c.below(26));
		std::uint64_t v = c.u64();
		std::size_t h = 0;
		NO_ALLOCATION("hashes", h ^= Nz::CRC32(t.c_str()); h ^= Nz::CRC32(std::string_view(t)); h ^= Nz::FNV1a32(std::string_view(t)); h ^= static_cast<std::size_t>(Nz::FNV1a64(t.c_str())); h ^= Nz::CRC32(reinterpret_cast<const Nz::UInt8*>(t.data()), t.size());
			Nz::HashCombine(h, v); Nz::HashCombine(h, t); h ^= Nz::HashCombine(t, v, 3); Nz::StringHash<> sh; h ^= sh(t); h ^= sh(t.c_str()); h ^= sh(std::string_view(t)));
		NO_ALLOCATION("views", h ^= Nz::ToUtf8String(std::string_view(t)).size(); h ^= Nz::FromUtf8String(Nz::ToUtf8String(std::string_view(t))).size(); h ^= Nz::TypeName<std::vector<std::string>>().size());
		unsigned char buf[16] = {};
		NO_ALLOCATION("numbers", std::memcpy(buf, &v, 8); Nz::SwapBytes(buf, 1 + v % 16); h ^= Nz::ReverseBits(v); h ^= Nz::CountBits(v); h ^= Nz::ByteSwap(v); h ^= Nz::FindLastBit(v); h ^= Nz::SafeCast<unsigned>(v & 0xFFFF));
		LOG("text " << t << " value " << v << " digest " << h);
		c.nontrivial();
	}
	PBT_TARGET("functions", 10000, &functions)
}
