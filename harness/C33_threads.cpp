// C33: distinct objects share no hidden state, and objects only read may be shared between threads.
// Every case runs in a process of its own: the first use of each facility happens in concurrent threads.
#include "pbt.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <array>
#include <atomic>
#include <memory>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace
{
	enum class Col { Red, Green, Blue, Cyan, Pink, Max = Pink };
	constexpr bool EnableEnumAsNzFlags(Col) { return true; }
	using Cols = Nz::Flags<Col>;
}

namespace
{
	using u64 = std::uint64_t;

	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed) : s(pbt::mix(seed)) {}
		u64 next() { s += 0x9E3779B97F4A7C15ull; return pbt::mix(s); }
		std::size_t below(std::size_t n) { return static_cast<std::size_t>(next() % n); }
		bool coin() { return (next() & 1) != 0; }
		std::string text(std::size_t max) { std::string t(below(max + 1), ' '); for (char& ch : t) ch = static_cast<char>('a' + below(26)); return t; }
	};

	struct Digest
	{
		u64 h = 1;
		void add(u64 v) { h = pbt::mix(h ^ v); }
		void add(std::string_view s) { for (char ch : s) add(static_cast<unsigned char>(ch)); add(s.size()); }
		template<typename It> void range(It a, It b) { for (; a != b; ++a) one(*a); }
		void one(int v) { add(static_cast<u64>(v)); }
		void one(const std::string& s) { add(std::string_view(s)); }
	};

	// ---------------------------------------------------------------- objects of one thread
	template<typename BS> BS makeBits(Rng& r, std::size_t max)
	{
		BS b(r.below(max + 1), r.coin());
		std::size_t n = b.GetSize();
		for (std::size_t i = 0; i < n; ++i)
			if (r.coin())
				b.Set(i, r.coin());
		return b;
	}

	template<typename BS> void readBits(Digest& d, const BS& b, const BS& other, Rng& r)
	{
		d.add(b.Count());
		d.add(b.GetSize());
		d.add(b.GetBlockCount());
		d.add(b.FindFirst());
		if (b.GetSize() > 0)
		{
			std::size_t at = r.below(b.GetSize());
			d.add(b.FindNext(at));
			d.add(b.Test(at));
			d.add(b[at]);
			d.add(b.GetBlock(r.below(b.GetBlockCount())));
		}
		d.add(b.UnboundedTest(r.below(400)));
		d.add(b.TestAll() * 4 + b.TestAny() * 2 + b.TestNone());
		for (std::size_t bit : b.IterBits())
			d.add(bit);
		d.one(b.ToString());
		std::ostringstream ss;
		ss << b;
		d.one(ss.str());
		d.add((b == other) + 2 * (b < other) + 4 * (b <= other) + 8 * (b != other) + 16 * (b > other) + 32 * (b >= other));
		d.add(b.Intersects(other));
		if (b.GetSize() <= 32)
			d.add(b.template To<Nz::UInt32>());
		BS copy(b);
		d.add(copy.Count());
		BS neg = ~b;
		d.add(neg.Count());
		BS sh = b << r.below(40);
		d.add(sh.Count());
		sh = b >> r.below(40);
		d.add(sh.Count());
		sh = b & other;
		d.add(sh.Count());
		sh = b | other;
		d.add(sh.Count());
		sh = b ^ other;
		d.add(sh.Count());
	}

	template<typename BS> void bitsScript(Digest& d, Rng& r)
	{
		BS a = makeBits<BS>(r, 200), b = makeBits<BS>(r, 200);
		std::size_t steps = 1 + r.below(8);
		for (std::size_t s = 0; s < steps; ++s)
		{
			switch (r.below(12))
			{
				case 0: a.Resize(r.below(200), r.coin()); break;
				case 1: a.UnboundedSet(r.below(200), r.coin()); break;
				case 2: a.Flip(); break;
				case 3: a.Reverse(); break;
				case 4: a <<= r.below(70); break;
				case 5: a >>= r.below(70); break;
				case 6: a.PerformsAND(a, b); break;
				case 7: a ^= b; break;
				case 8: { std::string t; for (std::size_t i = r.below(100); i > 0; --i) t += r.coin() ? '1' : '0'; a = std::string_view(t); break; }
				case 9: { unsigned char buf[16]; for (auto& x : buf) x = static_cast<unsigned char>(r.next()); std::size_t n = 1 + r.below(100); a = BS::FromPointer(buf, n); break; }
				case 10: if (a.GetSize() < 180) { a.AppendBits(static_cast<Nz::UInt8>(r.next()), 1 + r.below(8)); } break;
				default: a.Swap(b); break;
			}
			readBits(d, a, b, r);
		}
	}

	template<typename V> void vectorOps(Digest& d, Rng& r, V& v, std::size_t cap)
	{
		auto value = [&] { if constexpr (std::is_same_v<typename V::value_type, std::string>) return r.text(30); else return static_cast<int>(r.below(1000)); };
		std::size_t steps = 1 + r.below(14);
		for (std::size_t s = 0; s < steps; ++s)
		{
			bool room = v.size() < cap;
			switch (r.below(9))
			{
				case 0: if (room) v.push_back(value()); break;
				case 1: if (room) v.emplace_back(value()); break;
				case 2: if (room) { auto x = value(); v.insert(v.begin() + r.below(v.size() + 1), x); } break;
				case 3: if (room) v.emplace(v.begin() + r.below(v.size() + 1), value()); break;
				case 4: if (!v.empty()) v.erase(v.begin() + r.below(v.size())); break;
				case 5: if (!v.empty()) v.pop_back(); break;
				case 6: v.resize(r.below(cap + 1)); break;
				case 7: if (!v.empty()) { std::size_t i = r.below(v.size()); v[i] = value(); } break;
				default: if (r.below(4) == 0) v.clear(); break;
			}
			const V& cv = v;
			d.add(cv.size());
			d.range(cv.begin(), cv.end());
		}
	}

	template<typename T> void vectorsScript(Digest& d, Rng& r)
	{
		Nz::FixedVector<T, 6> f;
		vectorOps(d, r, f, 6);
		Nz::HybridVector<T, 3> h;
		vectorOps(d, r, h, 12);
		{
			Nz::FixedVector<T, 6> f2(f);
			Nz::HybridVector<T, 3> h2(h), h3;
			h3 = std::move(h2);
			d.range(f2.rbegin(), f2.rend());
			d.range(h3.rbegin(), h3.rend());
		}
		auto sv = NazaraStackVector(T, 8);
		vectorOps(d, r, sv, 8);
		auto sa = NazaraStackArray(T, 5);
		sa.fill(T{});
		d.range(sa.begin(), sa.end());
	}

	void poolOps(Digest& d, Rng& r, Nz::MemoryPool<std::string>& pool)
	{
		std::vector<std::size_t> live;
		std::size_t steps = 4 + r.below(24);
		for (std::size_t s = 0; s < steps; ++s)
		{
			if (r.below(3) != 0 || live.empty())
			{
				std::size_t index;
				std::string* p = pool.Allocate(index, r.text(30));
				d.add(index);
				d.one(*p);
				d.add(pool.RetrieveEntryIndex(p));
				live.push_back(index);
			}
			else
			{
				std::size_t k = r.below(live.size());
				pool.Free(live[k]);
				live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
			}
			d.add(pool.GetAllocatedEntryCount() * 1000 + pool.GetFreeEntryCount());
		}
	}
	void readPool(Digest& d, const Nz::MemoryPool<std::string>& pool)
	{
		d.add(pool.GetBlockCount() + pool.GetBlockSize() * 100 + pool.GetAllocatedEntryCount() * 10000);
		for (auto it = pool.begin(); it != pool.end(); ++it)
		{
			d.add(it.GetIndex());
			d.one(*it);
			d.one(*pool.RetrieveFromIndex(it.GetIndex()));
		}
		for (const std::string& s : pool)
			d.one(s);
	}

	void signalScript(Digest& d, Rng& r)
	{
		Nz::Signal<int, const std::string&> sig, moved;
		std::vector<Nz::Signal<int, const std::string&>::ConnectionGuard> guards;
		std::vector<Nz::Signal<int, const std::string&>::Connection> con;
		std::size_t steps = 2 + r.below(10);
		int depth = 0;
		for (std::size_t s = 0; s < steps; ++s)
		{
			switch (r.below(9))
			{
				case 7: // a slot emitting the signal again
					con.push_back(sig.Connect([&d, &sig, &depth](int v, const std::string& t) { d.one(depth); if (depth < 2) { depth++; sig(v + 1, t); depth--; } }));
					break;
				case 8: // a slot disconnecting itself
				{
					auto self = std::make_shared<Nz::Signal<int, const std::string&>::Connection>();
					*self = sig.Connect([&d, self](int v, const std::string&) { d.one(v); auto keep = self; keep->Disconnect(); });
					break;
				}
				case 0:
				case 1:
				case 2:
				{
					int id = static_cast<int>(s);
					con.push_back(sig.Connect([&d, id](int v, const std::string& t) { d.one(id + v); d.one(t); }));
					break;
				}
				case 3: guards.emplace_back(sig.Connect([&d](int v, const std::string&) { d.one(v * 3); })); break;
				case 4: if (!con.empty()) { con.back().Disconnect(); con.pop_back(); } break;
				case 5: if (!guards.empty()) guards.pop_back(); break;
				default: moved = std::move(sig); sig = std::move(moved); break;
			}
			sig(static_cast<int>(r.below(100)), r.text(20));
			for (auto& x : con)
				d.add(x.IsConnected());
		}
	}

	struct Impl { std::string text; std::array<int, 4> v{}; explicit Impl(std::string t) : text(std::move(t)) {} };

	Nz::Result<std::string, int> mayFail(int v)
	{
		if (v % 3 == 0)
			return Nz::Err(v);
		return Nz::Ok(std::to_string(v));
	}
	Nz::Result<std::string, int> chain(int v)
	{
		NAZARA_TRY_VALUE(std::string s, mayFail(v));
		NAZARA_TRY(mayFail(v / 3));
		return Nz::Ok(s + "!");
	}

	void ownersScript(Digest& d, Rng& r)
	{
		std::size_t steps = 1 + r.below(8);
		for (std::size_t s = 0; s < steps; ++s)
		{
			auto res = chain(static_cast<int>(r.below(50)));
			if (res) d.one(res.GetValue()); else d.one(res.GetError());
			d.one(res.GetValueOr(r.text(5)));
			auto mapped = res.Map([](const std::string& t) { return t.size(); });
			d.add(mapped.IsOk() ? *mapped : 77);
			Nz::PrivateImpl<Impl> pi(r.text(30)), pj(pi);
			Nz::PrivateImpl<Impl, 128> qi(r.text(30)), qj(qi);
			pj->text += "x";
			qj->text += "y";
			d.one(pi->text); d.one(pj->text); d.one(qi->text); d.one(qj->text);
			pi.Reset();
			d.add(pi.HasValue());
			pi.Emplace(r.text(10));
			Nz::PrivateImpl<Impl> pk(std::move(pi));
			d.one(pk->text);
			int target[6] = { 1, 2, 3, 4, 5, 6 };
			Nz::SparsePtr<int> sp(target, static_cast<int>(2 * sizeof(int)));
			sp += 1;
			*sp = static_cast<int>(r.below(100));
			d.one(target[2]);
			Nz::MovablePtr<int> mp(&target[1]), mq(std::move(mp));
			d.add(mp.Get() == nullptr);
			d.one(*mq);
			Nz::MovableValue<std::string> mv(r.text(20));
			Nz::MovableValue<std::string> mw(std::move(mv));
			d.one(mw.Get());
			Nz::MovableLiteral<int, 5> ml(static_cast<int>(r.below(9)));
			Nz::MovableLiteral<int, 5> mm(std::move(ml));
			d.one(ml); d.one(mm);
			int calls = 0;
			{
				Nz::CallOnExit onExit([&] { calls++; });
				NAZARA_DEFER({ calls += 10; });
				if (r.coin())
					onExit.CallAndReset();
			}
			d.one(calls);
			int base = static_cast<int>(r.below(20));
			auto f = [&](int x) { return x + base; };
			Nz::FunctionRef<int(int)> ref(f), ref2(ref);
			d.one(ref2(static_cast<int>(s)));
		}
	}

	void freeScript(Digest& d, Rng& r)
	{
		std::size_t steps = 1 + r.below(10);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::string t = r.text(60);
			d.add(Nz::CRC32(std::string_view(t)));
			d.add(Nz::FNV1a32(std::string_view(t)));
			d.add(Nz::FNV1a64(std::string_view(t)));
			d.add(Nz::CRC32(t.c_str()));
			d.add(Nz::CRC32(reinterpret_cast<const Nz::UInt8*>(t.data()), t.size()));
			d.add(Nz::CRC32("literal") ^ Nz::FNV1a32("literal") ^ Nz::FNV1a64("literal"));
			std::size_t seed = r.below(1000);
			Nz::HashCombine(seed, t);
			Nz::HashCombine(seed, static_cast<int>(s));
			d.add(seed);
			d.add(Nz::HashCombine(t, 1, 2.5));
			Nz::StringHash<> sh;
			d.add(sh(t) == sh(t.c_str()) && sh(t) == sh(std::string_view(t)));
			u64 v = r.next();
			d.add(Nz::ReverseBits(v)); d.add(Nz::ReverseBits(static_cast<Nz::UInt16>(v))); d.add(Nz::ByteSwap(v)); d.add(Nz::ByteSwap(static_cast<Nz::UInt32>(v)));
			d.add(Nz::CountBits(v)); d.add(Nz::FindFirstBit(v)); d.add(Nz::FindLastBit(v)); d.add(Nz::FindFirstBit(static_cast<Nz::UInt8>(v)));
			d.add(Nz::IntegralLog2(v | 1)); d.add(Nz::IntegralLog2Pot(u64(1) << (v % 64))); d.add(Nz::GetNearestPowerOfTwo(v >> 8)); d.add(Nz::RoundToPow2(v >> 8)); d.add(Nz::IntegralPow<u64>(3, static_cast<unsigned>(v % 30)));
			d.add(Nz::Align<u64>(v >> 40, 1 + (v & 0xFF))); d.add(Nz::IsPow2(v)); d.add(Nz::Mod<int>(static_cast<int>(v & 0xFFFF), 7));
			double f = static_cast<double>(v % 1000) / 8.0;
			d.add(Nz::NumberEquals(f, f + 1e-17) + 2 * Nz::IsFinite(f) + 4 * Nz::IsNaN(f) + 8 * Nz::IsInfinity(f));
			d.add(static_cast<u64>(Nz::Lerp(0.0, f, 0.5) * 64.0)); d.add(static_cast<u64>(Nz::DegreeToRadian(f) * 1024.0)); d.add(static_cast<u64>(Nz::Approach(0.0, f, 1.5)));
			unsigned char buf[8]; std::memcpy(buf, &v, 8); Nz::SwapBytes(buf, 1 + v % 8); u64 w; std::memcpy(&w, buf, 8); d.add(w);
			d.add(Nz::HostToBigEndian(static_cast<Nz::UInt32>(v))); d.add(Nz::LittleEndianToHost(static_cast<Nz::UInt16>(v)));
			d.add(Nz::TypeName<int>()); d.add(Nz::TypeName<std::vector<Impl>>());
			d.add(Nz::SafeCast<Nz::UInt8>(v & 0x7F)); d.add(static_cast<Nz::UInt16>(Nz::SafeCaster(v & 0x7FFF))); d.add(Nz::BitCast<u64>(f));
			std::unordered_map<std::string, int> m{ { "k", 4 } };
			d.one(Nz::Retrieve(m, std::string("k")));
			d.one(Nz::PathToString(Nz::Utf8Path(t)));
			Nz::EnumArray<Col, int> ea{};
			ea[Col::Cyan] = static_cast<int>(v % 50);
			for (auto&& [k, val] : ea.iter_kv()) { d.one(static_cast<int>(k)); d.one(val); }
			Cols fl;
			fl |= static_cast<Col>(v % 5); fl |= Col::Red;
			for (Col cc : fl) d.one(static_cast<int>(cc));
			d.add(fl.Count()); d.add((~fl).Count());
		}
	}

	// ---------------------------------------------------------------- objects read by every thread
	struct Shared
	{
		Nz::Bitset<Nz::UInt64> big, big2;
		Nz::Bitset<Nz::UInt8> small, small2;
		Nz::HybridBitset<Nz::UInt32, 64> hybrid, hybrid2;
		Nz::FixedVector<std::string, 6> fixed;
		Nz::HybridVector<int, 3> hv;
		Nz::MemoryPool<std::string> pool;
		Nz::EnumArray<Col, std::string> ea;
		Cols flags;
		Nz::Result<std::string, int> good, bad;
		Nz::PrivateImpl<Impl> heap;
		Nz::PrivateImpl<Impl, 128> inl;
		Nz::MovableValue<std::string> mv;
		Nz::MovableLiteral<int, 5> ml;
		int target[8] = { 8, 7, 6, 5, 4, 3, 2, 1 };
		Nz::SparsePtr<const int> sparse;
		Nz::Signal<int> sig; // only its connections are asked about
		Nz::Signal<int>::Connection connection;
		Nz::Signal<int>::ConnectionGuard guard;
		int offset = 3;
		Nz::FunctionRef<int(int)> ref;

		Shared(Rng& r) :
		big(makeBits<decltype(big)>(r, 300)), big2(makeBits<decltype(big)>(r, 300)), small(makeBits<decltype(small)>(r, 100)), small2(makeBits<decltype(small)>(r, 100)),
		hybrid(makeBits<decltype(hybrid)>(r, 200)), hybrid2(makeBits<decltype(hybrid)>(r, 200)),
		pool(1 + r.below(6)), good(Nz::Ok(r.text(30))), bad(Nz::Err(static_cast<int>(r.below(50)))), heap(r.text(30)), inl(r.text(30)), mv(r.text(30)), ml(9),
		sparse(target, static_cast<int>(2 * sizeof(int))), connection(sig.Connect([](int) {})), guard(sig.Connect([](int) {})), ref(adder)
		{
			for (std::size_t i = r.below(7); i > 0; --i) fixed.push_back(r.text(25));
			for (std::size_t i = r.below(7); i > 0; --i) hv.push_back(static_cast<int>(r.below(100)));
			Digest unused;
			poolOps(unused, r, pool);
			for (std::string& s : ea) s = r.text(20);
			flags = Cols(static_cast<Col>(r.below(5))) | Cols(static_cast<Col>(r.below(5)));
		}
		static int adder(int v) { return v + 11; }
	};

	void sharedScript(Digest& d, Rng& r, const Shared& s)
	{
		std::size_t steps = 1 + r.below(6);
		for (std::size_t k = 0; k < steps; ++k)
		{
			switch (r.below(9))
			{
				case 0: readBits(d, s.big, s.big2, r); break;
				case 1: readBits(d, s.small, s.small2, r); break;
				case 2: readBits(d, s.hybrid, s.hybrid2, r); break;
				case 3:
				{
					d.range(s.fixed.begin(), s.fixed.end());
					d.range(s.hv.rbegin(), s.hv.rend());
					d.add(s.fixed.size() + 16 * s.fixed.capacity() + 64 * s.hv.size() + 1024 * s.hv.capacity());
					Nz::FixedVector<std::string, 6> cf(s.fixed);
					Nz::HybridVector<int, 3> ch(s.hv);
					d.range(cf.begin(), cf.end());
					d.range(ch.begin(), ch.end());
					if (!s.hv.empty()) { d.one(s.hv.front()); d.one(s.hv.back()); d.one(s.hv[r.below(s.hv.size())]); d.one(*s.hv.data()); }
					break;
				}
				case 4: readPool(d, s.pool); break;
				case 5:
				{
					for (auto&& [key, val] : s.ea.iter_kv()) { d.one(static_cast<int>(key)); d.one(val); }
					d.one(s.ea[Col::Blue]);
					for (Col cc : s.flags) d.one(static_cast<int>(cc));
					d.add(s.flags.Count() + 10 * s.flags.Test(Col::Red));
					break;
				}
				case 6:
				{
					d.one(s.good.GetValue()); d.one(s.bad.GetError()); d.one(s.bad.GetValueOr("z"));
					d.add(s.good.Map([](const std::string& t) { return t.size(); }).GetValue());
					s.good.Expect("must be good");
					Nz::Result<std::string, int> copy(s.good);
					d.one(*copy);
					break;
				}
				case 7:
				{
					d.one(s.heap->text); d.one(s.inl->text);
					Nz::PrivateImpl<Impl> h2(s.heap);
					Nz::PrivateImpl<Impl, 128> i2(s.inl);
					d.one(h2->text); d.one(i2->text);
					d.one(s.mv.Get()); d.one(s.ml.Get());
					Nz::MovableValue<std::string> m2(s.mv);
					d.one(m2.Get());
					break;
				}
				default:
				{
					d.one(s.sparse[r.below(4)]);
					Nz::SparsePtr<const int> p(s.sparse + 2);
					d.one(*p);
					d.add(static_cast<u64>(p - s.sparse));
					d.add(s.connection.IsConnected() + 2 * s.guard.IsConnected());
					d.one(s.ref(static_cast<int>(r.below(10))));
					Nz::FunctionRef<int(int)> copy(s.ref);
					d.one(copy(1));
					break;
				}
			}
		}
	}

	// ---------------------------------------------------------------- objects built in a thread, edited in a second, destroyed in a third
	struct Handed
	{
		Nz::Bitset<Nz::UInt64> bits;
		Nz::HybridVector<std::string, 2> vec;
		Nz::MemoryPool<std::string> pool{ 3 };
		Nz::PrivateImpl<Impl> impl{ std::string("start") };
		Nz::Signal<int> sig;
		Nz::Signal<int>::Connection con;
		Nz::Signal<int>::ConnectionGuard guard;
		Nz::Result<std::string, int> res{ Nz::Ok(std::string("r")) };
		int calls = 0;

		void edit(Digest& d, Rng& r)
		{
			bits.UnboundedSet(r.below(150));
			bits <<= r.below(3);
			d.one(bits.ToString());
			vec.push_back(r.text(30));
			if (vec.size() > 5) vec.erase(vec.begin());
			d.range(vec.begin(), vec.end());
			std::size_t index;
			pool.Allocate(index, r.text(30));
			d.add(index);
			if (pool.GetAllocatedEntryCount() > 4)
				pool.Free((*pool.begin()).empty() ? pool.begin().GetIndex() : pool.begin().GetIndex());
			readPool(d, pool);
			impl->text += r.text(4);
			d.one(impl->text);
			if (r.coin() || !con.IsConnected()) { con.Disconnect(); con = sig.Connect([this](int v) { calls += v; }); }
			if (r.coin()) guard = sig.Connect([this](int v) { calls += 2 * v; });
			sig(1);
			d.one(calls);
			res = r.coin() ? Nz::Result<std::string, int>(Nz::Ok(r.text(20))) : Nz::Result<std::string, int>(Nz::Err(4));
			d.one(res.GetValueOr("?"));
		}
	};

	struct Piece { unsigned kind; u64 seed; };
	const char* const Names[] = { "bitsets", "bitsets of bytes", "hybrid bitsets", "vectors of int", "vectors of string", "pools", "signals", "owners and results", "hashes, numbers, names, flags", "shared reads", "shared reads of everything" };
	constexpr unsigned Kinds = 11;

	void runPiece(Digest& d, const Piece& p, const Shared& shared)
	{
		Rng r(p.seed);
		switch (p.kind)
		{
			case 0: bitsScript<Nz::Bitset<Nz::UInt64>>(d, r); break;
			case 1: bitsScript<Nz::Bitset<Nz::UInt8>>(d, r); break;
			case 2: bitsScript<Nz::HybridBitset<Nz::UInt32, 64>>(d, r); break;
			case 3: vectorsScript<int>(d, r); break;
			case 4: vectorsScript<std::string>(d, r); break;
			case 5:
			{
				Nz::MemoryPool<std::string> pool(1 + r.below(8));
				poolOps(d, r, pool);
				readPool(d, pool);
				Nz::MemoryPool<std::string> moved(std::move(pool));
				readPool(d, moved);
				break;
			}
			case 6: signalScript(d, r); break;
			case 7: ownersScript(d, r); break;
			case 8: freeScript(d, r); break;
			default: sharedScript(d, r, shared); break;
		}
	}

	struct Plan
	{
		u64 sharedSeed;
		std::vector<std::vector<Piece>> threads;
		unsigned handed = 0; // edits of handed objects
	};

	void writeAll(int fd, const char* s) { if (write(fd, s, std::strlen(s)) < 0) {} }

	// in a process of its own; 0 if fine
	int execute(const Plan& plan, int fd)
	{
		std::size_t n = plan.threads.size();
		std::vector<u64> concurrent(n), alone(n);
		Rng sr(plan.sharedSeed);
		std::unique_ptr<const Shared> shared;
		bool reads = false;
		for (auto& t : plan.threads)
			for (auto& p : t)
				reads = reads || p.kind >= 9;
		// when nothing is shared even the first object of each type is made concurrently
		if (reads)
			shared = std::make_unique<const Shared>(sr);
		Shared* none = nullptr;
		const Shared& sh = reads ? *shared : *none;
		{
			std::atomic<unsigned> ready{ 0 };
			std::vector<std::thread> threads;
			for (std::size_t t = 0; t < n; ++t)
				threads.emplace_back([&, t]
				{
					ready.fetch_add(1, std::memory_order_relaxed); // relaxed: orders nothing
					for (unsigned spin = 0; ready.load(std::memory_order_relaxed) < n && spin < 100000; ++spin) {}
					Digest d;
					for (const Piece& p : plan.threads[t])
						runPiece(d, p, sh);
					concurrent[t] = d.h;
				});
			for (auto& t : threads)
				t.join();
		}
		for (std::size_t t = 0; t < n; ++t)
		{
			Digest d;
			for (const Piece& p : plan.threads[t])
				runPiece(d, p, sh);
			alone[t] = d.h;
			if (alone[t] != concurrent[t])
			{
				writeAll(fd, "a thread working on its own objects observed something else than when working alone");
				return 1;
			}
		}
		if (plan.handed > 0)
		{
			Digest a, b;
			auto edit = [&](std::unique_ptr<Handed>& h, Digest& d, unsigned i) { if (!h) h = std::make_unique<Handed>(); Rng r(plan.sharedSeed + i); h->edit(d, r); };
			{
				std::unique_ptr<Handed> h;
				for (unsigned i = 0; i < plan.handed; ++i)
					edit(h, a, i);
			}
			std::unique_ptr<Handed> h;
			for (unsigned i = 0; i < plan.handed; ++i)
				std::thread([&] { edit(h, b, i); }).join();
			std::thread([&] { h.reset(); }).join();
			if (a.h != b.h)
			{
				writeAll(fd, "an object handed from thread to thread behaves differently than in one thread");
				return 1;
			}
		}
		return 0;
	}

	void concurrent(pbt::Case& c)
	{
		Plan plan;
		plan.sharedSeed = c.below(1u << 20);
		std::size_t n = c.size(2, 3);
		bool share = c.coin();
		unsigned same = static_cast<unsigned>(c.below(2 * Kinds)); // often every thread does the same kind of work
		bool reads = false;
		unsigned kindsSeen = 0;
		for (std::size_t t = 0; t < n; ++t)
		{
			plan.threads.emplace_back();
			std::size_t pieces = c.size(1, 3);
			for (std::size_t p = 0; p < pieces; ++p)
			{
				unsigned kind = (same < Kinds && p == 0) ? same : static_cast<unsigned>(c.below(Kinds));
				if (!share && kind >= 9)
					kind -= 9;
				u64 seed = c.below(1u << 24);
				reads = reads || kind >= 9;
				kindsSeen |= 1u << kind;
				c.tag(Names[kind]);
				LOG("thread " << t << ": " << Names[kind] << " (seed " << seed << ")");
				plan.threads.back().push_back({ kind, seed });
			}
		}
		if (c.below(4) == 0)
		{
			plan.handed = static_cast<unsigned>(1 + c.below(5));
			LOG("objects handed over " << plan.handed << " times (seed " << plan.sharedSeed << ")");
			c.tag("handed over");
		}
		c.nontrivial();
		int fds[2];
		if (pipe(fds) != 0)
			pbt::fail("pipe");
		pid_t pid = fork();
		if (pid < 0)
		{
			close(fds[0]);
			close(fds[1]);
			return; // nothing learnt
		}
		if (pid == 0)
		{
			close(fds[0]);
			_exit(execute(plan, fds[1]));
		}
		close(fds[1]);
		std::string msg;
		char buf[512];
		for (;;)
		{
			ssize_t k = read(fds[0], buf, sizeof(buf));
			if (k < 0 && errno == EINTR)
				continue;
			if (k <= 0)
				break;
			msg.append(buf, static_cast<std::size_t>(k));
		}
		close(fds[0]);
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
			return;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 99)
			pbt::fail("data race (see the report of the sanitizer)");
		if (WIFEXITED(status) && WEXITSTATUS(status) == 1)
			pbt::fail(msg.empty() ? "the concurrent run failed" : msg);
		if (WIFSIGNALED(status))
			pbt::fail("the concurrent run was killed by signal " + std::to_string(WTERMSIG(status)));
		pbt::fail("the concurrent run ended with " + std::to_string(WEXITSTATUS(status)));
	}

	PBT_TARGET("concurrent threads", 5000, &concurrent, false, false, 120000)
}
