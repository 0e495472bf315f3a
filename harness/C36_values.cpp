// C36: rvalues are moved and never copied, lvalues are copied once where a copy is stored and are never changed.
#include "pbt.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>

namespace
{
	struct Counts { int copies = 0, moves = 0; };
	Counts now;

	// knows its value, and whether it was moved from
	template<bool Nothrow, int Tag = 0> struct Probe
	{
		static constexpr int Gone = -77;
		int v = 0;
		Probe() = default;
		Probe(int x) : v(x) {}
		Probe(const Probe& o) : v(o.v) { now.copies++; if (o.v == Gone) pbt::g_case->softFail("a moved object was copied"); }
		Probe(Probe&& o) noexcept(Nothrow) : v(o.v) { now.moves++; o.v = Gone; }
		template<int T2, typename = std::enable_if_t<T2 != Tag>> Probe(const Probe<Nothrow, T2>& o) : v(o.v) { now.copies++; }
		template<int T2, typename = std::enable_if_t<T2 != Tag>> Probe(Probe<Nothrow, T2>&& o) : v(o.v) { now.moves++; o.v = Gone; }
		Probe& operator=(const Probe& o) { now.copies++; v = o.v; return *this; }
		Probe& operator=(Probe&& o) noexcept(Nothrow) { now.moves++; if (this != &o) { v = o.v; o.v = Gone; } return *this; }
		bool operator==(const Probe& o) const { return v == o.v; }
		int get() const { return v; }
		int take() && { int x = v; v = Gone; return x; }
	};

	enum class Id { A, B, C, D, Max = D };

	// an operation, and how many copies it must make
	struct Op
	{
		pbt::Case& c;
		const char* what;
		Op(pbt::Case& cc, const char* w) : c(cc), what(w) { LOG(w); now = {}; c.tag(w); c.nontrivial(); }
		void copies(int n) { c.flush(); CHECK_EQ(now.copies, n, "copies made by", what); now = {}; }
	};
	#define OP(text) Op op(c, text)
	#define KEPT(object, value) CHECK_EQ((object).v, (value), "an object passed as an lvalue was changed", op.what)
	#define IS(object, value) CHECK_EQ((object).v, (value), "value", op.what)
}

template<bool N, int T> struct std::hash<Probe<N, T>> { std::size_t operator()(const Probe<N, T>& p) const { return static_cast<std::size_t>(p.v) * 31; } };

namespace
{
	template<bool N> void result(pbt::Case& c)
	{
		using P = Probe<N>;
		using E = Probe<N, 1>;
		using R = Nz::Result<P, E>;
		using RV = Nz::Result<void, E>;
		const int x = static_cast<int>(c.range(1, 1000)), y = x + 1;
		auto okResult = [&] { return R(typename R::ValueTag{}, x); };
		auto errResult = [&] { return R(typename R::ErrorTag{}, x); };
		switch (c.below(24))
		{
			case 0: { P p(x); OP("Ok(lvalue)"); R r = Nz::Ok(p); op.copies(1); IS(*r, x); KEPT(p, x); break; }
			case 1: { const P p(x); OP("Ok(const lvalue)"); R r = Nz::Ok(p); op.copies(1); IS(*r, x); KEPT(p, x); break; }
			case 2: { P p(x); OP("Ok(rvalue)"); R r = Nz::Ok(std::move(p)); op.copies(0); IS(*r, x); break; }
			case 3: { E e(x); OP("Err(lvalue)"); R r = Nz::Err(e); op.copies(1); IS(r.GetError(), x); KEPT(e, x); break; }
			case 4: { E e(x); OP("Err(rvalue)"); RV r = Nz::Err(std::move(e)); op.copies(0); IS(r.GetError(), x); break; }
			case 5: { E e(x); OP("Err(lvalue) of a void result"); RV r = Nz::Err(e); op.copies(1); IS(r.GetError(), x); KEPT(e, x); break; }
			case 6: { P p(x); OP("result from an lvalue"); R r(p); op.copies(1); IS(*r, x); KEPT(p, x); break; }
			case 7: { P p(x); OP("result from an rvalue"); R r(std::move(p)); op.copies(0); IS(*r, x); break; }
			case 8: { P p(x); E e(y); OP("tagged construction"); R r(typename R::ValueTag{}, p); R s(typename R::ErrorTag{}, e); op.copies(2); KEPT(p, x); KEPT(e, y); R t(typename R::ValueTag{}, std::move(p)); R u(typename R::ErrorTag{}, std::move(e)); op.copies(0); IS(*t, x); IS(u.GetError(), y); break; }
			case 9: { R r = c.coin() ? okResult() : errResult(); OP("copies of a result"); R s(r); op.copies(1); R t = okResult(); now = {}; t = s; CHECK(now.copies >= 1 && now.copies <= 2, "copies"); IS(r.IsOk() ? r.GetValue().v == x ? P(x) : P(0) : P(r.GetError().v), x); break; }
			case 10: { R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk(); OP("moves of a result"); R s(std::move(r)); R t = errResult(); t = std::move(s); std::swap(t, s); std::swap(s, t); op.copies(0); if (ok) IS(*t, x); else IS(t.GetError(), x); break; }
			case 11: { R r = okResult(); OP("value of a result"); P& a = r.GetValue(); const P& b = std::as_const(r).GetValue(); P& d = *r; const P* e = std::as_const(r).operator->(); op.copies(0); CHECK(&a == &b && &b == &d && &d == e); P out(std::move(r).GetValue()); op.copies(0); IS(out, x); break; }
			case 12: { R r = okResult(); OP("dereferenced rvalue result"); P out(*std::move(r)); op.copies(0); IS(out, x); break; }
			case 13: { R r = errResult(); OP("error of a result"); E& a = r.GetError(); const E& b = std::as_const(r).GetError(); op.copies(0); CHECK(&a == &b); E out(std::move(r).GetError()); op.copies(0); IS(out, x); RV v = Nz::Err(E(y)); now = {}; E out2(std::move(v).GetError()); op.copies(0); IS(out2, y); break; }
			case 14: { R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk(); P def(y); OP("GetValueOr (lvalues)"); P out = r.GetValueOr(def); op.copies(1); IS(out, ok ? x : y); KEPT(def, y); if (ok) KEPT(*r, x); break; }
			case 15: { R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk(); OP("GetValueOr (rvalues)"); P out = std::move(r).GetValueOr(P(y)); op.copies(0); IS(out, ok ? x : y); break; }
			case 16: { R r = errResult(); OP("GetValueOr (lvalue result, rvalue default)"); P out = r.GetValueOr(P(y)); op.copies(0); IS(out, y); break; }
			case 17:
			{
				R r = okResult();
				OP("Map of an lvalue");
				const P* seen = nullptr;
				auto m = r.Map([&](const P& p) { seen = &p; return p.v + 1; });
				op.copies(0);
				CHECK(seen == &*r, "the function did not get the value itself"); CHECK_EQ(*m, x + 1); KEPT(*r, x);
				R e = errResult(); now = {};
				auto m2 = e.Map([&](const P& p) { return p.v; });
				op.copies(1);
				IS(m2.GetError(), x); KEPT(e.GetError(), x);
				break;
			}
			case 18:
			{
				R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk();
				OP("Map of an rvalue");
				if (unsigned how = static_cast<unsigned>(c.below(4)); how < 3)
				{
					int calls = 0;
					if (how == 0) // to nothing, the value being taken
					{
						Probe<N, 1> taken(0);
						auto m = std::move(r).Map([&](P&& p) { calls++; CHECK(p.v == x); taken = std::move(p); });
						static_assert(std::is_same_v<decltype(m), RV>);
						op.copies(0);
						if (ok) IS(taken, x); else IS(m.GetError(), x);
						CHECK_EQ(m.IsOk(), ok);
					}
					else if (how == 1) // to nothing, the value being the parameter
					{
						auto m = std::move(r).Map([&](P p) { calls++; CHECK(p.v == x); });
						op.copies(0);
						CHECK_EQ(m.IsOk(), ok);
						if (!ok) IS(m.GetError(), x);
					}
					else // a member
					{
						auto m1 = std::as_const(r).Map(&P::get);
						static_assert(std::is_same_v<decltype(m1), Nz::Result<int, E>>);
						op.copies(ok ? 0 : 1);
						CHECK_EQ(m1.IsOk(), ok); if (ok) CHECK_EQ(m1.GetValue(), x); else IS(m1.GetError(), x);
						auto m2 = std::move(r).Map(&P::take);
						calls = ok;
						op.copies(0);
						CHECK_EQ(m2.IsOk(), ok); if (ok) CHECK_EQ(m2.GetValue(), x); else IS(m2.GetError(), x);
					}
					CHECK_EQ(calls, ok ? 1 : 0);
					break;
				}
				auto m = std::move(r).Map([&](P&& p) { return Probe<N, 2>(std::move(p)); });
				op.copies(0);
				if (ok) IS(*m, x); else IS(m.GetError(), x);
				break;
			}
			case 19:
			{
				RV r = c.coin() ? RV(Nz::Ok()) : RV(Nz::Err(E(x))); bool ok = r.IsOk();
				OP("Map of a void result");
				if (c.coin())
				{
					int calls = 0;
					if (c.coin())
					{
						auto m = std::move(r).Map([&] { calls++; });
						op.copies(0);
						CHECK_EQ(m.IsOk(), ok); if (!ok) IS(m.GetError(), x);
					}
					else
					{
						auto m = r.Map([&] { calls++; });
						op.copies(ok ? 0 : 1);
						CHECK_EQ(m.IsOk(), ok); if (!ok) { IS(m.GetError(), x); KEPT(r.GetError(), x); }
					}
					CHECK_EQ(calls, ok ? 1 : 0);
				}
				else if (c.coin())
				{
					auto m = std::move(r).Map([&] { return P(y); });
					op.copies(0);
					if (ok) IS(*m, y); else IS(m.GetError(), x);
				}
				else
				{
					auto m = r.Map([&] { return P(y); });
					op.copies(ok ? 0 : 1);
					if (ok) IS(*m, y); else { IS(m.GetError(), x); KEPT(r.GetError(), x); }
				}
				break;
			}
			case 20:
			{
				R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk();
				OP("conversion of an rvalue result");
				Nz::Result<Probe<N, 2>, Probe<N, 3>> m(std::move(r));
				op.copies(0);
				if (ok) IS(*m, x); else IS(m.GetError(), x);
				RV v = Nz::Err(E(y)); now = {};
				Nz::Result<void, Probe<N, 3>> w(std::move(v));
				op.copies(0); IS(w.GetError(), y);
				break;
			}
			case 21:
			{
				R r = c.coin() ? okResult() : errResult(); bool ok = r.IsOk();
				OP("conversion of an lvalue result");
				Nz::Result<Probe<N, 2>, Probe<N, 3>> m(std::as_const(r));
				op.copies(1);
				if (ok) { IS(*m, x); KEPT(*r, x); } else { IS(m.GetError(), x); KEPT(r.GetError(), x); }
				RV v = Nz::Err(E(y)); now = {};
				Nz::Result<void, Probe<N, 3>> w(v);
				op.copies(1); IS(w.GetError(), y); KEPT(v.GetError(), y);
				break;
			}
			case 22:
			{
				bool ok = c.coin();
				OP("NAZARA_TRY and NAZARA_TRY_VALUE");
				auto inner = [&]() -> R { if (ok) return Nz::Ok(P(x)); return Nz::Err(E(y)); };
				auto voidInner = [&]() -> RV { NAZARA_TRY(inner()); return Nz::Ok(); };
				auto outer = [&]() -> R { NAZARA_TRY(voidInner()); NAZARA_TRY_VALUE(P p, inner()); return Nz::Ok(std::move(p)); };
				R r = outer();
				op.copies(0);
				if (ok) IS(*r, x); else IS(r.GetError(), y);
				auto value = [&]() -> R { NAZARA_TRY_VALUE(P p, inner()); return Nz::Ok(std::move(p)); };
				R s = value();
				op.copies(0);
				if (ok) IS(*s, x); else IS(s.GetError(), y);
				break;
			}
			case 23:
			{
				struct F { P p; int operator()(const P& v) & { return p.v + v.v; } int operator()(const P& v) && { return -(p.v + v.v); } };
				R r = okResult();
				F f{ P(y) };
				OP("Map of a functor by its value category");
				auto first = r.Map(f);
				op.copies(0); KEPT(f.p, y); CHECK(first.IsOk()); CHECK_EQ(first.GetValue(), x + y);
				auto second = r.Map(std::move(f));
				op.copies(0); CHECK(second.IsOk()); CHECK_EQ(second.GetValue(), -(x + y));
				R r2 = okResult();
				auto third = std::move(r2).Map(f);
				CHECK(third.IsOk()); CHECK_EQ(third.GetValue(), x + y);
				R r3 = okResult();
				auto fourth = std::move(r3).Map(std::move(f));
				CHECK(fourth.IsOk()); CHECK_EQ(fourth.GetValue(), -(x + y));
				// the same of functions which give nothing, of results which hold none
				struct G { int* out; void operator()(const P&) & { *out = 1; } void operator()(const P&) && { *out = 2; } void operator()() & { *out = 3; } void operator()() && { *out = 4; } };
				int out = 0;
				G g{ &out };
				R r4 = okResult();
				r4.Map(g); CHECK_EQ(out, 1); r4.Map(std::move(g)); CHECK_EQ(out, 2); out = 0;
				std::move(r4).Map(g); CHECK_EQ(out, 1);
				R r5 = okResult();
				std::move(r5).Map(std::move(g)); CHECK_EQ(out, 2);
				RV rv = Nz::Ok();
				rv.Map(g); CHECK_EQ(out, 3); rv.Map(std::move(g)); CHECK_EQ(out, 4); out = 0;
				std::move(rv).Map(g); CHECK_EQ(out, 3);
				RV rv2 = Nz::Ok();
				std::move(rv2).Map(std::move(g)); CHECK_EQ(out, 4);
				break;
			}
		}
	}

	template<typename V, typename P> void vectorOps(pbt::Case& c, V& v, std::size_t limit)
	{
		std::vector<int> m;
		for (std::size_t k = 0, n = c.size(1, 12); k < n; ++k)
		{
			const int x = static_cast<int>(c.range(1, 1000));
			const bool room = m.size() < limit;
			const std::size_t pos = c.below(m.size() + 1);
			const auto it = [&] { return v.begin() + static_cast<std::ptrdiff_t>(pos); };
			const auto mit = m.begin() + static_cast<std::ptrdiff_t>(pos);
			switch (room ? c.below(11) : 6 + c.below(5))
			{
				case 0: { P p(x); OP("push_back(lvalue)"); v.push_back(p); op.copies(1); KEPT(p, x); m.push_back(x); break; }
				case 1: { P p(x); OP("push_back(rvalue)"); v.push_back(std::move(p)); op.copies(0); m.push_back(x); break; }
				case 2: { OP("emplace_back"); if (c.coin()) v.emplace_back(x); else v.emplace_back(P(x)); op.copies(0); m.push_back(x); break; }
				case 10: { if (m.empty()) break; OP("pop_back"); v.pop_back(); op.copies(0); m.pop_back(); break; }
				case 3: { P p(x); OP("insert(lvalue)"); v.insert(it(), p); op.copies(1); KEPT(p, x); m.insert(mit, x); break; }
				case 4: { P p(x); OP("insert(rvalue)"); v.insert(it(), std::move(p)); op.copies(0); m.insert(mit, x); break; }
				case 5: { OP("emplace"); if (c.coin()) v.emplace(it(), x); else v.emplace(it(), P(x)); op.copies(0); m.insert(mit, x); break; }
				case 6: { if (pos == m.size()) break; OP("erase"); v.erase(it()); op.copies(0); m.erase(mit); break; }
				case 7: { std::size_t b = pos + c.below(m.size() - pos + 1); OP("erase a range"); v.erase(it(), v.begin() + static_cast<std::ptrdiff_t>(b)); op.copies(0); m.erase(mit, m.begin() + static_cast<std::ptrdiff_t>(b)); break; }
				case 8: { OP("read"); long sum = 0, expected = 0; for (const auto& p : std::as_const(v)) sum += p.v; for (int e : m) expected += e; CHECK_EQ(sum, expected); if (!m.empty()) { CHECK_EQ(v.front().v, m.front()); CHECK_EQ(v.back().v, m.back()); CHECK_EQ(v[pos % m.size()].v, m[pos % m.size()]); } op.copies(0); break; }
				case 9: { OP("move of the vector"); V w(std::move(v)); v = std::move(w); op.copies(0); break; }
			}
			CHECK_EQ(v.size(), m.size());
			for (std::size_t i = 0; i < m.size(); ++i)
				CHECK_EQ(std::as_const(v)[i].v, m[i]);
		}
	}

	template<bool N> void vectors(pbt::Case& c)
	{
		using P = Probe<N>;
		switch (c.below(N ? 3 : 2))
		{
			case 0: { LOG("fixed vector"); Nz::FixedVector<P, 6> v; vectorOps<decltype(v), P>(c, v, 6); break; }
			case 1: { LOG("stack vector"); alignas(P) unsigned char mem[sizeof(P) * 6]; Nz::StackVector<P> v(reinterpret_cast<P*>(mem), 6); vectorOps<decltype(v), P>(c, v, 6); break; }
			case 2: if constexpr (N) { LOG("hybrid vector"); Nz::HybridVector<P, 3> v; vectorOps<decltype(v), P>(c, v, 10); } break;
		}
	}

	template<bool N> void holders(pbt::Case& c)
	{
		using P = Probe<N>;
		const int x = static_cast<int>(c.range(1, 1000)), y = x + 1;
		switch (c.below(14))
		{
			case 0:
			{
				struct I { P a, b; I(P&& p, P& q) : a(std::move(p)), b(q) {} };
				P p(x), q(y);
				OP("arguments of PrivateImpl");
				Nz::PrivateImpl<I> heap(std::move(p), q);
				op.copies(1); KEPT(q, y); IS(heap->a, x);
				P p2(x);
				Nz::PrivateImpl<I, sizeof(I)> in(std::move(p2), q);
				op.copies(1); KEPT(q, y); IS(in->a, x);
				Nz::PrivateImpl<I> moved(std::move(heap));
				Nz::PrivateImpl<I, sizeof(I)> movedIn(std::move(in));
				op.copies(0); IS(moved->a, x); IS(movedIn->b, y);
				moved.Reset();
				P p3(y);
				moved.Emplace(std::move(p3), q);
				op.copies(1); KEPT(q, y); IS(moved->a, y);
				break;
			}
			case 1:
			{
				Nz::PrivateImpl<P> a(x), b(y);
				Nz::PrivateImpl<P, sizeof(P)> d(x), e(y);
				OP("assignments of PrivateImpl");
				a = std::move(b); d = std::move(e);
				op.copies(0); IS(*a, y); IS(*d, y);
				Nz::PrivateImpl<P> f(x); Nz::PrivateImpl<P, sizeof(P)> g(x);
				now = {};
				f = std::as_const(a); g = std::as_const(d);
				op.copies(2); IS(*f, y); IS(*g, y); KEPT(*a, y); KEPT(*d, y);
				break;
			}
			case 2:
			{
				Nz::MemoryPool<P> pool(c.size(1, 4));
				std::size_t i0, i1, i2, i3;
				P p(x); const P q(y);
				OP("arguments of a pool");
				IS(*pool.Allocate(i0, p), x); op.copies(1); KEPT(p, x);
				IS(*pool.Allocate(i1, q), y); op.copies(1); KEPT(q, y);
				IS(*pool.Allocate(i2, std::move(p)), x); op.copies(0);
				IS(*pool.Allocate(i3, y), y); op.copies(0);
				Nz::MemoryPool<P> other(std::move(pool));
				Nz::MemoryPool<P> third(1);
				third = std::move(other);
				for (const P& e : third) (void) e;
				third.Free(i0);
				CHECK_EQ(now.moves, 0, "objects of a pool were moved");
				op.copies(0); IS(*third.RetrieveFromIndex(i2), x);
				break;
			}
			case 3:
			{
				P p(x);
				alignas(P) unsigned char mem[sizeof(P)];
				OP("PlacementNew");
				P* q = Nz::PlacementNew(reinterpret_cast<P*>(mem), p); op.copies(1); KEPT(p, x); IS(*q, x); Nz::PlacementDestroy(q);
				q = Nz::PlacementNew(reinterpret_cast<P*>(mem), std::move(p)); op.copies(0); IS(*q, x); Nz::PlacementDestroy(q);
				break;
			}
			case 4:
			{
				Nz::EnumArray<Id, P> a{};
				P p(x);
				OP("enum array");
				a[Id::B] = p; op.copies(1); KEPT(p, x);
				a[Id::C] = std::move(p); op.copies(0);
				Nz::EnumArray<Id, P> b(std::move(a)); Nz::EnumArray<Id, P> d{}; d = std::move(b);
				std::swap(d, b); std::swap(d, b); d.swap(b); d.swap(b);
				for (auto&& [k, v] : d.iter_kv()) if (k == Id::B) IS(v, x);
				for (const P& v : std::as_const(d)) (void) v;
				op.copies(0); IS(d[Id::B], x); IS(d[Id::C], x);
				P f(y); now = {};
				d.fill(f); CHECK_EQ(now.copies, 4, "fill"); KEPT(f, y); IS(d[Id::D], y);
				break;
			}
			case 5:
			{
				std::map<int, P> m; m.emplace(x, y);
				std::unordered_map<int, P> u; u.emplace(x, y);
				OP("Retrieve");
				P& a = Nz::Retrieve(m, x); const P& b = Nz::Retrieve(std::as_const(u), x);
				op.copies(0); CHECK(&a == &m.at(x) && &b == &u.at(x));
				break;
			}
			case 6:
			{
				OP("HashCombine of objects");
				std::size_t seed = 0; P p(x);
				Nz::HashCombine(seed, p, P(y));
				op.copies(0); KEPT(p, x);
				break;
			}
			case 7:
			{
				struct F { P p; int* calls; void operator()() { (*calls)++; } };
				int calls = 0;
				{
					OP("guards");
					Nz::CallOnExit a(F{ P(x), &calls });
					Nz::CallOnExit<F> b;
					b = std::move(a);
					b.CallAndReset();
					op.copies(0);
				}
				CHECK_EQ(calls, 1);
				CHECK_EQ(now.copies, 0, "copies made by a guard");
				break;
			}
			case 8:
			{
				struct F { P p; int operator()(P a, const P& b, P& d, P&& e) { P taken(std::move(e)); d.v++; return p.v + a.v + b.v + taken.v; } };
				F f{ P(x) };
				P b(y), d(3), e(4);
				OP("calls of a function reference");
				Nz::FunctionRef<int(P, const P&, P&, P&&)> r(f);
				Nz::FunctionRef<int(P, const P&, P&, P&&)> r2(r);
				op.copies(0);
				CHECK_EQ(r2(P(2), b, d, std::move(e)), x + 2 + y + 4);
				op.copies(0); KEPT(b, y); CHECK_EQ(d.v, 4);
				Nz::FunctionRef<P(const P&)> copy([](const P& p) { return p; });
				(void) copy;
				auto ret = [](P& p) -> P& { return p; };
				Nz::FunctionRef<P&(P&)> id(ret);
				now = {};
				CHECK(&id(b) == &b); op.copies(0);
				break;
			}
			case 9:
			{
				struct F { P p; std::vector<const P*>* seen; void operator()(const P& a) const { seen->push_back(&a); } };
				std::vector<const P*> seen;
				Nz::Signal<const P&> s;
				F kept{ P(x), &seen };
				std::size_t n = c.size(1, 5);
				OP("slots of a signal");
				for (std::size_t i = 0; i < n; ++i) s.Connect(F{ P(y), &seen });
				op.copies(0);
				s.Connect(kept); op.copies(1); KEPT(kept.p, x);
				P arg(y);
				s(arg); s(arg);
				op.copies(0);
				CHECK_EQ(seen.size(), 2 * (n + 1));
				for (const P* p : seen) CHECK(p == &arg, "a slot got another object than the argument");
				Nz::Signal<const P&> t(std::move(s)); t(arg);
				op.copies(0); CHECK_EQ(seen.size(), 3 * (n + 1));
				break;
			}
			case 10:
			{
				// each slot gets the argument itself, even when it is the last one
				Nz::Signal<P> s;
				std::vector<int> seen;
				std::size_t n = c.size(1, 4);
				for (std::size_t i = 0; i < n; ++i) s.Connect([&](P p) { seen.push_back(p.v); P taken(std::move(p)); });
				P arg(x);
				OP("slots which take their argument by value");
				s(arg); KEPT(arg, x);
				s(P(y));
				CHECK_EQ(seen.size(), 2 * n);
				for (std::size_t i = 0; i < 2 * n; ++i) CHECK_EQ(seen[i], i < n ? x : y, "argument of slot", i);
				break;
			}
			case 11:
			{
				P p(x);
				OP("combined handlers");
				auto o = Nz::Overloaded{ [p = std::move(p)](int i) { return p.v + i; }, [](const P& q) { return q.v; } };
				op.copies(0);
				std::variant<int, P> v(std::in_place_type<P>, y);
				CHECK_EQ(std::visit(o, v), y);
				CHECK_EQ(o(1), x + 1);
				op.copies(0);
				break;
			}
			case 12:
			{
				P p(x);
				OP("movable values");
				Nz::MovableValue<P> a(p); op.copies(1); KEPT(p, x);
				Nz::MovableValue<P> b(std::move(p)), d(std::move(a));
				a = std::move(b);
				op.copies(0); IS(a.Get(), x); IS(d.Get(), x);
				P out(std::move(a).Get()), out2(static_cast<P&&>(std::move(d)));
				op.copies(0); IS(out, x); IS(out2, x);
				break;
			}
			case 13:
			{
				std::size_t n = c.size(0, 6);
				alignas(P) unsigned char mem[sizeof(P) * 6];
				OP("stack arrays");
				Nz::StackArray<P> a(reinterpret_cast<P*>(mem), n);
				Nz::StackArray<P> b(std::move(a));
				a = std::move(b);
				for (P& e : a) e.v = y;
				op.copies(0);
				CHECK_EQ(now.moves, 0, "elements were moved with their array");
				P p(x);
				a.fill(p); op.copies(static_cast<int>(n)); KEPT(p, x);
				break;
			}
		}
	}
}
PBT_TARGET("results", 40000, &result<true>)
PBT_TARGET("results, throwing moves", 20000, &result<false>)
PBT_TARGET("vectors", 40000, &vectors<true>)
PBT_TARGET("vectors, throwing moves", 20000, &vectors<false>)
PBT_TARGET("holders", 40000, &holders<true>)
PBT_TARGET("holders, throwing moves", 20000, &holders<false>)
