// References to functions and functors
#include "pbt.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace
{
	struct Arg // counts its copies and moves
	{
		static inline int copies, moves;
		int v;
		explicit Arg(int x) : v(x) {}
		Arg(const Arg& o) : v(o.v) { copies++; }
		Arg(Arg&& o) noexcept : v(o.v) { moves++; o.v = -1; }
	};

	int plus3(int a) { return a + 3; }
	int minus2(int a) { return a - 2; }
	int sum(int a, long b) { return a + static_cast<int>(b); }
	long longPlus(long a) { return a + 11; }
	int lastVoid;
	int sideEffect(int a) { lastVoid = a; return a * 2; }
	struct Obj { int k; int add(int a) { k += a; return k; } int get(int a) const { return k * 10 + a; } };

	struct Functor // not copyable, observable
	{
		int id;
		int calls = 0;
		Functor(int i) : id(i) {}
		Functor(const Functor&) = delete;
		int operator()(int a) { calls++; return id * 1000 + a; }
	};
	struct ConstFunctor
	{
		int id;
		mutable int calls = 0;
		ConstFunctor(int i) : id(i) {}
		ConstFunctor(const ConstFunctor&) = delete;
		int operator()(int a) { calls++; return -(id * 1000 + a); }
		int operator()(int a) const { calls++; return id * 1000 + a; }
	};

	// A history of binding, copying, rebinding and calling references; the model names the callable
	void history(pbt::Case& c)
	{
		using Ref = Nz::FunctionRef<int(int)>;
		constexpr std::size_t N = 3;
		Functor f[2] = { 1, 2 };
		ConstFunctor cf[2] = { 3, 4 };
		int state = 0;
		auto lambda = [&state](int a) mutable { state += a; return state; };
		auto wider = [](long a) { return a + 11; };
		std::function<int(int)> fun = [](int a) { return a ^ 0x55; };
		int (*ptr)(int) = &minus2;
		int (Obj::*unused)(int) = &Obj::add; (void) unused;
		long (*lptr)(long) = &longPlus;

		int fcalls[2] = { 0, 0 }, cfcalls[2] = { 0, 0 }, mstate = 0;
		enum Kind { Null, F0, F1, CF0, CF1, NCF0, Lambda, Wider, Fun, Func, Ptr, LPtr, Nested, KindCount };
		Ref nestedTarget(fun);
		std::vector<Ref> refs(N, Ref(nullptr));
		Kind kind[N] = { Null, Null, Null };
		auto bind = [&](Kind k) -> Ref
		{
			switch (k)
			{
				case F0: return Ref(f[0]);
				case F1: return Ref(f[1]);
				case CF0: return Ref(std::as_const(cf[0]));
				case CF1: return Ref(std::as_const(cf[1]));
				case NCF0: return Ref(cf[0]);
				case Lambda: return Ref(lambda);
				case Wider: return Ref(wider);
				case Fun: return Ref(fun);
				case Func: return Ref(plus3);
				case Ptr: return Ref(ptr);
				case LPtr: return Ref(lptr);
				case Nested: return nestedTarget;
				default: return Ref(nullptr);
			}
		};
		std::size_t steps = c.size(1, 14);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t x = c.below(N), y = c.below(N);
			switch (c.below(6))
			{
				case 0:
				case 1:
				{
					Kind k = static_cast<Kind>(c.below(KindCount));
					LOG("r" << x << " refers to callable " << k);
					refs[x] = bind(k);
					kind[x] = k;
					break;
				}
				case 2:
					LOG("r" << x << " = r" << y);
					refs[x] = std::as_const(refs[y]);
					kind[x] = kind[y];
					break;
				case 3:
				{
					LOG("r" << x << " = move(copy of r" << y << ")");
					Ref copy(refs[y]);
					refs[x] = std::move(copy);
					kind[x] = kind[y];
					break;
				}
				default:
				{
					Kind k = kind[x];
					CHECK(static_cast<bool>(refs[x]) == (k != Null));
					if (k == Null)
						break;
					int a = static_cast<int>(c.range(-1000, 1000));
					int expected;
					switch (k)
					{
						case F0: expected = 1000 + a; fcalls[0]++; break;
						case F1: expected = 2000 + a; fcalls[1]++; break;
						case CF0: expected = 3000 + a; cfcalls[0]++; break;
						case CF1: expected = 4000 + a; cfcalls[1]++; break;
						case NCF0: expected = -(3000 + a); cfcalls[0]++; break;
						case Lambda: expected = (mstate += a); break;
						case Wider: case LPtr: expected = a + 11; break;
						case Fun: case Nested: expected = a ^ 0x55; break;
						case Func: expected = a + 3; break;
						default: expected = a - 2; break;
					}
					LOG("r" << x << "(" << a << ") (callable " << k << ")");
					const Ref& ref = refs[x];
					CHECK_EQ(ref(a), expected, "callable", static_cast<int>(k));
					c.nontrivial();
					break;
				}
			}
			for (std::size_t i = 0; i < N; ++i)
				CHECK(static_cast<bool>(refs[i]) == (kind[i] != Null));
			for (int i = 0; i < 2; ++i)
			{
				CHECK_EQ(f[i].calls, fcalls[i], "calls of the functor itself");
				CHECK_EQ(cf[i].calls, cfcalls[i], "calls of the const functor");
			}
			CHECK_EQ(state, mstate);
		}
	}
	PBT_TARGET("references", 50000, &history)

	int callIt(Nz::FunctionRef<int(int)> f, int a) { return f(a); }
	int callNested(Nz::FunctionRef<int(int)> f, int a, int depth) { return depth == 0 ? f(a) : callNested([&](int b) { return f(b) + 1; }, a, depth - 1); }

	// how arguments and results travel
	void arguments(pbt::Case& c)
	{
		int v = static_cast<int>(c.below(1000));
		Arg::copies = Arg::moves = 0;
		auto which = c.below(14);
		LOG("signature " << which << " argument " << v);
		c.nontrivial();
		switch (which)
		{
			case 0: // reference: the very object
			{
				Arg a(v);
				const void* seen = nullptr;
				auto fn = [&](Arg& x) { seen = &x; x.v++; };
				Nz::FunctionRef<void(Arg&)> r(fn);
				r(a);
				CHECK(seen == &a && a.v == v + 1);
				CHECK_EQ(Arg::copies + Arg::moves, 0);
				break;
			}
			case 1: // const reference
			{
				Arg a(v);
				const void* seen = nullptr;
				auto fn = [&](const Arg& x) { seen = &x; return x.v; };
				Nz::FunctionRef<int(const Arg&)> r(fn);
				CHECK_EQ(r(a), v);
				CHECK(seen == &a);
				CHECK_EQ(r(Arg(v + 1)), v + 1);
				CHECK_EQ(Arg::copies + Arg::moves, 0);
				break;
			}
			case 2: // by value from an rvalue: never copied
			{
				auto fn = [&](Arg x) { return x.v; };
				Nz::FunctionRef<int(Arg)> r(fn);
				CHECK_EQ(r(Arg(v)), v);
				CHECK_EQ(Arg::copies, 0);
				break;
			}
			case 3: // by value from an lvalue: the caller's one is left alone
			{
				Arg a(v);
				auto fn = [&](Arg x) { int k = x.v; x.v = 0; return k; };
				Nz::FunctionRef<int(Arg)> r(fn);
				CHECK_EQ(r(a), v);
				CHECK_EQ(a.v, v);
				CHECK_EQ(Arg::copies, 1);
				break;
			}
			case 4: // move-only
			{
				auto fn = [&](std::unique_ptr<int> p) { return *p; };
				Nz::FunctionRef<int(std::unique_ptr<int>)> r(fn);
				CHECK_EQ(r(std::make_unique<int>(v)), v);
				auto back = [&](std::unique_ptr<int> p) { return p; };
				Nz::FunctionRef<std::unique_ptr<int>(std::unique_ptr<int>)> rb(back);
				std::unique_ptr<int> got = rb(std::make_unique<int>(v));
				CHECK(got && *got == v);
				break;
			}
			case 5: // rvalue reference: moved only if the callee does
			{
				Arg a(v);
				const void* seen = nullptr;
				auto fn = [&](Arg&& x) { seen = &x; return x.v; };
				Nz::FunctionRef<int(Arg&&)> r(fn);
				CHECK_EQ(r(std::move(a)), v);
				CHECK(seen == &a && a.v == v);
				CHECK_EQ(Arg::copies + Arg::moves, 0);
				break;
			}
			case 6: // returned reference
			{
				std::vector<int> data{ v, v + 1, v + 2 };
				auto fn = [&](std::size_t i) -> int& { return data[i]; };
				Nz::FunctionRef<int&(std::size_t)> r(fn);
				r(static_cast<std::size_t>(c.below(3))) = -7;
				CHECK(&r(1u) == &data[1]);
				int n = 0;
				for (int k : data)
					n += (k == -7);
				CHECK_EQ(n, 1);
				break;
			}
			case 7: // result thrown away
			{
				Nz::FunctionRef<void(int)> r(sideEffect);
				r(v);
				CHECK_EQ(lastVoid, v);
				auto fn = [&](int x) { lastVoid = x + 1; return std::string("x"); };
				Nz::FunctionRef<void(int)> r2(fn);
				r2(v);
				CHECK_EQ(lastVoid, v + 1);
				break;
			}
			case 8: // member functions, through pointer and reference
			{
				Obj o{ v };
				auto add = &Obj::add;
				auto get = &Obj::get;
				auto member = &Obj::k;
				Nz::FunctionRef<int(Obj*, int)> r(add);
				CHECK_EQ(r(&o, 5), v + 5);
				Nz::FunctionRef<int(Obj&, int)> r2(add);
				CHECK_EQ(r2(o, 5), v + 10);
				Nz::FunctionRef<int(const Obj&, int)> r3(get);
				CHECK_EQ(r3(o, 3), (v + 10) * 10 + 3);
				Nz::FunctionRef<int(const Obj&)> r4(member);
				CHECK_EQ(r4(o), v + 10);
				break;
			}
			case 9: // several arguments, converted
			{
				Nz::FunctionRef<long(short, int)> r(sum);
				CHECK_EQ(r(static_cast<signed char>(-5), v), static_cast<long>(v - 5));
				auto fn = [](std::string a, const std::string& b, std::string&& d) { return a + b + d; };
				Nz::FunctionRef<std::string(std::string, const std::string&, std::string&&)> r2(fn);
				std::string a(c.size(0, 40), 'a'), b(c.size(0, 40), 'b');
				CHECK(r2(a, b, std::string("c")) == a + b + "c");
				CHECK(r2("q", "r", "s") == "qrs");
				break;
			}
			case 10: // temporaries, for the duration of the call
				CHECK_EQ(callIt([k = v](int a) { return a * k; }, 3), 3 * v);
				CHECK_EQ(callIt(plus3, v), v + 3);
				CHECK_EQ(callIt(&minus2, v), v - 2);
				CHECK_EQ(callIt(Functor(7), v), 7000 + v);
				CHECK_EQ(callIt(std::bind(sum, std::placeholders::_1, 4), v), v + 4);
				break;
			case 11: // exceptions go through
			{
				auto fn = [&](int x) -> int { if (x == v) throw std::string("stop"); return x; };
				Nz::FunctionRef<int(int)> r(fn);
				bool caught = false;
				try { r(v); } catch (const std::string& s) { caught = (s == "stop"); }
				CHECK(caught);
				CHECK_EQ(r(v + 1), v + 1);
				break;
			}
			case 12: // recursion
			{
				int depth = static_cast<int>(c.below(12));
				CHECK_EQ(callNested(plus3, v, depth), v + 3 + depth);
				break;
			}
			default: // deduced signature; the functor is not copied
			{
				int (*p)(int, long) = &sum;
				Nz::FunctionRef d(p);
				static_assert(std::is_same_v<decltype(d), Nz::FunctionRef<int(int, long)>>);
				struct Counted { int& copies; Counted(int& n) : copies(n) {} Counted(const Counted& o) : copies(o.copies) { copies++; } int operator()(int a) const { return a; } };
				int copies = 0;
				Counted counted(copies);
				Nz::FunctionRef<int(int)> r(counted);
				Nz::FunctionRef<int(int)> r2(r);
				CHECK_EQ(r2(v), v);
				CHECK_EQ(copies, 0);
				break;
			}
		}
	}
	PBT_TARGET("arguments", 30000, &arguments)

	static_assert(!std::is_constructible_v<Nz::FunctionRef<int(int)>, std::string>);
	static_assert(!std::is_constructible_v<Nz::FunctionRef<int(int)>, void(*)(int)>);
	static_assert(!std::is_constructible_v<Nz::FunctionRef<int(std::string)>, int(*)(int)>);
	static_assert(!std::is_invocable_v<Nz::FunctionRef<int(int)>, std::string>);
	static_assert(!std::is_invocable_v<Nz::FunctionRef<int(int)>>);
	static_assert(std::is_trivially_copyable_v<Nz::FunctionRef<int(int)>>);
}
