// C37: operations interrupted by a failed memory allocation report it, leak nothing and leave every object valid.
#include "memfault.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/StringUtils.hpp>

namespace
{
	using namespace fault;

	// --- results, private implementations, guards, text
	std::string text(pbt::Case& c, char x) { return std::string(c.coin() ? 3 + c.below(5) : 20 + c.below(60), x); }

	// (std::variant of libstdc++ itself misbehaves when copying its own std::string or std::vector fails)
	struct Text
	{
		std::string s;
		Text() = default;
		Text(std::string x) : s(std::move(x)) {}
		Text(const char* x) : s(x) {}
		std::size_t size() const { return s.size(); }
		friend bool operator==(const Text& a, const Text& b) { return a.s == b.s; }
	};
	struct List
	{
		std::vector<int> v;
		List(std::size_t n, int x) : v(n, x) {}
		std::size_t size() const { return v.size(); }
		friend bool operator==(const List& a, const List& b) { return a.v == b.v; }
	};

	void values(pbt::Case& c)
	{
		Scope scope;
		{
			using R = Nz::Result<Text, List>;
			using W = Nz::Result<void, Text>;
			const Text t = text(c, 'a'), u = text(c, 'b');
			const List e(1 + c.below(9), 5);
			auto keep = [](Text s) noexcept { return s.size(); };
			auto keepRef = [](const Text& s) noexcept { return s.size(); };
			switch (c.below(11))
			{
				case 0:
				{
					R ok(R::ValueTag{}, t), err(R::ErrorTag{}, e);
					Text got; List gotE(0, 0);
					attempt(c, "copy of a value", [&] { R r(ok); got = r.GetValue(); });
					attempt(c, "copy of an error", [&] { R r(err); gotE = r.GetError(); });
					CHECK(ok.IsOk() && ok.GetValue() == t && err.IsErr() && err.GetError() == e);
					break;
				}
				case 1:
				{
					R ok(R::ValueTag{}, t), ok2(R::ValueTag{}, u);
					if (attempt(c, "assignment of a value to a value", [&] { ok = ok2; })) CHECK(ok.GetValue() == u);
					else CHECK(ok.IsOk() && ok.GetValue() == t);
					CHECK(ok2.IsOk() && ok2.GetValue() == u);
					break;
				}
				case 2:
				{
					R ok(R::ValueTag{}, t), err(R::ErrorTag{}, e);
					if (c.coin())
					{
						if (attempt(c, "assignment of an error to a value", [&] { ok = err; })) CHECK(ok.IsErr() && ok.GetError() == e);
						else CHECK(ok.IsOk() && ok.GetValue() == t);
						CHECK(err.IsErr() && err.GetError() == e);
					}
					else
					{
						if (attempt(c, "assignment of a value to an error", [&] { err = ok; })) CHECK(err.IsOk() && err.GetValue() == t);
						else CHECK(err.IsErr() && err.GetError() == e);
						CHECK(ok.IsOk() && ok.GetValue() == t);
					}
					break;
				}
				case 3:
				{
					const R err(R::ErrorTag{}, e);
					std::size_t n = 0;
					attempt(c, "Map of an error with a noexcept function", [&] { auto r = err.Map(keepRef); n = r.IsErr() ? r.GetError().size() : 0; CHECK(n == e.size()); });
					CHECK(err.IsErr() && err.GetError() == e);
					break;
				}
				case 4:
				{
					const R ok(R::ValueTag{}, t);
					std::size_t n = 0;
					if (attempt(c, "Map of a value", [&] { auto r = ok.Map([](const Text& s) { return s.s + s.s; }); n = r.GetValue().size(); })) CHECK_EQ(n, 2 * t.size());
					if (attempt(c, "Map of a value with a noexcept function", [&] { auto r = ok.Map(keepRef); n = r.GetValue(); })) CHECK_EQ(n, t.size());
					CHECK(ok.IsOk() && ok.GetValue() == t);
					R moved(ok);
					never(c, "Map of a moved value", [&] { auto r = std::move(moved).Map(keep); n = r.GetValue(); });
					CHECK_EQ(n, t.size());
					break;
				}
				case 5:
				{
					const W err(W::ErrorTag{}, u);
					attempt(c, "Map of an error of a void result with a noexcept function", [&] { auto r = err.Map([]() noexcept { return 3; }); CHECK(r.IsErr() && r.GetError() == u); });
					attempt(c, "Map to void", [&] { auto r = err.Map([]() noexcept {}); CHECK(r.IsErr() && r.GetError() == u); });
					CHECK(err.IsErr() && err.GetError() == u);
					W a(W::ValueTag{});
					if (attempt(c, "assignment of an error to a void result", [&] { a = err; })) CHECK(a.IsErr() && a.GetError() == u);
					else CHECK(a.IsOk());
					break;
				}
				case 6:
				{
					const R ok(R::ValueTag{}, t), err(R::ErrorTag{}, e);
					Text got;
					if (attempt(c, "GetValueOr", [&] { got = ok.GetValueOr("other"); })) CHECK(got == t);
					if (attempt(c, "GetValueOr of an error", [&] { got = err.GetValueOr(u); })) CHECK(got == u);
					using R2 = Nz::Result<Text, List>;
					std::size_t n = 0;
					const Nz::Result<const char*, List> narrow(Nz::Result<const char*, List>::ValueTag{}, t.s.c_str());
					if (attempt(c, "conversion", [&] { R2 r(narrow); n = r.GetValue().size(); })) CHECK_EQ(n, t.size());
					break;
				}
				case 7:
				{
					struct Impl { Text a; List b; Impl(const Text& x, const List& y) : a(x), b(y) {} };
					Nz::PrivateImpl<Impl> p(t, e), q(u, e);
					Nz::PrivateImpl<Impl, sizeof(Impl)> pi(t, e), qi(u, e);
					if (attempt(c, "assignment of a private implementation", [&] { p = q; })) CHECK(p->a == u && p->b == e);
					else CHECK(p->a == t && p->b == e);
					if (attempt(c, "assignment in place", [&] { pi = qi; })) CHECK(pi->a == u && pi->b == e);
					else CHECK((pi->a == t || pi->a == u) && pi->b.size() <= e.size());
					CHECK(q->a == u && q->b == e && qi->a == u && qi->b == e);
					attempt(c, "copy of a private implementation", [&] { Nz::PrivateImpl<Impl> r(p); CHECK(r->b == e); });
					attempt(c, "copy in place", [&] { Nz::PrivateImpl<Impl, sizeof(Impl)> r(qi); CHECK(r->a == u); });
					q.Reset();
					if (attempt(c, "Emplace", [&] { q.Emplace(t, e); })) CHECK(q->a == t);
					else CHECK(!q.HasValue(), "object after a failed Emplace");
					if (c.coin())
					{
						if (attempt(c, "assignment to an empty private implementation", [&] { q.Reset(); q = p; })) CHECK(q->b == e);
						else CHECK(!q.HasValue());
					}
					never(c, "move of a private implementation", [&] { Nz::PrivateImpl<Impl> r(std::move(p)); p = std::move(r); });
					CHECK(p->b == e);
					break;
				}
				case 8:
				{
					int calls = 0;
					struct Call { int* calls; void* pad[4]; void operator()() const { ++*calls; } } call{ &calls, {} };
					const bool built = attempt(c, "guard made of a function", [&] { std::function<void()> f(call); Nz::CallOnExit<std::function<void()>> g(std::move(f)); });
					CHECK_EQ(calls, built ? 1 : 0, "calls of a guarded function");
					break;
				}
				case 9:
				{
					std::string s;
					if (attempt(c, "PathToString", [&] { s = Nz::PathToString(Nz::Utf8Path(t.s)); })) CHECK(s == t.s);
					break;
				}
				case 10:
				{
					R ok(R::ValueTag{}, t), err(R::ErrorTag{}, e);
					never(c, "moves of results", [&] { R a(std::move(ok)), b(std::move(err)); ok = std::move(b); err = std::move(a); std::swap(ok, err); });
					CHECK(ok.IsOk() && ok.GetValue() == t && err.IsErr() && err.GetError() == e);
					break;
				}
			}
		}
		scope.end();
	}
	PBT_TARGET("values", 120000, &values)
}
