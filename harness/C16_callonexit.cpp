// Functions called at the end of a scope
#include "pbt.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <functional>
#include <memory>
#include <optional>
#include <vector>

namespace
{
	struct Stop {};

	// --- objects over a history
	void history(pbt::Case& c)
	{
		struct State { std::vector<int> calls; int live = 0; int throwing = -1; };
		State st;
		// functor counting its live copies: moved-from ones are empty
		struct Fn
		{
			State* st;
			int id;
			Fn(State* s, int i) : st(s), id(i) { st->live++; }
			Fn(Fn&& o) noexcept : st(o.st), id(o.id) { if (st) st->live++; o.id = -1; }
			Fn(const Fn&) = delete;
			Fn& operator=(Fn&& o) noexcept { id = o.id; o.id = -1; return *this; }
			~Fn() { st->live--; }
			void operator()()
			{
				if (id < 0) { pbt::g_case->softFail("a moved function was called"); return; }
				st->calls.push_back(id);
				if (st->throwing == id) throw Stop{};
			}
		};
		using G = Nz::CallOnExit<Fn>;
		constexpr std::size_t N = 3;
		std::optional<G> g[N];
		int owner[N] = { -1, -1, -1 }; // function each guard will call
		int next = 0;
		std::vector<int> expected; // exact number of calls for each function
		std::vector<bool> replaced; // dropped by an assignment: 0 or 1 calls, at the assignment
		std::size_t steps = c.size(1, 12);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t x = c.below(N), y = c.below(N);
			int dropped = -1;
			switch (c.below(7))
			{
				case 0:
				case 1:
				{
					LOG("guard " << x << " is destroyed, then created with function " << next);
					if (owner[x] >= 0) expected[static_cast<std::size_t>(owner[x])]++;
					g[x].reset();
					expected.push_back(0); replaced.push_back(false);
					g[x].emplace(Fn(&st, next));
					owner[x] = next++;
					break;
				}
				case 2:
					if (!g[x]) break;
					LOG("guard " << x << " destroyed");
					if (owner[x] >= 0) { expected[static_cast<std::size_t>(owner[x])]++; c.nontrivial(); }
					g[x].reset();
					owner[x] = -1;
					break;
				case 3:
				{
					if (!g[x]) break;
					bool t = c.chance(1, 3) && owner[x] >= 0;
					LOG("guard " << x << ".CallAndReset()" << (t ? " (throws)" : ""));
					st.throwing = t ? owner[x] : -1;
					bool thrown = false;
					try { g[x]->CallAndReset(); } catch (Stop&) { thrown = true; }
					CHECK(thrown == t);
					st.throwing = -1;
					if (owner[x] >= 0) { expected[static_cast<std::size_t>(owner[x])]++; c.nontrivial(); }
					owner[x] = -1;
					break;
				}
				case 4:
					if (!g[x]) break;
					LOG("guard " << x << ".Reset()");
					g[x]->Reset();
					owner[x] = -1;
					break;
				case 5:
					if (!g[x] || !g[y]) break;
					LOG("guard " << x << " = move(guard " << y << ")");
					if (x == y) // still to be called, once
					{
						G& self = *g[x];
						*g[x] = std::move(self);
						c.tag("self-assignment");
						break;
					}
					dropped = owner[x];
					*g[x] = std::move(*g[y]);
					owner[x] = owner[y];
					owner[y] = -1;
					c.nontrivial();
					c.tag("assignment");
					break;
				default: // default constructed guard, later assigned
					if (owner[x] >= 0) expected[static_cast<std::size_t>(owner[x])]++;
					g[x].reset();
					LOG("guard " << x << " is empty");
					g[x].emplace();
					owner[x] = -1;
					break;
			}
			std::vector<int> calls(expected.size(), 0);
			for (int id : st.calls)
				calls[static_cast<std::size_t>(id)]++;
			for (std::size_t i = 0; i < expected.size(); ++i)
			{
				if (dropped == static_cast<int>(i))
				{
					CHECK(calls[i] <= expected[i] + 1);
					expected[i] = calls[i];
				}
				CHECK_EQ(calls[i], expected[i], "calls of function", i);
			}
			int engaged = 0;
			for (int o : owner)
				engaged += (o >= 0);
			CHECK_EQ(st.live, engaged, "functions alive");
		}
		for (std::size_t i = 0; i < N; ++i)
		{
			if (owner[i] >= 0) expected[static_cast<std::size_t>(owner[i])]++;
			g[i].reset();
		}
		std::vector<int> calls(expected.size(), 0);
		for (int id : st.calls)
			calls[static_cast<std::size_t>(id)]++;
		for (std::size_t i = 0; i < expected.size(); ++i)
			CHECK_EQ(calls[i], expected[i], "calls of function at the end", i);
		CHECK_EQ(st.live, 0);
	}
	PBT_TARGET("guards", 60000, &history)

	// --- scopes left in every way, nested
	struct Program
	{
		pbt::Case& c;
		std::vector<int> log, expect;
		int next = 0;

		// expect receives the order in which deferred functions must run
		// exit: 0 falls through, 1 returns, 2 throws
		int scope(int depth)
		{
			std::vector<int> mine;
			int how;
			int inner = 0;
			struct Unwound { std::vector<int>& expect; std::vector<int>& mine; ~Unwound() { for (auto it = mine.rbegin(); it != mine.rend(); ++it) expect.push_back(*it); } } unwound{ expect, mine };
			int a = next++;
			mine.push_back(a);
			NAZARA_DEFER(log.push_back(a););
			how = static_cast<int>(c.below(6));
			if (how == 1) { LOG("return after 1"); return 1; }
			if (how == 2) { LOG("throw after 1"); throw Stop{}; }
			if (depth > 0 && c.coin())
			{
				LOG("nested {");
				if (c.coin())
				{
					try { inner = scope(depth - 1); } catch (Stop&) { c.tag("caught"); }
				}
				else
					inner = scope(depth - 1);
				LOG("}");
				c.nontrivial();
			}
			int b = next++;
			mine.push_back(b);
			NAZARA_DEFER({ log.push_back(b); });
			std::size_t loops = c.size(0, 3);
			for (std::size_t i = 0; i < loops; ++i)
			{
				int d = next++;
				bool brk = c.chance(1, 4), thr = c.chance(1, 6);
				LOG("loop body " << d);
				std::vector<int> lm{ d };
				Unwound u{ expect, lm };
				NAZARA_DEFER(log.push_back(d););
				if (brk) break;
				if (thr) throw Stop{};
				if (c.chance(1, 8)) return 2;
				if (c.chance(1, 4)) continue;
				c.nontrivial();
			}
			int e = next++;
			int local = -5;
			mine.push_back(e);
			NAZARA_DEFER(log.push_back(local == 9 ? e : -100); local = 0;); // sees the variables as they are at the exit
			local = 9;
			if (how == 3) return 3;
			if (how == 4) throw Stop{};
			return inner;
		}
	};
	void scopes(pbt::Case& c)
	{
		Program p{ c, {}, {}, 0 };
		try { p.scope(4); } catch (Stop&) {}
		CHECK_EQ(p.log.size(), p.expect.size(), "deferred functions called");
		for (std::size_t i = 0; i < p.log.size(); ++i)
			CHECK_EQ(p.log[i], p.expect[i], "order", i);
	}
	PBT_TARGET("scopes", 20000, &scopes)

	// --- functions which use their own guard
	void reentrant(pbt::Case& c)
	{
		int calls = 0;
		auto how = c.below(3);
		auto times = c.size(1, 3);
		{
			Nz::CallOnExit<std::function<void()>>* self = nullptr;
			std::function<void()> fn = [&]
			{
				calls++;
				if (calls > 5)
					return;
				if (how == 1) self->CallAndReset();
				if (how == 2) self->Reset();
			};
			Nz::CallOnExit<std::function<void()>> guard(std::move(fn));
			self = &guard;
			LOG("CallAndReset x" << times << " with a function which " << (how == 0 ? "does nothing" : how == 1 ? "calls CallAndReset" : "calls Reset"));
			for (std::size_t i = 0; i < times; ++i)
				guard.CallAndReset();
			CHECK_EQ(calls, 1);
			c.nontrivial();
		}
		CHECK_EQ(calls, 1, "called again by the destructor");
	}
	PBT_TARGET("reentrant", 3000, &reentrant)
}
