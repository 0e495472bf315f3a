// Wrappers which make raw pointers, literals and values safe to move by default
#include "pbt.hpp"
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace
{
	struct Pointee { int a; int get() const { return a; } };

	// --- pointers
	struct PtrHolder // relies on the defaulted special members, as users do
	{
		PtrHolder() = default;
		explicit PtrHolder(Pointee* p) : ptr(p) {}
		Nz::MovablePtr<Pointee> ptr;
	};
	static_assert(std::is_nothrow_move_constructible_v<Nz::MovablePtr<Pointee>> && std::is_nothrow_move_assignable_v<Nz::MovablePtr<Pointee>>);
	static_assert(std::is_copy_constructible_v<PtrHolder> && std::is_copy_assignable_v<PtrHolder> && std::is_nothrow_move_constructible_v<PtrHolder>);

	template<typename V> struct Slot
	{
		V current;
		bool unsure = false; // value after a move assignment: default or the old value of the target
		V other;
	};

	// Subject: how to build, read, assign
	struct PtrSubject
	{
		using Holder = PtrHolder;
		using V = Pointee*;
		static constexpr bool MoveResets = true;
		static Pointee objects[8];
		static V empty() { return nullptr; }
		static V gen(pbt::Case& c) { auto i = c.below(9); return i == 8 ? nullptr : &objects[i]; }
		static Holder make(V v) { return Holder(v); }
		static Holder makeDefault() { return Holder(); }
		static void assign(pbt::Case& c, Holder& h, V v)
		{
			if (c.coin())
				h.ptr = v;
			else
			{
				Nz::MovablePtr<Pointee> p(v);
				h.ptr = p;
				CHECK(p.Get() == v);
			}
		}
		static V read(pbt::Case&, Holder& h)
		{
			V v = h.ptr.Get();
			const Holder& ch = h;
			Pointee* conv = ch.ptr;
			CHECK(conv == v);
			CHECK((ch.ptr == nullptr) == (v == nullptr));
			if (v)
			{
				CHECK(h.ptr->get() == v->a);
				CHECK(ch.ptr.operator->() == v);
				CHECK((*h.ptr).a == v->a);
				h.ptr->a += 0;
			}
			return v;
		}
		static std::string show(V v) { return v ? "&" + std::to_string(v - objects) : "null"; }
	};
	Pointee PtrSubject::objects[8] = { {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8} };

	// --- literals
	template<typename T, T D> struct LitSubject
	{
		struct Holder
		{
			Holder() = default;
			explicit Holder(T v) : lit(v) {}
			Nz::MovableLiteral<T, D> lit;
		};
		static_assert(std::is_nothrow_move_constructible_v<Nz::MovableLiteral<T, D>> && std::is_nothrow_move_assignable_v<Nz::MovableLiteral<T, D>>);
		using V = T;
		static constexpr bool MoveResets = true;
		static V empty() { return D; }
		static V gen(pbt::Case& c)
		{
			if constexpr (std::is_enum_v<T>)
				return static_cast<T>(c.below(6));
			else if constexpr (std::is_same_v<T, bool>)
				return c.coin();
			else
				return c.chance(1, 8) ? D : c.integer<T>();
		}
		static Holder make(V v) { return Holder(v); }
		static Holder makeDefault() { return Holder(); }
		static void assign(pbt::Case& c, Holder& h, V v)
		{
			switch (c.below(5))
			{
				case 0: h.lit = v; break;
				case 1: { const V cv = v; h.lit = cv; CHECK(cv == v); break; }
				case 2: h.lit = std::move(v); break;
				case 3: h.lit.Get() = v; break;
				default:
				{
					Nz::MovableLiteral<T, D> l(v);
					const auto& cl = l;
					h.lit = cl;
					CHECK(l.Get() == v);
					break;
				}
			}
		}
		static V read(pbt::Case&, Holder& h)
		{
			V v = h.lit.Get();
			const Holder& ch = h;
			CHECK(ch.lit.Get() == v);
			const T& conv = ch.lit;
			CHECK(conv == v);
			T& mconv = h.lit;
			CHECK(mconv == v && &mconv == &h.lit.Get());
			T got = std::move(h.lit).Get(); // a literal is not changed by being read as an rvalue
			CHECK(got == v && h.lit.Get() == v);
			T&& rref = std::move(h.lit);
			CHECK(&rref == &h.lit.Get() && rref == v, "an rvalue literal does not convert to its own value");
			return v;
		}
		static std::string show(V v) { return pbt::str(v); }
	};

	template<typename S> void history(pbt::Case& c)
	{
		using H = typename S::Holder;
		constexpr std::size_t N = 4;
		std::vector<std::unique_ptr<H>> h;
		Slot<typename S::V> m[N];
		for (std::size_t i = 0; i < N; ++i)
		{
			if (c.coin())
			{
				h.push_back(std::make_unique<H>(S::makeDefault()));
				m[i].current = S::empty();
			}
			else
			{
				auto v = S::gen(c);
				LOG("h" << i << "(" << S::show(v) << ")");
				h.push_back(std::make_unique<H>(S::make(v)));
				m[i].current = v;
			}
		}
		auto check = [&]
		{
			for (std::size_t i = 0; i < N; ++i)
			{
				auto v = S::read(c, *h[i]);
				if (m[i].unsure)
				{
					CHECK(v == m[i].current || v == m[i].other, "unexpected value after being moved");
					m[i].unsure = false;
					m[i].current = v;
				}
				else
					CHECK(v == m[i].current, "unexpected value", i);
			}
		};
		check();
		std::size_t steps = c.size(1, 14);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t x = c.below(N), y = c.below(N);
			switch (c.below(7))
			{
				case 0:
				{
					auto v = S::gen(c);
					LOG("h" << x << " = " << S::show(v));
					S::assign(c, *h[x], v);
					m[x].current = v;
					break;
				}
				case 1:
					LOG("h" << x << " = h" << y);
					*h[x] = std::as_const(*h[y]);
					m[x].current = m[y].current;
					break;
				case 2:
					LOG("new h" << x << "(h" << y << ")");
					h[x] = std::make_unique<H>(std::as_const(*h[y]));
					m[x].current = m[y].current;
					break;
				case 3:
					if (x == y)
						break;
					LOG("new h" << x << "(move(h" << y << "))");
					h[x] = std::make_unique<H>(std::move(*h[y]));
					m[x].current = m[y].current;
					m[y].current = S::empty();
					c.nontrivial();
					c.tag("move construction");
					break;
				case 4:
				case 5:
				{
					LOG("h" << x << " = move(h" << y << ")");
					*h[x] = std::move(*h[y]);
					if (x == y)
					{
						c.tag("self-move");
						break;
					}
					auto old = m[x].current;
					m[x].current = m[y].current;
					m[y].unsure = true;
					m[y].current = S::empty();
					m[y].other = old;
					c.nontrivial();
					c.tag("move assignment");
					break;
				}
				case 6:
				{
					LOG("swap(h" << x << ", h" << y << ")");
					std::swap(*h[x], *h[y]);
					std::swap(m[x].current, m[y].current);
					break;
				}
			}
			check();
		}
		// growing containers move their content
		std::vector<H> v;
		for (std::size_t i = 0; i < N; ++i)
			v.push_back(std::move(*h[i]));
		for (std::size_t i = 0; i < N; ++i)
		{
			CHECK(S::read(c, v[i]) == m[i].current);
			CHECK(S::read(c, *h[i]) == S::empty());
		}
	}

	enum class Fruit { Apple, Pear, Plum, Fig, Lime, Kiwi };
	PBT_TARGET("MovablePtr", 40000, &history<PtrSubject>)
	PBT_TARGET("MovableLiteral<int,-1>", 25000, &history<LitSubject<int, -1>>)
	PBT_TARGET("MovableLiteral<uint8,255>", 15000, &history<LitSubject<unsigned char, 255>>)
	PBT_TARGET("MovableLiteral<enum>", 15000, &history<LitSubject<Fruit, Fruit::Plum>>)
	PBT_TARGET("MovableLiteral<int64>", 15000, &history<LitSubject<long long, std::numeric_limits<long long>::min()>>)

	// --- values: counts of copies and moves, and where they are from
	struct Probe
	{
		static inline int copies, moves;
		int v = 7;
		Probe() = default;
		explicit Probe(int x) : v(x) {}
		Probe(const Probe& o) : v(o.v) { copies++; }
		Probe(Probe&& o) noexcept : v(o.v) { moves++; o.v = -1; }
		Probe& operator=(const Probe& o) { copies++; v = o.v; return *this; }
		Probe& operator=(Probe&& o) noexcept { moves++; if (this != &o) { v = o.v; o.v = -1; } return *this; }
		Probe& operator=(int x) { v = x; return *this; }
	};
	struct ValHolder
	{
		ValHolder() = default;
		explicit ValHolder(int v) : val(Probe(v)) {}
		Nz::MovableValue<Probe> val;
	};
	static_assert(std::is_nothrow_move_constructible_v<ValHolder>);
	static_assert(std::is_nothrow_move_constructible_v<Nz::MovableValue<std::vector<int>>> && std::is_nothrow_move_assignable_v<Nz::MovableValue<std::vector<int>>>);
	static_assert(std::is_nothrow_move_constructible_v<Nz::MovableValue<std::unique_ptr<int>>> && !std::is_copy_constructible_v<Nz::MovableValue<std::unique_ptr<int>>>);

	void values(pbt::Case& c)
	{
		constexpr std::size_t N = 3;
		std::unique_ptr<ValHolder> h[N];
		int m[N];
		for (std::size_t i = 0; i < N; ++i)
		{
			if (c.coin()) { h[i] = std::make_unique<ValHolder>(); m[i] = 7; }
			else { m[i] = static_cast<int>(c.below(1000)); h[i] = std::make_unique<ValHolder>(m[i]); }
		}
		std::size_t steps = c.size(1, 14);
		for (std::size_t s = 0; s < steps; ++s)
		{
			std::size_t x = c.below(N), y = c.below(N);
			Probe::copies = Probe::moves = 0;
			int copies = 0; // exactly; moves are only required not to be copies
			int v = static_cast<int>(c.below(1000));
			switch (c.below(10))
			{
				case 0:
				{
					Probe p(v);
					LOG("h" << x << " = lvalue " << v);
					h[x]->val = p;
					CHECK_EQ(p.v, v, "assigning an lvalue changed it");
					m[x] = v;
					copies = 1;
					c.nontrivial();
					break;
				}
				case 1:
				{
					const Probe p(v);
					LOG("h" << x << " = const lvalue " << v);
					h[x]->val = p;
					m[x] = v;
					copies = 1;
					break;
				}
				case 2:
					LOG("h" << x << " = rvalue " << v);
					h[x]->val = Probe(v);
					m[x] = v;
					break;
				case 3:
					LOG("h" << x << " = int " << v);
					h[x]->val = v; // assignable from another type
					m[x] = v;
					break;
				case 4:
					LOG("h" << x << " = h" << y);
					*h[x] = std::as_const(*h[y]);
					m[x] = m[y];
					copies = 1;
					break;
				case 5:
					LOG("new h" << x << "(h" << y << ")");
					h[x] = std::make_unique<ValHolder>(std::as_const(*h[y]));
					m[x] = m[y];
					copies = 1;
					break;
				case 6:
					LOG("h" << x << " = move(h" << y << ")");
					*h[x] = std::move(*h[y]);
					if (x == y)
						break;
					m[x] = m[y];
					m[y] = -1;
					c.nontrivial();
					break;
				case 7:
					if (x == y)
						break;
					LOG("new h" << x << "(move(h" << y << "))");
					h[x] = std::make_unique<ValHolder>(std::move(*h[y]));
					m[x] = m[y];
					m[y] = -1;
					c.nontrivial();
					break;
				case 8:
				{
					LOG("take h" << x);
					if (c.coin())
					{
						Probe&& rref = std::move(h[x]->val); // the conversion of an rvalue
						CHECK(&rref == &h[x]->val.Get(), "an rvalue does not convert to its own value");
						Probe taken(std::move(rref));
						CHECK_EQ(taken.v, m[x]);
					}
					else
					{
						Probe taken(std::move(h[x]->val).Get());
						CHECK_EQ(taken.v, m[x]);
					}
					m[x] = -1;
					break;
				}
				default:
				{
					LOG("build from lvalue / rvalue " << v);
					Probe p(v);
					Nz::MovableValue<Probe> a(p);
					CHECK_EQ(p.v, v, "building from an lvalue changed it");
					CHECK_EQ(a.Get().v, v);
					Nz::MovableValue<Probe> b(std::move(p));
					CHECK_EQ(b.Get().v, v);
					CHECK_EQ(p.v, -1);
					copies = 1;
					break;
				}
			}
			CHECK_EQ(Probe::copies, copies, "copies");
			for (std::size_t i = 0; i < N; ++i)
			{
				const ValHolder& ch = *h[i];
				CHECK_EQ(ch.val.Get().v, m[i], "value", i);
				const Probe& conv = ch.val;
				Probe& mconv = h[i]->val;
				CHECK(&conv == &mconv && &conv == &h[i]->val.Get());
			}
			CHECK_EQ(Probe::copies, copies, "reading copied");
		}
		Probe::copies = 0;
		std::vector<ValHolder> grown;
		for (std::size_t i = 0; i < N; ++i)
			grown.push_back(std::move(*h[i]));
		CHECK_EQ(Probe::copies, 0, "moving in a growing vector copied");
		for (std::size_t i = 0; i < N; ++i)
			CHECK_EQ(grown[i].val.Get().v, m[i]);
	}
	PBT_TARGET("MovableValue", 40000, &values)

	void moveOnly(pbt::Case& c)
	{
		using V = Nz::MovableValue<std::unique_ptr<int>>;
		int n = static_cast<int>(c.below(100));
		V a(std::make_unique<int>(n));
		int* p = a.Get().get();
		V b(std::move(a));
		CHECK(b.Get().get() == p && !a.Get());
		V d;
		CHECK(!d.Get());
		d = std::move(b);
		CHECK(d.Get().get() == p && !b.Get());
		if (c.coin())
			d = nullptr;
		else
			d = std::make_unique<int>(n + 1);
		CHECK(!d.Get() || *d.Get() == n + 1);
		V e(nullptr);
		CHECK(!e.Get());
		std::unique_ptr<int> out = std::move(d).Get();
		CHECK(!d.Get());
		// text
		std::string text(c.size(0, 40), 'x');
		Nz::MovableValue<std::string> s(text);
		CHECK(s.Get() == text);
		Nz::MovableValue<std::string> t(s);
		CHECK(t.Get() == text && s.Get() == text);
		t = text.c_str();
		CHECK(t.Get() == text);
		const std::string before = text;
		s = text;
		CHECK(text == before, "assigning a string emptied it");
		c.nontrivial();
	}
	PBT_TARGET("MovableValue<move-only, string>", 8000, &moveOnly)
}
