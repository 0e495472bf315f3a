// Results: values and errors through construction, copies, moves, conversions, mapping and propagation
#include "vechist.hpp"
#include <NazaraUtils/Result.hpp>
#include <functional>

namespace
{
	using vec::Elem;
	using Big = obj::Tracked<obj::Opt::Copy>;        // no default constructor
	using Mover = obj::Tracked<obj::Opt::NothrowMove>; // cannot be copied

	struct Model { bool ok; int v; };

	// an error made from several arguments, or none
	struct Code
	{
		Code() : value(5) {}
		Code(int v) : value(v) {}
		Code(int a, int b) : value(a + b) {}
		bool operator==(const Code& o) const { return value == o.value; }
		int value;
	};
	struct Wide { Wide(const Code& code) : value(code.value + 100000) {} Wide(int v) : value(v) {} int value; };
}

namespace vec
{
	template<> struct Elem<Code> { static constexpr bool HasFaults = false; static Code make(int v) { return Code(v); } static int get(const Code& c) { return c.value; } static constexpr bool MoveKeeps = true; };
	template<> struct Elem<Wide> { static constexpr bool HasFaults = false; static Wide make(int v) { return Wide(v); } static int get(const Wide& c) { return c.value; } static constexpr bool MoveKeeps = true; };
}

namespace
{
	template<typename R, typename V, typename E> void same(const R& cr, const Model& m, const char* what)
	{
		R& r = const_cast<R&>(cr);
		pbt::g_case->flush();
		CHECK_EQ(cr.IsOk(), m.ok, what);
		CHECK_EQ(cr.IsErr(), !m.ok, what);
		CHECK_EQ(static_cast<bool>(cr), m.ok, what);
		bool thrown = false;
		std::string message = "expectation number " + std::to_string(m.v), caught;
		try { if (m.v % 2) cr.Expect(message); else cr.Expect(message.c_str()); } catch (const std::runtime_error& e) { thrown = true; caught = e.what(); }
		CHECK_EQ(thrown, !m.ok, "Expect", what);
		if (thrown)
			CHECK_EQ(caught, message);
		if (m.ok)
		{
			if constexpr (!std::is_void_v<V>)
			{
				CHECK_EQ(Elem<V>::get(cr.GetValue()), m.v, what);
				CHECK(&cr.GetValue() == &*cr && &*cr == cr.operator->() && &r.GetValue() == &*cr && &*r == &*cr && r.operator->() == &*cr);
			}
			thrown = false;
			try { (void) cr.GetError(); } catch (const std::runtime_error&) { thrown = true; }
			CHECK(thrown, "GetError of a value must throw", what);
			thrown = false;
			try { (void) r.GetError(); } catch (const std::runtime_error&) { thrown = true; }
			CHECK(thrown, "GetError of a value must throw", what);
			thrown = false;
			try { (void) std::move(r).GetError(); } catch (const std::runtime_error&) { thrown = true; }
			CHECK(thrown, "GetError of a value must throw", what);
		}
		else
		{
			CHECK_EQ(Elem<E>::get(cr.GetError()), m.v, what);
			CHECK(&r.GetError() == &cr.GetError());
			if constexpr (!std::is_void_v<V>)
			{
				int n = 0;
				try { (void) cr.GetValue(); } catch (const std::runtime_error&) { n++; }
				try { (void) r.GetValue(); } catch (const std::runtime_error&) { n++; }
				try { (void) std::move(r).GetValue(); } catch (const std::runtime_error&) { n++; }
				try { (void) *cr; } catch (const std::runtime_error&) { n++; }
				try { (void) *r; } catch (const std::runtime_error&) { n++; }
				try { (void) *std::move(r); } catch (const std::runtime_error&) { n++; }
				try { (void) cr.operator->(); } catch (const std::runtime_error&) { n++; }
				try { (void) r.operator->(); } catch (const std::runtime_error&) { n++; }
				CHECK_EQ(n, 8, "reading the value of an error must throw", what);
			}
		}
		pbt::g_case->flush();
	}

	template<typename V, typename E> struct Maker
	{
		using R = Nz::Result<V, E>;
		static constexpr bool CopyV = std::is_void_v<V> || std::is_copy_constructible_v<std::conditional_t<std::is_void_v<V>, int, V>>;
		static constexpr bool CopyE = std::is_copy_constructible_v<E>;

		static R make(pbt::Case& c, const Model& m)
		{
			unsigned form = static_cast<unsigned>(c.below(5));
			LOG((m.ok ? "Ok(" : "Err(") << m.v << ") form " << form);
			if (m.ok)
			{
				if constexpr (std::is_void_v<V>)
				{
					if (form % 2) return R(typename R::ValueTag{});
					return Nz::Ok();
				}
				else
				{
					using EV = Elem<V>;
					switch (form)
					{
						case 0: return Nz::Ok(EV::make(m.v));
						case 1:
							if constexpr (CopyV)
							{
								V v = EV::make(m.v);
								R r = Nz::Ok(v);
								CHECK_EQ(EV::get(v), m.v, "the value given was changed");
								return r;
							}
							else return Nz::Ok(EV::make(m.v));
						case 2:
							if constexpr (CopyV)
							{
								const V v = EV::make(m.v);
								R r(typename R::ValueTag{}, v);
								CHECK_EQ(EV::get(v), m.v, "the value given was changed");
								return r;
							}
							else return R(typename R::ValueTag{}, EV::make(m.v));
						case 3:
							if constexpr (!std::is_same_v<V, E>)
							{
								if constexpr (CopyV)
								{
									V v = EV::make(m.v);
									R r = v;
									CHECK_EQ(EV::get(v), m.v, "the value given was changed");
									return r;
								}
								else return R(EV::make(m.v));
							}
							else return Nz::Ok(EV::make(m.v));
						default:
							if constexpr (std::is_constructible_v<V, int, int> && !std::is_same_v<V, std::string>) return R(typename R::ValueTag{}, m.v - 1, 1);
							else return R(typename R::ValueTag{}, EV::make(m.v));
					}
				}
			}
			using EE = Elem<E>;
			switch (form)
			{
				case 0: return Nz::Err(EE::make(m.v));
				case 1: case 2:
					if constexpr (CopyE)
					{
						E e = EE::make(m.v);
						R r = Nz::Err(e);
						CHECK_EQ(EE::get(e), m.v, "the error given was changed");
						return r;
					}
					else return Nz::Err(EE::make(m.v));
				case 3:
					if constexpr (std::is_same_v<E, Code>) { if (m.v == 5) return R(typename R::ErrorTag{}); }
					if constexpr (std::is_constructible_v<E, int, int> && !std::is_same_v<E, std::string>) return R(typename R::ErrorTag{}, m.v - 1, 1);
					else return R(typename R::ErrorTag{}, EE::make(m.v));
				default:
					if constexpr (CopyE)
					{
						const E e = EE::make(m.v);
						return R(typename R::ErrorTag{}, e);
					}
					else return R(typename R::ErrorTag{}, EE::make(m.v));
			}
		}
	};

	template<typename V, typename E> void algebra(pbt::Case& c)
	{
		obj::reg.reset();
		using R = Nz::Result<V, E>;
		using M = Maker<V, E>;
		constexpr bool Void = std::is_void_v<V>;
		using VV = std::conditional_t<Void, int, V>;
		{
			Model m{ c.coin(), static_cast<int>(c.range(1, 40)) };
			if constexpr (Void) { if (m.ok) m.v = 0; }
			R r = M::make(c, m);
			same<R, V, E>(r, m, "built");
			Model m2{ c.coin(), static_cast<int>(c.range(41, 80)) };
			if constexpr (Void) { if (m2.ok) m2.v = 0; }
			R r2 = M::make(c, m2);

			for (std::size_t k = 0, n = c.size(1, 6); k < n; ++k)
			{
				c.nontrivial();
				switch (c.below(8))
				{
					case 0:
						if constexpr (M::CopyV && M::CopyE)
						{
							LOG("copy");
							R copy(std::as_const(r));
							same<R, V, E>(copy, m, "copy");
							same<R, V, E>(r, m, "copied");
							r2 = r;
							m2 = m;
							same<R, V, E>(r2, m2, "copy assigned");
							same<R, V, E>(r, m, "copied");
						}
						break;
					case 1:
					{
						LOG("move there and back");
						R moved(std::move(r));
						same<R, V, E>(moved, m, "moved");
						r = std::move(moved);
						same<R, V, E>(r, m, "move assigned");
						break;
					}
					case 2:
					{
						LOG("swap");
						std::swap(r, r2);
						std::swap(m, m2);
						same<R, V, E>(r, m, "swapped");
						same<R, V, E>(r2, m2, "swapped");
						break;
					}
					case 3: // map of a const result
						if constexpr (M::CopyE)
						{
							LOG("map (const)");
							int calls = 0;
							int add = static_cast<int>(c.range(1, 5));
							unsigned how = static_cast<unsigned>(c.below(3));
							if (how == 0)
							{
								auto mapped = [&]
								{
									if constexpr (Void) return std::as_const(r).Map([&] { calls++; return 1000 + add; });
									else return std::as_const(r).Map([&](const VV& v) { calls++; return 1000 + add + Elem<V>::get(v); });
								}();
								static_assert(std::is_same_v<decltype(mapped), Nz::Result<int, E>>);
								same<Nz::Result<int, E>, int, E>(mapped, m.ok ? Model{ true, 1000 + add + m.v } : m, "mapped");
							}
							else if (how == 1)
							{
								auto mapped = [&]
								{
									if constexpr (Void) return r.Map([&] { calls++; });
									else return r.Map([&](const VV&) { calls++; });
								}();
								static_assert(std::is_same_v<decltype(mapped), Nz::Result<void, E>>);
								same<Nz::Result<void, E>, void, E>(mapped, m, "mapped to void");
							}
							else
							{
								// two maps one after the other are the map of the composition
								auto once = [&] { if constexpr (Void) return r.Map([&] { calls++; return add + 1; }); else return r.Map([&](const VV& v) { calls++; return Elem<V>::get(v) + add + 1; }); }();
								auto twice = [&] { if constexpr (Void) return r.Map([&] { return 1; }); else return r.Map([&](const VV& v) { return Elem<V>::get(v) + 1; }); }().Map([&](int v) { return v + add; });
								same<Nz::Result<int, E>, int, E>(once, m.ok ? Model{ true, m.v + add + 1 } : m, "mapped once");
								same<Nz::Result<int, E>, int, E>(twice, m.ok ? Model{ true, m.v + add + 1 } : m, "mapped twice");
							}
							CHECK_EQ(calls, m.ok ? 1 : 0, "calls of the function");
							same<R, V, E>(r, m, "mapped: the source");
							c.tag("map");
						}
						break;
					case 4: // map which consumes the result
					{
						LOG("map (consuming)");
						int calls = 0;
						if (c.coin()) // to nothing
						{
							int seen = 0;
							auto mapped = [&]
							{
								if constexpr (Void) return std::move(r).Map([&] { calls++; });
								else if (c.coin()) return std::move(r).Map([&](VV&& v) { calls++; seen = Elem<V>::get(v); });
								else return std::move(r).Map([&](VV v) { calls++; seen = Elem<V>::get(v); });
							}();
							static_assert(std::is_same_v<decltype(mapped), Nz::Result<void, E>>);
							CHECK_EQ(calls, m.ok ? 1 : 0, "calls of the function");
							same<Nz::Result<void, E>, void, E>(mapped, m, "consumed to void");
							if constexpr (!Void) { if (m.ok) CHECK_EQ(seen, m.v, "value given to the function"); }
							if (m.ok) { if constexpr (Void) r = R(Nz::Ok()); else r = R(Nz::Ok(Elem<V>::make(m.v))); }
							else r = R(Nz::Err(std::move(mapped).GetError()));
							same<R, V, E>(r, m, "rebuilt after a map to void");
							c.tag("map");
							break;
						}
						auto mapped = [&]
						{
							if constexpr (Void) return std::move(r).Map([&] { calls++; });
							else return std::move(r).Map([&](VV&& v) { calls++; return VV(std::move(v)); });
						}();
						static_assert(std::is_same_v<decltype(mapped), R>);
						CHECK_EQ(calls, m.ok ? 1 : 0, "calls of the function");
						same<R, V, E>(mapped, m, "identity map");
						r = std::move(mapped);
						same<R, V, E>(r, m, "identity map");
						c.tag("map");
						break;
					}
					case 5:
						if constexpr (!Void)
						{
							LOG("GetValueOr");
							if constexpr (M::CopyV)
							{
								V fallback = Elem<V>::make(99);
								V got = r.GetValueOr(fallback);
								CHECK_EQ(Elem<V>::get(got), m.ok ? m.v : 99, "GetValueOr");
								CHECK_EQ(Elem<V>::get(fallback), 99, "the default value was changed");
								same<R, V, E>(r, m, "after GetValueOr");
							}
							V got2 = std::move(r).GetValueOr(Elem<V>::make(98));
							CHECK_EQ(Elem<V>::get(got2), m.ok ? m.v : 98, "GetValueOr");
							if (m.ok) r = R(typename R::ValueTag{}, std::move(got2));
							same<R, V, E>(r, m, "after GetValueOr");
						}
						break;
					case 6: // what it holds is taken out
						LOG("taken out");
						if (!m.ok)
						{
							E e = std::move(r).GetError();
							CHECK_EQ(Elem<E>::get(e), m.v, "error taken");
							r = R(Nz::Err(std::move(e)));
						}
						else if constexpr (!Void)
						{
							if (c.coin())
							{
								V v = std::move(r).GetValue();
								CHECK_EQ(Elem<V>::get(v), m.v, "value taken");
								r = R(Nz::Ok(std::move(v)));
							}
							else
							{
								V v = *std::move(r);
								CHECK_EQ(Elem<V>::get(v), m.v, "value taken");
								r = R(Nz::Ok(std::move(v)));
							}
						}
						same<R, V, E>(r, m, "rebuilt");
						break;
					case 7: // written in place
						LOG("written");
						if (!m.ok)
						{
							m.v += 3;
							r.GetError() = Elem<E>::make(m.v);
						}
						else if constexpr (!Void)
						{
							m.v += 3;
							if (c.coin()) *r = Elem<V>::make(m.v);
							else r.GetValue() = Elem<V>::make(m.v);
						}
						same<R, V, E>(r, m, "written");
						break;
				}
				c.tag(m.ok ? "value" : "error");
			}
			same<R, V, E>(r2, m2, "the other result");
		}
		c.flush();
		CHECK_EQ(obj::reg.live, std::size_t(0), "objects still alive");
	}

	// --- conversions
	template<typename V1, typename E1, typename V2, typename E2, int AddV = 0, int AddE = 0> void conversion(pbt::Case& c)
	{
		obj::reg.reset();
		{
			Model m{ c.coin(), static_cast<int>(c.range(1, 200)) };
			if constexpr (std::is_void_v<V1>) { if (m.ok) m.v = 0; }
			using R1 = Nz::Result<V1, E1>;
			using R2 = Nz::Result<V2, E2>;
			R1 r = Maker<V1, E1>::make(c, m);
			Model expected = m;
			expected.v += m.ok ? AddV : AddE;
			bool move = c.coin();
			LOG("converted, " << (move ? "moved" : "copied"));
			if (move)
			{
				R2 o(std::move(r));
				same<R2, V2, E2>(o, expected, "converted (moved)");
			}
			else if constexpr (std::is_copy_constructible_v<E1> && Maker<V1, E1>::CopyV)
			{
				R2 o = std::as_const(r);
				same<R2, V2, E2>(o, expected, "converted (copied)");
				same<R1, V1, E1>(r, m, "source of the conversion");
			}
			c.nontrivial();
			c.tag(m.ok ? "value" : "error");
		}
		c.flush();
		CHECK_EQ(obj::reg.live, std::size_t(0), "objects still alive");
	}

	// --- propagation: a chain of functions, some of which fail
	using Text = Nz::Result<std::string, std::string>;
	using Void = Nz::Result<void, std::string>;

	struct Chain { std::uint64_t failures; std::vector<int>* done; };

	Void act(const Chain& chain, int step)
	{
		chain.done->push_back(step);
		if (chain.failures >> step & 1)
			return Nz::Err("step " + std::to_string(step) + " failed, and says it with a long message");
		return Nz::Ok();
	}

	Text produce(const Chain& chain, int step)
	{
		NAZARA_TRY(act(chain, step));
		return Nz::Ok("value of step " + std::to_string(step) + ";");
	}

	Nz::Result<std::size_t, std::string> deep(const Chain& chain, int depth, int& step)
	{
		NAZARA_TRY(act(chain, step++));
		NAZARA_TRY_VALUE(std::string first, produce(chain, step++));
		std::size_t total = first.size();
		if (depth > 0)
		{
			NAZARA_TRY_VALUE(auto inner, deep(chain, depth - 1, step));
			total += inner;
		}
		NAZARA_TRY_VALUE(std::string last, produce(chain, step++));
		return total + last.size();
	}

	void propagation(pbt::Case& c)
	{
		std::vector<int> done;
		int depth = static_cast<int>(c.below(5));
		int steps = 3 * (depth + 1);
		Chain chain{ 0, &done };
		for (std::size_t i = 0, n = c.size(0, 2); i < n; ++i)
			chain.failures |= std::uint64_t(1) << c.below(static_cast<std::uint64_t>(steps));
		int step = 0;
		auto r = deep(chain, depth, step);
		int failing = -1;
		for (int i = 0; i < steps && failing < 0; ++i)
			if (chain.failures >> i & 1)
				failing = i;
		LOG("steps " << steps << ", first failure " << failing);
		CHECK_EQ(r.IsErr(), failing >= 0);
		if (failing >= 0)
		{
			CHECK_EQ(r.GetError(), "step " + std::to_string(failing) + " failed, and says it with a long message");
			CHECK_EQ(done.size(), static_cast<std::size_t>(failing + 1), "nothing runs after the step which failed");
			c.nontrivial();
			c.tag("error");
		}
		else
		{
			std::size_t expected = 0;
			for (int i = 0; i < steps; ++i)
				if ((i < 2 * (depth + 1) && i % 2 == 1) || i >= 2 * (depth + 1))
					expected += ("value of step " + std::to_string(i) + ";").size();
			CHECK_EQ(r.GetValue(), expected);
			CHECK_EQ(done.size(), static_cast<std::size_t>(steps));
			c.tag("value");
		}
		for (std::size_t i = 0; i < done.size(); ++i)
			CHECK_EQ(done[i], static_cast<int>(i));
	}
}

PBT_TARGET("Result<int, std::string>", 40000, &algebra<int, std::string>)
PBT_TARGET("Result<std::string, int>", 40000, &algebra<std::string, int>)
PBT_TARGET("Result<tracked, tracked>", 40000, &algebra<Big, Big>)
PBT_TARGET("Result<tracked move-only, Code>", 40000, &algebra<Mover, Code>)
PBT_TARGET("Result<int, int>", 30000, &algebra<int, int>)
PBT_TARGET("Result<std::unique_ptr, std::string>", 30000, &algebra<std::unique_ptr<int>, std::string>)
PBT_TARGET("Result<void, std::string>", 40000, &algebra<void, std::string>)
PBT_TARGET("Result<void, tracked>", 30000, &algebra<void, Big>)
PBT_TARGET("Result<void, tracked move-only>", 30000, &algebra<void, Mover>)
PBT_TARGET("Result<void, Code>", 30000, &algebra<void, Code>)
PBT_TARGET("convert Result<int, Code> to <long long, Wide>", 8000, &conversion<int, Code, long long, Wide, 0, 100000>)
PBT_TARGET("convert Result<Code, std::string> to <Wide, std::string>", 8000, &conversion<Code, std::string, Wide, std::string, 100000, 0>)
PBT_TARGET("convert Result<tracked, int> to <tracked, long>", 8000, &conversion<Big, int, Big, long>)
PBT_TARGET("convert Result<unique_ptr, int> to <unique_ptr, long>", 8000, &conversion<std::unique_ptr<int>, int, std::unique_ptr<int>, long>)
PBT_TARGET("convert Result<void, Code> to <void, Wide>", 8000, &conversion<void, Code, void, Wide, 0, 100000>)
PBT_TARGET("propagation", 60000, &propagation)
