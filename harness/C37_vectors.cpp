// C37: operations interrupted by a failed memory allocation report it, leak nothing and leave every object valid.
#include "memfault.hpp"
#include <NazaraUtils/FixedVector.hpp>

void* operator new(std::size_t n) { return fault::get(n, 1); }
void* operator new[](std::size_t n) { return fault::get(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return fault::get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return fault::get(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return fault::get(n, 1); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return fault::get(n, 1); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { fault::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fault::release(p); }
void operator delete(void* p) noexcept { fault::release(p); }
void operator delete[](void* p) noexcept { fault::release(p); }
void operator delete(void* p, std::size_t) noexcept { fault::release(p); }
void operator delete[](void* p, std::size_t) noexcept { fault::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { fault::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { fault::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { fault::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { fault::release(p); }

namespace
{
	using namespace fault;

	// --- vectors
	template<typename V> std::vector<int> values(const V& v)
	{
		std::vector<int> r;
		CHECK_EQ(static_cast<std::size_t>(v.end() - v.begin()), v.size());
		CHECK_EQ(v.empty(), v.size() == 0);
		CHECK(v.size() <= v.capacity());
		for (std::size_t i = 0; i < v.size(); ++i)
			r.push_back(raw(v[i]));
		return r;
	}

	template<typename V, std::size_t Limit> void vectors(pbt::Case& c)
	{
		using T = typename V::value_type;
		Scope scope;
		{
			std::unique_ptr<V> v[2];
			std::vector<int> m[2];
			for (auto& p : v)
				p = std::make_unique<V>();
			const std::size_t steps = c.size(1, 14);
			for (std::size_t s = 0; s < steps; ++s)
			{
				const std::size_t w = c.below(2), o = 1 - w;
				V& x = *v[w];
				std::vector<int>& mx = m[w];
				const int n = static_cast<int>(c.range(1, 1000));
				const std::size_t pos = c.below(mx.size() + 1);
				const bool room = mx.size() < Limit;
				auto it = [&] { return x.begin() + static_cast<std::ptrdiff_t>(pos); };
				auto mit = mx.begin() + static_cast<std::ptrdiff_t>(pos);
				switch (c.below(15))
				{
					case 0: { if (!room) break; T t(n); if (attempt(c, "push_back(lvalue)", [&] { x.push_back(t); })) mx.push_back(n); CHECK_EQ(raw(t), n, "value appended"); break; }
					case 1: { if (!room) break; T t(n); if (attempt(c, "push_back(rvalue)", [&] { x.push_back(std::move(t)); })) mx.push_back(n); break; }
					case 2: { if (!room) break; if (attempt(c, "emplace_back", [&] { x.emplace_back(n); })) mx.push_back(n); break; }
					case 3: { if (!room || mx.empty()) break; if (attempt(c, "push_back(own element)", [&] { x.push_back(x[pos % mx.size()]); })) mx.push_back(mx[pos % mx.size()]); break; }
					case 4: { if (!room) break; T t(n); if (attempt(c, "insert(lvalue)", [&] { x.insert(it(), t); })) mx.insert(mit, n); CHECK_EQ(raw(t), n, "value inserted"); break; }
					case 5: { if (!room) break; if (attempt(c, "emplace", [&] { x.emplace(it(), n); })) mx.insert(mit, n); break; }
					case 6: { const std::size_t r = c.below(Limit + 1); if (attempt(c, "reserve", [&] { x.reserve(r); })) CHECK(x.capacity() >= r); break; }
					case 7:
					{
						const std::size_t r = c.below(Limit + 1);
						const bool withValue = c.coin();
						T t(n);
						std::vector<int> after = mx;
						after.resize(r, withValue ? n : 0);
						if (attempt(c, "resize", [&] { if (withValue) x.resize(r, t); else x.resize(r); }))
							mx = after;
						else
						{
							// elements may have been added, one after another
							std::vector<int> now = values(x);
							CHECK(now.size() >= mx.size() && now.size() <= after.size(), "size after a failed resize", now.size());
							after.resize(now.size());
							CHECK(now == after, "elements after a failed resize");
							mx = now;
						}
						break;
					}
					case 8:
					{
						if (attempt(c, "copy assignment", [&] { x = *v[o]; }))
							mx = m[o];
						else
						{
							// either what it was or some of the first elements
							std::vector<int> now = values(x);
							if (now != mx)
							{
								CHECK((std::is_same_v<T, Mem>), "a failed copy of plain elements changed its target");
								CHECK(now.size() <= std::max(mx.size(), m[o].size()), "size after a failed copy");
								for (std::size_t i = 0; i < now.size(); ++i)
									CHECK((i < m[o].size() && now[i] == m[o][i]) || (i < mx.size() && now[i] == mx[i]), "element after a failed copy", now[i]);
								mx = now;
							}
						}
						break;
					}
					case 9:
					{
						std::unique_ptr<V> copy;
						alignas(V) static unsigned char mem[sizeof(V)];
						V* made = nullptr;
						if (attempt(c, "copy construction", [&] { made = new (mem) V(std::as_const(x)); }))
						{
							std::vector<int> now = values(*made);
							made->~V();
							CHECK(now == mx, "copy");
						}
						break;
					}
					case 10: { never(c, "move assignment", [&] { x = std::move(*v[o]); }); mx = m[o]; m[o].clear(); never(c, "clear", [&] { v[o]->clear(); }); break; }
					case 11: { never(c, "move construction and back", [&] { V y(std::move(x)); x = std::move(y); }); break; }
					case 12: { never(c, "swap", [&] { std::swap(*v[0], *v[1]); }); std::swap(m[0], m[1]); break; }
					case 13: { if (pos == mx.size()) break; never(c, "erase", [&] { x.erase(it()); }); mx.erase(mit); break; }
					case 14: { if (c.coin()) { never(c, "clear", [&] { x.clear(); }); mx.clear(); } else if (!mx.empty()) { never(c, "pop_back", [&] { x.pop_back(); }); mx.pop_back(); } break; }
				}
				for (std::size_t i = 0; i < 2; ++i)
				{
					std::vector<int> now = values(*v[i]);
					CHECK(now == m[i], "content of vector", i, "size", now.size(), "expected", m[i].size());
				}
			}
		}
		scope.end();
	}
	PBT_TARGET("HybridVector<int, 3>", 60000, &vectors<Nz::HybridVector<int, 3>, 12>)
	PBT_TARGET("HybridVector<object, 3>", 60000, &vectors<Nz::HybridVector<Big, 3>, 12>)
	PBT_TARGET("HybridVector<memory, 3>", 60000, &vectors<Nz::HybridVector<Mem, 3>, 12>)
	PBT_TARGET("FixedVector<memory, 6>", 40000, &vectors<Nz::FixedVector<Mem, 6>, 6>)
}
