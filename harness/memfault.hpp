// Memory which runs out on demand, and the operations made meanwhile
#pragma once
#include "pbt.hpp"
#include <cstdlib>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>

// --- memory which runs out on demand
namespace fault
{
	inline bool armed = false;
	inline bool sticky = false;   // every allocation following the failed one fails too
	inline long countdown = -1;
	inline unsigned failed = 0;
	inline std::size_t taken = 0; // allocations made by operations and not released yet
	inline void* table[4096];

	inline void remember(void* p)
	{
		for (std::size_t h = (reinterpret_cast<std::uintptr_t>(p) >> 4) % 4096;; h = (h + 1) % 4096)
			if (table[h] == nullptr || table[h] == reinterpret_cast<void*>(1))
			{
				table[h] = p;
				taken++;
				return;
			}
	}
	inline void forget(void* p)
	{
		if (taken == 0)
			return;
		std::size_t h = (reinterpret_cast<std::uintptr_t>(p) >> 4) % 4096;
		for (std::size_t k = 0; k < 4096 && table[h] != nullptr; ++k, h = (h + 1) % 4096)
			if (table[h] == p)
			{
				table[h] = reinterpret_cast<void*>(1);
				taken--;
				return;
			}
	}
	inline void reset() { armed = false; taken = 0; failed = 0; for (void*& p : table) p = nullptr; }

	inline void* get(std::size_t size, std::size_t alignment)
	{
		if (armed && countdown >= 0 && (countdown == 0 || --countdown < 0))
		{
			failed++;
			if (!sticky)
				countdown = -1;
			throw std::bad_alloc();
		}
		size = size ? size : 1;
		void* p = alignment <= alignof(std::max_align_t) ? std::malloc(size) : std::aligned_alloc(alignment, (size + alignment - 1) / alignment * alignment);
		if (!p)
			std::abort();
		if (armed)
			remember(p);
		return p;
	}
	inline void release(void* p) noexcept
	{
		if (!p)
			return;
		forget(p);
		std::free(p);
	}
}

namespace fault
{
	// runs an operation, memory running out at one of its allocations (or not); returns whether it went to its end
	template<typename F> bool attempt(pbt::Case& c, const char* what, F&& f)
	{
		long k = c.chance(1, 4) ? -1 : static_cast<long>(c.below(c.chance(1, 3) ? 7 : 2));
		fault::sticky = c.coin();
		LOG(what << (k < 0 ? std::string() : " (allocation " + std::to_string(k) + (fault::sticky ? " and the following fail)" : " fails)")));
		fault::countdown = k;
		unsigned before = fault::failed;
		bool done = false;
		fault::armed = true;
		try { f(); done = true; }
		catch (const std::bad_alloc&) {}
		catch (...) { fault::armed = false; throw; }
		fault::armed = false;
		if (done)
			CHECK_EQ(fault::failed, before, "a failed allocation was ignored by", std::string(what));
		else
		{
			CHECK(fault::failed > before, "no allocation failed during", std::string(what));
			LOG("  interrupted");
			c.tag(what);
			c.nontrivial();
		}
		return done;
	}
	// operations which do not have the right to fail: any allocation is refused
	template<typename F> void never(pbt::Case& c, const char* what, F&& f)
	{
		LOG(what);
		fault::countdown = 0;
		fault::sticky = true;
		fault::armed = true;
		try { f(); }
		catch (const std::bad_alloc&) { fault::armed = false; pbt::fail(std::string("allocation needed by ") + what); }
		catch (...) { fault::armed = false; throw; }
		fault::armed = false;
	}
	struct Scope // every allocation made by the operations of a case must be released in the end
	{
		Scope() { fault::reset(); }
		void end() const { CHECK_EQ(fault::taken, std::size_t(0), "allocations never released"); }
	};

	// an element which owns memory: copying it may fail, moving it does not
	struct Mem
	{
		std::unique_ptr<int> p;
		Mem() : p(new int(0)) {}
		Mem(int v) : p(new int(v)) {}
		Mem(const Mem& o) : p(o.p ? new int(*o.p) : nullptr) {}
		Mem(Mem&&) noexcept = default;
		Mem& operator=(const Mem& o) { if (this != &o) { std::unique_ptr<int> q(o.p ? new int(*o.p) : nullptr); p = std::move(q); } return *this; }
		Mem& operator=(Mem&&) noexcept = default;
	};
	struct Big // no memory of its own, not trivial
	{
		int v = 0;
		int* self = &v;
		Big() = default;
		Big(int x) : v(x) {}
		Big(const Big& o) noexcept : v(o.v) {}
		Big& operator=(const Big& o) noexcept { v = o.v; return *this; }
		~Big() { v = -1; self = nullptr; }
	};
	inline int raw(int v) { return v; }
	inline int raw(const Mem& m) { return m.p ? *m.p : -7; }
	inline int raw(const Big& b) { return b.self == &b.v ? b.v : -8; }

}
