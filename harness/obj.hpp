// Element types which record their own life: every construction, copy, move, assignment and destruction is checked
// against a table of the live addresses, and any of them can be made to throw.
#pragma once
#include "pbt.hpp"
#include <cstdlib>
#include <memory>
#include <new>
#include <utility>
#include <vector>

namespace obj
{
	constexpr int DefaultValue = 777;
	constexpr int MovedValue = -1;

	struct Fault {};
	struct Nope;

	struct Registry
	{
		static constexpr std::size_t Size = 1u << 14, LargeSize = 1u << 19; // the table starts small

		struct Entry { const void* ptr; };

		Entry table[LargeSize];
		std::size_t mask = Size - 1;
		std::size_t live;
		std::size_t constructed;
		std::size_t copies; // constructions and assignments from an lvalue
		long countdown; // number of operations on elements before one throws (negative: never)
		bool thrown;

		std::size_t Hash(const void* p) const { return static_cast<std::size_t>(pbt::mix(reinterpret_cast<std::uintptr_t>(p))) & mask; }

		void reset()
		{
			if (live != 0)
				std::memset(table, 0, (mask + 1) * sizeof(Entry));
			mask = Size - 1;
			live = 0;
			constructed = 0;
			copies = 0;
			countdown = -1;
			thrown = false;
		}

		bool has(const void* p) const
		{
			for (std::size_t i = Hash(p);; i = (i + 1) & mask)
			{
				if (table[i].ptr == p)
					return true;
				if (!table[i].ptr)
					return false;
			}
		}

		void add(const void* p)
		{
			if (has(p))
			{
				pbt::g_case->softFail("an element was constructed where another one was alive");
				return;
			}
			if (live > mask / 2)
				grow();
			std::size_t i = Hash(p);
			while (table[i].ptr)
				i = (i + 1) & mask;
			table[i].ptr = p;
			live++;
			constructed++;
		}

		void grow()
		{
			if (mask == LargeSize - 1)
				std::abort();
			std::vector<const void*> all;
			for (std::size_t i = 0; i <= mask; ++i)
				if (table[i].ptr)
					all.push_back(table[i].ptr);
			std::memset(table, 0, (mask + 1) * sizeof(Entry));
			mask = LargeSize - 1;
			for (const void* p : all)
			{
				std::size_t i = Hash(p);
				while (table[i].ptr)
					i = (i + 1) & mask;
				table[i].ptr = p;
			}
		}

		void remove(const void* p)
		{
			if (!has(p))
			{
				pbt::g_case->softFail("an element was destroyed which was not alive");
				return;
			}
			std::size_t i = Hash(p);
			while (table[i].ptr != p)
				i = (i + 1) & mask;
			// backward shift deletion
			std::size_t j = i;
			for (;;)
			{
				table[i].ptr = nullptr;
				for (;;)
				{
					j = (j + 1) & mask;
					if (!table[j].ptr)
					{
						live--;
						return;
					}
					std::size_t h = Hash(table[j].ptr);
					if (i <= j ? (i < h && h <= j) : (i < h || h <= j))
						continue;
					break;
				}
				table[i] = table[j];
				i = j;
			}
		}

		void tick()
		{
			if (countdown >= 0)
			{
				if (countdown-- == 0)
				{
					thrown = true;
					throw Fault{};
				}
			}
		}
	};

	inline Registry reg;

	struct Opt { static constexpr unsigned Copy = 1, Default = 2, NothrowMove = 4, Align = 8, Explicit = 16; };

	// Faults are drawn only in operations which are not noexcept
	template<unsigned Options>
	class alignas((Options & Opt::Align) ? 64 : alignof(void*)) Tracked
	{
		public:
			static constexpr bool NothrowMove = (Options & Opt::NothrowMove) != 0;
			static constexpr bool Copyable = (Options & Opt::Copy) != 0;
			static constexpr bool Default = (Options & Opt::Default) != 0;

			template<bool B = Default, typename = std::enable_if_t<B>>
			Tracked() : m_value((reg.tick(), DefaultValue)) { born(); }

			explicit Tracked(int value) : m_value((reg.tick(), value)) { born(); }
			Tracked(int a, int b) : m_value((reg.tick(), a + b)) { born(); }

			Tracked(std::conditional_t<Copyable, const Tracked&, const Nope&> o) : Tracked(o, 0L) {}

			Tracked(Tracked&& o) noexcept(NothrowMove)
			{
				if constexpr (!NothrowMove)
					reg.tick();
				o.check();
				m_value = o.m_value;
				o.m_value = MovedValue;
				born();
			}

			~Tracked()
			{
				check();
				reg.remove(this);
				m_self = nullptr;
				m_value = -2;
			}

			Tracked& operator=(std::conditional_t<Copyable, const Tracked&, const Nope&> o)
			{
				check();
				o.check();
				reg.tick();
				reg.copies++;
				m_value = o.m_value;
				return *this;
			}

			Tracked& operator=(Tracked&& o) noexcept(NothrowMove)
			{
				check();
				o.check();
				if constexpr (!NothrowMove)
					reg.tick();
				if (this != &o)
				{
					m_value = o.m_value;
					o.m_value = MovedValue;
				}
				return *this;
			}

			int value() const { check(); return m_value; }
			void set(int v) { check(); m_value = v; }

			void check() const
			{
				if (!reg.has(this))
					pbt::g_case->softFail("an element which is not alive was used");
				else if (m_self != this)
					pbt::g_case->softFail("an element was moved without its constructor");
			}

		private:
			Tracked(const Tracked& o, long) : m_value((reg.tick(), o.check(), o.m_value)) { reg.copies++; born(); }

			void born()
			{
				if (reinterpret_cast<std::uintptr_t>(this) % alignof(Tracked) != 0)
					pbt::g_case->softFail("an element was constructed at a misaligned address");
				m_self = this;
				reg.add(this);
			}

			const void* m_self;
			int m_value;
	};
}
