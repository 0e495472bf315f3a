// Objects held by PrivateImpl, in place or on the heap: value and lifetime, through copies, moves and failures
#include "vechist.hpp"
#include <NazaraUtils/PrivateImpl.hpp>

namespace
{
	using vec::Elem;
	using Full = obj::Tracked<obj::Opt::Copy | obj::Opt::Default | obj::Opt::NothrowMove>;
	using Aligned = obj::Tracked<obj::Opt::Copy | obj::Opt::Default | obj::Opt::NothrowMove | obj::Opt::Align>;
	using NoDefault = obj::Tracked<obj::Opt::Copy | obj::Opt::NothrowMove>;
	using MoveOnly = obj::Tracked<obj::Opt::NothrowMove>;

	// copyable, but not assignable
	struct Fixed : NoDefault
	{
		using NoDefault::NoDefault;
		Fixed(const Fixed&) = default;
		Fixed(Fixed&&) = default;
		Fixed& operator=(const Fixed&) = delete;
		Fixed& operator=(Fixed&&) = delete;
	};
}

namespace
{
	template<typename P, typename T, bool Heap> struct History
	{
		static constexpr bool Copyable = std::is_copy_constructible_v<T>;
		static constexpr bool Default = std::is_default_constructible_v<T>;
		struct Slot { std::unique_ptr<P> p; bool specified = true; bool has = false; int value = 0; };
		pbt::Case& c;
		Slot slots[3];
		int next = 1;

		explicit History(pbt::Case& cc) : c(cc) {}

		template<typename F> bool guarded(F&& f)
		{
			if (c.chance(1, 3))
			{
				obj::reg.countdown = static_cast<long>(c.below(2));
				LOG("   (element operation " << obj::reg.countdown << " throws)");
				try { f(); obj::reg.countdown = -1; return true; }
				catch (const obj::Fault&) { obj::reg.countdown = -1; c.tag("copy interrupted by an exception"); return false; }
			}
			f();
			return true;
		}

		void create(std::size_t i)
		{
			Slot& s = slots[i];
			s.specified = true;
			if constexpr (Heap)
			{
				if (c.chance(1, 4))
				{
					LOG("p" << i << ": empty");
					s.p = std::make_unique<P>(nullptr);
					s.has = false;
					return;
				}
				if (c.chance(1, 6))
				{
					s.value = next++;
					LOG("p" << i << ": takes a pointer to " << s.value);
					T* ptr = new T(s.value);
					s.p = std::make_unique<P>(ptr);
					s.has = true;
					CHECK(s.p->Get() == ptr);
					return;
				}
			}
			s.has = true;
			if constexpr (Default)
			{
				if (c.chance(1, 5))
				{
					LOG("p" << i << ": default");
					s.p = std::make_unique<P>();
					s.value = obj::DefaultValue;
					return;
				}
			}
			s.value = next++;
			LOG("p" << i << ": " << s.value);
			if (c.coin()) s.p = std::make_unique<P>(s.value);
			else s.p = std::make_unique<P>(s.value - 1, 1);
		}

		void step()
		{
			std::size_t i = c.below(3), o = (i + 1 + c.below(2)) % 3;
			Slot& s = slots[i];
			Slot& so = slots[o];
			if (!s.p)
			{
				create(i);
				return;
			}
			switch (c.below(10))
			{
				case 0: case 1: // copy assignment
					if constexpr (Copyable)
					{
						bool self = c.chance(1, 5);
						Slot& from = self ? s : so;
						if (!from.p || !from.specified) return;
						LOG("p" << i << " = p" << (self ? i : o));
						bool had = s.has && s.specified;
						P& dst = *s.p;
						const P& src = *from.p;
						if (guarded([&] { P& r = (dst = src); CHECK(&r == &dst); }))
						{
							s.has = from.has;
							s.value = from.value;
							s.specified = true;
						}
						else if (had)
						{
							// the object which was there is still one, whatever its value
							s.value = s.p->Get()->value();
						}
						else
							s.specified = false, s.has = Heap ? static_cast<bool>(s.p->Get()) : true;
						c.tag(self ? "self assignment" : "copy assignment");
						c.nontrivial();
					}
					break;
				case 2: case 3: // move assignment
				{
					bool self = c.chance(1, 5);
					Slot& from = self ? s : so;
					if (!from.p || !from.specified) return;
					LOG("p" << i << " = std::move(p" << (self ? i : o) << ")");
					obj::reg.copies = 0;
					P& r = (*s.p = std::move(*from.p));
					CHECK(&r == s.p.get());
					CHECK_EQ(obj::reg.copies, std::size_t(0), "the object was copied instead of moved");
					if (self)
					{
						if constexpr (!Heap) { s.value = s.p->Get()->value(); }
						else { s.has = s.p->Get() != nullptr; if (s.has) s.value = s.p->Get()->value(); }
						c.tag("self assignment");
					}
					else
					{
						s.has = from.has;
						s.value = from.value;
						s.specified = true;
						from.specified = false;
						c.tag("move assignment");
					}
					c.nontrivial();
					break;
				}
				case 4:
					if constexpr (Copyable)
					{
						if (!so.p || !so.specified) return;
						LOG("p" << i << " destroyed, then copied from p" << o);
						s.p.reset();
						if (guarded([&] { s.p = std::make_unique<P>(std::as_const(*so.p)); }))
						{
							s.has = so.has;
							s.value = so.value;
							s.specified = true;
						}
						c.nontrivial();
					}
					break;
				case 5:
					if (!so.p || !so.specified) return;
					LOG("p" << i << " destroyed, then built from std::move(p" << o << ")");
					s.p.reset();
					obj::reg.copies = 0;
					s.p = std::make_unique<P>(std::move(*so.p));
					CHECK_EQ(obj::reg.copies, std::size_t(0), "the object was copied instead of moved");
					s.has = so.has;
					s.value = so.value;
					s.specified = true;
					so.specified = false;
					c.nontrivial();
					break;
				case 6:
					LOG("p" << i << " destroyed");
					s.p.reset();
					break;
				case 7:
					if (!s.specified || !s.has) return;
					s.value = next++;
					LOG("*p" << i << " set to " << s.value);
					switch (c.below(4))
					{
						case 0: (**s.p).set(s.value); break;
						case 1: (*s.p)->set(s.value); break;
						case 2: s.p->Get()->set(s.value); break;
						default: { T* t = *s.p; t->set(s.value); break; }
					}
					break;
				case 8:
					if constexpr (Heap)
					{
						LOG("p" << i << ".Reset()");
						s.p->Reset();
						s.has = false;
						s.specified = true;
						c.nontrivial();
					}
					break;
				case 9:
					if constexpr (Heap)
					{
						if (!s.specified || s.has) return;
						int v = next++;
						LOG("p" << i << ".Emplace(" << v << ")");
						if (guarded([&] { T& r = s.p->Emplace(v); CHECK(&r == s.p->Get()); }))
						{
							s.has = true;
							s.value = v;
						}
						c.nontrivial();
					}
					break;
			}
		}

		void verify()
		{
			c.flush();
			std::size_t live = 0;
			for (std::size_t i = 0; i < 3; ++i)
			{
				Slot& s = slots[i];
				if (!s.p)
					continue;
				P& p = *s.p;
				const P& cp = p;
				if constexpr (Heap)
				{
					bool has = cp.Get() != nullptr;
					live += has;
					CHECK_EQ(cp.HasValue(), has);
					CHECK_EQ(static_cast<bool>(cp), has);
					if (s.specified)
						CHECK_EQ(has, s.has, "p", i);
				}
				else
				{
					live++;
					const unsigned char* a = reinterpret_cast<const unsigned char*>(cp.Get());
					const unsigned char* b = reinterpret_cast<const unsigned char*>(&cp);
					CHECK(a >= b && a + sizeof(T) <= b + sizeof(P), "the object is not stored in place");
				}
				if (!s.specified || !s.has)
					continue;
				CHECK_EQ(cp.Get()->value(), s.value, "p", i);
				CHECK(p.Get() == cp.Get() && &*p == cp.Get() && &*cp == cp.Get() && p.operator->() == cp.Get() && cp.operator->() == cp.Get());
				T* t = p;
				const T* ct = cp;
				CHECK(t == cp.Get() && ct == cp.Get());
				for (std::size_t j = 0; j < i; ++j)
					if (slots[j].p && slots[j].specified && slots[j].has)
						CHECK(static_cast<const P&>(*slots[j].p).Get() != ct, "two objects in one place");
			}
			c.flush();
			CHECK_EQ(obj::reg.live, live, "objects alive");
		}
	};

	template<typename P, typename T, bool Heap> void history(pbt::Case& c)
	{
		obj::reg.reset();
		{
			History<P, T, Heap> h(c);
			for (std::size_t k = 0, n = c.size(1, 14); k < n; ++k)
			{
				h.step();
				h.verify();
			}
		}
		c.flush();
		CHECK_EQ(obj::reg.live, std::size_t(0), "objects still alive");
	}
}
PBT_TARGET("heap", 120000, &history<Nz::PrivateImpl<Full>, Full, true>)
PBT_TARGET("heap, over-aligned", 60000, &history<Nz::PrivateImpl<Aligned>, Aligned, true>)
PBT_TARGET("heap, not assignable", 100000, &history<Nz::PrivateImpl<Fixed>, Fixed, true>)
PBT_TARGET("heap, move-only", 60000, &history<Nz::PrivateImpl<MoveOnly>, MoveOnly, true>)
PBT_TARGET("in place", 120000, &history<Nz::PrivateImpl<Full, sizeof(Full)>, Full, false>)
PBT_TARGET("in place, larger buffer", 60000, &history<Nz::PrivateImpl<NoDefault, 3 * sizeof(NoDefault)>, NoDefault, false>)
PBT_TARGET("in place, over-aligned", 60000, &history<Nz::PrivateImpl<Aligned, sizeof(Aligned), alignof(Aligned)>, Aligned, false>)
PBT_TARGET("in place, move-only", 60000, &history<Nz::PrivateImpl<MoveOnly, sizeof(MoveOnly)>, MoveOnly, false>)
PBT_TARGET("in place, not assignable", 60000, &history<Nz::PrivateImpl<Fixed, sizeof(Fixed)>, Fixed, false>)
