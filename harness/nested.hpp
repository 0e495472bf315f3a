// C40: values inside values. Each type of the library is put in each container, of the library and of the standard, and
// goes through whatever the container does with it.
#pragma once
#include "pbt.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <algorithm>
#include <any>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>

namespace nested
{
	enum class K3 { A, B, C, Max = C };

	inline std::string text(int k) { return "the text of the value number " + std::to_string(k); }
	inline int number(const std::string& s) { const std::string start = "the text of the value number "; return s.compare(0, start.size(), start) == 0 ? std::stoi(s.substr(start.size())) : -1; }

	// what the values of a type are for these tests: made from a number in [0, 256), and read back (-1: broken)
	template<typename X, typename = void> struct Value;

	template<> struct Value<std::string> { static std::string make(int k) { return text(k); } static int read(const std::string& s) { return number(s); } };
	template<> struct Value<std::unique_ptr<int>> { static std::unique_ptr<int> make(int k) { return std::make_unique<int>(k); } static int read(const std::unique_ptr<int>& p) { return p ? *p : -1; } };
	template<> struct Value<int> { static int make(int k) { return k; } static int read(int k) { return k; } };

	template<typename B, typename C> struct Value<Nz::Bitset<B, C>>
	{
		using X = Nz::Bitset<B, C>;
		static X make(int k) { X b(static_cast<std::size_t>(9 + k % 24), (k & 1) != 0); for (unsigned i = 0; i < 8; ++i) b.Set(i, ((k >> i) & 1) != 0); return b; }
		static int read(const X& b) { int k = 0; if (b.GetSize() < 9) return -1; for (unsigned i = 0; i < 8; ++i) k |= b.Test(i) << i; X again = make(k); return again == b && again.GetSize() == b.GetSize() && again.Count() == b.Count() ? k : -1; }
	};
	template<typename T, std::size_t N, typename F> struct Value<Nz::FixedVector<T, N, F>>
	{
		using X = Nz::FixedVector<T, N, F>;
		// as many elements as say the number: inline or not
		static constexpr std::size_t Most = std::is_void_v<F> ? N : N + 3;
		static std::size_t count(int k) { return 1 + static_cast<std::size_t>(k) % Most; }
		static X make(int k) { X v; for (std::size_t i = 0; i < count(k); ++i) v.push_back(Value<T>::make((k + static_cast<int>(i)) % 256)); return v; }
		static int read(const X& v) { if (v.empty()) return -1; const int k = Value<T>::read(v.front()); if (k < 0 || v.size() != count(k)) return -1; for (std::size_t i = 0; i < v.size(); ++i) if (Value<T>::read(v[i]) != (k + static_cast<int>(i)) % 256) return -1; return k; }
	};
	template<typename V, typename E> struct Value<Nz::Result<V, E>>
	{
		using X = Nz::Result<V, E>;
		static X make(int k) { if (k & 1) return X(typename X::ErrorTag{}, Value<E>::make(k)); return X(typename X::ValueTag{}, Value<V>::make(k)); }
		static int read(const X& r) { if (r.IsOk() == r.IsErr()) return -1; const int k = r.IsOk() ? Value<V>::read(r.GetValue()) : Value<E>::read(r.GetError()); return k >= 0 && (k & 1) == r.IsErr() ? k : -1; }
	};
	template<typename E> struct Value<Nz::Result<void, E>>
	{
		using X = Nz::Result<void, E>;
		static X make(int k) { if (k == 0) return Nz::Ok(); return X(typename X::ErrorTag{}, Value<E>::make(k)); }
		static int read(const X& r) { if (r.IsOk() == r.IsErr()) return -1; return r.IsOk() ? 0 : Value<E>::read(r.GetError()); }
	};
	template<typename V> struct Value<Nz::EnumArray<K3, V>>
	{
		using X = Nz::EnumArray<K3, V>;
		static X make(int k) { X a; a[K3::A] = Value<V>::make(k); a[K3::B] = Value<V>::make((k + 1) % 256); a[K3::C] = Value<V>::make((k + 2) % 256); return a; }
		static int read(const X& a) { const int k = Value<V>::read(a[K3::A]); return k >= 0 && Value<V>::read(a[K3::B]) == (k + 1) % 256 && Value<V>::read(a[K3::C]) == (k + 2) % 256 ? k : -1; }
	};
	template<typename T, std::size_t N, std::size_t A> struct Value<Nz::PrivateImpl<T, N, A>>
	{
		using X = Nz::PrivateImpl<T, N, A>;
		static X make(int k) { return X(Value<T>::make(k)); }
		static int read(const X& p) { return p.Get() ? Value<T>::read(*p) : -1; }
	};
	template<typename T> struct Value<Nz::MovableValue<T>>
	{
		using X = Nz::MovableValue<T>;
		static X make(int k) { return X(Value<T>::make(k)); }
		static int read(const X& p) { return Value<T>::read(p.Get()); }
	};

	// a signal and a connection to it, kept together
	struct Emitter
	{
		Nz::Signal<int*> signal;
		mutable Nz::Signal<int*>::ConnectionGuard guard;
		Nz::Signal<int*>::Connection connection;
		Emitter() = default;
		explicit Emitter(int k)
		{
			for (int i = 0; i < k % 3; ++i)
				signal.Connect([](int* out) { *out += 10000; });
			guard.Connect(signal, [k](int* out) { *out += k; });
			connection = signal.Connect([](int* out) { *out += 1000; });
		}
		Emitter(Emitter&&) noexcept = default;
		Emitter& operator=(Emitter&&) noexcept = default;
	};
	template<> struct Value<Emitter>
	{
		static Emitter make(int k) { return Emitter(k); }
		static int read(const Emitter& e)
		{
			int sum = 0;
			e.signal(&sum);
			const int k = sum % 1000;
			if (sum != k + 1000 + k % 3 * 10000 || !e.connection.IsConnected() || !e.guard.GetConnection().IsConnected()) return -1;
			return k;
		}
	};
	// a signal whose connections disconnect when it goes wrong
	template<> struct Value<Nz::Signal<int*>>
	{
		using X = Nz::Signal<int*>;
		static X make(int k) { X s; auto dropped = s.Connect([](int* out) { *out += 100000; }); for (int i = 0; i < k % 3; ++i) s.Connect([](int* out) { *out += 1000; }); s.Connect([k](int* out) { *out += k; }); dropped.Disconnect(); return s; }
		static int read(const X& s) { int sum = 0; s(&sum); int k = sum % 1000; return sum / 1000 == k % 3 ? k : -1; }
	};
	struct Pool
	{
		Nz::MemoryPool<std::string> pool;
		std::vector<std::size_t> indices;
		Pool() : pool(2) {}
		explicit Pool(int k) : pool(static_cast<std::size_t>(1 + k % 3))
		{
			for (int i = 0; i < 4; ++i) { std::size_t index; pool.Allocate(index, text((k + i) % 256)); indices.push_back(index); }
			pool.Free(indices[1]);
			indices.erase(indices.begin() + 1);
		}
		Pool(Pool&&) noexcept = default;
		Pool& operator=(Pool&&) noexcept = default;
	};
	template<> struct Value<Pool>
	{
		static Pool make(int k) { return Pool(k); }
		static int read(const Pool& p)
		{
			if (p.indices.size() != 3 || p.pool.GetAllocatedEntryCount() != 3) return -1;
			const int k = number(*p.pool.RetrieveFromIndex(p.indices[0]));
			if (k < 0 || number(*p.pool.RetrieveFromIndex(p.indices[1])) != (k + 2) % 256 || number(*p.pool.RetrieveFromIndex(p.indices[2])) != (k + 3) % 256) return -1;
			std::size_t n = 0;
			for (const std::string& s : p.pool) { if (number(s) < 0) return -1; ++n; }
			return n == 3 ? k : -1;
		}
	};
	// owners of what they point to
	struct Owner
	{
		Nz::MovablePtr<int> ptr = nullptr;
		Nz::MovableLiteral<int, -5> literal;
		Owner() = default;
		explicit Owner(int k) : ptr(new int(k)), literal(k) {}
		Owner(Owner&&) noexcept = default;
		Owner& operator=(Owner&& o) noexcept { if (this != &o) { delete ptr.Get(); ptr = nullptr; ptr = std::move(o.ptr); literal = std::move(o.literal); } return *this; }
		~Owner() { delete ptr.Get(); }
	};
	template<> struct Value<Owner> { static Owner make(int k) { return Owner(k); } static int read(const Owner& o) { return o.ptr.Get() && *o.ptr.Get() == o.literal.Get() ? o.literal.Get() : -1; } };
	// what only refers
	struct Views
	{
		Nz::SparsePtr<const int> ptr;
		Nz::FunctionRef<int(int)> function;
		static const int* table() { static const auto t = [] { std::array<int, 512> a; for (std::size_t i = 0; i < a.size(); ++i) a[i] = static_cast<int>(i / 2); return a; }(); return t.data(); }
		static int twice(int k) { return k * 2; }
		static int thrice(int k) { return k * 3; }
		explicit Views(int k) : ptr(table() + k * 2, static_cast<int>(2 * sizeof(int))), function((k & 1) ? twice : thrice) {}
	};
	template<> struct Value<Views> { static Views make(int k) { return Views(k); } static int read(const Views& v) { const int k = *v.ptr; return v.ptr[0] == k && (k == 255 || v.ptr[1] == k + 1) && v.function(7) == ((k & 1) ? 14 : 21) ? k : -1; } };

	template<typename X> constexpr bool Copies = std::is_copy_constructible_v<X> && std::is_copy_assignable_v<X>;
	// vectors of a type which cannot be copied are still "copy constructible": what they hold decides
	template<> inline constexpr bool Copies<Nz::Signal<int*>> = false; // a copied signal is a new one
	template<typename T, std::size_t N, typename F> inline constexpr bool Copies<Nz::FixedVector<T, N, F>> = Copies<T>;
	template<typename V, typename E> inline constexpr bool Copies<Nz::Result<V, E>> = (std::is_void_v<V> || Copies<V>) && Copies<E>;
	template<typename V> inline constexpr bool Copies<Nz::EnumArray<K3, V>> = Copies<V>;
	template<typename T, std::size_t N, std::size_t A> inline constexpr bool Copies<Nz::PrivateImpl<T, N, A>> = Copies<T>;
	template<typename T> inline constexpr bool Copies<Nz::MovableValue<T>> = Copies<T>;

	template<typename X> int key(const X& x) { return Value<X>::read(x); }

	struct Ctx { pbt::Case& c; int last = 0; int fresh() { return last = static_cast<int>(c.below(256)); } };

	template<typename V, typename X> void same(pbt::Case& c, const V& v, const std::vector<int>& model, const char* after)
	{
		CHECK_EQ(static_cast<std::size_t>(v.size()), model.size(), "size after", after);
		std::size_t i = 0;
		for (const X& x : v)
		{
			CHECK_EQ(key(x), model[i], "value", i, "after", after);
			++i;
		}
		CHECK_EQ(i, model.size());
		c.flush();
	}

	// --- sequences
	template<typename V, typename X, std::size_t Limit> void sequence(pbt::Case& c, V& v, std::vector<int>& model)
	{
		Ctx ctx{ c };
		for (std::size_t n = c.size(1, 10); n > 0; --n)
		{
			const std::size_t at = c.size(0, model.size());
			const auto d = static_cast<std::ptrdiff_t>(at);
			const char* what = "";
			switch (c.below(14))
			{
				case 0: case 1: case 2: if (model.size() < Limit) { what = "push_back"; const int k = ctx.fresh(); v.push_back(Value<X>::make(k)); model.push_back(k); } break;
				case 3: if (model.size() < Limit) { what = "emplace_back"; const int k = ctx.fresh(); v.emplace_back(Value<X>::make(k)); model.push_back(k); } break;
				case 4: if (model.size() < Limit) { what = "insert"; const int k = ctx.fresh(); auto it = v.insert(v.begin() + d, Value<X>::make(k)); CHECK_EQ(key(*it), k, "value at the position inserted at"); model.insert(model.begin() + d, k); } break;
				case 5: if (at < model.size()) { what = "erase"; v.erase(v.begin() + d); model.erase(model.begin() + d); } break;
				case 6: { what = "erase a range"; const auto e = static_cast<std::ptrdiff_t>(c.size(at, model.size())); v.erase(v.begin() + d, v.begin() + e); model.erase(model.begin() + d, model.begin() + e); } break;
				case 7: { what = "sort"; std::stable_sort(v.begin(), v.end(), [](const X& a, const X& b) { return key(a) < key(b); }); std::stable_sort(model.begin(), model.end()); } break;
				case 8: { what = "rotate"; std::rotate(v.begin(), v.begin() + d, v.end()); std::rotate(model.begin(), model.begin() + d, model.end()); } break;
				case 9: if (!model.empty()) { what = "swap of elements"; const std::size_t o = c.below(model.size()), o2 = c.below(model.size()); if (o != o2) { std::swap(v[o], v[o2]); std::swap(model[o], model[o2]); } } break;
				case 10: if (!model.empty()) { what = "assignment to an element"; const std::size_t o = c.below(model.size()); const int k = ctx.fresh(); v[o] = Value<X>::make(k); model[o] = k; } break;
				case 11: if (!model.empty()) { what = "an element moved out and pop_back"; { X out(std::move(v.back())); CHECK_EQ(key(out), model.back(), "value moved out"); } v.pop_back(); model.pop_back(); } break;
				case 12: { what = "move of the container"; V other(std::move(v)); same<V, X>(c, other, model, "a move of the container"); if (c.coin()) v = std::move(other); else { v.clear(); v = std::move(other); } } break;
				default:
					if constexpr (Copies<X> && std::is_copy_constructible_v<V>)
					{
						what = "copy of the container";
						V other(v);
						same<V, X>(c, other, model, "a copy of the container");
						if (!model.empty()) { const int k = ctx.fresh(); other[0] = Value<X>::make(k); CHECK_EQ(key(v[0]), model[0], "the original, once the copy changed"); if (c.coin()) { v = other; model[0] = k; } }
						if (model.size() < Limit && !model.empty()) { const X& inside = v.front(); X copy(inside); v.push_back(copy); model.push_back(model.front()); }
					}
					else { what = "clear"; v.clear(); model.clear(); }
					break;
			}
			if (*what) { LOG(what << " at " << at << ", " << ctx.last); c.tag(what); }
			if (model.size() > 1) c.nontrivial();
			same<V, X>(c, v, model, what);
		}
	}
	template<typename X> void inSequences(pbt::Case& c)
	{
		std::vector<int> model;
		switch (c.below(5))
		{
			case 0: { LOG("in std::vector"); c.tag("std::vector"); std::vector<X> v; sequence<std::vector<X>, X, 12>(c, v, model); break; }
			case 1: { LOG("in std::deque"); c.tag("std::deque"); std::deque<X> v; sequence<std::deque<X>, X, 12>(c, v, model); break; }
			case 2: { LOG("in FixedVector"); c.tag("FixedVector"); using V = Nz::FixedVector<X, 8>; auto v = std::make_unique<V>(); sequence<V, X, 8>(c, *v, model); break; }
			case 3: { LOG("in HybridVector"); c.tag("HybridVector"); using V = Nz::HybridVector<X, 3>; auto v = std::make_unique<V>(); sequence<V, X, 10>(c, *v, model); break; }
			default:
			{
				LOG("in StackVector"); c.tag("StackVector");
				std::unique_ptr<unsigned char[]> memory(new unsigned char[sizeof(X) * 8 + alignof(X)]), memory2;
				void* p = memory.get(); std::size_t space = sizeof(X) * 8 + alignof(X);
				std::align(alignof(X), sizeof(X) * 8, p, space);
				Nz::StackVector<X> v(static_cast<X*>(p), 8);
				sequence<Nz::StackVector<X>, X, 8>(c, v, model);
				break;
			}
		}
	}

	// --- holders of one value. Each gives a value a place, and gives it back
	template<typename X> struct InOptional { std::optional<X> h; void set(int k) { h.emplace(Value<X>::make(k)); } int get() const { return h ? key(*h) : -1; } static constexpr const char* Name = "std::optional"; };
	template<typename X> struct InVariant { std::variant<std::monostate, X, std::string> h; void set(int k) { if (k & 1) h.template emplace<2>("nothing of that kind, and long"); h.template emplace<1>(Value<X>::make(k)); } int get() const { return h.index() == 1 ? key(std::get<1>(h)) : -1; } static constexpr const char* Name = "std::variant"; };
	template<typename X> struct InTuple { std::optional<std::tuple<int, X, std::string>> h; void set(int k) { h.emplace(k, Value<X>::make(k), text(k)); } int get() const { return h && std::get<0>(*h) == key(std::get<1>(*h)) && text(std::get<0>(*h)) == std::get<2>(*h) ? std::get<0>(*h) : -1; } static constexpr const char* Name = "std::tuple"; };
	template<typename X> struct InResult { Nz::Result<X, std::string> h{ typename Nz::Result<X, std::string>::ErrorTag{}, "none" }; void set(int k) { h = Nz::Result<X, std::string>(typename Nz::Result<X, std::string>::ValueTag{}, Value<X>::make(k)); } int get() const { return h.IsOk() ? key(h.GetValue()) : -1; } static constexpr const char* Name = "value of a Result"; };
	template<typename X> struct InError { Nz::Result<std::string, X> h{ typename Nz::Result<std::string, X>::ValueTag{}, "none" }; void set(int k) { h = Nz::Result<std::string, X>(typename Nz::Result<std::string, X>::ErrorTag{}, Value<X>::make(k)); } int get() const { return h.IsErr() ? key(h.GetError()) : -1; } static constexpr const char* Name = "error of a Result"; };
	template<typename X> struct InMovable { std::optional<Nz::MovableValue<X>> h; void set(int k) { h.emplace(Value<X>::make(k)); } int get() const { return h ? key(h->Get()) : -1; } static constexpr const char* Name = "MovableValue"; };
	template<typename X> struct InPimpl { Nz::PrivateImpl<X> h{ nullptr }; void set(int k) { if (h.HasValue() && (k & 1)) *h = Value<X>::make(k); else { h.Reset(); h.Emplace(Value<X>::make(k)); } } int get() const { return h.HasValue() ? key(*h) : -1; } static constexpr const char* Name = "PrivateImpl"; };
	template<typename X> struct InPlace
	{
		using P = Nz::PrivateImpl<X, sizeof(X) + 8, alignof(X)>;
		P h{ Value<X>::make(0) };
		void set(int k) { if (k & 1) h = P(Value<X>::make(k)); else *h = Value<X>::make(k); }
		int get() const { return key(*h); }
		static constexpr const char* Name = "PrivateImpl in place";
	};
	// the values of one array, spread over its keys
	template<typename X> struct InArray { std::optional<Nz::EnumArray<K3, Nz::HybridVector<X, 1>>> h; void set(int k) { if (!h) h.emplace(); for (auto&& [e, v] : h->iter_kv()) { v.clear(); for (int i = 0; i <= static_cast<int>(e); ++i) v.push_back(Value<X>::make(k)); } } int get() const { if (!h) return -1; const int k = h->front().empty() ? -1 : key(h->front().front()); for (auto&& [e, v] : h->iter_kv()) { if (v.size() != static_cast<std::size_t>(e) + 1) return -1; for (const X& x : v) if (key(x) != k) return -1; } return k; } static constexpr const char* Name = "EnumArray of HybridVector"; };

	template<typename H, typename X> void holder(pbt::Case& c)
	{
		constexpr std::size_t N = 3;
		LOG("in " << H::Name);
		c.tag(H::Name);
		std::vector<std::unique_ptr<H>> h; // each in memory of its own
		std::vector<std::optional<int>> model(N);
		for (std::size_t i = 0; i < N; ++i) h.push_back(std::make_unique<H>());
		Ctx ctx{ c };
		for (std::size_t n = c.size(1, 10); n > 0; --n)
		{
			const std::size_t i = c.below(N), j = (i + 1 + c.below(N - 1)) % N;
			const char* what = "";
			switch (c.below(7))
			{
				case 0: case 1: { what = "set"; const int k = ctx.fresh(); h[i]->set(k); model[i] = k; break; }
				case 2: what = "move construction"; h[j] = std::make_unique<H>(std::move(*h[i])); model[j] = model[i]; model[i].reset(); break;
				case 3: what = "move assignment"; *h[j] = std::move(*h[i]); model[j] = model[i]; model[i].reset(); break;
				case 4: if (model[i] && model[j]) { what = "swap"; std::swap(h[i]->h, h[j]->h); std::swap(model[i], model[j]); } break;
				case 5:
					if constexpr (Copies<X> && std::is_copy_constructible_v<H>)
						if (model[i]) { what = "copy construction"; h[j] = std::make_unique<H>(*h[i]); model[j] = model[i]; }
					break;
				default:
					if constexpr (Copies<X> && std::is_copy_assignable_v<H>)
						if (model[i]) { what = "copy assignment"; *h[j] = std::as_const(*h[i]); model[j] = model[i]; }
					break;
			}
			if (*what) { LOG(what << " " << i << " " << j << ", " << ctx.last); c.tag(what); }
			std::size_t held = 0;
			for (std::size_t k = 0; k < N; ++k)
				if (model[k]) { CHECK_EQ(h[k]->get(), *model[k], "value of holder", k, "after", what); ++held; }
			if (held > 1) c.nontrivial();
			c.flush();
		}
	}
	template<typename X> void inHolders(pbt::Case& c)
	{
		switch (c.below(9))
		{
			case 0: return holder<InOptional<X>, X>(c);
			case 1: return holder<InVariant<X>, X>(c);
			case 2: return holder<InTuple<X>, X>(c);
			case 3: return holder<InResult<X>, X>(c);
			case 4: return holder<InError<X>, X>(c);
			case 5: return holder<InMovable<X>, X>(c);
			case 6: return holder<InPimpl<X>, X>(c);
			case 7: return holder<InPlace<X>, X>(c);
			default: return holder<InArray<X>, X>(c);
		}
	}

	// --- tables
	template<typename X> struct InMap { std::map<int, X> h; bool add(int n, int k) { return h.emplace(n, Value<X>::make(k)).second; } void drop(int n) { h.erase(n); } X* at(int n) { auto it = h.find(n); return it == h.end() ? nullptr : &it->second; } std::size_t size() const { return h.size(); } static constexpr const char* Name = "std::map"; };
	template<typename X> struct InHash { std::unordered_map<int, X> h; bool add(int n, int k) { return h.emplace(n, Value<X>::make(k)).second; } void drop(int n) { h.erase(n); } X* at(int n) { auto it = h.find(n); return it == h.end() ? nullptr : &it->second; } std::size_t size() const { return h.size(); } static constexpr const char* Name = "std::unordered_map"; };
	template<typename X> struct InPool
	{
		Nz::MemoryPool<X> h{ 2 };
		std::map<int, std::size_t> indices;
		bool add(int n, int k) { if (indices.count(n)) return false; std::size_t index; X* x = h.Allocate(index, Value<X>::make(k)); indices[n] = index; return x == h.RetrieveFromIndex(index); }
		void drop(int n) { h.Free(indices.at(n)); indices.erase(n); }
		X* at(int n) { auto it = indices.find(n); return it == indices.end() ? nullptr : h.RetrieveFromIndex(it->second); }
		std::size_t size() const { std::size_t n = 0; for (const X& x : h) { if (key(x) < 0) return 1000; ++n; } return n == h.GetAllocatedEntryCount() ? n : 2000; }
		static constexpr const char* Name = "MemoryPool";
	};
	template<typename M, typename X> void table(pbt::Case& c)
	{
		LOG("in " << M::Name);
		c.tag(M::Name);
		auto m = std::make_unique<M>();
		std::map<int, int> model;
		std::map<int, const X*> places;
		Ctx ctx{ c };
		for (std::size_t n = c.size(1, 14); n > 0; --n)
		{
			const int name = static_cast<int>(c.below(8));
			switch (c.below(8))
			{
				case 0: case 1: case 2: case 3:
				{
					const int k = ctx.fresh();
					LOG("add " << name << ": " << k);
					if (!model.count(name)) { CHECK(m->add(name, k)); model[name] = k; places[name] = m->at(name); }
					break;
				}
				case 4: case 5: LOG("drop " << name); if (model.count(name)) { m->drop(name); model.erase(name); places.erase(name); } break;
				case 6: { const int k = ctx.fresh(); LOG("assign " << name << ": " << k); if (X* x = m->at(name)) { *x = Value<X>::make(k); model[name] = k; } break; }
				default: { LOG("move of the table"); auto other = std::make_unique<M>(std::move(*m)); if (c.coin()) m = std::move(other); else { m = std::make_unique<M>(); *m = std::move(*other); } break; }
			}
			if (model.size() > 1) c.nontrivial();
			CHECK_EQ(m->size(), model.size(), "values in the table");
			for (auto& [n2, k] : model)
			{
				X* x = m->at(n2);
				CHECK(x, "a value of the table", n2);
				CHECK_EQ(key(*x), k, "value", n2);
				CHECK(x == places[n2], "a value of the table moved", n2);
			}
			c.flush();
		}
	}
	template<typename X> void inTables(pbt::Case& c)
	{
		switch (c.below(3))
		{
			case 0: return table<InMap<X>, X>(c);
			case 1: return table<InHash<X>, X>(c);
			default: return table<InPool<X>, X>(c);
		}
	}

	template<typename X> void everywhere(pbt::Case& c)
	{
		static_assert(std::is_nothrow_move_constructible_v<X> && std::is_nothrow_move_assignable_v<X>, "moves which may throw: growing vectors would copy");
		switch (c.below(5))
		{
			case 0: case 1: return inSequences<X>(c);
			case 2: case 3: return inHolders<X>(c);
			default: return inTables<X>(c);
		}
	}
	template<typename X, int N = 40000> struct Register { Register(const char* name) : r(name, N, &everywhere<X>) {} pbt::Registrar r; };
}
// each of the two quick configurations has half of the types, so that their compilation stays affordable
#if defined(PBT_THOROUGH)
	#define NESTED_HERE 3
#elif defined(NAZARA_DEBUG)
	#define NESTED_HERE 1
#else
	#define NESTED_HERE 2
#endif
#define NESTED(name, ...) static nested::Register<__VA_ARGS__> PBT_CAT(nested_, __LINE__)(name);
