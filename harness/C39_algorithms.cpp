// C39: containers and their iterators work with the algorithms, adaptors and insertion iterators of the standard library
// as the standard containers do.
#include "pbt.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif

namespace
{
	// Ordered by key; which of equal items it is shows in its id. The payload makes a wrong copy, move or lifetime visible
	template<bool Copyable> struct Item;
	template<> struct Item<true>
	{
		int key = 0, id = 0;
		std::string payload = "default payload, not a small one";
		Item() = default;
		Item(int k, int i) : key(k), id(i), payload("payload of the item number " + std::to_string(k * 1000 + i)) {}
		bool sound() const { return id == 0 ? payload == "default payload, not a small one" : payload == "payload of the item number " + std::to_string(key * 1000 + id); }
	};
	template<> struct Item<false>
	{
		int key = 0, id = 0;
		std::unique_ptr<int> payload;
		Item() = default;
		Item(int k, int i) : key(k), id(i), payload(std::make_unique<int>(k * 1000 + i)) {}
		Item(Item&&) noexcept = default;
		Item& operator=(Item&&) noexcept = default;
		bool sound() const { return id == 0 || (payload && *payload == key * 1000 + id); }
	};
	template<bool C> bool operator<(const Item<C>& a, const Item<C>& b) { return a.key < b.key; }
	template<bool C> bool operator==(const Item<C>& a, const Item<C>& b) { return a.key == b.key; }
	template<bool C> bool operator!=(const Item<C>& a, const Item<C>& b) { return a.key != b.key; }

	using Copies = Item<true>;
	using Moves = Item<false>;

	int keyOf(int v) { return v; }
	template<bool C> int keyOf(const Item<C>& v) { return v.key; }
	int idOf(int v) { return v; }
	template<bool C> int idOf(const Item<C>& v) { return v.key * 1000 + v.id; }
	bool soundOf(int) { return true; }
	template<bool C> bool soundOf(const Item<C>& v) { return v.sound(); }
	void make(int& v, int k, int) { v = k; }
	template<bool C> void make(Item<C>& v, int k, int i) { v = Item<C>(k, i); }
	template<typename T> T made(int k, int i) { T t{}; make(t, k, i); return t; }

	template<typename T> constexpr bool IsCopyable = std::is_copy_constructible_v<T>;

	struct Params
	{
		unsigned which;
		std::size_t from, to, middle; // a part of the range
		int key, key2;
		std::uint32_t seed;
	};

	// One algorithm over [b, e), with everything it returns
	template<typename T, typename It>
	std::vector<long long> inPlace(const Params& p, It b, It e)
	{
		std::vector<long long> out;
		const auto n = e - b;
		It f = b + static_cast<std::ptrdiff_t>(p.from), t = b + static_cast<std::ptrdiff_t>(p.to), m = b + static_cast<std::ptrdiff_t>(p.middle);
		auto pos = [&](It it) { out.push_back(it - b); };
		auto small = [&](const T& v) { return keyOf(v) < p.key; };
		auto odd = [](const T& v) { return (keyOf(v) & 1) != 0; };
		auto greater = [](const T& x, const T& y) { return y < x; };
		const T key = made<T>(p.key, 1);
		switch (p.which)
		{
			case 0: std::sort(f, t); break;
			case 1: std::stable_sort(f, t); break;
			case 2: std::reverse(f, t); break;
			case 3: pos(std::rotate(f, m, t)); break;
			case 4: pos(std::partition(f, t, small)); break;
			case 5: pos(std::stable_partition(f, t, odd)); break;
			case 6: if (m != t) std::nth_element(f, m, t); break;
			case 7: pos(std::remove_if(f, t, small)); for (It it = b + out.back(); it != t; ++it) make(*it, 0, 9); break;
			case 8: pos(std::unique(f, t)); for (It it = b + out.back(); it != t; ++it) make(*it, 0, 9); break;
			case 9: std::make_heap(f, t); out.push_back(std::is_heap(f, t)); if (f != t) { std::pop_heap(f, t); out.push_back(keyOf(*std::prev(t))); std::push_heap(f, t); } std::sort_heap(f, t); break;
			case 10: std::stable_sort(f, m); std::stable_sort(m, t); std::inplace_merge(f, m, t); break;
			case 11: std::partial_sort(f, m, t, greater); break;
			case 12: std::shuffle(f, t, std::mt19937(p.seed)); break;
			case 13: out.push_back(std::next_permutation(f, t)); break;
			case 14: out.push_back(std::prev_permutation(f, t)); break;
			case 15: { auto k = std::min(m - f, t - m); pos(std::swap_ranges(f, f + k, m)); break; }
			case 16: if (f != t) std::iter_swap(f, std::prev(t)); break;
			case 17: if (m != f) { auto k = std::min(m - f, e - m); std::move_backward(f, f + k, m + k); for (It it = f; it != std::min(f + k, m); ++it) make(*it, 1, 7); break; }
			case 18: if (m != f) { auto k = t - m; std::move(m, t, f); for (It it = std::max(f + k, m); it != t; ++it) make(*it, 2, 8); break; }
			case 19: pos(std::find(b, e, key)); pos(std::find_if(f, t, odd)); pos(std::find_if_not(f, t, small)); break;
			case 20: out.push_back(std::count(f, t, key)); out.push_back(std::count_if(f, t, odd)); out.push_back(std::all_of(f, t, small)); out.push_back(std::any_of(f, t, small)); out.push_back(std::none_of(f, t, odd)); break;
			case 21: std::sort(b, e); pos(std::lower_bound(b, e, key)); pos(std::upper_bound(b, e, key)); { auto r = std::equal_range(f, t, key); pos(r.first); pos(r.second); } out.push_back(std::binary_search(f, t, key)); pos(std::is_sorted_until(f, t)); break;
			case 22: if (f != t) { pos(std::min_element(f, t)); pos(std::max_element(f, t)); auto r = std::minmax_element(f, t); pos(r.first); pos(r.second); } break;
			case 23: pos(std::adjacent_find(f, t)); pos(std::search(b, e, f, m)); pos(std::find_end(b, e, m, t)); pos(std::search_n(f, t, 2, key)); break;
			case 24: out.push_back(std::equal(f, m, m, t)); out.push_back(std::lexicographical_compare(f, m, m, t)); { auto r = std::mismatch(f, m, m, t); pos(r.first); pos(r.second); } out.push_back(std::is_permutation(f, m, m, t)); break;
			case 25: out.push_back(std::accumulate(f, t, 7LL, [](long long s, const T& v) { return (s * 31 + idOf(v)) % 1000003; })); out.push_back(std::inner_product(f, m, f, 0LL, std::plus<>(), [](const T& x, const T& y) { return static_cast<long long>(keyOf(x)) * keyOf(y); })); break;
			case 26: { int i = 0; std::generate(f, t, [&] { ++i; return made<T>(p.key2 + i % 5, i); }); break; }
			case 27: std::for_each(f, t, [&](T& v) { make(v, keyOf(v) + 1, 3); }); break;
			case 28: if constexpr (IsCopyable<T>) { std::fill(f, t, key); pos(std::fill_n(m, t - m, made<T>(p.key2, 2))); } break;
			case 29: if constexpr (IsCopyable<T>) { std::replace_if(f, t, odd, key); std::replace(b, e, key, made<T>(p.key2, 4)); } break;
			case 30: if constexpr (IsCopyable<T>) if (m != f) { auto k = std::min(m - f, e - m); std::copy_backward(f, f + k, m + k); pos(std::copy(m, t, f)); } break;
			case 31: if constexpr (IsCopyable<T>) { pos(std::transform(f, t, f, [&](const T& v) { return made<T>(keyOf(v) * 2, 5); })); } break;
			case 32:
				pos(std::next(b, m - b)); pos(std::prev(e, e - m)); out.push_back(std::distance(f, t)); out.push_back(n);
				{ It it = b; std::advance(it, static_cast<std::ptrdiff_t>(p.to)); pos(it); std::advance(it, static_cast<std::ptrdiff_t>(p.from) - static_cast<std::ptrdiff_t>(p.to)); pos(it); if (it != e) out.push_back(idOf(it[0])); if (b != e) out.push_back(idOf(e[-1])); out.push_back((f < t) * 8 + (f <= m) * 4 + (m > f) * 2 + (t >= m)); out.push_back(1 + (f - e) + ((static_cast<std::ptrdiff_t>(p.from) + b) == f)); }
				break;
			case 33: if (f != t) { T tmp(std::move(*f)); *f = std::move(*std::prev(t)); *std::prev(t) = std::move(tmp); using std::swap; swap(*b, *f); std::swap(*std::prev(e), *std::prev(t)); } break;
			default:
			{
				// through another container and back
				std::vector<T> tmp(std::make_move_iterator(f), std::make_move_iterator(t));
				std::stable_sort(tmp.begin(), tmp.end(), greater);
				std::list<T> l(std::make_move_iterator(tmp.begin()), std::make_move_iterator(tmp.end()));
				l.reverse();
				pos(std::move(l.begin(), l.end(), f));
				break;
			}
		}
		return out;
	}
	constexpr unsigned InPlaceCount = 35;

	const char* nameOf(unsigned which)
	{
		static const char* names[InPlaceCount] = { "sort", "stable_sort", "reverse", "rotate", "partition", "stable_partition", "nth_element", "remove_if", "unique", "heaps", "inplace_merge", "partial_sort", "shuffle", "next_permutation", "prev_permutation", "swap_ranges", "iter_swap", "move_backward", "move", "find", "count", "binary searches", "minmax_element", "search", "comparisons", "accumulate", "generate", "for_each", "fill", "replace", "copy_backward", "transform", "iterator arithmetic", "swap", "move iterators" };
		return names[which];
	}

	template<typename T, typename R> void same(pbt::Case& c, const R& r, const std::vector<T>& model, const char* after)
	{
		CHECK_EQ(static_cast<std::size_t>(std::size(r)), model.size(), "size after", after);
		CHECK_EQ(std::empty(r), model.empty());
		std::size_t i = 0;
		for (const auto& v : r)
		{
			CHECK(i < model.size(), "too many elements after", after);
			CHECK_EQ(idOf(v), idOf(model[i]), "element", i, "after", after);
			CHECK(soundOf(v), "an element does not own what it should", i, after);
			++i;
		}
		CHECK_EQ(i, model.size(), "elements after", after);
		// every way to the same elements
		if (!model.empty())
		{
			CHECK(std::data(r) == &*std::begin(r) && &*std::cbegin(r) == std::data(r));
			CHECK_EQ(idOf(*std::rbegin(r)), idOf(model.back()));
			CHECK_EQ(idOf(*std::prev(std::crend(r))), idOf(model.front()));
		}
		CHECK(std::equal(std::rbegin(r), std::rend(r), model.rbegin(), model.rend(), [](const T& a, const T& b) { return idOf(a) == idOf(b); }), "reverse iteration after", after);
		CHECK_EQ(static_cast<std::size_t>(std::distance(std::cbegin(r), std::cend(r))), model.size());
		c.flush();
	}

	Params draw(pbt::Case& c, std::size_t n)
	{
		Params p;
		p.which = static_cast<unsigned>(c.below(InPlaceCount));
		p.from = c.chance(1, 2) ? c.size(0, n) : 0;
		p.to = c.chance(1, 2) ? c.size(p.from, n) : n;
		p.middle = c.size(p.from, p.to);
		p.key = static_cast<int>(c.range(0, 9));
		p.key2 = static_cast<int>(c.range(0, 9));
		p.seed = static_cast<std::uint32_t>(c.below(1000));
		return p;
	}

	template<typename T> std::vector<T> contents(pbt::Case& c, std::size_t n)
	{
		std::vector<T> out;
		const int keys = static_cast<int>(c.range(1, 10));
		for (std::size_t i = 0; i < n; ++i)
			out.push_back(made<T>(static_cast<int>(c.below(static_cast<std::uint64_t>(keys))), static_cast<int>(i) + 1));
		return out;
	}
	template<typename T> std::vector<T> cloned(const std::vector<T>& v)
	{
		std::vector<T> out;
		for (const T& x : v)
		{
			if constexpr (std::is_same_v<T, int>) out.push_back(x);
			else out.push_back(x.id ? T(x.key, x.id) : T());
		}
		return out;
	}

	// algorithms over the elements, in one direction or the other
	template<typename T, typename R> void algorithm(pbt::Case& c, R& r, std::vector<T>& model)
	{
		const Params p = draw(c, model.size());
		const bool backwards = c.chance(1, 3);
		LOG((backwards ? "backwards " : "") << nameOf(p.which) << " over [" << p.from << ", " << p.to << "), middle " << p.middle << ", key " << p.key);
		if (p.to - p.from > 1) { c.nontrivial(); c.tag(nameOf(p.which)); }
		std::vector<long long> a, b;
		if (backwards) { a = inPlace<T>(p, std::rbegin(r), std::rend(r)); b = inPlace<T>(p, std::make_reverse_iterator(model.data() + model.size()), std::make_reverse_iterator(model.data())); }
		else { a = inPlace<T>(p, std::begin(r), std::end(r)); b = inPlace<T>(p, model.data(), model.data() + model.size()); }
		CHECK(a == b, "what an algorithm returned", nameOf(p.which));
	}

	// a single-pass source, and others
	struct Countdown
	{
		using iterator_category = std::input_iterator_tag;
		using value_type = int;
		using difference_type = std::ptrdiff_t;
		using pointer = const int*;
		using reference = int;
		const int* source; // shared position: whoever reads has read for all
		std::size_t* at;
		std::size_t n;
		int operator*() const { return source[*at]; }
		Countdown& operator++() { ++*at; return *this; }
		struct Proxy { int v; int operator*() const { return v; } };
		Proxy operator++(int) { Proxy p{ source[*at] }; ++*at; return p; }
		std::size_t left() const { return at ? n - *at : 0; }
		bool operator==(const Countdown& o) const { return left() == o.left(); }
		bool operator!=(const Countdown& o) const { return left() != o.left(); }
	};

	template<typename T, typename V> void growing(pbt::Case& c, V& v, std::vector<T>& model, std::size_t limit, int& next)
	{
		const std::size_t room = limit - model.size();
		auto extra = contents<T>(c, c.size(0, std::min<std::size_t>(room, 6)));
		for (T& x : extra) make(x, keyOf(x), ++next % 900 + 1);
		auto twin = cloned(extra);
		const std::size_t at = c.size(0, model.size());
		const auto d = static_cast<std::ptrdiff_t>(at);
		switch (c.below(8))
		{
			case 0:
				LOG("move " << extra.size() << " into back_inserter"); c.tag("back_inserter");
				std::move(extra.begin(), extra.end(), std::back_inserter(v));
				std::move(twin.begin(), twin.end(), std::back_inserter(model));
				break;
			case 1:
				LOG("move " << extra.size() << " into inserter at " << at); c.tag("inserter");
				std::move(extra.begin(), extra.end(), std::inserter(v, v.begin() + d));
				std::move(twin.begin(), twin.end(), std::inserter(model, model.begin() + d));
				break;
			case 2:
			{
				LOG("sorted insertion"); c.tag("insertion at the upper bound");
				std::sort(v.begin(), v.end()); std::sort(model.data(), model.data() + model.size());
				for (T& x : extra) { auto it = v.insert(std::upper_bound(v.cbegin(), v.cend(), x), T(std::move(x))); CHECK(soundOf(*it)); }
				for (T& x : twin) model.insert(std::upper_bound(model.cbegin(), model.cend(), x), std::move(x));
				CHECK(std::is_sorted(v.begin(), v.end()));
				break;
			}
			case 3:
			{
				LOG("erase what remove_if leaves"); c.tag("erase-remove");
				const int k = static_cast<int>(c.range(0, 9));
				auto pred = [&](const T& x) { return keyOf(x) <= k; };
				auto a = v.erase(std::remove_if(v.begin(), v.end(), pred), v.end());
				CHECK(a == v.end());
				model.erase(std::remove_if(model.begin(), model.end(), pred), model.end());
				break;
			}
			case 4:
			{
				LOG("erase what unique leaves"); c.tag("erase-unique");
				std::stable_sort(v.begin(), v.end()); std::stable_sort(model.begin(), model.end());
				v.erase(std::unique(v.begin(), v.end()), v.end());
				model.erase(std::unique(model.begin(), model.end()), model.end());
				break;
			}
			case 5:
			{
				LOG("erase while iterating"); c.tag("erase while iterating");
				for (auto it = v.begin(); it != v.end();)
					if (keyOf(*it) % 3 == 0) it = v.erase(it); else ++it;
				for (auto it = model.begin(); it != model.end();)
					if (keyOf(*it) % 3 == 0) it = model.erase(it); else ++it;
				break;
			}
			case 6:
				if constexpr (IsCopyable<T>)
				{
					LOG("set operations into inserters"); c.tag("set operations");
					std::stable_sort(v.begin(), v.end()); std::stable_sort(model.begin(), model.end());
					std::stable_sort(extra.begin(), extra.end()); std::stable_sort(twin.begin(), twin.end());
					std::vector<T> a(v.begin(), v.end()), b(model);
					v.clear(); model.clear();
					switch (c.below(4))
					{
						case 0: std::set_union(a.begin(), a.end(), extra.begin(), extra.end(), std::back_inserter(v)); std::set_union(b.begin(), b.end(), twin.begin(), twin.end(), std::back_inserter(model)); break;
						case 1: std::set_difference(a.begin(), a.end(), extra.begin(), extra.end(), std::inserter(v, v.begin())); std::set_difference(b.begin(), b.end(), twin.begin(), twin.end(), std::inserter(model, model.begin())); break;
						case 2: std::merge(a.begin(), a.end(), extra.begin(), extra.end(), std::inserter(v, v.end())); std::merge(b.begin(), b.end(), twin.begin(), twin.end(), std::inserter(model, model.end())); break;
						default: std::copy_if(a.begin(), a.end(), std::back_inserter(v), [](const T& x) { return keyOf(x) & 1; }); std::copy_if(b.begin(), b.end(), std::back_inserter(model), [](const T& x) { return keyOf(x) & 1; }); break;
					}
				}
				break;
			default:
				if constexpr (IsCopyable<T>)
				{
					LOG("copy " << extra.size() << " reversed into inserter at " << at); c.tag("copies into inserter");
					std::reverse_copy(extra.begin(), extra.end(), std::inserter(v, v.begin() + d));
					std::reverse_copy(twin.begin(), twin.end(), std::inserter(model, model.begin() + d));
				}
				break;
		}
	}

	// --- vectors
	template<typename V, typename T, std::size_t Limit> void vectorHistory(pbt::Case& c, V& v, std::vector<T>& model)
	{
		int next = 100;
		for (std::size_t k = c.size(1, 6); k > 0; --k)
		{
			if (c.chance(1, 2)) growing<T>(c, v, model, Limit, next);
			else algorithm<T>(c, v, model);
			same<T>(c, v, model, "an operation");
		}
	}

	template<typename V, typename T, std::size_t Limit> void ofVector(pbt::Case& c)
	{
		// with one memory block for each, so that anything past the end is seen
		auto initial = contents<T>(c, c.sizeAround(Limit, { 0, 2, 4, Limit }));
		auto model = cloned(initial);
		LOG(initial.size() << " elements");
		std::unique_ptr<V> v;
		switch (c.below(6))
		{
			case 0: v = std::make_unique<V>(std::make_move_iterator(initial.begin()), std::make_move_iterator(initial.end())); c.tag("from move iterators"); break;
			case 1: { std::list<T> l(std::make_move_iterator(initial.begin()), std::make_move_iterator(initial.end())); v = std::make_unique<V>(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); c.tag("from a list"); break; }
			case 2: v = std::make_unique<V>(std::make_move_iterator(initial.rbegin()), std::make_move_iterator(initial.rend())); std::reverse(model.begin(), model.end()); c.tag("from reverse iterators"); break;
			case 3:
				if constexpr (IsCopyable<T>) { std::deque<T> d(initial.begin(), initial.end()); v = std::make_unique<V>(d.cbegin(), d.cend()); c.tag("from a deque"); break; } else { v = std::make_unique<V>(); std::move(initial.begin(), initial.end(), std::back_inserter(*v)); break; }
			case 4:
				if constexpr (std::is_same_v<T, int>)
				{
					if (c.coin()) { std::size_t at = 0; v = std::make_unique<V>(Countdown{ initial.data(), &at, initial.size() }, Countdown{ nullptr, nullptr, 0 }); CHECK_EQ(at, initial.size(), "elements read from a source which can be read once"); c.tag("from a single-pass source"); }
					else
					{
						std::stringstream ss;
						std::copy(initial.begin(), initial.end(), std::ostream_iterator<int>(ss, " "));
						v = std::make_unique<V>(std::istream_iterator<int>(ss), std::istream_iterator<int>());
						c.tag("from a stream");
					}
					break;
				}
				[[fallthrough]];
			default: v = std::make_unique<V>(); std::move(initial.begin(), initial.end(), std::back_inserter(*v)); break;
		}
		same<T>(c, *v, model, "construction");
		vectorHistory<V, T, Limit>(c, *v, model);
	}

	template<typename T> void ofStackVector(pbt::Case& c)
	{
		constexpr std::size_t Limit = 12;
		auto initial = contents<T>(c, c.size(0, Limit));
		auto model = cloned(initial);
		LOG(initial.size() << " elements");
		void* memory = std::malloc(sizeof(T) * Limit);
		{
			Nz::StackVector<T> v(static_cast<T*>(memory), Limit);
			std::move(initial.begin(), initial.end(), std::back_inserter(v));
			same<T>(c, v, model, "construction");
			vectorHistory<Nz::StackVector<T>, T, Limit>(c, v, model);
		}
		std::free(memory);
	}

	template<typename T> void ofStackArray(pbt::Case& c)
	{
		auto initial = contents<T>(c, c.size(0, 14));
		auto model = cloned(initial);
		LOG(initial.size() << " elements");
		void* memory = std::malloc(sizeof(T) * initial.size() + 1);
		{
			Nz::StackArray<T> v(static_cast<T*>(memory), initial.size());
			auto end = std::move(initial.begin(), initial.end(), v.begin());
			CHECK(end == v.end());
			same<T>(c, v, model, "construction");
			for (std::size_t k = c.size(1, 6); k > 0; --k)
			{
				algorithm<T>(c, v, model);
				same<T>(c, v, model, "an operation");
			}
		}
		std::free(memory);
	}

	// --- arrays indexed by an enumeration
	enum class Key { A, B, C, D, E, F, G, H, I, J, Max = J };
	enum class One : std::uint8_t { A, Max = A };

	// algorithms over pairs of a key and a reference
	template<typename T, typename It> std::vector<long long> overPairs(const Params& p, It b, It e)
	{
		std::vector<long long> out;
		using D = typename std::iterator_traits<It>::difference_type;
		It f = b + static_cast<D>(p.from), t = static_cast<D>(p.to) + b, m = b; m += static_cast<D>(p.middle);
		auto pos = [&](const It& it) { out.push_back(it - b); };
		auto small = [&](const auto& kv) { return keyOf(kv.second) < p.key; };
		auto odd = [](const auto& kv) { return (keyOf(kv.second) & 1) != 0; };
		auto by = [](const auto& x, const auto& y) { return keyOf(x.second) < keyOf(y.second); };
		auto same = [](const auto& x, const auto& y) { return keyOf(x.second) == keyOf(y.second); };
		out.push_back(static_cast<long long>(e - b));
		switch (p.which % 12)
		{
			case 0: pos(std::find_if(f, t, odd)); pos(std::find_if_not(f, t, small)); pos(std::find_if(b, e, small)); break;
			case 1: out.push_back(std::count_if(f, t, odd)); out.push_back(std::all_of(f, t, small)); out.push_back(std::any_of(f, m, small)); out.push_back(std::none_of(f, t, odd)); break;
			case 2: out.push_back(std::accumulate(f, t, 3LL, [](long long s, const auto& kv) { return (s * 37 + static_cast<int>(kv.first) * 100000 + idOf(kv.second)) % 1000003; })); break;
			case 3: std::for_each(f, t, [&](auto&& kv) { if constexpr (!std::is_const_v<std::remove_reference_t<decltype(kv.second)>>) make(kv.second, static_cast<int>(kv.first) + p.key2, 6); }); break;
			case 4: pos(std::adjacent_find(f, t, same)); pos(std::search(b, e, f, m, same)); pos(std::find_end(b, e, m, t, same)); break;
			case 5: out.push_back(std::equal(f, m, m, t, same)); out.push_back(std::lexicographical_compare(f, m, m, t, by)); { auto r = std::mismatch(f, m, m, t, same); pos(r.first); pos(r.second); } break;
			case 6: if (f != t) { pos(std::min_element(f, t, by)); pos(std::max_element(f, t, by)); auto r = std::minmax_element(f, t, by); pos(r.first); pos(r.second); } pos(std::is_sorted_until(f, t, by)); break;
			case 7: { std::transform(f, t, std::back_inserter(out), [](const auto& kv) { return static_cast<int>(kv.first) * 100000LL + idOf(kv.second); }); break; }
			case 8:
			{
				std::map<int, long long> all;
				for (It it = f; it != t; it++) all.emplace(static_cast<int>((*it).first), idOf((*it).second));
				for (auto& [k, v] : all) { out.push_back(k); out.push_back(v); }
				break;
			}
			case 9:
				pos(std::next(b, m - b)); pos(std::prev(e, e - m)); out.push_back(std::distance(f, t)); out.push_back(std::distance(t, f));
				{ It it = b; std::advance(it, static_cast<D>(p.to)); pos(it); std::advance(it, static_cast<D>(p.from) - static_cast<D>(p.to)); pos(it); if (b != e) { out.push_back(idOf(e[-1].second)); out.push_back(static_cast<int>(b[e - b - 1].first)); } out.push_back((f < t) * 8 + (f <= m) * 4 + (m > f) * 2 + (t >= m)); it = m; it -= m - f; out.push_back(it == f); out.push_back((m - (m - f)) == f); }
				break;
			case 10: pos(std::partition_point(b, e, [&](const auto& kv) { return static_cast<int>(kv.first) < p.key; })); pos(std::lower_bound(b, e, p.key2, [](const auto& kv, int k) { return static_cast<int>(kv.first) < k; })); pos(std::upper_bound(f, t, p.key2, [](int k, const auto& kv) { return k < static_cast<int>(kv.first); })); break;
			default:
				// postfix operators step, and give the position before
				{ It it = f; while (it != t) { It old = it++; out.push_back(static_cast<int>((*old).first)); } while (it != f) { It old = it--; out.push_back(old - it); out.push_back(idOf((*it).second)); } }
				break;
		}
		return out;
	}

	template<typename E, typename T> void ofEnumArray(pbt::Case& c)
	{
		constexpr std::size_t N = Nz::EnumValueCount_v<E>;
		using A = Nz::EnumArray<E, T>;
		auto initial = contents<T>(c, N);
		auto model = cloned(initial);
		auto a = std::make_unique<A>();
		std::move(initial.begin(), initial.end(), a->begin());
		same<T>(c, *a, model, "construction");
		for (std::size_t k = c.size(1, 5); k > 0; --k)
		{
			if (c.chance(1, 3)) algorithm<T>(c, *a, model);
			else
			{
				const Params p = draw(c, N);
				const unsigned view = static_cast<unsigned>(c.below(3));
				LOG("algorithm " << p.which % 12 << " over pairs [" << p.from << ", " << p.to << "), middle " << p.middle << ", view " << view);
				if (N > 1) c.nontrivial();
				c.tag("algorithms over keys and values");
				// the model: an array of its own, seen through pairs in a plain vector
				std::vector<std::pair<E, T&>> pairs;
				for (std::size_t i = 0; i < N; ++i) pairs.emplace_back(static_cast<E>(i), model[i]);
				std::vector<long long> x, y;
				auto kv = a->iter_kv();
				auto ckv = std::as_const(*a).iter_kv();
				switch (view)
				{
					case 0: x = overPairs<T>(p, kv.begin(), kv.end()); y = overPairs<T>(p, pairs.begin(), pairs.end()); break;
					case 1:
					{
						Params q = p; if (q.which % 12 == 3) q.which = 2;
						std::vector<std::pair<E, const T&>> constPairs;
						for (std::size_t i = 0; i < N; ++i) constPairs.emplace_back(static_cast<E>(i), model[i]);
						x = overPairs<T>(q, ckv.begin(), ckv.end()); y = overPairs<T>(q, constPairs.begin(), constPairs.end()); break;
					}
					default: x = overPairs<T>(p, std::make_reverse_iterator(kv.end()), std::make_reverse_iterator(kv.begin())); y = overPairs<T>(p, pairs.rbegin(), pairs.rend()); break;
				}
				CHECK(x == y, "what an algorithm over keys and values returned", p.which % 12);
			}
			same<T>(c, *a, model, "an operation");
			for (std::size_t i = 0; i < N; ++i)
				CHECK_EQ(idOf((*a)[static_cast<E>(i)]), idOf(model[i]), "element of a key", i);
		}
	}

	// --- what is only read: pools, bits, flags
	template<std::size_t Align> void ofPool(pbt::Case& c)
	{
		using Pool = Nz::MemoryPool<int, Align>;
		Pool pool(c.size(1, 9));
		std::vector<std::pair<std::size_t, int>> model; // by index
		for (std::size_t k = c.size(0, 40); k > 0; --k)
		{
			if (model.empty() || c.chance(2, 3)) { std::size_t index; int v = static_cast<int>(c.range(0, 9)); *pool.Allocate(index, v) = v; model.emplace_back(index, v); }
			else { std::size_t i = c.below(model.size()); pool.Free(model[i].first); model.erase(model.begin() + static_cast<std::ptrdiff_t>(i)); }
		}
		std::sort(model.begin(), model.end());
		LOG(model.size() << " entries");
		if (model.size() > 1) c.nontrivial();
		std::vector<int> values;
		for (auto& m : model) values.push_back(m.second);
		const Pool& cpool = pool;
		const int key = static_cast<int>(c.range(0, 9));
		std::vector<int> copied(cpool.begin(), cpool.end()), copied2, copied3;
		CHECK(copied == values, "a vector made from a pool");
		std::copy(pool.begin(), pool.end(), std::back_inserter(copied2));
		CHECK(copied2 == values, "values copied from a pool");
		std::transform(cpool.cbegin(), cpool.cend(), std::back_inserter(copied3), [](const int& v) { return v * 3; });
		CHECK(copied3.size() == values.size());
		CHECK(std::equal(pool.begin(), pool.end(), values.begin(), values.end()));
		CHECK(std::equal(values.begin(), values.end(), cpool.begin(), cpool.end()));
		CHECK_EQ(std::distance(pool.begin(), pool.end()), static_cast<std::ptrdiff_t>(values.size()));
		CHECK_EQ(std::accumulate(pool.begin(), pool.end(), 5), std::accumulate(values.begin(), values.end(), 5));
		CHECK_EQ(std::count(cpool.begin(), cpool.end(), key), std::count(values.begin(), values.end(), key));
		auto found = std::find(pool.begin(), pool.end(), key);
		auto expected = std::find(values.begin(), values.end(), key);
		CHECK_EQ(found == pool.end(), expected == values.end(), "find in a pool");
		if (expected != values.end())
		{
			std::size_t i = static_cast<std::size_t>(expected - values.begin());
			CHECK_EQ(found.GetIndex(), model[i].first, "index of what was found");
			*found = 100;
			CHECK_EQ(*pool.RetrieveFromIndex(model[i].first), 100);
			*pool.RetrieveFromIndex(model[i].first) = values[i];
			CHECK_EQ(std::distance(found, pool.end()), static_cast<std::ptrdiff_t>(values.size() - i));
		}
		const std::size_t steps = c.size(0, values.size());
		auto it = pool.begin(); std::advance(it, static_cast<std::ptrdiff_t>(steps));
		CHECK_EQ(it == pool.end(), steps == values.size());
		if (steps < values.size()) CHECK_EQ(it.GetIndex(), model[steps].first);
		if (steps < values.size()) { auto old = it++; CHECK_EQ(old.GetIndex(), model[steps].first); CHECK((it == pool.end()) == (steps + 1 == values.size())); CHECK(old != it); }
		std::for_each(pool.begin(), pool.end(), [](int& v) { v += 1; });
		for (std::size_t i = 0; i < model.size(); ++i) CHECK_EQ(*pool.RetrieveFromIndex(model[i].first), values[i] + 1, "value after for_each");
		std::transform(values.begin(), values.end(), pool.begin(), [](int v) { return v * 2; });
		for (std::size_t i = 0; i < model.size(); ++i) CHECK_EQ(*pool.RetrieveFromIndex(model[i].first), values[i] * 2, "value written by transform");
		Nz::HybridVector<int, 4> hybrid(pool.begin(), pool.end());
		CHECK(hybrid.size() == values.size() && std::equal(hybrid.begin(), hybrid.end(), values.begin(), [](int a, int b) { return a == 2 * b; }), "a vector made from a pool");
		std::set<int> sorted(pool.begin(), pool.end());
		CHECK_EQ(sorted.size(), std::set<int>(values.begin(), values.end()).size());
		c.flush();
	}

	template<typename B> void ofBits(pbt::Case& c)
	{
		std::size_t n = c.sizeAround(200, { 1, 8, 32, 64, 128 });
		B b(n, false);
		std::set<std::size_t> model;
		for (std::size_t k = n == 0 ? 0 : c.size(0, 12); k > 0; --k) { std::size_t i = c.below(n); b.Set(i); model.insert(i); }
		if (c.chance(1, 10)) { b.Set(true); for (std::size_t i = 0; i < n; ++i) model.insert(i); }
		LOG(n << " bits, " << model.size() << " set");
		if (model.size() > 1) c.nontrivial();
		auto bits = b.IterBits();
		Nz::HybridVector<std::size_t, 4> all(bits.begin(), bits.end());
		CHECK(all.size() == model.size() && std::equal(all.begin(), all.end(), model.begin(), model.end()), "a vector made from the set bits");
		std::set<std::size_t> seen;
		std::for_each(bits.begin(), bits.end(), [&](std::size_t i) { seen.insert(seen.end(), i); });
		CHECK(seen == model, "set bits seen by for_each");
		CHECK(std::vector<std::size_t>(bits.begin(), bits.end()) == std::vector<std::size_t>(model.begin(), model.end()), "a std::vector made from the set bits");
		CHECK_EQ(std::distance(bits.begin(), bits.end()), static_cast<std::ptrdiff_t>(model.size()));
		CHECK(std::equal(bits.begin(), bits.end(), model.begin(), model.end()) && std::equal(model.begin(), model.end(), bits.begin(), bits.end()), "set bits compared");
		{
			const std::size_t looked = c.size(0, n + 1);
			auto found = std::find(bits.begin(), bits.end(), looked);
			CHECK_EQ(found == bits.end(), model.count(looked) == 0, "find in the set bits", looked);
			CHECK_EQ(std::count_if(bits.begin(), bits.end(), [&](std::size_t i) { return i < looked; }), static_cast<std::ptrdiff_t>(std::distance(model.begin(), model.lower_bound(looked))), "count_if over the set bits");
			CHECK_EQ(std::accumulate(bits.begin(), bits.end(), std::size_t(1)), std::accumulate(model.begin(), model.end(), std::size_t(1)));
			B copy(n, false);
			std::for_each(bits.begin(), bits.end(), [&](std::size_t i) { copy.Set(i); });
			CHECK(copy == b);
			std::deque<std::size_t> copied;
			std::copy_if(bits.begin(), bits.end(), std::front_inserter(copied), [&](std::size_t i) { return i >= looked; });
			CHECK(std::equal(copied.rbegin(), copied.rend(), model.lower_bound(looked), model.end()), "set bits copied");
		}
		auto it = bits.begin(); auto old = it;
		std::size_t k = 0;
		for (std::size_t expected : model)
		{
			CHECK_EQ(*it, expected, "set bit", k);
			if (c.coin()) { old = it++; CHECK_EQ(*old, expected); } else { old = it; auto& r = ++it; CHECK(&r == &it); }
			CHECK(old != it);
			++k;
		}
		CHECK(it == bits.end());
		c.flush();
	}

	enum class F1 { A, B, C, D, E, F, Max = F };
}
template<> struct Nz::EnumAsFlags<F1> { static constexpr F1 max = F1::Max; };
namespace
{
	void ofFlags(pbt::Case& c)
	{
		Nz::Flags<F1> f;
		std::set<int> model;
		for (std::size_t k = c.size(0, 6); k > 0; --k) { int i = static_cast<int>(c.below(6)); f |= static_cast<F1>(i); model.insert(i); }
		if (model.size() > 1) c.nontrivial();
		LOG(model.size() << " flags");
		Nz::FixedVector<F1, 6> all(f.begin(), f.end());
		CHECK(all.size() == model.size() && std::equal(all.begin(), all.end(), model.begin(), model.end(), [](F1 a, int b) { return static_cast<int>(a) == b; }), "a vector made from flags");
		std::set<int> seen;
		std::for_each(f.begin(), f.end(), [&](F1 v) { seen.insert(static_cast<int>(v)); });
		CHECK(seen == model);
		CHECK_EQ(std::distance(f.begin(), f.end()), static_cast<std::ptrdiff_t>(model.size()));
		CHECK(std::vector<F1>(f.begin(), f.end()) == std::vector<F1>(all.begin(), all.end()), "a std::vector made from flags");
		std::set<F1> ordered(f.begin(), f.end());
		CHECK(std::equal(f.begin(), f.end(), ordered.begin(), ordered.end()) && ordered.size() == model.size(), "flags compared");
		const F1 looked = static_cast<F1>(c.below(6));
		CHECK_EQ(std::find(f.begin(), f.end(), looked) != f.end(), f.Test(looked), "find in flags");
		CHECK_EQ(std::count(f.begin(), f.end(), looked), std::ptrdiff_t(f.Test(looked) ? 1 : 0));
		CHECK_EQ(std::all_of(f.begin(), f.end(), [&](F1 v) { return v <= looked; }), model.empty() || *model.rbegin() <= static_cast<int>(looked));
		Nz::Flags<F1> again = std::accumulate(all.begin(), all.end(), Nz::Flags<F1>(), [](Nz::Flags<F1> acc, F1 v) { return acc | v; });
		CHECK(again == f, "flags from a fold");
		auto it = f.begin();
		for (int e : model) { auto old = it++; CHECK_EQ(static_cast<int>(*old), e, "postfix increment"); }
		CHECK(it == f.end());
		c.flush();
	}

	// --- adaptors
	template<typename V, std::size_t Limit> void adaptors(pbt::Case& c)
	{
		std::stack<int, V> stack; std::stack<int, std::vector<int>> stackModel;
		std::priority_queue<int, V> queue; std::priority_queue<int, std::vector<int>> queueModel;
		std::priority_queue<int, V, std::greater<int>> least; std::priority_queue<int, std::vector<int>, std::greater<int>> leastModel;
		for (std::size_t k = c.size(1, 40); k > 0; --k)
		{
			const int v = static_cast<int>(c.range(0, 30));
			const bool push = c.chance(3, 5);
			LOG((push ? "push " : "pop ") << v);
			if (push && stack.size() < Limit)
			{
				if (c.coin()) { stack.push(v); queue.push(v); least.push(v); } else { stack.emplace(v); queue.emplace(v); least.emplace(v); }
				stackModel.push(v); queueModel.push(v); leastModel.push(v);
			}
			else if (!push && !stackModel.empty()) { stack.pop(); stackModel.pop(); queue.pop(); queueModel.pop(); least.pop(); leastModel.pop(); c.nontrivial(); }
			if (c.chance(1, 10)) { auto copy = stack; auto queueCopy = std::move(queue); queue = queueCopy; stack = std::move(copy); c.tag("adaptors copied and moved"); }
			if (c.chance(1, 10)) { std::stack<int, V> other; std::swap(stack, other); CHECK(stack.empty()); other.swap(stack); c.tag("adaptors swapped"); }
			CHECK_EQ(stack.size(), stackModel.size()); CHECK_EQ(queue.size(), queueModel.size()); CHECK_EQ(least.size(), leastModel.size());
			CHECK_EQ(stack.empty(), stackModel.empty());
			if (!stackModel.empty()) { CHECK_EQ(stack.top(), stackModel.top()); CHECK_EQ(queue.top(), queueModel.top()); CHECK_EQ(least.top(), leastModel.top()); }
		}
		c.flush();
	}

	// what the types say of themselves
	template<typename V, typename T, typename Index> constexpr bool traits()
	{
		static_assert(std::is_same_v<typename V::value_type, T>);
		static_assert(std::is_same_v<typename std::iterator_traits<typename V::iterator>::value_type, T>);
		static_assert(std::is_same_v<typename std::iterator_traits<typename V::iterator>::reference, T&>);
		static_assert(std::is_same_v<typename std::iterator_traits<typename V::const_iterator>::reference, const T&>);
		static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<typename V::iterator>::iterator_category>);
		static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<typename V::const_iterator>::iterator_category>);
		static_assert(std::is_convertible_v<typename V::iterator, typename V::const_iterator>);
		static_assert(!std::is_convertible_v<typename V::const_iterator, typename V::iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().begin()), typename V::iterator>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().begin()), typename V::const_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().end()), typename V::iterator>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().end()), typename V::const_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().cbegin()), typename V::const_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().cend()), typename V::const_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().rbegin()), typename V::reverse_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().rbegin()), typename V::const_reverse_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().rend()), typename V::reverse_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().rend()), typename V::const_reverse_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().crbegin()), typename V::const_reverse_iterator>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().front()), T&>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().front()), const T&>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().back()), T&>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>().back()), const T&>);
		static_assert(std::is_same_v<decltype(std::declval<V&>()[Index{}]), T&>);
		static_assert(std::is_same_v<decltype(std::declval<const V&>()[Index{}]), const T&>);
		static_assert(std::is_same_v<decltype(std::declval<V&>().size()), typename V::size_type>);
		static_assert(std::is_same_v<typename V::difference_type, typename std::iterator_traits<typename V::iterator>::difference_type>);
#if __cplusplus >= 202002L
		static_assert(std::ranges::contiguous_range<V> && std::ranges::contiguous_range<const V>);
		static_assert(std::ranges::sized_range<V> && std::ranges::common_range<V>);
		static_assert(std::is_convertible_v<V&, std::span<T>> && std::is_convertible_v<const V&, std::span<const T>>);
#endif
		return true;
	}
	static_assert(traits<Nz::FixedVector<int, 4>, int, std::size_t>());
	static_assert(traits<Nz::HybridVector<int, 4>, int, std::size_t>());
	static_assert(traits<Nz::FixedVector<Moves, 4>, Moves, std::size_t>());
	static_assert(traits<Nz::HybridVector<Copies, 4>, Copies, std::size_t>());
	static_assert(traits<Nz::StackVector<int>, int, std::size_t>());
	static_assert(traits<Nz::StackVector<Moves>, Moves, std::size_t>());
	static_assert(traits<Nz::StackArray<int>, int, std::size_t>());
	static_assert(traits<Nz::StackArray<Copies>, Copies, std::size_t>());
	static_assert(traits<Nz::EnumArray<Key, int>, int, Key>());
	template<typename It> constexpr bool inputIterator = std::is_base_of_v<std::input_iterator_tag, typename std::iterator_traits<It>::iterator_category>;
	static_assert(inputIterator<Nz::MemoryPool<int>::iterator> && inputIterator<Nz::MemoryPool<int>::const_iterator>);
	static_assert(std::is_same_v<std::iterator_traits<Nz::MemoryPool<int>::iterator>::reference, int&> && std::is_same_v<std::iterator_traits<Nz::MemoryPool<int>::const_iterator>::reference, const int&>);
	static_assert(std::is_same_v<std::iterator_traits<Nz::EnumArray<Key, int>::kv_iterator>::iterator_category, std::random_access_iterator_tag>);
	static_assert(std::is_same_v<std::iterator_traits<Nz::EnumArray<Key, int>::kv_iterator>::reference, std::pair<Key, int&>>);
	static_assert(std::is_same_v<std::iterator_traits<Nz::EnumArray<Key, int>::kv_const_iterator>::reference, std::pair<Key, const int&>>);
	static_assert(inputIterator<Nz::Bitset<>::BitIterator> && inputIterator<Nz::Flags<F1>::iterator>);
	static_assert(std::is_default_constructible_v<Nz::EnumArray<Key, int>::kv_iterator> && std::is_default_constructible_v<Nz::EnumArray<Key, int>::kv_const_iterator>);
	static_assert(std::is_same_v<Nz::Bitset<>::BitIterator::value_type, std::size_t> && std::is_same_v<Nz::Flags<F1>::iterator::value_type, F1>);

#if __cplusplus >= 202002L
	// ranges and views
	template<typename V, std::size_t Limit> void ofRanges(pbt::Case& c)
	{
		auto initial = contents<int>(c, c.size(0, Limit));
		std::vector<int> model = initial;
		V v(initial.begin(), initial.end());
		const int key = static_cast<int>(c.range(0, 9));
		if (model.size() > 1) c.nontrivial();
		switch (c.below(6))
		{
			case 0: std::ranges::sort(v); std::ranges::sort(model); break;
			case 1: std::ranges::reverse(v); std::ranges::reverse(model); break;
			case 2: { std::ranges::sort(v, std::ranges::greater{}, [](int x) { return x % 4 * 16 + x; }); std::ranges::sort(model, std::ranges::greater{}, [](int x) { return x % 4 * 16 + x; }); break; }
			case 3: for (int& x : v | std::views::filter([&](int x) { return x < key; })) x += 20; for (int& x : model | std::views::filter([&](int x) { return x < key; })) x += 20; break;
			case 4: for (int& x : v | std::views::reverse | std::views::take(key)) x *= 2; for (int& x : model | std::views::reverse | std::views::take(key)) x *= 2; break;
			default: for (int& x : std::span<int>(v).first(model.size() / 2)) x -= 5; for (int& x : std::span<int>(model).first(model.size() / 2)) x -= 5; break;
		}
		same<int>(c, v, model, "an algorithm over ranges");
		CHECK(std::ranges::equal(v, model));
		CHECK_EQ(std::ranges::distance(std::as_const(v)), static_cast<std::ptrdiff_t>(model.size()));
		CHECK_EQ(std::ranges::find(v, key) - std::ranges::begin(v), std::ranges::find(model, key) - model.begin());
		auto doubled = std::as_const(v) | std::views::transform([](int x) { return x * 2; });
		CHECK(std::ranges::equal(doubled, model | std::views::transform([](int x) { return x * 2; })));
		auto common = doubled | std::views::common;
		V w(common.begin(), common.end());
		CHECK(std::ranges::equal(w, doubled), "a vector made from a view");
		c.flush();
	}
	using F12 = Nz::FixedVector<int, 12>;
	PBT_TARGET("ranges: FixedVector", 20000, &ofRanges<F12, 12>)
	using H3 = Nz::HybridVector<int, 3>;
	PBT_TARGET("ranges: HybridVector", 20000, &ofRanges<H3, 12>)
#endif
	template<typename T, std::size_t N> using Fixed = Nz::FixedVector<T, N>;
	template<typename T, std::size_t N> using Hybrid = Nz::HybridVector<T, N>;
	using FI = Fixed<int, 16>; using FC = Fixed<Copies, 14>; using FM = Fixed<Moves, 14>;
	using HI = Hybrid<int, 4>; using HC = Hybrid<Copies, 4>; using HM = Hybrid<Moves, 4>;
	PBT_TARGET("FixedVector of integers", 60000, &ofVector<FI, int, 16>)
	PBT_TARGET("FixedVector of strings", 60000, &ofVector<FC, Copies, 14>)
	PBT_TARGET("FixedVector of move-only objects", 50000, &ofVector<FM, Moves, 14>)
	PBT_TARGET("HybridVector of integers", 60000, &ofVector<HI, int, 16>)
	PBT_TARGET("HybridVector of strings", 60000, &ofVector<HC, Copies, 14>)
	PBT_TARGET("HybridVector of move-only objects", 50000, &ofVector<HM, Moves, 14>)
	PBT_TARGET("StackVector of integers", 50000, &ofStackVector<int>)
	PBT_TARGET("StackVector of strings", 50000, &ofStackVector<Copies>)
	PBT_TARGET("StackVector of move-only objects", 50000, &ofStackVector<Moves>)
	PBT_TARGET("StackArray of strings", 40000, &ofStackArray<Copies>)
	PBT_TARGET("StackArray of move-only objects", 40000, &ofStackArray<Moves>)
	PBT_TARGET("EnumArray of integers", 50000, &ofEnumArray<Key, int>)
	PBT_TARGET("EnumArray of strings", 50000, &ofEnumArray<Key, Copies>)
	PBT_TARGET("EnumArray of move-only objects", 50000, &ofEnumArray<Key, Moves>)
	PBT_TARGET("EnumArray of one", 5000, &ofEnumArray<One, Copies>)
	PBT_TARGET("MemoryPool", 40000, &ofPool<alignof(int)>)
	PBT_TARGET("MemoryPool over-aligned", 20000, &ofPool<64>)
	PBT_TARGET("set bits", 40000, &ofBits<Nz::Bitset<>>)
	using FB = Nz::FixedBitset<std::uint32_t, 200>;
	PBT_TARGET("set bits of a fixed bitset", 20000, &ofBits<FB>)
	using B8 = Nz::Bitset<std::uint8_t, Nz::HybridVector<std::uint8_t, 4>>;
	PBT_TARGET("set bits of a hybrid bitset", 20000, &ofBits<B8>)
	PBT_TARGET("flags", 5000, &ofFlags)
	using A16 = Fixed<int, 24>;
	PBT_TARGET("adaptors over FixedVector", 30000, &adaptors<A16, 24>)
	using A3 = Hybrid<int, 3>;
	PBT_TARGET("adaptors over HybridVector", 30000, &adaptors<A3, 40>)
}
