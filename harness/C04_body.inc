#include "bitset_common.hpp"
#include <type_traits>

namespace
{
	template<typename B> void checkSearch(pbt::Case& c, const B& b, const Model& m)
	{
		std::vector<std::size_t> expected;
		for (std::size_t i = 0; i < m.size(); ++i)
			if (m[i])
				expected.push_back(i);
		std::size_t first = expected.empty() ? B::npos : expected.front();
		CHECK_EQ(b.FindFirst(), first);
		CHECK_EQ(b.Count(), expected.size());
		// next bit from every position, set or not
		std::size_t next = B::npos;
		for (std::size_t i = m.size(); i-- > 0;)
		{
			// in a large bitset, around the borders only
			if (m.size() < 2000 || m.size() - i < 100 || i < 2000 || i % 256 < 2 || i % 256 == 255 || i == first)
				CHECK_EQ(b.FindNext(i), next, i);
			if (m[i])
				next = i;
		}
		std::vector<std::size_t> seen;
		for (std::size_t bit : b.IterBits())
		{
			seen.push_back(bit);
			CHECK(seen.size() <= expected.size());
		}
		CHECK(seen == expected);
		auto range = b.IterBits();
		std::size_t k = 0;
		for (auto it = range.begin(); it != range.end(); ++k)
		{
			CHECK(k < expected.size());
			auto before = it;
			CHECK(before == it && !(before != it));
			CHECK_EQ(*it, expected[k]);
			if (k < 100 ? c.coin() : k % 2 == 0)
			{
				auto old = it++;
				CHECK_EQ(*old, expected[k]);
				CHECK(old != it);
			}
			else
			{
				auto& self = ++it;
				CHECK(&self == &it);
				CHECK(before != it);
			}
			if (k + 1 < expected.size())
				CHECK_EQ(*it, expected[k + 1]);
		}
		CHECK_EQ(k, expected.size());
		std::size_t visited = 0;
		for (std::size_t i = b.FindFirst(); i != B::npos; i = b.FindNext(i))
		{
			CHECK(visited < expected.size());
			CHECK_EQ(i, expected[visited]);
			visited++;
		}
		CHECK_EQ(visited, expected.size());
		if (expected.size() >= 2)
			c.nontrivial();
		if (m.size() > B::bitsPerBlock && !expected.empty() && expected.front() >= B::bitsPerBlock)
			c.tag("first bit outside the first block");
	}

	template<typename B> void search(pbt::Case& c)
	{
		Model m;
		switch (c.below(3))
		{
			case 0: m = genBits(c, genSize<B>(c)); break;
			case 1: // bits at block borders only
			{
				m.assign(genSize<B>(c), 0);
				for (std::size_t i = 0; i < m.size(); ++i)
					if (i % B::bitsPerBlock == 0 || i % B::bitsPerBlock == B::bitsPerBlock - 1 || i + 1 == m.size())
						m[i] = i < 2000 ? c.coin() : (i * 2654435761u >> 9) % 7 == 0;
				break;
			}
			default: // far apart
			{
				m.assign(genSize<B>(c), 0);
				for (std::size_t i = c.below(100); i < m.size(); i += 1 + c.below(m.size() < 2000 ? 100 : m.size() / 4))
					m[i] = 1;
				break;
			}
		}
		B b = makeBitset<B>(c, m);
		LOG("search \"" << modelStr(m) << '"');
		checkSearch(c, b, m);
		// then a few edits, and again
		for (std::size_t k = 0, n = c.below(4); k < n; ++k)
		{
			switch (c.below(6))
			{
				case 0: b.Flip(); for (auto& v : m) v = !v; LOG("Flip"); break;
				case 1: { std::size_t s = genSize<B>(c); bool v = c.coin(); b.Resize(s, v); m.resize(s, v); LOG("Resize " << s << " " << v); break; }
				case 2: { std::size_t s = genSize<B>(c); b.ShiftLeft(s); m = shiftedLeft(m, s); LOG("<<= " << s); break; }
				case 3: { std::size_t s = genSize<B>(c); b.ShiftRight(s); m = shiftedRight(m, s); LOG(">>= " << s); break; }
				case 4: { bool v = c.coin(); b.Set(v); std::fill(m.begin(), m.end(), v); LOG("Set " << v); break; }
				default: if (!m.empty()) { std::size_t i = c.below(m.size()); b[i].Flip(); m[i] = !m[i]; LOG("flip bit " << i); } break;
			}
			checkSearch(c, b, m);
		}
	}

	BITSET_TARGETS(search, 25000)
}
