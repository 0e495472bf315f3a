#include "bitset_common.hpp"

namespace
{
	template<typename B> void logic(pbt::Case& c)
	{
		Model ma = genBits(c, genSize<B>(c)), mb = genBits(c, c.below(4) == 0 ? ma.size() : genSize<B>(c));
		B a = makeBitset<B>(c, ma), b = makeBitset<B>(c, mb);
		LOG("a=\"" << modelStr(ma) << "\" b=\"" << modelStr(mb) << '"');
		auto AND = [](bool p, bool q) { return p && q; };
		auto OR = [](bool p, bool q) { return p || q; };
		auto XOR = [](bool p, bool q) { return p != q; };
		Model mn = ma;
		for (auto& v : mn)
			v = !v;
		checkAgainst(a & b, combine(ma, mb, AND), "a & b");
		checkAgainst(a | b, combine(ma, mb, OR), "a | b");
		checkAgainst(a ^ b, combine(ma, mb, XOR), "a ^ b");
		checkAgainst(~a, mn, "~a");
		{ B r(a); r &= b; checkAgainst(r, combine(ma, mb, AND), "a &= b"); }
		{ B r(a); r |= b; checkAgainst(r, combine(ma, mb, OR), "a |= b"); }
		{ B r(a); r ^= b; checkAgainst(r, combine(ma, mb, XOR), "a ^= b"); }
		{ B r(b); r.PerformsAND(a, r); checkAgainst(r, combine(ma, mb, AND), "b.PerformsAND(a, b)"); }
		{ B r(b); r.PerformsOR(a, r); checkAgainst(r, combine(ma, mb, OR), "b.PerformsOR(a, b)"); }
		{ B r(b); r.PerformsXOR(a, r); checkAgainst(r, combine(ma, mb, XOR), "b.PerformsXOR(a, b)"); }
		{ B r(a); r.PerformsNOT(r); checkAgainst(r, mn, "a.PerformsNOT(a)"); }
		{ B r(a); r ^= r; checkAgainst(r, Model(ma.size(), 0), "a ^= a"); }
		{
			B r(makeBitset<B>(c, genBits(c, genSize<B>(c)))); // the previous content of the result is irrelevant
			switch (c.below(4))
			{
				case 0: r.PerformsAND(a, b); checkAgainst(r, combine(ma, mb, AND), "PerformsAND"); break;
				case 1: r.PerformsOR(a, b); checkAgainst(r, combine(ma, mb, OR), "PerformsOR"); break;
				case 2: r.PerformsXOR(a, b); checkAgainst(r, combine(ma, mb, XOR), "PerformsXOR"); break;
				default: r.PerformsNOT(a); checkAgainst(r, mn, "PerformsNOT"); break;
			}
		}
		bool intersects = false;
		for (std::size_t i = 0; i < ma.size() && i < mb.size(); ++i)
			intersects = intersects || (ma[i] && mb[i]);
		CHECK_EQ(a.Intersects(b), intersects);
		CHECK_EQ(b.Intersects(a), intersects);
		checkAgainst(a, ma, "operand a untouched");
		checkAgainst(b, mb, "operand b untouched");
		if (!ma.empty() && !mb.empty() && ma.size() != mb.size())
			c.tag("operands of different sizes");
		if (!ma.empty() && !mb.empty())
			c.nontrivial();
	}

	template<typename B> void shifts(pbt::Case& c)
	{
		Model m = genBits(c, genSize<B>(c));
		B a = makeBitset<B>(c, m);
		for (std::size_t k = 0, n = c.size(1, 3); k < n; ++k)
		{
			std::size_t pos;
			switch (c.below(5))
			{
				case 0: pos = c.below(10); break;
				case 1: pos = B::bitsPerBlock * c.below(4); break;
				case 2: pos = m.size() + c.below(3); pos = pos > 0 ? pos - 1 : 0; break;
				case 3: pos = c.below(330); break;
				default: pos = c.coin() ? static_cast<std::size_t>(c.u64()) : genSize<B>(c); break;
			}
			bool left = c.coin();
			LOG("\"" << modelStr(m) << "\" " << (left ? "<< " : ">> ") << pos);
			Model r = left ? shiftedLeft(m, pos) : shiftedRight(m, pos);
			checkAgainst(left ? a << pos : a >> pos, r, "shift operator");
			checkAgainst(a, m, "shifted operand untouched");
			if (c.coin())
			{
				if (left)
					a <<= pos;
				else
					a >>= pos;
			}
			else
			{
				if (left)
					a.ShiftLeft(pos);
				else
					a.ShiftRight(pos);
			}
			m = r;
			checkAgainst(a, m, "shift in place");
			if (pos > 0 && pos < m.size())
				c.nontrivial();
			if (pos > 0 && pos % B::bitsPerBlock == 0)
				c.tag("shift by whole blocks");
		}
	}

	template<typename B> void order(pbt::Case& c)
	{
		Model ma = genBits(c, genSize<B>(c));
		Model mb;
		switch (c.below(5))
		{
			case 0: mb = genBits(c, genSize<B>(c)); break;
			case 1: mb = ma; break;
			case 2: // one or two bits apart
				mb = ma;
				for (std::size_t k = 0, n = c.size(1, 3); k < n && !mb.empty(); ++k)
				{
					std::size_t i = c.below(mb.size());
					mb[i] = !mb[i];
				}
				break;
			default: // same low bits, another size
				mb = ma;
				mb.resize(genSize<B>(c), 0);
				if (!mb.empty() && c.below(3) == 0)
				{
					std::size_t i = c.below(mb.size());
					mb[i] = !mb[i];
				}
				break;
		}
		B a = makeBitset<B>(c, ma), b = makeBitset<B>(c, mb);
		LOG("compare \"" << modelStr(ma) << "\" with \"" << modelStr(mb) << '"');
		int cmp = compareModels(ma, mb);
		CHECK_EQ(a == b, cmp == 0);
		CHECK_EQ(b == a, cmp == 0);
		CHECK_EQ(a != b, cmp != 0);
		CHECK_EQ(a < b, cmp < 0);
		CHECK_EQ(b < a, cmp > 0);
		CHECK_EQ(a <= b, cmp <= 0);
		CHECK_EQ(a > b, cmp > 0);
		CHECK_EQ(a >= b, cmp >= 0);
		CHECK_EQ(b >= a, cmp <= 0);
		CHECK(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a));
		if (cmp == 0 && ma.size() != mb.size())
			c.tag("equal values of different sizes");
		if (!ma.empty() && !mb.empty())
			c.nontrivial();
	}

	template<typename B> void reverseFlip(pbt::Case& c)
	{
		Model m = genBits(c, genSize<B>(c));
		B a = makeBitset<B>(c, m);
		LOG("reverse and flip \"" << modelStr(m) << '"');
		Model r(m.rbegin(), m.rend());
		B b(a);
		b.Reverse();
		checkAgainst(b, r, "Reverse");
		b.Reverse();
		checkAgainst(b, m, "Reverse twice");
		b.Flip();
		checkAgainst(~b, m, "~ of Flip");
		// De Morgan
		Model mo = genBits(c, m.size());
		B o = makeBitset<B>(c, mo);
		CHECK(~(a & o) == (~a | ~o));
		CHECK(~(a | o) == (~a & ~o));
		CHECK(((a ^ o) ^ o) == a);
		if (m.size() > 1)
			c.nontrivial();
	}

	BITSET_TARGETS(logic, 12000)
	BITSET_TARGETS(shifts, 20000)
	BITSET_TARGETS(order, 25000)
	BITSET_TARGETS(reverseFlip, 6000)
}
