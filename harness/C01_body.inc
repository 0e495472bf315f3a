#include "bitset_common.hpp"

namespace
{
	// A history over three bitsets; every operation mirrored on the models, everything compared after each step.
	template<typename B> void history(pbt::Case& c)
	{
		using Block = typename BlockOf<B>::type;
		constexpr std::size_t bpb = B::bitsPerBlock;
		constexpr std::size_t N = 3;
		constexpr std::size_t Ops = 26;
		B b[N];
		Model m[N];
		bool usable[N] = { true, true, true };

		// swarm: a subset of the operations for this history
		std::vector<unsigned> enabled;
		if (c.below(3) == 0)
			for (unsigned i = 0; i < Ops; ++i)
				enabled.push_back(i);
		else
		{
			for (unsigned i = 0; i < Ops; ++i)
				if (c.coin())
					enabled.push_back(i);
			enabled.push_back(0);
		}

		std::size_t steps = c.size(1, 20);
		for (std::size_t s = 0; s < steps; ++s)
		{
			unsigned op = enabled[c.below(enabled.size())];
			std::size_t x = c.below(N), y = c.below(N);
			auto bitOf = [&](std::size_t k) { return c.below(m[k].size()); };
			if (!usable[x] && op > 3)
				op = 0;
			if (!usable[y])
				y = x;
			const char* what = "";
			switch (op)
			{
				case 0: // built from bits
				{
					m[x] = genBits(c, genSize<B>(c));
					LOG("b" << x << " = \"" << modelStr(m[x]) << '"');
					b[x] = makeBitset<B>(c, m[x]);
					usable[x] = true;
					what = "construct";
					break;
				}
				case 1:
				{
					std::size_t n = genSize<B>(c);
					bool v = c.coin();
					LOG("b" << x << " = Bitset(" << n << ", " << v << ")");
					b[x] = B(n, v);
					m[x].assign(n, v);
					usable[x] = true;
					what = "Bitset(count, val)";
					break;
				}
				case 2: // copy assignment (self included)
					if (!usable[x] && x == y)
						break;
					LOG("b" << x << " = b" << y);
					b[x] = b[y];
					m[x] = m[y];
					usable[x] = true;
					what = "copy";
					break;
				case 3: // move: the source gets a new value later
					if (x == y)
						break;
					LOG("b" << x << " = move(b" << y << ")");
					b[x] = std::move(b[y]);
					m[x] = m[y];
					usable[x] = true;
					usable[y] = false;
					what = "move";
					break;
				case 4:
					LOG("swap(b" << x << ", b" << y << ")");
					if (c.coin())
						b[x].Swap(b[y]);
					else
						std::swap(b[x], b[y]);
					std::swap(m[x], m[y]);
					what = "swap";
					break;
				case 5:
				{
					LOG("b" << x << ".Clear()");
					std::size_t cap = b[x].GetCapacity();
					b[x].Clear();
					m[x].clear();
					CHECK_EQ(b[x].GetCapacity(), cap);
					what = "Clear";
					break;
				}
				case 6:
				case 7:
				case 8:
				{
					std::size_t n = genSize<B>(c);
					bool v = c.coin();
					LOG("b" << x << ".Resize(" << n << ", " << v << ")");
					if (!v && c.coin())
						b[x].Resize(n);
					else
						b[x].Resize(n, v);
					if (n > m[x].size() && m[x].size() % bpb != 0)
						c.nontrivial();
					m[x].resize(n, v);
					what = "Resize";
					break;
				}
				case 9:
				{
					std::size_t n = genSize<B>(c);
					LOG("b" << x << ".Reserve(" << n << ")");
					b[x].Reserve(n);
					CHECK(b[x].GetCapacity() >= n);
					what = "Reserve";
					break;
				}
				case 10:
				{
					bool v = c.coin();
					LOG("b" << x << ".Set(" << v << ")");
					if (v && c.coin())
						b[x].Set();
					else if (!v && c.coin())
						b[x].Reset();
					else
						b[x].Set(v);
					std::fill(m[x].begin(), m[x].end(), v);
					what = "Set(all)";
					break;
				}
				case 11:
				case 12:
				{
					if (m[x].empty())
						break;
					std::size_t i = bitOf(x);
					bool v = c.coin();
					LOG("b" << x << ".Set(" << i << ", " << v << ")");
					if (v && c.coin())
						b[x].Set(i);
					else if (!v && c.coin())
						b[x].Reset(i);
					else
						b[x].Set(i, v);
					m[x][i] = v;
					c.nontrivial();
					what = "Set(bit)";
					break;
				}
				case 13:
					LOG("b" << x << ".Flip()");
					b[x].Flip();
					for (auto& v : m[x])
						v = !v;
					if (!m[x].empty())
						c.nontrivial();
					what = "Flip";
					break;
				case 14:
				{
					std::size_t i = genSize<B>(c, MaxBits<B> - 1);
					bool v = c.coin();
					LOG("b" << x << ".UnboundedSet(" << i << ", " << v << ")");
					bool reset = !v && c.coin();
					if (reset)
						b[x].UnboundedReset(i);
					else
						b[x].UnboundedSet(i, v);
					if (i < m[x].size())
						m[x][i] = v;
					else if (v)
					{
						m[x].resize(i + 1, 0);
						m[x][i] = 1;
					}
					else if (b[x].GetSize() == i + 1) // documented as enlarging, never observed to: both readings are accepted
						m[x].resize(i + 1, 0);
					what = "UnboundedSet";
					break;
				}
				case 15:
				{
					std::size_t i = c.coin() ? genSize<B>(c) : static_cast<std::size_t>(c.u64());
					LOG("b" << x << ".UnboundedTest(" << i << ")");
					CHECK_EQ(b[x].UnboundedTest(i), i < m[x].size() && m[x][i]);
					what = "UnboundedTest";
					break;
				}
				case 16:
				{
					if (m[x].empty())
						break;
					std::size_t k = c.below(b[x].GetBlockCount());
					Block v = c.integer<Block>();
					LOG("b" << x << ".SetBlock(" << k << ", " << pbt::str(v) << ")");
					b[x].SetBlock(k, v);
					for (std::size_t i = 0; i < bpb && k * bpb + i < m[x].size(); ++i)
						m[x][k * bpb + i] = (v >> i) & 1;
					c.nontrivial();
					what = "SetBlock";
					break;
				}
				case 17:
					LOG("b" << x << ".Reverse()");
					b[x].Reverse();
					std::reverse(m[x].begin(), m[x].end());
					what = "Reverse";
					break;
				case 18:
				case 19: // bit proxies
				{
					if (m[x].empty())
						break;
					std::size_t i = bitOf(x);
					bool v = c.coin();
					unsigned kind = static_cast<unsigned>(c.below(10));
					LOG("b" << x << "[" << i << "] proxy op " << kind << " with " << v);
					auto bit = b[x][i];
					bool old = m[x][i] != 0;
					CHECK_EQ(bit.Test(), old);
					CHECK_EQ(static_cast<bool>(bit), old);
					bool now = old;
					switch (kind)
					{
						case 0: bit = v; now = v; break;
						case 1: bit |= v; now = old | v; break;
						case 2: bit &= v; now = old & v; break;
						case 3: bit ^= v; now = old ^ v; break;
						case 4: bit -= v; now = v ? false : old; break;
						case 5: bit.Flip(); now = !old; break;
						case 6: bit.Reset(); now = false; break;
						case 7: bit.Set(); now = true; break;
						case 8: bit.Set(v); now = v; break;
						default: // copied from another bit
						{
							if (m[y].empty())
								break;
							std::size_t j = bitOf(y);
							b[x][i] = b[y][j];
							now = m[y][j] != 0;
							break;
						}
					}
					m[x][i] = now;
					CHECK_EQ(bit.Test(), now);
					c.nontrivial();
					what = "bit proxy";
					break;
				}
				case 20:
				{
					std::size_t room = MaxBits<B> - m[x].size();
					std::size_t n = std::min<std::size_t>(room, genCount<B>(c, 70));
					Nz::UInt64 v = c.integer<Nz::UInt64>();
					LOG("b" << x << ".AppendBits(" << v << ", " << n << ")");
					b[x].AppendBits(v, n);
					for (std::size_t i = 0; i < n; ++i)
						m[x].push_back(i < 64 ? (v >> i) & 1 : 0);
					c.nontrivial();
					what = "AppendBits";
					break;
				}
				case 21:
				{
					std::size_t n = c.coin() ? genSize<B>(c) : static_cast<std::size_t>(c.below(8));
					bool left = c.coin();
					LOG("b" << x << (left ? " <<= " : " >>= ") << n);
					if (left)
						b[x].ShiftLeft(n);
					else
						b[x].ShiftRight(n);
					m[x] = left ? shiftedLeft(m[x], n) : shiftedRight(m[x], n);
					c.nontrivial();
					what = "shift";
					break;
				}
				case 22:
				case 23: // logic with a result that may be one of the operands
				{
					std::size_t z = c.below(N);
					if (!usable[z])
						z = x;
					unsigned kind = static_cast<unsigned>(c.below(3));
					LOG("b" << z << " = b" << x << " " << "&|^"[kind] << " b" << y);
					Model r;
					if (kind == 0)
					{
						r = combine(m[x], m[y], [](bool p, bool q) { return p && q; });
						b[z].PerformsAND(b[x], b[y]);
					}
					else if (kind == 1)
					{
						r = combine(m[x], m[y], [](bool p, bool q) { return p || q; });
						b[z].PerformsOR(b[x], b[y]);
					}
					else
					{
						r = combine(m[x], m[y], [](bool p, bool q) { return p != q; });
						b[z].PerformsXOR(b[x], b[y]);
					}
					m[z] = r;
					c.nontrivial();
					what = "logic";
					break;
				}
				case 24:
					LOG("b" << x << ".PerformsNOT(b" << y << ")");
					b[x].PerformsNOT(b[y]);
					m[x] = m[y];
					for (auto& v : m[x])
						v = !v;
					what = "PerformsNOT";
					break;
				default: // copies are independent of their source
				{
					B copy(b[x]);
					checkAgainst(copy, m[x], "copy construction");
					if (!m[x].empty())
					{
						copy.Flip();
						checkAgainst(b[x], m[x], "source after a change of its copy");
					}
					B moved(std::move(copy));
					CHECK_EQ(moved.GetSize(), m[x].size());
					what = "copy construction";
					break;
				}
			}
			c.tag(what);
			for (std::size_t k = 0; k < N; ++k)
				if (usable[k])
					checkAgainst(b[k], m[k], what);
		}
	}

	BITSET_TARGETS(history, 40000)
}
