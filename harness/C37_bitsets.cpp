// C37: operations interrupted by a failed memory allocation report it, leak nothing and leave every object valid.
#include "memfault.hpp"
#include <NazaraUtils/Bitset.hpp>

namespace
{
	using namespace fault;

	// --- bitsets
	template<typename B> void sameBits(const B& b, const std::vector<bool>& m, const char* which)
	{
		CHECK_EQ(b.GetSize(), m.size(), "size of", std::string(which));
		CHECK_EQ(b.GetBlockCount(), (m.size() + B::bitsPerBlock - 1) / B::bitsPerBlock, "blocks of", std::string(which));
		std::size_t count = 0;
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			CHECK_EQ(b.Test(i), static_cast<bool>(m[i]), "bit", i, "of", std::string(which));
			count += m[i];
		}
		CHECK_EQ(b.Count(), count, "count of", std::string(which)); // (also sees bits past the end)
		CHECK(b.GetCapacity() >= b.GetSize());
	}

	template<typename B> void bitsets(pbt::Case& c)
	{
		Scope scope;
		{
			std::unique_ptr<B> v[2] = { std::make_unique<B>(), std::make_unique<B>() };
			std::vector<bool> m[2];
			const std::size_t steps = c.size(1, 12);
			for (std::size_t s = 0; s < steps; ++s)
			{
				const std::size_t w = c.below(2), o = 1 - w;
				B& x = *v[w];
				const B& y = *v[o];
				std::vector<bool>& mx = m[w];
				const std::vector<bool>& my = m[o];
				auto binary = [&](auto op) { std::vector<bool> r(std::max(mx.size(), my.size())); for (std::size_t i = 0; i < r.size(); ++i) r[i] = op(i < mx.size() && mx[i], i < my.size() && my[i]); return r; };
				switch (c.below(15))
				{
					case 0: { std::size_t n = c.size(0, 200); bool val = c.coin(); if (attempt(c, "Resize", [&] { x.Resize(n, val); })) mx.resize(n, val); break; }
					case 1: { std::size_t n = c.size(0, 260); if (attempt(c, "Reserve", [&] { x.Reserve(n); })) CHECK(x.GetCapacity() >= n); break; }
					case 2: { std::size_t i = c.size(0, 200); bool val = c.coin(); if (attempt(c, "UnboundedSet", [&] { x.UnboundedSet(i, val); })) { if (mx.size() <= i && val) mx.resize(i + 1); if (i < mx.size()) mx[i] = val; } break; }
					case 3:
					{
						if (mx.size() > 300) break;
						std::size_t n = c.size(0, 90); std::uint64_t bits = c.u64();
						if (attempt(c, "AppendBits", [&] { x.AppendBits(bits, n); }))
							for (std::size_t i = 0; i < n; ++i) mx.push_back(i < 64 && ((bits >> i) & 1));
						break;
					}
					case 4: { if (attempt(c, "copy assignment", [&] { x = y; })) mx = my; break; }
					case 5: { if (attempt(c, "&=", [&] { x &= y; })) mx = binary([](bool a, bool b) { return a && b; }); break; }
					case 6: { if (attempt(c, "|=", [&] { x |= y; })) mx = binary([](bool a, bool b) { return a || b; }); break; }
					case 7: { if (attempt(c, "^=", [&] { x ^= y; })) mx = binary([](bool a, bool b) { return a != b; }); break; }
					case 8:
					{
						std::uint64_t bits = c.u64();
						switch (c.below(3))
						{
							case 0: if (attempt(c, "assignment of a number", [&] { x = B(bits); })) { mx.clear(); for (std::size_t i = 0; i < 64; ++i) mx.push_back((bits >> i) & 1); while (B::bitsPerBlock < 64 && !mx.empty() && !mx.back()) mx.pop_back(); } break;
							case 1:
							{
								std::string t;
								for (std::size_t n = c.size(0, 150); n > 0; --n) t += c.coin() ? '1' : '0';
								if (attempt(c, "assignment of a text", [&] { x = B(t); })) { mx.clear(); for (std::size_t i = t.size(); i > 0; --i) mx.push_back(t[i - 1] == '1'); }
								break;
							}
							case 2: { std::size_t n = c.size(0, 200); if (attempt(c, "assignment of a filled bitset", [&] { x = B(n, true); })) mx.assign(n, true); break; }
						}
						break;
					}
					case 9:
					{
						std::string t;
						if (attempt(c, "ToString", [&] { t = x.ToString(); }))
						{
							CHECK_EQ(t.size(), mx.size());
							for (std::size_t i = 0; i < t.size(); ++i) CHECK_EQ(t[t.size() - 1 - i] == '1', static_cast<bool>(mx[i]));
						}
						break;
					}
					case 10:
					{
						bool equal = false;
						std::vector<bool> all = binary([](bool a, bool b) { return a || b; });
						if (attempt(c, "operators which make a bitset", [&] { B r = x | y; equal = r.GetSize() == all.size() && r.Count() == static_cast<std::size_t>(std::count(all.begin(), all.end(), true)); B s2 = ~x; equal = equal && s2.GetSize() == mx.size(); B t = x << 3; equal = equal && t.GetSize() == mx.size(); }))
							CHECK(equal, "result of an operator");
						break;
					}
					case 11:
					{
						std::vector<unsigned char> bytes(c.size(1, 20));
						for (auto& b : bytes) b = static_cast<unsigned char>(c.below(256));
						if (attempt(c, "FromPointer", [&] { x = B::FromPointer(bytes.data(), bytes.size() * 8); }))
						{
							mx.clear();
							for (std::size_t i = 0; i < bytes.size() * 8; ++i) mx.push_back((bytes[i / 8] >> (i % 8)) & 1);
						}
						break;
					}
					case 12: { never(c, "move assignment", [&] { x = std::move(*v[o]); v[o]->Clear(); }); mx = my; m[o].clear(); break; }
					case 13: { never(c, "Swap", [&] { x.Swap(*v[o]); }); std::swap(m[0], m[1]); break; }
					case 14: { never(c, "operations in place", [&] { x.Flip(); x.Reverse(); x.Reverse(); x.Flip(); x.ShiftLeft(0); if (x.GetSize()) { x.Set(0, true); } }); if (!mx.empty()) mx[0] = true; break; }
				}
				sameBits(*v[0], m[0], "the first bitset");
				sameBits(*v[1], m[1], "the second bitset");
			}
		}
		scope.end();
	}
	PBT_TARGET("Bitset<UInt8>", 40000, &bitsets<Nz::Bitset<Nz::UInt8>>)
	PBT_TARGET("Bitset<UInt32>", 40000, &bitsets<Nz::Bitset<Nz::UInt32>>)
	PBT_TARGET("Bitset<UInt64>", 40000, &bitsets<Nz::Bitset<Nz::UInt64>>)
	PBT_TARGET("HybridBitset<UInt8>", 60000, &bitsets<Nz::HybridBitset<Nz::UInt8, 16>>)
	PBT_TARGET("HybridBitset<UInt64>", 60000, &bitsets<Nz::HybridBitset<Nz::UInt64, 128>>)
}
