// Bitset preconditions: stopped by an assertion exactly when violated
#include "death.hpp"
#include "bitset_common.hpp"

#ifndef NDEBUG
namespace
{
	// index around the limit: below it, at it, one past it, far from it
	std::size_t genIndex(pbt::Case& c, std::size_t limit)
	{
		switch (c.below(6))
		{
			case 0: return limit;
			case 1: return limit + 1 + c.below(3);
			case 2: return c.pick({ std::size_t(-1), std::size_t(-2), std::size_t(1) << 63, std::size_t(1) << 32, limit * 2 + 1, limit + 64, limit + 8 });
			case 3: return limit ? limit - 1 : 0;
			default: return limit ? c.below(limit) : c.below(3);
		}
	}

	template<typename B> void bitset(pbt::Case& c)
	{
		using Block = typename BlockOf<B>::type;
		std::size_t n = genSize<B>(c);
		Model m = genBits(c, n);
		B b(n, false);
		for (std::size_t i = 0; i < n; ++i)
			if (m[i]) b.Set(i);
		const B& cb = b;
		bool valid, failed;
		std::string op;
		switch (c.below(13))
		{
			case 0: { auto i = genIndex(c, n); valid = i < n; op = "Test " + pbt::str(i); failed = pbt::asserts([&] { (void) cb.Test(i); }); break; }
			case 1: { auto i = genIndex(c, n); valid = i < n; op = "Set " + pbt::str(i); failed = pbt::asserts([&] { b.Set(i); }); if (valid) m[i] = 1; break; }
			case 2: { auto i = genIndex(c, n); valid = i < n; bool v = c.coin(); op = "Set " + pbt::str(i) + " " + pbt::str(v); failed = pbt::asserts([&] { b.Set(i, v); }); if (valid) m[i] = v; break; }
			case 3: { auto i = genIndex(c, n); valid = i < n; op = "Reset " + pbt::str(i); failed = pbt::asserts([&] { b.Reset(i); }); if (valid) m[i] = 0; break; }
			case 4: { auto i = genIndex(c, n); valid = i < n; op = "FindNext " + pbt::str(i); failed = pbt::asserts([&] { (void) cb.FindNext(i); }); break; }
			case 5: { auto i = genIndex(c, b.GetBlockCount()); valid = i < b.GetBlockCount(); op = "GetBlock " + pbt::str(i); failed = pbt::asserts([&] { (void) cb.GetBlock(i); }); break; }
			case 6: { auto i = genIndex(c, b.GetBlockCount()); valid = i < b.GetBlockCount(); op = "SetBlock " + pbt::str(i); Block v = cb.GetBlockCount() && valid ? cb.GetBlock(i) : Block(0); failed = pbt::asserts([&] { b.SetBlock(i, v); }); break; }
			case 7: { auto i = genIndex(c, n); valid = i < n; op = "const operator[] " + pbt::str(i); failed = pbt::asserts([&] { (void) cb[i]; }); break; }
			case 8:
			{
				unsigned w = static_cast<unsigned>(c.below(4));
				valid = n <= (8u << w);
				op = "To UInt" + pbt::str(8u << w);
				failed = pbt::asserts([&] { if (w == 0) (void) cb.template To<std::uint8_t>(); else if (w == 1) (void) cb.template To<std::uint16_t>(); else if (w == 2) (void) cb.template To<std::uint32_t>(); else (void) cb.template To<std::uint64_t>(); });
				break;
			}
			case 9:
			{
				// bit offset inside the first byte
				unsigned char bytes[64] = {};
				std::size_t offset = c.below(12), count = c.below(20);
				valid = offset < 8;
				op = "Write from bit " + pbt::str(offset);
				if (n + count > MaxBits<B>) count = 0;
				failed = pbt::asserts([&] { b.Write(std::make_pair(static_cast<const void*>(bytes), offset), count); });
				if (valid) m.resize(n + count, 0);
				break;
			}
			case 10:
			{
				op = "Write from nowhere";
				valid = false;
				std::size_t offset = c.below(8);
				failed = pbt::asserts([&] { b.Write(std::make_pair(static_cast<const void*>(nullptr), offset), 8); });
				break;
			}
			default:
			{
				// text with an unexpected character (or none): checked by a call which stops in every build
				std::string text = modelStr(m);
				std::size_t at = c.size(0, n), other = 0;
				valid = true;
				if (at < n)
				{
					text[at] = c.pick({ '1', '0', '2', ' ', '/', 'l', '\x31', '\xB1' });
					other = text[at] != '0' && text[at] != '1';
					valid = !other;
				}
				op = "text " + text;
				alignas(B) static unsigned char memory[sizeof(B)]; // an interrupted constructor leaves its memory behind
				if (valid)
				{
					failed = pbt::asserts([&] { (new (memory) B(std::string_view(text)))->~B(); });
				}
				else
				{
					// only with storage which does not allocate
					if constexpr (std::is_same_v<typename BlockOf<B>::container, Nz::FixedVector<Block, 4, void>>)
						failed = pbt::asserts([&] { new (memory) B(std::string_view(text)); });
					else
						failed = true;
				}
				break;
			}
		}
		LOG(n << " bits: " << op);
		if (!valid) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(failed, !valid, op, " with ", n, " bits");
		CHECK_EQ(b.ToString(), modelStr(m), "content after ", op);
	}
	PBT_TARGET("UInt8 blocks", 5000, &bitset<Nz::Bitset<std::uint8_t>>)
	PBT_TARGET("UInt32 blocks", 5000, &bitset<Nz::Bitset<std::uint32_t>>)
	PBT_TARGET("UInt64 blocks", 5000, &bitset<Nz::Bitset<std::uint64_t>>)
	using Fixed16 = Nz::Bitset<std::uint16_t, Nz::FixedVector<std::uint16_t, 4, void>>;
	using Hybrid64 = Nz::Bitset<std::uint64_t, Nz::HybridVector<std::uint64_t, 2>>;
	PBT_TARGET("fixed UInt16 blocks", 5000, &bitset<Fixed16>)
	PBT_TARGET("hybrid UInt64 blocks", 5000, &bitset<Hybrid64>)

	// resizing or appending past a fixed capacity
	PBT_TARGET("fixed capacity", 4000, [](pbt::Case& c)
	{
		Fixed16 b(c.size(0, 64), c.coin());
		std::size_t n = b.GetSize(), target = c.size(40, 90);
		bool valid, failed;
		switch (c.below(3))
		{
			case 0: valid = target <= 64; LOG("resize to " << target); failed = pbt::asserts([&] { b.Resize(target, true); }); break;
			case 1: valid = target <= 64; LOG("reserve " << target); failed = pbt::asserts([&] { b.Reserve(target); }); break;
			default:
			{
				unsigned count = static_cast<unsigned>(c.size(0, 30));
				valid = n + count <= 64;
				LOG("append " << count << " to " << n);
				failed = pbt::asserts([&] { b.AppendBits(std::uint32_t(0x2AAAAAAA), count); });
			}
		}
		if (!valid) { c.nontrivial(); c.tag("violated"); }
		CHECK_EQ(failed, !valid, "capacity of 64 bits");
	})
}
#endif
