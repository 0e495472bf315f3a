#include "bitset_common.hpp"
#include <memory>
#include <sstream>

namespace
{
	// Text
	template<typename B> void text(pbt::Case& c)
	{
		Model m = genBits(c, genSize<B>(c));
		std::string s = modelStr(m);
		LOG("text \"" << s << '"');
		unsigned how = static_cast<unsigned>(c.below(6));
		B b;
		if (c.coin()) // previous content must not matter
			b = makeBitset<B>(c, genBits(c, genSize<B>(c)));
		switch (how)
		{
			case 0: b = B(s.c_str()); break;
			case 1:
			{
				// only the first characters count; what follows is not even a digit
				std::string longer = s + "xyz";
				b = B(longer.c_str(), s.size());
				break;
			}
			case 2: b = B(s); break;
			case 3: b = B(std::string_view(s)); break;
			case 4: b = std::string_view(s); break;
			default: b = s; break;
		}
		checkAgainst(b, m, "from text");
		std::ostringstream ss;
		ss << b;
		CHECK_EQ(ss.str(), s);
		B again(b.ToString());
		checkAgainst(again, m, "text round trip");
		CHECK(again == b);
		if (!m.empty())
			c.nontrivial();
	}

	template<typename B, typename T> void oneInteger(pbt::Case& c)
	{
		T v = c.integer<T>();
		LOG("integer of " << sizeof(T) << " bytes: " << pbt::str(v));
		std::size_t top = 0;
		for (std::size_t i = 0; i < Nz::BitCount<T>; ++i)
			if ((v >> i) & 1)
				top = i + 1;
		auto verify = [&](const B& b)
		{
			// every bit of the integer is there; zeros above the last one may be left out
			CHECK(b.GetSize() >= top && b.GetSize() <= Nz::BitCount<T>);
			Model m(b.GetSize());
			for (std::size_t i = 0; i < m.size(); ++i)
				m[i] = (v >> i) & 1;
			checkAgainst(b, m, "from an integer");
			CHECK_EQ(b.template To<T>(), v);
			CHECK_EQ(b.template To<Nz::UInt64>(), static_cast<Nz::UInt64>(v));
		};
		B b(v);
		verify(b);
		B d = makeBitset<B>(c, genBits(c, genSize<B>(c)));
		d = v;
		verify(d);
		if (v)
			c.nontrivial();
	}

	template<typename B> void integers(pbt::Case& c)
	{
		switch (c.below(4))
		{
			case 0: oneInteger<B, Nz::UInt8>(c); break;
			case 1: oneInteger<B, Nz::UInt16>(c); break;
			case 2: oneInteger<B, Nz::UInt32>(c); break;
			default: oneInteger<B, Nz::UInt64>(c); break;
		}
		// To<T> of any bitset that fits
		Model m = genBits(c, c.below(65));
		B b = makeBitset<B>(c, m);
		Nz::UInt64 expected = 0;
		for (std::size_t i = 0; i < m.size(); ++i)
			expected |= Nz::UInt64(m[i]) << i;
		LOG("To of \"" << modelStr(m) << '"');
		CHECK_EQ(b.template To<Nz::UInt64>(), expected);
		if (m.size() <= 32)
			CHECK_EQ(b.template To<Nz::UInt32>(), static_cast<Nz::UInt32>(expected));
		if (m.size() <= 16)
			CHECK_EQ(b.template To<Nz::UInt16>(), static_cast<Nz::UInt16>(expected));
		if (m.size() <= 8)
			CHECK_EQ(b.template To<Nz::UInt8>(), static_cast<Nz::UInt8>(expected));
	}

	template<typename B, typename T> void append(pbt::Case& c, B& b, Model& m)
	{
		T v = c.integer<T>();
		std::size_t room = MaxBits<B> - m.size();
		std::size_t n;
		switch (c.below(4))
		{
			case 0: n = c.below(9); break;
			case 1: n = Nz::BitCount<T>; break;
			case 2: n = B::bitsPerBlock - m.size() % B::bitsPerBlock; break; // up to the block border
			default: n = c.below(MaxBits<B> > 1000 && c.coin() ? MaxBits<B> : 130); break;
		}
		n = std::min(n, room);
		LOG("AppendBits(UInt" << Nz::BitCount<T> << " " << pbt::str(v) << ", " << n << ")");
		b.AppendBits(v, n);
		for (std::size_t i = 0; i < n; ++i)
			m.push_back(i < Nz::BitCount<T> ? (v >> i) & 1 : 0);
		if (n > 0)
			c.nontrivial();
	}

	// A stream of appended integers and byte sequences
	template<typename B> void stream(pbt::Case& c)
	{
		Model m;
		B b;
		if (c.coin())
		{
			m = genBits(c, genSize<B>(c, MaxBits<B> > 1000 ? MaxBits<B> : 80));
			b = makeBitset<B>(c, m);
			LOG("start from \"" << modelStr(m) << '"');
		}
		for (std::size_t s = 0, steps = c.size(1, 8); s < steps; ++s)
		{
			switch (c.below(7))
			{
				case 0: append<B, Nz::UInt8>(c, b, m); break;
				case 1: append<B, Nz::UInt16>(c, b, m); break;
				case 2: append<B, Nz::UInt32>(c, b, m); break;
				case 3: append<B, Nz::UInt64>(c, b, m); break;
				case 4: // resized in between: bits beyond the size must not come back
				{
					std::size_t n = genSize<B>(c);
					LOG("Resize(" << n << ")");
					b.Resize(n);
					m.resize(n, 0);
					break;
				}
				default: // several reads from one buffer of exactly the documented length
				{
					std::size_t bits = std::min<std::size_t>(MaxBits<B> - m.size(), c.below(MaxBits<B> > 1000 && c.coin() ? MaxBits<B> : 100));
					std::size_t bytes = (bits + 7) / 8;
					std::unique_ptr<Nz::UInt8[]> data(new Nz::UInt8[bytes + (bytes == 0)]);
					for (std::size_t i = 0; i < bytes; ++i)
						data[i] = static_cast<Nz::UInt8>(i < 200 ? c.below(256) : i * 2654435761u >> 13);
					typename B::PointerSequence seq(data.get(), 0);
					std::size_t pos = 0;
					bool first = true;
					while (pos < bits)
					{
						std::size_t n = std::min<std::size_t>(bits - pos, c.below(bits > 200 ? bits : 24));
						if (c.below(6) == 0)
							n = bits - pos;
						LOG("Write(bit " << pos << ", " << n << ")");
						if (first && c.coin())
							seq = b.Write(static_cast<const void*>(data.get()), n);
						else
							seq = b.Write(seq, n);
						first = false;
						for (std::size_t i = pos; i < pos + n; ++i)
							m.push_back((data[i / 8] >> (i % 8)) & 1);
						pos += n;
						CHECK(seq.first == data.get() + pos / 8, pos);
						CHECK_EQ(seq.second, pos % 8);
						if (n == 0 && c.below(4) != 0)
							break;
						c.nontrivial();
						c.tag("pointer sequence");
						checkAgainst(b, m, "Write");
					}
					break;
				}
			}
			checkAgainst(b, m, "stream");
		}
	}

	template<typename B> void fromPointer(pbt::Case& c)
	{
		std::size_t bits = genSize<B>(c);
		std::size_t bytes = (bits + 7) / 8;
		std::unique_ptr<Nz::UInt8[]> data(new Nz::UInt8[bytes + (bytes == 0)]);
		for (std::size_t i = 0; i < bytes; ++i)
			data[i] = i < 200 ? c.pick<Nz::UInt8>({ static_cast<Nz::UInt8>(c.below(256)), 0, 0xFF, 1, 0x80 }) : static_cast<Nz::UInt8>(i * 2654435761u >> 13);
		Model m(bits);
		for (std::size_t i = 0; i < bits; ++i)
			m[i] = (data[i / 8] >> (i % 8)) & 1;
		LOG("FromPointer of " << bits << " bits: " << modelStr(m));
		if (c.coin())
		{
			B b = B::FromPointer(data.get(), bits);
			checkAgainst(b, m, "FromPointer");
		}
		else
		{
			typename B::PointerSequence seq(nullptr, 77);
			B b = B::FromPointer(data.get(), bits, &seq);
			checkAgainst(b, m, "FromPointer with sequence");
			CHECK(seq.first == data.get() + bits / 8);
			CHECK_EQ(seq.second, bits % 8);
		}
		if (bits > 8)
			c.nontrivial();
	}

	BITSET_TARGETS(text, 8000)
	BITSET_TARGETS(integers, 10000)
	BITSET_TARGETS(stream, 25000)
	BITSET_TARGETS(fromPointer, 10000)
}
