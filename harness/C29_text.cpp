// UTF-8 text and paths keep their bytes
#include "pbt.hpp"
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <filesystem>
#include <memory>

namespace
{
	void encode(std::string& out, std::uint32_t cp)
	{
		if (cp < 0x80) out += static_cast<char>(cp);
		else if (cp < 0x800) { out += static_cast<char>(0xC0 | (cp >> 6)); out += static_cast<char>(0x80 | (cp & 63)); }
		else if (cp < 0x10000) { out += static_cast<char>(0xE0 | (cp >> 12)); out += static_cast<char>(0x80 | ((cp >> 6) & 63)); out += static_cast<char>(0x80 | (cp & 63)); }
		else { out += static_cast<char>(0xF0 | (cp >> 18)); out += static_cast<char>(0x80 | ((cp >> 12) & 63)); out += static_cast<char>(0x80 | ((cp >> 6) & 63)); out += static_cast<char>(0x80 | (cp & 63)); }
	}
	std::uint32_t genCodePoint(pbt::Case& c)
	{
		switch (c.below(6))
		{
			case 0: return static_cast<std::uint32_t>(c.range(0x80, 0x7FF));
			case 1: { auto cp = static_cast<std::uint32_t>(c.range(0x800, 0xFFFF)); return cp >= 0xD800 && cp < 0xE000 ? 0xFFFD : cp; }
			case 2: return static_cast<std::uint32_t>(c.range(0x10000, 0x10FFFF));
			case 3: return c.pick({ 0x80u, 0x7FFu, 0x800u, 0xFFFFu, 0x10000u, 0x10FFFFu, 0xFEFFu, 0x7Fu });
			default: return static_cast<std::uint32_t>(c.range(32, 126));
		}
	}
	std::string genText(pbt::Case& c, bool nul)
	{
		std::string s;
		for (std::size_t k = 0, n = c.coin() ? c.size(0, 8) : c.chance(1, 80) ? c.size(100, 1500) : c.size(0, 60); k < n; ++k)
			encode(s, nul && c.chance(1, 8) ? 0 : genCodePoint(c));
		return s;
	}
	std::string hex(const std::string& s)
	{
		std::string r;
		for (char ch : s) { char b[8]; std::snprintf(b, sizeof(b), "%02X ", static_cast<unsigned char>(ch)); r += b; }
		return r;
	}
	template<typename S> std::string bytes(const S& s)
	{
		return std::string(reinterpret_cast<const char*>(s.data()), s.size());
	}

	PBT_TARGET("strings", 60000, [](pbt::Case& c)
	{
		const bool nul = c.coin();
		const std::string text = genText(c, nul);
		LOG("text " << hex(text));
		for (char ch : text) if (static_cast<signed char>(ch) <= 0) { c.nontrivial(); break; }
		const std::string upToNul = text.c_str();
		// exact-size buffers, not followed by a null character
		std::unique_ptr<char[]> exact(new char[text.size()]);
		std::copy(text.begin(), text.end(), exact.get());
		std::string_view view(exact.get(), text.size());

		auto fromLvalue = Nz::ToUtf8String(text);
		auto fromRvalue = Nz::ToUtf8String(std::string(text));
		auto fromView = Nz::ToUtf8String(view);
		auto fromPtr = Nz::ToUtf8String(text.c_str());
		CHECK_EQ(hex(bytes(fromLvalue)), hex(text), "ToUtf8String(std::string)");
		CHECK_EQ(hex(bytes(fromRvalue)), hex(text), "ToUtf8String(std::string&&)");
		CHECK_EQ(hex(bytes(fromView)), hex(text), "ToUtf8String(std::string_view)");
		CHECK(static_cast<const void*>(fromView.data()) == exact.get() || text.empty(), "the view does not refer to the text");
		CHECK_EQ(hex(bytes(fromPtr)), hex(upToNul), "ToUtf8String(const char*)");

		auto back = Nz::FromUtf8String(fromLvalue);
		auto backFromView = Nz::FromUtf8String(fromView);
		auto backFromPtr = Nz::FromUtf8String(fromLvalue.c_str());
		CHECK_EQ(hex(bytes(back)), hex(text), "FromUtf8String(string)");
		CHECK_EQ(hex(bytes(backFromView)), hex(text), "FromUtf8String(view)");
		CHECK(static_cast<const void*>(backFromView.data()) == exact.get() || text.empty(), "the view does not refer to the text");
		CHECK_EQ(hex(bytes(backFromPtr)), hex(upToNul), "FromUtf8String(pointer)");

		// the strings own their characters
		{
			std::unique_ptr<std::string> temporary = std::make_unique<std::string>(text + "some suffix long enough to be allocated");
			auto owned = Nz::ToUtf8String(*temporary);
			auto owned2 = Nz::FromUtf8String(Nz::ToUtf8String(std::string(*temporary)));
			temporary.reset();
			CHECK_EQ(hex(bytes(owned)), hex(text + "some suffix long enough to be allocated"));
			CHECK_EQ(hex(bytes(owned2)), hex(text + "some suffix long enough to be allocated"));
		}
	})

	// what a path becomes on this platform: runs of separators are one separator
	std::string model(const std::string& s)
	{
		std::string r;
		for (char ch : s)
			if (ch != '/' || r.empty() || r.back() != '/')
				r += ch;
		return r;
	}

	PBT_TARGET("paths", 60000, [](pbt::Case& c)
	{
		std::string text;
		if (c.chance(1, 4)) text = "/";
		for (std::size_t k = 0, n = c.chance(1, 80) ? c.size(20, 60) : c.size(0, 6); k < n; ++k)
		{
			std::string part;
			switch (c.below(5))
			{
				case 0: part = c.pick({ ".", "..", "a b", "file.tar.gz", "C:", "back\\slash", ".hidden", "~" }); break;
				default: part = genText(c, false); break;
			}
			text += part;
			if (k + 1 < n || c.chance(1, 4))
				text += c.chance(1, 5) ? "//" : "/";
		}
		LOG("path " << text);
		for (char ch : text) if (static_cast<signed char>(ch) < 0 || ch == '/') { c.nontrivial(); break; }
		std::unique_ptr<char[]> exact(new char[text.size()]);
		std::copy(text.begin(), text.end(), exact.get());
		std::filesystem::path path = Nz::Utf8Path(std::string_view(exact.get(), text.size()));
		exact.reset();
		CHECK_EQ(hex(path.native()), hex(text), "Utf8Path");
		std::string back = Nz::PathToString(path);
		CHECK_EQ(hex(back), hex(model(text)), "PathToString");
		CHECK(Nz::Utf8Path(back) == path, "the path differs after a round trip");
		CHECK_EQ(hex(Nz::PathToString(Nz::Utf8Path(back))), hex(back), "second round trip");
		CHECK_EQ(hex(Nz::PathToString(std::filesystem::path(text))), hex(model(text)), "PathToString of a native path");

		// parts of paths
		std::string joined = Nz::PathToString(path / Nz::Utf8Path("\xC3\xA9t\xC3\xA9"));
		// (the standard library keeps two leading separators of some joined paths)
		if (text.substr(0, 2) != "//")
			CHECK_EQ(hex(joined), hex(model(text + (text.empty() || text.back() == '/' ? "" : "/") + "\xC3\xA9t\xC3\xA9")), "joined path");
		auto slash = text.rfind('/');
		CHECK_EQ(hex(Nz::PathToString(path.filename())), hex(text.substr(slash == text.npos ? 0 : slash + 1)), "file name");
	})
}
