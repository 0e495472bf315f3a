// Assertions. EXPECT_ON: whether the macros are expected to check anything in this translation unit
#include "death.hpp"
#include <NazaraUtils/Assert.hpp>
#include <cstdio>
#include <cstring>

namespace C30_NS
{
	struct Truthy
	{
		int* evaluated;
		bool value;
		explicit operator bool() const { ++*evaluated; return value; }
		bool operator!() const { ++*evaluated; return !value; }
	};

	// what a failed assertion has to print, besides the place it comes from
	struct Failure
	{
		std::string text;
		bool hasSource = false;
		unsigned int line = 0;
	};

	void check(pbt::Case& c, bool expectFailure, const Failure& expected, bool failed, const std::string& out)
	{
		CHECK(failed == expectFailure, (expectFailure ? "did not stop" : "stopped although nothing failed"), " output: ", out);
		if (!failed)
		{
			CHECK(out.empty(), "printed: ", out);
			return;
		}
		c.tag("failed");
		CHECK(out.find("assertion failed") != std::string::npos, out);
		CHECK(out.find(expected.text) != std::string::npos, "message [", expected.text, "] not in [", out, "]");
		if (expected.hasSource)
			CHECK(out.find(std::string(__FILE__) + ":" + std::to_string(expected.line)) != std::string::npos, "place (line ", expected.line, ") not in [", out, "]");
	}

	std::string genText(pbt::Case& c, std::size_t max)
	{
		static const char alphabet[] = "ab %dsnxZ01.,:;!\\\"'()[]{}%#*&-+=\t\xC3\xA9";
		std::string s(c.chance(1, 20) ? c.sizeAround(6000, { 255, 256, 1024, 4096 }) : c.size(0, max), ' ');
		for (char& ch : s)
			ch = alphabet[c.below(sizeof(alphabet) - 1)];
		return s;
	}

	void macros(pbt::Case& c)
	{
		const bool value = c.chance(1, 3);
		const bool expectFailure = !value && EXPECT_ON;
		int evaluated = 0, argsEvaluated = 0;
		auto cond = [&] { ++evaluated; return value; };
		const int i = c.integer<std::int32_t>();
		const double d = static_cast<double>(c.range(-100000, 100000)) / 64;
		const std::string text = genText(c, 40);
		const char* str = text.c_str();
		auto arg = [&](auto v) { ++argsEvaluated; return v; };
		int expectedArgs = 0;
		std::string out;
		Failure expected;
		expected.hasSource = true;
		bool failed = false;
		const unsigned form = static_cast<unsigned>(c.below(10));
		if (c.chance(1, 4)) pbt::g_deathIgnoreTraps = 1;
		LOG("macro form " << form << ", condition " << value << (pbt::g_deathIgnoreTraps ? ", continued from the debugger" : ""));
		if (!value) c.nontrivial();
		int* ptr = value ? &evaluated : nullptr;
		switch (form)
		{
			case 0: expected.text = "cond()"; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssert(cond()); }, &out); break;
			case 1: expected.text = "some message"; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), "some message"); }, &out); break;
			case 2: expected.text = "100% of %d and %s"; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), "100% of %d and %s"); }, &out); break;
			case 3:
			{
				char buf[256];
				std::snprintf(buf, sizeof(buf), "<%d|%s|%.3f>", i, str, d);
				expected.text = buf;
				expectedArgs = 3;
				failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), "<%d|%s|%.3f>", arg(i), arg(str), arg(d)); }, &out);
				break;
			}
			case 4:
			{
				expected.text = "[" + text + "]";
				expectedArgs = 1;
				failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), "[%s]", arg(str)); }, &out);
				break;
			}
			case 5: expected.text = "ptr"; evaluated = EXPECT_ON; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssert(ptr); NazaraUnused(ptr); }, &out); break;
			case 6: expected.text = "Truthy"; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssert((Truthy{ &evaluated, value })); }, &out); break;
			case 7: expected.text = text; failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), str); NazaraUnused(str); }, &out); break;
			case 8: expected.text = "i % 7 != 3 || cond()"; evaluated = 0; failed = pbt::asserts([&] { const int i = 3; NazaraUnused(i); expected.line = __LINE__; NazaraAssert(i % 7 != 3 || cond()); }, &out); break;
			default:
			{
				// long long and unsigned arguments, long output
				std::string pad(200, 'p');
				char buf[512];
				std::snprintf(buf, sizeof(buf), "%s %lld %u %c", pad.c_str(), static_cast<long long>(i) * 1048576, static_cast<unsigned>(i), 'z');
				expected.text = buf;
				expectedArgs = 2;
				const char* p = pad.c_str();
				NazaraUnused(p);
				failed = pbt::asserts([&] { expected.line = __LINE__; NazaraAssertMsg(cond(), "%s %lld %u %c", p, arg(static_cast<long long>(i) * 1048576), arg(static_cast<unsigned>(i)), 'z'); }, &out);
				break;
			}
		}
		pbt::g_deathIgnoreTraps = 0;
		NazaraUnused(cond); NazaraUnused(arg); NazaraUnused(i); NazaraUnused(d);
		check(c, expectFailure, expected, failed, out);
		CHECK_EQ(evaluated, EXPECT_ON ? 1 : 0, "evaluations of the condition, form ", form);
		CHECK_EQ(argsEvaluated, expectFailure ? expectedArgs : 0, "evaluations of the arguments, form ", form);
	}
	PBT_TARGET(C30_NAME " macros", 6000, &macros)

	// the macros are one statement: they take no branch of the surrounding code
	void statements(pbt::Case& c)
	{
		const bool a = c.coin(), b = c.coin(), d = c.coin();
		int path = 0;
		std::string out;
		LOG("conditions " << a << b << d);
		if (a || b) c.nontrivial();
		const unsigned form = static_cast<unsigned>(c.below(5));
		bool failed = pbt::asserts([&]
		{
			switch (form)
			{
				case 0:
					if (a)
						NazaraAssert(b);
					else
						path |= 1;
					break;
				case 1:
					if (a)
						NazaraAssertMsg(b, "message");
					else if (d)
						path |= 2;
					else
						path |= 4;
					break;
				case 2:
					for (int i = 0; i < 3; ++i)
						NazaraAssert(b || i < 1 || !a);
					path |= 8;
					break;
				case 3:
					if (a)
						if (d)
							NazaraAssert(b);
						else
							path |= 16;
					else
						path |= 32;
					break;
				default:
					a ? Nz::Assert(b) : static_cast<void>(path |= 64);
					break;
			}
		}, &out);
		int expected = 0;
		bool expectFailure = false;
		switch (form)
		{
			case 0: expectFailure = a && !b && EXPECT_ON; expected = a ? 0 : 1; break;
			case 1: expectFailure = a && !b && EXPECT_ON; expected = a ? 0 : d ? 2 : 4; break;
			case 2: expectFailure = a && !b && EXPECT_ON; expected = expectFailure ? 0 : 8; break;
			case 3: expectFailure = a && d && !b && EXPECT_ON; expected = a ? (d ? 0 : 16) : 32; break;
			default: expectFailure = a && !b; expected = a ? 0 : 64; break;
		}
		CHECK_EQ(failed, expectFailure, "form ", form, " output ", out);
		CHECK_EQ(path, expected, "branch taken, form ", form);
	}
	PBT_TARGET(C30_NAME " statements", 2000, &statements)

	// the functions check whatever the build
	void functions(pbt::Case& c)
	{
		const bool value = c.chance(1, 4);
		const int i = c.integer<std::int32_t>();
		const std::string text = genText(c, 40), file = "dir/" + genText(c, 10) + ".cpp";
		const char* str = text.c_str();
		const unsigned line = static_cast<unsigned>(c.range(1, 100000));
		std::string out, place = file + ":" + std::to_string(line);
		const unsigned form = static_cast<unsigned>(c.below(9));
		if (c.chance(1, 4)) pbt::g_deathIgnoreTraps = 1;
		LOG("function form " << form << ", condition " << value << (pbt::g_deathIgnoreTraps ? ", continued from the debugger" : ""));
		bool expectFailure = !value || form >= 5;
		if (expectFailure) c.nontrivial();
		Failure expected;
		bool failed = false;
		switch (form)
		{
			case 0: failed = pbt::asserts([&] { Nz::Assert(value); }, &out); place.clear(); break;
			case 1: expected.text = text; failed = pbt::asserts([&] { Nz::Assert(value, str); }, &out); place.clear(); break;
			case 2: expected.text = "(" + text + " " + std::to_string(i) + ")"; failed = pbt::asserts([&] { Nz::Assert(value, "(%s %d)", str, i); }, &out); place.clear(); break;
			case 3: expected.text = text; failed = pbt::asserts([&] { Nz::AssertWithSource(value, file.c_str(), line, str); }, &out); break;
			case 4: expected.text = "{" + text + "}"; failed = pbt::asserts([&] { Nz::AssertWithSource(value, file.c_str(), line, "{%s}", str); }, &out); break;
			case 5: failed = pbt::asserts([&] { Nz::AssertFailure(); }, &out); place.clear(); break;
			case 6: expected.text = "value " + std::to_string(i); failed = pbt::asserts([&] { Nz::AssertFailure("value %d", i); }, &out); place.clear(); break;
			case 7: expected.text = text; failed = pbt::asserts([&] { Nz::AssertFailureWithSource(file.c_str(), line, str); }, &out); break;
			default: expected.text = std::to_string(i) + " in " + text; failed = pbt::asserts([&] { Nz::AssertFailureWithSource(file.c_str(), line, "%d in %s", i, str); }, &out); break;
		}
		pbt::g_deathIgnoreTraps = 0;
		check(c, expectFailure, expected, failed, out);
		if (failed)
			CHECK(out.find(place) != std::string::npos, "place [", place, "] not in [", out, "]");
	}
	PBT_TARGET(C30_NAME " functions", 6000, &functions)

	// in constant expressions, a failed assertion is an error and another does nothing
#if __cplusplus >= 202002L
	constexpr int half(int v)
	{
		NazaraAssert(v % 2 == 0);
		NazaraAssertMsg(v >= 0, "%d is negative", v);
		return v / 2;
	}
	constexpr int checkedHalf(int v)
	{
		Nz::Assert(v % 2 == 0);
		Nz::Assert(v >= 0, "%d is negative", v);
		Nz::AssertWithSource(v < 100, "file", 1, "too big");
		if (v == 42)
			Nz::AssertFailure();
		if (v == 44)
			Nz::AssertFailure("%d", v);
		if (v == 46)
			Nz::AssertFailureWithSource("file", 1, "%d", v);
		return v / 2;
	}
	template<int V> concept HalfIsConstant = requires { typename std::integral_constant<int, half(V)>; };
	template<int V> concept CheckedHalfIsConstant = requires { typename std::integral_constant<int, checkedHalf(V)>; };
	template<int... Vs> void constants(pbt::Case& c, std::integer_sequence<int, Vs...>)
	{
		// every value, and its negative
		(([&](auto v)
		{
			constexpr int value = decltype(v)::value;
			CHECK_EQ((HalfIsConstant<value>), (value % 2 == 0 && value >= 0) || !EXPECT_ON, "NazaraAssert, constant ", value);
			CHECK_EQ((CheckedHalfIsConstant<value>), value % 2 == 0 && value >= 0 && value < 100 && value != 42 && value != 44 && value != 46, "Nz::Assert, constant ", value);
			if constexpr (CheckedHalfIsConstant<value>)
			{
				constexpr int r = checkedHalf(value);
				CHECK_EQ(r, value / 2);
			}
		}(std::integral_constant<int, Vs - 30>{})), ...);
		c.nontrivial();
	}
	PBT_TARGET(C30_NAME " constant expressions", 2, [](pbt::Case& c) { constants(c, std::make_integer_sequence<int, 140>{}); })
#endif
}
