// Small property-based-testing engine: choice-sequence generators, integrated shrinking, crash-safe
// execution in forked workers, replay files. See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt
{
	struct Failure { std::string what; };

	inline std::uint64_t mix(std::uint64_t x)
	{
		x += 0x9E3779B97F4A7C15ull;
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
		x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
		return x ^ (x >> 31);
	}

	constexpr std::size_t MaxChoices = 1u << 14;
	constexpr std::size_t MaxTags = 96;

	// One test case: the source of every random choice, and the collector of everything observed about the case.
	class Case
	{
		public:
			// --- choices
			std::uint64_t below(std::uint64_t n) // [0, n), n >= 1
			{
				if (n <= 1)
					return 0;
				std::uint64_t v;
				if (m_pos < m_prefix)
				{
					v = m_choices[m_pos];
					if (v >= n)
						v %= n;
					m_choices[m_pos] = v;
				}
				else if (m_bytes)
				{
					std::uint64_t raw = 0;
					unsigned count = (n <= 256) ? 1 : (n <= 65536) ? 2 : (n <= (1ull << 32)) ? 4 : 8;
					for (unsigned i = 0; i < count && m_bytePos < m_byteCount; ++i)
						raw = (raw << 8) | m_bytes[m_bytePos++];
					v = raw % n;
					if (m_choices.size() < MaxChoices)
						keep(v);
				}
				else if (m_frozen || m_pos >= MaxChoices)
					v = 0;
				else
				{
					m_state += 0x9E3779B97F4A7C15ull;
					std::uint64_t r = mix(m_state);
					v = (n & (n - 1)) == 0 ? (r & (n - 1)) : static_cast<std::uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64);
					keep(v);
				}
				m_pos++;
				m_hash = mix(m_hash ^ v);
				return v;
			}

			// choices and trace are also written to shared memory on demand: a case may kill its process at any point
			void keep(std::uint64_t v)
			{
				m_choices.push_back(v);
				if (m_choiceMirror)
				{
					std::uint64_t n = m_choiceMirror[0];
					m_choiceMirror[1 + n] = v;
					m_choiceMirror[0] = n + 1;
				}
			}

			std::uint64_t u64()
			{
				// full 64-bit choice
				std::uint64_t hi = below(std::uint64_t(1) << 32);
				std::uint64_t lo = below(std::uint64_t(1) << 32);
				return (hi << 32) | lo;
			}

			// inclusive
			std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1)); }
			std::size_t size(std::size_t lo, std::size_t hi) { return lo + static_cast<std::size_t>(below(hi - lo + 1)); }
			bool coin() { return below(2) != 0; }
			bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false

			template<typename T> T pick(std::initializer_list<T> list) { return *(list.begin() + below(list.size())); }

			// Boundary-biased integer of any width
			template<typename T> T integer()
			{
				using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<T, bool>, unsigned char, T>>;
				constexpr unsigned Bits = sizeof(T) * 8;
				U v;
				switch (below(10))
				{
					case 0: v = static_cast<U>(below(4)); break;
					case 1: v = static_cast<U>(0) - static_cast<U>(below(4)); break;
					case 2: v = static_cast<U>(U(1) << below(Bits)); break;
					case 3: v = static_cast<U>((U(1) << below(Bits)) - U(1)); break;
					case 4: v = static_cast<U>((U(1) << below(Bits)) + static_cast<U>(below(5)) - U(2)); break;
					case 5: v = static_cast<U>((U(1) << (Bits - 1)) + static_cast<U>(below(5)) - U(2)); break;
					case 6: v = static_cast<U>(below(256)); break;
					case 7: v = static_cast<U>(U(~U(0)) >> below(Bits)); v = static_cast<U>(v & static_cast<U>(u64())); break;
					case 8: v = static_cast<U>((U(1) << below(Bits)) | (U(1) << below(Bits))); break;
					default: v = static_cast<U>(u64()); break;
				}
				return static_cast<T>(v);
			}

			// Size biased towards interesting borders
			std::size_t sizeAround(std::size_t max, std::initializer_list<std::size_t> borders)
			{
				if (borders.size() != 0 && below(3) != 0)
				{
					std::size_t b = *(borders.begin() + below(borders.size()));
					std::size_t d = below(5);
					std::size_t v = b + d;
					v = (v >= 2) ? v - 2 : 0;
					return v > max ? max : v;
				}
				return size(0, max);
			}

			// --- observations
			void nontrivial() { m_nontrivial = true; }
			bool isNontrivial() const { return m_nontrivial; }
			void tag(const char* literal) // string literals only
			{
				for (std::size_t i = 0; i < m_tagCount; ++i)
					if (m_tags[i] == literal || std::strcmp(m_tags[i], literal) == 0)
						return;
				if (m_tagCount < 24)
					m_tags[m_tagCount++] = literal;
			}

			bool tracing() const { return m_tracing; }
			void log(const std::string& line) { if (m_trace.size() < 16384) { if (m_traceMirror) { std::size_t n = m_trace.size(), k = line.size() < 1024 ? line.size() : 1024; std::memcpy(m_traceMirror + n, line.data(), k); m_traceMirror[n + k] = '\n'; m_traceMirror[n + k + 1] = 0; m_trace.append(line, 0, k); m_trace += '\n'; } else { m_trace += line; m_trace += '\n'; } } }

			// failure that cannot be thrown from where it is found (destructors, noexcept functions)
			void softFail(const char* what) { if (!m_softFail) m_softFail = what; }
			void flush() { if (m_softFail) { const char* w = m_softFail; throw Failure{ w }; } }

			// --- engine side
			std::vector<std::uint64_t> m_choices;
			std::size_t m_pos = 0;
			std::size_t m_prefix = 0;
			bool m_frozen = false;
			const std::uint8_t* m_bytes = nullptr;
			std::size_t m_byteCount = 0, m_bytePos = 0;
			std::uint64_t m_state = 0;
			std::uint64_t m_hash = 0;
			bool m_nontrivial = false;
			bool m_tracing = false;
			std::string m_trace;
			std::uint64_t* m_choiceMirror = nullptr;
			char* m_traceMirror = nullptr;
			const char* m_softFail = nullptr;
			const char* m_tags[24];
			std::size_t m_tagCount = 0;
	};

	// the running case, for code that has no access to it (element types...)
	extern Case* g_case;

	using CaseFn = void(*)(Case&);

	struct TargetDesc
	{
		const char* name;
		std::uint64_t quickCases;   // for sweeps: the number of indices
		std::uint64_t thoroughCases;
		CaseFn fn;
		bool sweep;       // first choice enumerates [0, quickCases)
		bool leakCheck;
	};

	struct Registrar
	{
		Registrar(const char* name, std::uint64_t quick, CaseFn fn, bool sweep = false, bool leakCheck = true, std::uint64_t thorough = 0);
	};

	// run cases with allocation failure injection / counting
	long liveAllocations();
	std::uint64_t allocationCount(); // made so far (AddressSanitizer builds)
	// while positive, allocations are not counted (framework work)
	struct Uncounted { Uncounted(); ~Uncounted(); };

	template<typename T> std::string str(const T& v)
	{
		std::ostringstream ss;
		if constexpr (std::is_same_v<T, bool>) ss << (v ? "true" : "false");
		else if constexpr (std::is_integral_v<T> && sizeof(T) == 1) ss << static_cast<int>(v);
		else if constexpr (std::is_floating_point_v<T>) { ss.precision(21); ss << v; }
		else if constexpr (std::is_enum_v<T>) ss << static_cast<long long>(v);
		else ss << v;
		return ss.str();
	}

	[[noreturn]] inline void fail(const std::string& what) { throw Failure{ what }; }
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TARGET(name, quick, ...) static pbt::Registrar PBT_CAT(pbt_reg_, __LINE__)(name, quick, __VA_ARGS__);
#define PBT_SWEEP(name, count, ...) static pbt::Registrar PBT_CAT(pbt_reg_, __LINE__)(name, count, __VA_ARGS__, true);

#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream pbt_ss; pbt_ss << #cond << " at " << __FILE__ << ":" << __LINE__; pbt::detail_append(pbt_ss, ##__VA_ARGS__); pbt::fail(pbt_ss.str()); } } while (0)
#define CHECK_EQ(a, b, ...) do { auto&& pbt_a = (a); auto&& pbt_b = (b); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_ss; pbt_ss << #a << " == " << #b << " [" << pbt::str(pbt_a) << " vs expected " << pbt::str(pbt_b) << "] at " << __FILE__ << ":" << __LINE__; pbt::detail_append(pbt_ss, ##__VA_ARGS__); pbt::fail(pbt_ss.str()); } } while (0)
#define LOG(...) do { if (c.tracing()) { std::ostringstream pbt_ss; pbt_ss << __VA_ARGS__; c.log(pbt_ss.str()); } } while (0)

namespace pbt
{
	inline void detail_append(std::ostringstream&) {}
	template<typename... Args> void detail_append(std::ostringstream& ss, const Args&... args) { ss << " -- "; ((ss << str(args) << ' '), ...); }
}
