#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
	#define PBT_ASAN 1
#elif defined(__has_feature)
	#if __has_feature(address_sanitizer)
		#define PBT_ASAN 1
	#endif
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=512:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:malloc_context_size=8:handle_abort=0:symbolize=0:quarantine_size_mb=8"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99:symbolize=0"; }
#endif

#if defined(__SANITIZE_THREAD__)
	#define PBT_TSAN 1
#elif defined(__has_feature)
	#if __has_feature(thread_sanitizer)
		#define PBT_TSAN 1
	#endif
#endif
#ifdef PBT_TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=99:symbolize=0:handle_abort=0:handle_segv=0:report_signal_unsafe=0:atexit_sleep_ms=0:report_thread_leaks=0"; }
#endif

namespace pbt
{
	Case* g_case = nullptr;

	static long g_live = 0;
	static int g_uncounted = 0;
	static std::uint64_t g_allocations = 0;
	static void onMalloc(const volatile void* p, size_t) { if (p && g_uncounted == 0) { ++g_live; ++g_allocations; } }
	static void onFree(const volatile void* p) { if (p && g_uncounted == 0) --g_live; }
	long liveAllocations() { return g_live; }
	std::uint64_t allocationCount() { return g_allocations; }
	Uncounted::Uncounted() { ++g_uncounted; }
	Uncounted::~Uncounted() { --g_uncounted; }

	static std::vector<TargetDesc>& targets()
	{
		static std::vector<TargetDesc> t;
		return t;
	}

	Registrar::Registrar(const char* name, std::uint64_t quick, CaseFn fn, bool sweep, bool leakCheck, std::uint64_t thorough)
	{
		targets().push_back({ name, quick, thorough ? thorough : (sweep ? quick : quick * 15), fn, sweep, leakCheck });
	}

	static std::uint64_t hashStr(const char* s)
	{
		std::uint64_t h = 1469598103934665603ull;
		for (; *s; ++s)
			h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
		return h;
	}

	// Prepares a case
	static void setup(Case& c, const TargetDesc& t, std::uint64_t seed, std::uint64_t index)
	{
		c.m_choices.clear();
		c.m_pos = 0;
		c.m_prefix = 0;
		c.m_frozen = false;
		c.m_bytes = nullptr;
		c.m_hash = hashStr(t.name);
		c.m_nontrivial = false;
		c.m_trace.clear();
		c.m_softFail = nullptr;
		c.m_tagCount = 0;
		c.m_state = mix(mix(seed ^ 0x5851F42D4C957F2Dull) ^ mix(c.m_hash) ^ mix(index * 2 + 1));
		if (t.sweep)
		{
			c.m_choices.push_back(index);
			c.m_prefix = 1;
		}
	}

	// true if ok
	static bool runBody(Case& c, const TargetDesc& t, std::string& why)
	{
		g_case = &c;
		try
		{
			t.fn(c);
			c.flush();
		}
		catch (const Failure& f)
		{
			why = f.what;
			return false;
		}
		catch (const std::exception& e)
		{
			why = std::string("unexpected exception: ") + e.what();
			return false;
		}
		catch (...)
		{
			why = "unexpected exception of unknown type";
			return false;
		}
		return true;
	}

	static void rewind(Case& c)
	{
		c.m_prefix = c.m_choices.size();
		c.m_pos = 0;
		c.m_frozen = true;
		c.m_bytes = nullptr;
		c.m_nontrivial = false;
		c.m_softFail = nullptr;
		c.m_tagCount = 0;
		c.m_trace.clear();
	}

	// run once, with the leak check (an imbalance must repeat, first calls may fill caches)
	static bool runChecked(Case& c, const TargetDesc& t, std::string& why)
	{
		long before = g_live;
		bool ok = runBody(c, t, why);
		if (!ok)
			return false;
#ifdef PBT_ASAN
		if (t.leakCheck && g_live != before && !c.tracing())
		{
			for (int i = 0; i < 3; ++i)
			{
				Case c2 = c;
				c2.m_choiceMirror = nullptr;
				rewind(c2);
				long b2 = g_live;
				std::string w2;
				if (!runBody(c2, t, w2))
				{
					why = w2;
					g_case = nullptr;
					return false;
				}
				if (g_live == b2)
				{
					g_case = nullptr;
					return true;
				}
			}
			g_case = nullptr;
			why = "memory leak: dynamic allocations made during the case are still live after every object was destroyed";
			return false;
		}
#endif
		g_case = nullptr;
		return true;
	}

	struct Slot
	{
		std::atomic<std::uint64_t> progress;
		std::uint64_t target, index;
		std::uint64_t blockStart;
		std::uint64_t evals, nontrivial;
		char why[2048];
	};

	constexpr std::size_t TableBits = 23;
	struct Shared
	{
		std::atomic<std::uint64_t> nextBlock;
		std::atomic<std::uint64_t> distinct;
		std::atomic<int> stop;
		Slot slots[64];
		std::uint64_t targetEvals[64][512]; // per worker
		std::uint64_t targetNontrivial[64][512];
		char tagNames[64][MaxTags][48];
		std::uint64_t tagCounts[64][MaxTags];
		std::atomic<std::uint64_t> table[1u << TableBits];
	};

	static Shared* g_shared;

	static void countDistinct(std::uint64_t h)
	{
		if (h == 0)
			h = 1;
		if (g_shared->distinct.load(std::memory_order_relaxed) > (std::uint64_t(1) << TableBits) * 8 / 10)
			return;
		std::size_t i = mix(h) & ((1u << TableBits) - 1);
		for (;;)
		{
			std::uint64_t cur = g_shared->table[i].load(std::memory_order_relaxed);
			if (cur == h)
				return;
			if (cur == 0)
			{
				std::uint64_t expected = 0;
				if (g_shared->table[i].compare_exchange_strong(expected, h))
				{
					g_shared->distinct.fetch_add(1, std::memory_order_relaxed);
					return;
				}
				if (expected == h)
					return;
			}
			i = (i + 1) & ((1u << TableBits) - 1);
		}
	}

	static void countTag(unsigned worker, const char* tag)
	{
		auto& names = g_shared->tagNames[worker];
		for (std::size_t i = 0; i < MaxTags; ++i)
		{
			if (names[i][0] == 0)
			{
				std::strncpy(names[i], tag, 47);
			}
			if (std::strncmp(names[i], tag, 47) == 0)
			{
				g_shared->tagCounts[worker][i]++;
				return;
			}
		}
	}

	struct Options
	{
		std::uint64_t seed = 1;
		bool thorough = false;
		unsigned workers = 8;
		double cap = 240;
		std::string only;
		std::string out;
		std::string replay;
		std::string replayOut;
		std::string property;
		std::string config;
		double scale = 1.0;
	};

	constexpr std::uint64_t BlockSize = 64;
	struct BlockRef { std::uint32_t target; std::uint64_t start, end; };

	static void limitCpu(unsigned seconds)
	{
		rlimit rl{ seconds, seconds + 2 };
		setrlimit(RLIMIT_CPU, &rl);
	}

	static void noCore()
	{
		rlimit rl{ 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
	}

	[[noreturn]] static void workerMain(unsigned w, const Options& opt, const std::vector<BlockRef>& blocks)
	{
		Slot& slot = g_shared->slots[w];
		Case c;
		c.m_choices.reserve(MaxChoices + 8);
		c.m_trace.reserve(64);
		while (!g_shared->stop.load(std::memory_order_relaxed))
		{
			std::uint64_t b = g_shared->nextBlock.fetch_add(1);
			if (b >= blocks.size())
				break;
			const BlockRef& ref = blocks[b];
			const TargetDesc& t = targets()[ref.target];
			slot.target = ref.target;
			slot.blockStart = ref.start;
			for (std::uint64_t i = ref.start; i < ref.end; ++i)
			{
				slot.index = i;
				slot.progress.fetch_add(1, std::memory_order_relaxed);
				setup(c, t, opt.seed, i);
				std::string why;
				if (!runChecked(c, t, why))
				{
					std::strncpy(slot.why, why.c_str(), sizeof(slot.why) - 1);
					_exit(77);
				}
				slot.evals++;
				g_shared->targetEvals[w][ref.target]++;
				if (c.m_nontrivial)
				{
					slot.nontrivial++;
					g_shared->targetNontrivial[w][ref.target]++;
					countDistinct(c.m_hash);
				}
				for (std::size_t k = 0; k < c.m_tagCount; ++k)
					countTag(w, c.m_tags[k]);
			}
		}
		_exit(0);
	}

#ifdef PBT_ASAN
	static void setDeathCallback(void (*f)()) { __sanitizer_set_death_callback(f); }
#endif

	struct Outcome { bool failed = false; std::string why; std::string trace; std::string err; std::vector<std::uint64_t> choices; };

	static std::string slurp(const std::string& path, std::size_t max)
	{
		std::ifstream f(path);
		std::stringstream ss;
		ss << f.rdbuf();
		std::string s = ss.str();
		if (s.size() > max)
			s.resize(max);
		return s;
	}

	// Runs something in a child; returns what happened
	static Outcome inChild(const std::function<bool(int pipe)>& body, bool quiet)
	{
		int fds[2];
		if (pipe(fds) != 0)
			abort();
		char errPath[] = "/tmp/pbt_err_XXXXXX";
		int errFd = mkstemp(errPath);
		pid_t pid = fork();
		if (pid == 0)
		{
			close(fds[0]);
			dup2(errFd, 2);
			limitCpu(20);
			bool ok = body(fds[1]);
			_exit(ok ? 0 : 77);
		}
		close(fds[1]);
		std::string data;
		char buf[4096];
		for (;;)
		{
			ssize_t n = read(fds[0], buf, sizeof(buf));
			if (n < 0 && errno == EINTR)
				continue;
			if (n <= 0)
				break;
			data.append(buf, static_cast<std::size_t>(n));
		}
		close(fds[0]);
		close(errFd);
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		Outcome o;
		(void) quiet;
		std::string err = slurp(errPath, 3000);
		unlink(errPath);
		o.err = err;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
			o.failed = false;
		else
		{
			o.failed = true;
			if (WIFSIGNALED(status))
			{
				int sig = WTERMSIG(status);
				o.why = (sig == SIGXCPU || sig == SIGKILL) ? "the case does not terminate (CPU limit)" : ("killed by signal " + std::to_string(sig) + " (" + strsignal(sig) + ")");
			}
			else if (WEXITSTATUS(status) == 99)
				o.why = "sanitizer report";
		}
		std::size_t sep = data.find('\1');
		if (sep != std::string::npos)
		{
			std::string msg = data.substr(0, sep);
			if (!msg.empty() && o.why.empty())
				o.why = msg;
			std::string rest = data.substr(sep + 1);
			std::size_t sep2 = rest.find('\1');
			o.trace = rest.substr(0, sep2);
			if (sep2 != std::string::npos)
			{
				std::istringstream ss(rest.substr(sep2 + 1));
				std::uint64_t v;
				while (ss >> v)
					o.choices.push_back(v);
			}
		}
		if (o.failed && o.why.empty())
			o.why = "child exited abnormally";
		return o;
	}

	static void sendAll(int fd, const std::string& s)
	{
		std::size_t off = 0;
		while (off < s.size())
		{
			ssize_t n = write(fd, s.data() + off, s.size() - off);
			if (n <= 0)
				return;
			off += static_cast<std::size_t>(n);
		}
	}

	// The trace of a crashing case goes out as it is written
	static Outcome runChoices(const TargetDesc& t, const std::vector<std::uint64_t>& choices, bool trace)
	{
		return inChild([&](int fd)
		{
			Case c;
			c.m_choices.reserve(MaxChoices + 8);
			setup(c, t, 0, 0);
			c.m_choices = choices;
			c.m_choices.reserve(MaxChoices + 8);
			rewind(c);
			c.m_tracing = false;
			std::string why;
			bool ok = runChecked(c, t, why);
			std::string tr;
			std::string ch;
			for (std::size_t i = 0; i < c.m_pos && i < c.m_choices.size(); ++i)
				ch += std::to_string(c.m_choices[i]) + " ";
			(void) trace;
			sendAll(fd, why + "\1" + tr + "\1" + ch);
			return ok;
		}, true);
	}

	static std::string traceOf(const TargetDesc& t, const std::vector<std::uint64_t>& choices)
	{
		// written through a shared mapping: a crash keeps it
		std::size_t cap = 20000;
		char* mem = static_cast<char*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		inChild([&](int)
		{
			Case c;
			setup(c, t, 0, 0);
			c.m_choices = choices;
			rewind(c);
			c.m_tracing = true;
			c.m_trace.reserve(17500);
			c.m_traceMirror = mem;
			std::string why;
			return runBody(c, t, why);
		}, true);
		std::string s = mem;
		munmap(mem, cap);
		return s;
	}

	static std::vector<std::uint64_t> choicesOfIndex(const TargetDesc& t, std::uint64_t seed, std::uint64_t index, std::string& why, bool& failed)
	{
		// the choices go to a shared mapping as they are made: a crash keeps them
		std::size_t bytes = (MaxChoices + 16) * 8;
		std::uint64_t* mem = static_cast<std::uint64_t*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		Outcome o = inChild([&](int fd)
		{
			Case c;
			c.m_choices.reserve(MaxChoices + 8);
			setup(c, t, seed, index);
			for (std::uint64_t v : c.m_choices)
				mem[1 + mem[0]++] = v;
			c.m_choiceMirror = mem;
			std::string w;
			bool ok = runChecked(c, t, w);
			sendAll(fd, w + "\1");
			return ok;
		}, true);
		why = o.why;
		failed = o.failed;
		std::vector<std::uint64_t> r(mem + 1, mem + 1 + std::min<std::uint64_t>(mem[0], MaxChoices));
		munmap(mem, bytes);
		return r;
	}

	static double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}

	static std::vector<std::uint64_t> shrink(const TargetDesc& t, std::vector<std::uint64_t> best, double budget)
	{
		double end = now() + budget;
		std::set<std::vector<std::uint64_t>> tried;
		std::size_t keep = t.sweep ? 1 : 0;
		auto attempt = [&](const std::vector<std::uint64_t>& cand)
		{
			if (now() > end || !tried.insert(cand).second)
				return false;
			Outcome o = runChoices(t, cand, false);
			if (!o.failed || o.why.find("does not terminate") != std::string::npos)
				return false;
			best = cand;
			if (!o.choices.empty() && o.choices.size() < best.size())
				best = o.choices;
			return true;
		};
		bool progress = true;
		while (progress && now() < end)
		{
			progress = false;
			for (std::size_t chunk = std::max<std::size_t>(best.size() / 2, 1); chunk >= 1; chunk /= 2)
			{
				for (std::size_t i = best.size(); i-- > keep && now() < end;)
				{
					if (i + chunk > best.size())
						continue;
					auto cand = best;
					cand.erase(cand.begin() + i, cand.begin() + i + chunk);
					if (attempt(cand))
					{
						progress = true;
						if (i > best.size())
							i = best.size();
					}
				}
			}
			for (std::size_t i = 0; i < best.size() && now() < end; ++i)
			{
				if (best[i] == 0)
					continue;
				auto cand = best;
				cand[i] = 0;
				if (attempt(cand))
				{
					progress = true;
					continue;
				}
				std::uint64_t lo = 0, hi = best[i];
				while (hi - lo > 1 && now() < end)
				{
					std::uint64_t mid = lo + (hi - lo) / 2;
					auto cd = best;
					if (i >= cd.size())
						break;
					cd[i] = mid;
					if (attempt(cd))
					{
						hi = mid;
						progress = true;
					}
					else
						lo = mid;
				}
			}
		}
		while (!best.empty() && best.size() > keep && best.back() == 0)
			best.pop_back();
		return best;
	}

	static std::string jsonStr(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
			else if (ch == '\n') r += "\\n";
			else if (ch < 0x20 || ch >= 0x7F) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
			else r += static_cast<char>(ch);
		}
		return r + "\"";
	}

	static int reportViolation(const Options& opt, const TargetDesc& t, const std::vector<std::uint64_t>& choices, const std::string& originalWhy)
	{
		auto best = shrink(t, choices, originalWhy.find("does not terminate") != std::string::npos ? 0.0 : 25.0);
		Outcome o;
		for (int i = 0; i < 3; ++i)
		{
			o = runChoices(t, best, false);
			if (!o.failed)
				return 2;
		}
		std::string trace = traceOf(t, best);
		std::ofstream f(opt.replayOut);
		f << "property " << opt.property << "\nconfig " << opt.config << "\ntarget " << t.name << "\nchoices";
		for (auto v : best)
			f << ' ' << v;
		f << "\n\nwhat: " << o.why << "\n";
		if (!o.err.empty())
			f << "stderr: " << o.err << "\n";
		f << "trace:\n" << trace;
		f.close();
		std::cout << "FAILED config=" << opt.config << " target=" << t.name << "\n  " << o.why << "\n" << o.err << "\ntrace:\n" << trace << std::endl;
		std::cout << "VIOLATION property=" << opt.property << " replay=" << opt.replayOut << std::endl;
		return 1;
	}

	static Outcome runBlock(const TargetDesc& t, std::uint64_t seed, std::uint64_t from, std::uint64_t to)
	{
		return inChild([&](int fd)
		{
			Case c;
			c.m_choices.reserve(MaxChoices + 8);
			for (std::uint64_t i = from; i <= to; ++i)
			{
				setup(c, t, seed, i);
				std::string why;
				if (!runChecked(c, t, why))
				{
					sendAll(fd, why + "\1");
					return false;
				}
			}
			return true;
		}, true);
	}

	// a failure that needs the cases before it (state kept between cases)
	static int reportBlock(const Options& opt, const TargetDesc& t, std::uint64_t from, std::uint64_t to)
	{
		Outcome o;
		for (int i = 0; i < 3; ++i)
		{
			o = runBlock(t, opt.seed, from, to);
			if (!o.failed)
				return 2;
		}
		std::ofstream f(opt.replayOut);
		f << "property " << opt.property << "\nconfig " << opt.config << "\ntarget " << t.name << "\nblock " << opt.seed << ' ' << from << ' ' << to
		  << "\n\nwhat: " << o.why << "\nstderr: " << o.err << "\n";
		f.close();
		std::cout << "FAILED config=" << opt.config << " target=" << t.name << " (needs the preceding cases)\n  " << o.why << "\n" << o.err << std::endl;
		std::cout << "VIOLATION property=" << opt.property << " replay=" << opt.replayOut << std::endl;
		return 1;
	}

	static int doReplay(const Options& opt)
	{
		std::ifstream f(opt.replay);
		std::string line, target;
		std::vector<std::uint64_t> choices;
		while (std::getline(f, line))
		{
			if (line.rfind("target ", 0) == 0)
				target = line.substr(7);
			else if (line.rfind("choices", 0) == 0)
			{
				std::istringstream ss(line.substr(7));
				std::uint64_t v;
				while (ss >> v)
					choices.push_back(v);
				break;
			}
			else if (line.rfind("block ", 0) == 0)
			{
				std::istringstream ss(line.substr(6));
				std::uint64_t seed, from, to;
				ss >> seed >> from >> to;
				for (auto& t : targets())
				{
					if (target != t.name)
						continue;
					Outcome o = runBlock(t, seed, from, to);
					std::cout << (o.failed ? "FAILS: " : "passes ") << o.why << "\n" << o.err << std::endl;
					return o.failed ? 1 : 0;
				}
			}
		}
		for (auto& t : targets())
		{
			if (target != t.name)
				continue;
			Outcome o = runChoices(t, choices, false);
			std::cout << traceOf(t, choices);
			std::cout << (o.failed ? "FAILS: " : "passes ") << o.why << "\n" << o.err << std::endl;
			return o.failed ? 1 : 0;
		}
		std::cerr << "no such target: " << target << std::endl;
		return 2;
	}

	static int run(const Options& opt)
	{
		g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (g_shared == MAP_FAILED)
		{
			std::perror("mmap");
			return 2;
		}
		double start = now();
		std::vector<BlockRef> blocks;
		{
			std::vector<std::vector<BlockRef>> per;
			for (std::uint32_t ti = 0; ti < targets().size(); ++ti)
			{
				auto& t = targets()[ti];
				if (!opt.only.empty() && std::string(t.name).find(opt.only) == std::string::npos)
					continue;
				std::uint64_t n = opt.thorough ? t.thoroughCases : t.quickCases;
				if (!t.sweep)
					n = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(static_cast<double>(n) * opt.scale));
				per.emplace_back();
				for (std::uint64_t i = 0; i < n; i += BlockSize)
					per.back().push_back({ ti, i, std::min(n, i + BlockSize) });
			}
			// interleave so that every target progresses
			std::vector<std::pair<double, BlockRef>> keyed;
			for (auto& v : per)
				for (std::size_t i = 0; i < v.size(); ++i)
					keyed.emplace_back((static_cast<double>(i) + 0.5) / static_cast<double>(v.size()), v[i]);
			std::stable_sort(keyed.begin(), keyed.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& k : keyed)
				blocks.push_back(k.second);
		}

		std::vector<pid_t> pids(opt.workers, -1);
		std::vector<std::uint64_t> lastProgress(opt.workers, 0);
		std::vector<double> lastCpu(opt.workers, 0);
		std::string errBase = "/tmp/pbt_w_" + std::to_string(getpid()) + "_";
		auto spawn = [&](unsigned w)
		{
			std::cout.flush();
			pid_t pid = fork();
			if (pid == 0)
			{
				int fd = open((errBase + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
				if (fd >= 0)
					dup2(fd, 2);
				workerMain(w, opt, blocks);
			}
			pids[w] = pid;
		};
		auto cpuOf = [](pid_t pid) -> double
		{
			std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
			std::string s;
			std::getline(f, s);
			std::size_t p = s.rfind(')');
			if (p == std::string::npos)
				return -1;
			std::istringstream ss(s.substr(p + 1));
			std::string tok;
			double ut = 0;
			for (int i = 0; i < 13 && (ss >> tok); ++i)
				if (i == 11 || i == 12)
					ut += std::atof(tok.c_str());
			return ut / static_cast<double>(sysconf(_SC_CLK_TCK));
		};
		for (unsigned w = 0; w < opt.workers; ++w)
			spawn(w);

		bool truncated = false;
		std::vector<std::pair<std::uint32_t, std::uint64_t>> failures;
		std::vector<std::string> whys;
		std::vector<std::uint64_t> failBlocks;
		double lastHangCheck = now();
		unsigned alive = opt.workers;
		while (alive > 0)
		{
			int status = 0;
			pid_t pid = waitpid(-1, &status, WNOHANG);
			if (pid > 0)
			{
				for (unsigned w = 0; w < opt.workers; ++w)
				{
					if (pids[w] != pid)
						continue;
					pids[w] = -1;
					alive--;
					if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
					{
						if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && g_shared->stop)
							break;
						Slot& s = g_shared->slots[w];
						failures.emplace_back(static_cast<std::uint32_t>(s.target), s.index);
						failBlocks.push_back(s.blockStart);
						std::string why = s.why;
						if (WIFSIGNALED(status))
							why = "killed by signal " + std::to_string(WTERMSIG(status));
						whys.push_back(why);
						g_shared->stop = 1;
					}
					break;
				}
				continue;
			}
			usleep(20000);
			double t = now();
			if (t - start > opt.cap && !g_shared->stop)
			{
				truncated = true;
				g_shared->stop = 1;
			}
			if (t - lastHangCheck > 2)
			{
				lastHangCheck = t;
				for (unsigned w = 0; w < opt.workers; ++w)
				{
					if (pids[w] < 0)
						continue;
					std::uint64_t p = g_shared->slots[w].progress.load();
					double cpu = cpuOf(pids[w]);
					if (p != lastProgress[w])
					{
						lastProgress[w] = p;
						lastCpu[w] = cpu;
					}
					else if (cpu - lastCpu[w] > 20)
					{
						Slot& s = g_shared->slots[w];
						failures.emplace_back(static_cast<std::uint32_t>(s.target), s.index);
						failBlocks.push_back(s.blockStart);
						whys.push_back("the case does not terminate (CPU limit)");
						g_shared->stop = 1;
						kill(pids[w], SIGKILL);
					}
				}
			}
		}
		int result = 0;
		for (std::size_t i = 0; i < failures.size() && result != 1; ++i)
		{
			const TargetDesc& t = targets()[failures[i].first];
			std::string why;
			bool failed = false;
			auto choices = choicesOfIndex(t, opt.seed, failures[i].second, why, failed);
			if (!failed)
			{
				std::cout << "note: failure of target " << t.name << " index " << failures[i].second << " did not repeat alone (" << whys[i] << ")" << std::endl;
				result = (reportBlock(opt, t, failBlocks[i], failures[i].second) == 1) ? 1 : 3;
				continue;
			}
			// the choices of a case that was stopped from outside (hang) may be incomplete: then fall back to what is there
			int r = reportViolation(opt, t, choices, why);
			if (r == 1)
				result = 1;
			else
				result = 3;
		}
		for (unsigned w = 0; w < opt.workers; ++w)
		{
			if (result == 3)
				std::cout << slurp(errBase + std::to_string(w), 2000);
			unlink((errBase + std::to_string(w)).c_str());
		}

		// results
		std::uint64_t evals = 0, nontrivial = 0;
		std::map<std::string, std::uint64_t> tags;
		for (unsigned w = 0; w < opt.workers; ++w)
		{
			evals += g_shared->slots[w].evals;
			nontrivial += g_shared->slots[w].nontrivial;
			for (std::size_t i = 0; i < MaxTags; ++i)
				if (g_shared->tagNames[w][i][0])
					tags[g_shared->tagNames[w][i]] += g_shared->tagCounts[w][i];
		}
		std::ostringstream js;
		js << "{\"config\":" << jsonStr(opt.config) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << g_shared->distinct.load()
		   << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"result\":" << result << ",\"wall\":" << (now() - start) << ",\"targets\":{";
		bool first = true;
		for (std::size_t ti = 0; ti < targets().size(); ++ti)
		{
			std::uint64_t e = 0, n = 0;
			for (unsigned w = 0; w < opt.workers; ++w)
			{
				e += g_shared->targetEvals[w][ti];
				n += g_shared->targetNontrivial[w][ti];
			}
			js << (first ? "" : ",") << jsonStr(targets()[ti].name) << ":[" << e << "," << n << "]";
			first = false;
		}
		js << "},\"tags\":{";
		first = true;
		for (auto& [k, v] : tags)
		{
			js << (first ? "" : ",") << jsonStr(k) << ":" << v;
			first = false;
		}
		js << "},\"samples\":[";
		first = true;
		if (result == 0)
		{
			unsigned count = 0;
			std::size_t step = std::max<std::size_t>(1, targets().size() / 4);
			for (std::size_t ti = 0; ti < targets().size() && count < 5; ti += step)
			{
				const TargetDesc& t = targets()[ti];
				for (std::uint64_t idx = 3; idx < 8; ++idx)
				{
					std::string why;
					bool failed = false;
					auto ch = choicesOfIndex(t, opt.seed, idx % std::max<std::uint64_t>(1, t.quickCases), why, failed);
					if (failed)
						continue;
					std::string tr = traceOf(t, ch);
					if (tr.empty())
						continue;
					if (tr.size() > 1200)
						tr.resize(1200);
					js << (first ? "" : ",") << jsonStr(std::string(t.name) + " #" + std::to_string(idx) + ":\n" + tr);
					first = false;
					count++;
					break;
				}
			}
		}
		js << "]}";
		if (!opt.out.empty())
			std::ofstream(opt.out) << js.str() << "\n";
		else
			std::cout << js.str() << std::endl;
		return result;
	}
}

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
	using namespace pbt;
	static Case c;
	static bool init = [] { c.m_choices.reserve(MaxChoices + 8); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); return true; }();
	(void) init;
	std::vector<const TargetDesc*> random;
	static std::vector<const TargetDesc*> list = [] { std::vector<const TargetDesc*> l; for (auto& t : targets()) if (!t.sweep) l.push_back(&t); return l; }();
	if (size < 2 || list.empty())
		return 0;
	const TargetDesc& t = *list[data[0] % list.size()];
	setup(c, t, 0, 0);
	c.m_bytes = data + 1;
	c.m_byteCount = size - 1;
	c.m_bytePos = 0;
	c.m_frozen = true;
	static const char* s_dump = getenv("PBT_FUZZ_DUMP");
	if (s_dump)
	{
		// conversion of an artifact into a replay file
		static const TargetDesc* s_t; s_t = &t;
		struct H { static void copy() { FILE* f = fopen(s_dump, "w"); if (!f) return; fprintf(f, "target %s\nchoices", s_t->name); for (auto v : c.m_choices) fprintf(f, " %llu", static_cast<unsigned long long>(v)); fprintf(f, "\n"); fclose(f); } static void on(int sig) { copy(); signal(sig, SIG_DFL); raise(sig); } };
		setDeathCallback([] { H::copy(); });
		signal(SIGTRAP, H::on); signal(SIGABRT, H::on); signal(SIGILL, H::on);
		std::string why;
		runChecked(c, t, why);
		H::copy();
		return 0;
	}
	std::string why;
	if (!runChecked(c, t, why))
	{
		std::fprintf(stderr, "FAILED target=%s: %s\n", t.name, why.c_str());
		__builtin_trap();
	}
	return 0;
}
#else
int main(int argc, char** argv)
{
	using namespace pbt;
	noCore();
#ifdef PBT_ASAN
	__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
	Options opt;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") opt.seed = std::strtoull(v.c_str(), nullptr, 10);
		else if (k == "--tier") opt.thorough = (v == "thorough");
		else if (k == "--workers") opt.workers = static_cast<unsigned>(std::min(64, std::max(1, std::atoi(v.c_str()))));
		else if (k == "--cap") opt.cap = std::atof(v.c_str());
		else if (k == "--only") opt.only = v;
		else if (k == "--out") opt.out = v;
		else if (k == "--replay") opt.replay = v;
		else if (k == "--replay-out") opt.replayOut = v;
		else if (k == "--property") opt.property = v;
		else if (k == "--config") opt.config = v;
		else if (k == "--scale") opt.scale = std::atof(v.c_str());
		else { std::cerr << "unknown option " << k << std::endl; return 2; }
	}
	if (!opt.replay.empty())
		return doReplay(opt);
	return run(opt);
}
#endif
