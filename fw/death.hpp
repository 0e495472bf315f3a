// Tells whether a call fails an assertion (debug break or abort), without ending the process
#pragma once
#include "pbt.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>

namespace pbt
{
	inline sigjmp_buf g_deathJump;
	inline volatile sig_atomic_t g_deathArmed = 0;
	inline volatile sig_atomic_t g_deathIgnoreTraps = 0; // number of debug breaks to continue from, as a debugger would

	inline void onDeathSignal(int sig)
	{
		if (g_deathArmed && sig == SIGTRAP && g_deathIgnoreTraps > 0)
		{
			g_deathIgnoreTraps = g_deathIgnoreTraps - 1;
			return;
		}
		if (g_deathArmed)
			siglongjmp(g_deathJump, 1);
		std::signal(sig, SIG_DFL);
		std::raise(sig);
	}

	// The call must not own anything which needs destroying when it is interrupted. output: what it wrote on stderr
	template<typename F> bool asserts(F&& f, std::string* output = nullptr)
	{
		static int s_fd = memfd_create("stderr", 0);
		static int s_saved = dup(2);
		static bool s_init = [] { std::signal(SIGTRAP, onDeathSignal); std::signal(SIGABRT, onDeathSignal); return true; }();
		(void) s_init;
		if (ftruncate(s_fd, 0) != 0 || lseek(s_fd, 0, SEEK_SET) != 0)
			std::abort();
		std::fflush(stderr);
		dup2(s_fd, 2);
		bool failed;
		if (sigsetjmp(g_deathJump, 1) == 0)
		{
			g_deathArmed = 1;
			f();
			g_deathArmed = 0;
			failed = false;
		}
		else
		{
			g_deathArmed = 0;
			failed = true;
		}
		std::fflush(stderr);
		dup2(s_saved, 2);
		if (output)
		{
			char buf[4096];
			lseek(s_fd, 0, SEEK_SET);
			output->clear();
			for (ssize_t n; (n = read(s_fd, buf, sizeof(buf))) > 0;)
				output->append(buf, static_cast<std::size_t>(n));
		}
		return failed;
	}
}
