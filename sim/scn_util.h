/* scn_util.h -- small helpers shared by the scenarios */
#pragma once
#include "rt.h"
#include <pthread.h>
#include <stdlib.h>

/* the main() of a program, whichever way its parameters are declared; program_X() is the function */
#define PROGRAM(X) \
	int X(int, const char **) __attribute__((weak)); \
	int X(int, char **) __attribute__((weak)); \
	static inline int (*program_##X())(int, const char **) { int (*plain)(int, const char **) = X; int (*other)(int, char **) = X; return plain ? plain : (int (*)(int, const char **))other; }

namespace scn
	{
	using namespace sim;
	/* run fn(0)..fn(n-1), each in its own (simulated) thread, and wait for all of them */
	struct Job { const std::function<void(size_t)> *fn; size_t i; };
	inline void *job_main(void *p) { Job *j = (Job *)p; (*j->fn)(j->i); return nullptr; }
	inline void parallel(size_t n, const std::function<void(size_t)> &fn)
		{
		Job jobs[64];
		pthread_t ids[64];
		for (size_t i = 0; i < n; i++) { jobs[i] = {&fn, i}; if (pthread_create(&ids[i], nullptr, job_main, &jobs[i])) violate("simulator", "cannot start a thread"); }
		for (size_t i = 0; i < n; i++) pthread_join(ids[i], nullptr);
		}
	}
/* what a phase tells the orchestrator, as a string of numbers and strings */
namespace scn
	{
	struct Out
		{
		std::string s;
		Out &u(uint64_t v) { for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); return *this; }
		Out &str(const std::string &v) { u(v.size()); s += v; return *this; }
		void send() { emit(s); s.clear(); }
		};
	struct In
		{
		const std::string &s;
		size_t i = 0;
		bool bad = false;
		explicit In(const std::string &s) : s(s) {}
		bool more() const { return i < s.size() && !bad; }
		uint64_t u() { if (i + 8 > s.size()) { bad = true; return 0; } uint64_t v = 0; for (int k = 0; k < 8; k++) v |= (uint64_t)(unsigned char)s[i + k] << (8 * k); i += 8; return v; }
		std::string str() { uint64_t n = u(); if (bad || n > s.size() - i) { bad = true; return ""; } std::string r = s.substr(i, n); i += n; return r; }
		};
	}
