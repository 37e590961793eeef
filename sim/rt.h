/*
	rt.h -- the deterministic simulator's interface to scenarios.

	One run = one seed.  A run is a sequence of phases; each phase is one simulated process lifetime (a forked child
	in which every thread, clock reading, allocation and file operation is decided by the simulator).
*/
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace sim
	{
	/* ---------- randomness: everything comes from here ---------- */
	struct Rng
		{
		uint64_t s;
		explicit Rng(uint64_t seed = 1) : s(seed) {}
		uint64_t next()
			{
			uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
			return z ^ (z >> 31);
			}
		uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
		double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
		bool chance(double p) { return unit() < p; }
		/* log-uniform integer in [lo,hi] */
		uint64_t logu(uint64_t lo, uint64_t hi);
		template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
		Rng fork(uint64_t salt) { Rng r(s ^ (salt * 0xD6E8FEB86659FD93ULL)); r.next(); return Rng(r.next()); }
		};
	uint64_t mix(uint64_t a, uint64_t b);

	/* ---------- faults ---------- */
	enum Op { OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_MMAP, OP_OPENDIR, OP_READDIR, OP_SEEK, OP_ALLOC, OP_CLOCK, OP_CAS, OP_UNLINK, OP_THREAD, OP_MAX };
	enum Fault { F_NONE, F_ERR, F_SHORT, F_ENOSPC, F_CRASH, F_NOMEM, F_JUMP, F_SPURIOUS, F_SHUFFLE, F_EINTR, F_MAX };
	extern const char *op_name[];
	extern const char *fault_name[];

	struct Hard			// a fault at the nth operation of a class
		{
		Op op;
		uint32_t nth;		// 0-based among operations of the class (on matching paths) in this phase
		Fault kind;
		uint64_t arg;		// errno, or bytes, or per-mille of the request
		bool persistent;	// every later operation of the class fails too
		};

	struct FaultPlan
		{
		double p_short_read = 0;		// chance a read is cut short (legally)
		double p_short_write = 0;		// chance a write is cut short (legally; the rest follows)
		double p_spurious_cas = 0;		// weak compare-exchange fails spuriously
		double p_clock_jump = 0;
		uint64_t chunk = 0;				// when non-zero, reads are at most this long
		uint64_t capacity = 0;			// when non-zero, the disk holds this many bytes in total, then ENOSPC
		bool shuffle_dirs = false;
		std::vector<Hard> hard;
		std::string only_path;			// hard faults only on paths containing this (empty: all)
		};

	/* ---------- scheduling policies ---------- */
	enum Policy { POL_SEQ, POL_RAND, POL_PCT, POL_SYNC, POL_CONFLICT, POL_FINE, POL_MAX };
	struct SchedPlan
		{
		Policy policy = POL_SEQ;
		double mean = 1000;		// mean quantum for RAND
		double p = 0.1;			// switch chance for SYNC / CONFLICT
		int depth = 3;			// PCT change points
		uint64_t horizon = 100000;	// PCT: change points fall in [0,horizon]
		uint64_t max_switches = 20000;
		};

	struct PhaseOpt
		{
		std::string name;
		FaultPlan faults;
		SchedPlan sched;
		bool detect_races = false;
		bool memcheck = true;
		bool journal = false;			// record file operations so crash images can be derived
		bool zero_heap = false;		// hand out zeroed memory instead of junk
		uint64_t heap_seed = 0;		// junk pattern and placement
		bool fail_on_leak = false;
		uint64_t step_cap = 60000000;
		uint64_t st_cap = 4000000000ULL;
		uint64_t mem_cap = 0;			// total bytes of simulated heap (0: default)
		std::string stdin_data;
		bool has_stdin = false;
		std::string stdout_path;	// when not empty, standard output is this file on the simulated disk (and faults reach it)
		bool quiet = true;
		};

	enum End { END_RETURN, END_EXIT, END_KILLED, END_SIGNAL, END_VIOLATION, END_TIMEOUT };
	struct PhaseResult
		{
		End end;
		int status;			// exit status (END_EXIT) or signal
		std::string out;		// what the phase emitted
		std::string std_out;	// what it wrote to stdout (captured)
		std::string detail;	// for END_SIGNAL: description
		};

	/* ---------- a run, seen from the orchestrator ---------- */
	struct SchedItem { uint32_t phase; uint64_t step; uint32_t tid; };
	struct FaultItem { uint32_t phase; uint32_t op; uint64_t index; uint32_t kind; uint64_t arg; };

	struct Run
		{
		uint64_t seed;
		uint64_t index;
		Rng rng;
		bool thorough = false;
		/* replay */
		bool replay = false;
		std::set<uint32_t> dropped;
		std::vector<SchedItem> sched;
		std::vector<FaultItem> faults;
		/* bookkeeping */
		uint32_t items = 0;
		uint32_t phases = 0;
		bool failed = false;
		std::string vclass, vmsg;
		std::string sample;
		bool nontrivial = false;
		uint64_t state_sig = 0;
		uint64_t evals = 1;
		std::map<std::string, uint64_t> probes;
		Run(uint64_t seed, uint64_t index) : seed(seed), index(index), rng(seed) {}

		bool keep() { return dropped.find(items++) == dropped.end(); }
		void probe(const char *name, uint64_t n = 1) { probes[name] += n; }
		void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
		PhaseResult phase(const PhaseOpt &opt, const std::function<void()> &fn);		// ends by returning
		PhaseResult tool(const PhaseOpt &opt, const std::vector<std::string> &argv, int (*fn)(int, const char **));
		void hash(uint64_t v);
		void hash(const std::string &v);
		SchedPlan random_sched(int threads);
		/* true when the phase ended the way a working program ends (return / exit); otherwise records a violation */
		bool fine(const PhaseResult &r, const char *what, bool abort_allowed = false);
		};

	typedef void (*ScenarioFn)(Run &);
	struct Scenario
		{
		const char *prop;
		ScenarioFn fn;
		double weight;
		static std::vector<Scenario> &all();
		};
	struct Register { Register(const char *prop, ScenarioFn fn, double weight = 1) { Scenario::all().push_back({prop, fn, weight}); } };
	/* called once before workers start (only when the property is run): builds shared fixtures */
	struct Fixture { const char *props; void (*fn)(); static std::vector<Fixture> &all(); };
	struct RegisterFixture { RegisterFixture(const char *props, void (*fn)()) { Fixture::all().push_back({props, fn}); } };

	/* ---------- inside a phase ---------- */
	void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
	void emit(const std::string &s);				// appended to PhaseResult::out
	void note(uint64_t v);							// mixed into the run hash
	uint64_t stamp();									// global event sequence number
	void probe_in(int which, uint64_t n = 1);		// numbered probe (0..31), inside phases
	bool multi();									// more than one live thread
	uint64_t live_allocs();
	uint64_t live_bytes();
	int open_files();
	uint64_t alloc_failures_fired();
	uint64_t faults_fired();				// faults so far in this run that a caller can notice (short transfers and the like left out)
	void fail_alloc_after(uint64_t n, uint64_t min = 0);	// the nth allocation (of at least min bytes) from now fails
	void fail_alloc_off();
	bool addressable(const void *p, size_t n);
	extern const char *probe_names[32];
	struct Quiet			// oracle code: not instrumented, not scheduled, not fault-injected
		{
		Quiet(); ~Quiet();
		int prev;
		};

	/* ---------- the simulated disk, seen from the orchestrator ---------- */
	typedef std::map<std::string, std::string> Files;
	/* a phase outside any run: fixed seed, one schedule, no faults, leaves no trace in the run (the disk must be empty) */
	PhaseResult side_phase(const Files &in, Files &out, const std::function<void()> &fn);
	void disk_reset();
	void disk_put(const std::string &path, const std::string &data);
	bool disk_get(const std::string &path, std::string &data);
	bool disk_exists(const std::string &path);
	void disk_remove(const std::string &path);
	void disk_mkdir(const std::string &path);
	Files disk_all();
	void disk_load(const Files &f, const std::string &prefix = "");
	struct JOp { char kind; std::string path; uint64_t off; std::string data; };	// kind: C create/truncate, W write, X close, U unlink, R rename(data=to)
	std::vector<JOp> disk_journal();
	Files journal_prefix(const std::vector<JOp> &j, size_t ops, double torn);	// state after ops operations, plus a torn part of the next

	std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
	}
