/* rt_int.h -- the simulator's internals, shared between its own files */
#pragma once
#include "rt.h"
#include <pthread.h>
#include <stdio.h>

namespace sim
	{
	static constexpr int MAXT = 64;
	static constexpr uintptr_t R_BASE = 0x100000000000ULL;
	static constexpr uintptr_t R_SMALL = R_BASE,                      R_SMALL_SZ = 32ULL << 30;
	static constexpr uintptr_t R_BIG   = R_BASE + (64ULL << 30),      R_BIG_SZ   = 128ULL << 30;
	static constexpr uintptr_t R_STACK = R_BASE + (192ULL << 30),     R_STACK_SZ = 8ULL << 30;
	static constexpr uintptr_t R_FILE  = R_BASE + (200ULL << 30),     R_FILE_SZ  = 56ULL << 30;
	static constexpr uintptr_t R_END   = R_BASE + (256ULL << 30);
	static constexpr size_t STACK_SZ = 8ULL << 20;
	static constexpr size_t BIG_MIN = 256 * 1024;

	struct Shared			// survives the phase's process
		{
		/* verdict of the phase */
		volatile int violated;
		volatile int killed;			// simulated crash took place
		volatile int returned;		// the phase function returned
		volatile int exited;			// exit() reached its end
		volatile int exit_status;
		volatile int signo;
		uintptr_t sig_pc, sig_addr;
		char vclass[64];
		char vmsg[2048];
		/* counters over the run */
		uint64_t hash;
		uint64_t sched_hash;
		uint64_t steps, switches, st_steps, accesses, conflicts;
		uint64_t sim_ns;
		uint64_t allocs;
		uint64_t disk_ops;
		uint64_t faults[OP_MAX][F_MAX];
		uint64_t probes[32];
		uint64_t threads;
		uint64_t hard_fired;
		/* traces */
		uint64_t n_sched, n_fault;
		uint64_t out_len;
		uint64_t n_stack;
		uintptr_t stack[32];
		};
	static constexpr uint64_t MAX_SCHED = 1 << 20;
	static constexpr uint64_t MAX_FAULT = 1 << 18;
	static constexpr uint64_t MAX_OUT = 256ULL << 20;

	extern Shared *sh;
	extern SchedItem *sh_sched;
	extern FaultItem *sh_fault;
	extern char *sh_out;

	extern bool g_active;		// a phase is running in this process
	extern int g_quiet;			// >0: simulator or oracle code is executing
	extern Run *g_run;
	extern const PhaseOpt *g_opt;
	extern uint32_t g_phase;
	extern uint64_t g_now;		// simulated nanoseconds
	extern Rng g_frng;

	struct FaultDecision { Fault kind; uint64_t arg; };
	FaultDecision fault_decide(Op op, const char *path, uint64_t request);
	void fault_record(Op op, uint64_t index, Fault kind, uint64_t arg);

	void phase_sched_init(Run &run, const PhaseOpt &opt);
	void phase_alloc_init(Run &run, const PhaseOpt &opt);
	void phase_disk_init(Run &run, const PhaseOpt &opt);
	void phase_disk_child(const PhaseOpt &opt);
	void alloc_check_all(void);
	void run_main_thread(const std::function<void()> &fn);
	void yield_point(int kind);
	void note_hash(uint64_t v);
	void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc);
	void mem_assert(uintptr_t a, size_t n, bool write, uintptr_t pc);
	void shadow_free(uintptr_t a, size_t n, uintptr_t pc);
	void die_violation(const char *cls, const char *msg) __attribute__((noreturn));
	void sim_kill(void) __attribute__((noreturn));
	void disk_global_init(void);
	void disk_run_reset(void);

	int main_cli(int argc, char **argv);

	struct QuietScope { QuietScope() { g_quiet++; } ~QuietScope() { g_quiet--; } };
	}
