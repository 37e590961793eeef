/*
	rt_core.cpp -- scheduler, happens-before race detector, heap.

	Compiled without instrumentation.  The code under test is compiled with -fsanitize=thread but linked without
	libtsan: the __tsan_* callbacks below are the seam through which the simulator sees every memory access and
	every atomic operation, and at which it may switch threads.
*/
#include "rt_int.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
#include <new>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

namespace sim
{
Shared *sh;
SchedItem *sh_sched;
FaultItem *sh_fault;
char *sh_out;
bool g_active = false;
int g_quiet = 0;
Run *g_run;
const PhaseOpt *g_opt;
uint32_t g_phase;
uint64_t g_now;
Rng g_frng;
const char *op_name[] = {"open_read", "open_write", "read", "write", "close", "stat", "mmap", "opendir", "readdir", "seek", "alloc", "clock", "cas_weak", "unlink", "thread"};
const char *fault_name[] = {"none", "error", "short", "enospc", "crash", "nomem", "clock_jump", "spurious", "shuffle", "eintr"};

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ULL)); r.next(); return r.next() ^ b; }
uint64_t Rng::logu(uint64_t lo, uint64_t hi)
	{
	if (hi <= lo) return lo;
	int bl = 64 - __builtin_clzll(lo | 1), bh = 64 - __builtin_clzll(hi | 1);
	int b = (int)range(bl, bh);
	uint64_t l = b <= 1 ? 0 : 1ULL << (b - 1), h = b >= 64 ? ~0ULL : (1ULL << b) - 1;
	if (l < lo) l = lo;
	if (h > hi) h = hi;
	return l + below(h - l + 1);
	}

void note_hash(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x9FB21C651E98DF25ULL; sh->hash ^= sh->hash >> 29; }

/* ------------------------------------------------------------------ ending a phase early */
void die_violation(const char *cls, const char *msg)
	{
	g_quiet++;
	if (!sh->violated)
		{
		strncpy(sh->vclass, cls, sizeof(sh->vclass) - 1);
		strncpy(sh->vmsg, msg, sizeof(sh->vmsg) - 1);
		sh->violated = 1;
		}
	syscall(SYS_exit_group, 98);
	__builtin_unreachable();
	}
void violate(const char *cls, const char *fmt, ...)
	{
	char buf[2048];
	g_quiet++;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	die_violation(cls, buf);
	}
void sim_kill(void)
	{
	sh->killed = 1;
	syscall(SYS_exit_group, 97);
	__builtin_unreachable();
	}

/* ------------------------------------------------------------------ threads */
enum State { RUNNABLE, BLOCKED, FINISHED };
struct VC { uint32_t c[MAXT]; };
struct Thr
	{
	int id;
	State state;
	std::atomic<int> go;
	pthread_t real;
	void *(*fn)(void *);
	void *arg;
	void *ret;
	bool joined, detached, reaped, started;
	const void *block;			// what it waits for
	uint64_t wake;				// simulated time for sleepers (0: none)
	int prio;					// PCT priority
	uint64_t since;				// steps since it last ran something else (spin demotion)
	VC vc;
	VC acq;						// pending acquire (relaxed loads before an acquire fence)
	VC rel;						// snapshot at the last release fence
	bool has_rel;
	int eh;						// reserved
	};
static Thr thr[MAXT];
static int n_thr;
static int n_live;
static Thr *cur;
static Thr *reap_pending;

static uint64_t g_step;			// multi-thread steps this phase
static uint64_t g_next;			// next step at which to consider a switch
static uint64_t g_st;			// single-thread steps
static uint64_t g_switches;
static Rng g_srng;
static SchedPlan g_plan;
static bool g_replay;
static size_t g_rpos;			// replay cursor
static std::vector<SchedItem> *g_rlist;
static uint64_t pct_points[64];
static int pct_n, pct_pos, pct_low;
static uint64_t g_wstamp;

static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_pthread_join)(pthread_t, void **);

/* ---- sync variables ---- */
struct Sync
	{
	uintptr_t addr;
	VC vc;
	bool has;
	int owner;				// mutex owner tid+1 / rwlock writer
	int count;				// recursion / readers / condition waiters
	uint64_t seq;			// condition signal sequence
	};
static Sync *syncs;
static constexpr uint32_t NSYNC = 1 << 20;
static uint32_t nsync;
static Sync *sync_at(uintptr_t a, bool create = true)
	{
	uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ULL) >> 40) & (NSYNC - 1);
	for (;;)
		{
		if (syncs[h].addr == a) return &syncs[h];
		if (syncs[h].addr == 0)
			{
			if (!create) return nullptr;
			if (++nsync > NSYNC - 1000) { die_violation("no-progress", "over a million variables are used to synchronise, with no end in sight"); }
			syncs[h].addr = a;
			return &syncs[h];
			}
		h = (h + 1) & (NSYNC - 1);
		}
	}
static inline void vc_join(VC &d, const VC &s) { for (int i = 0; i < n_thr; i++) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
static inline void acquire_from(Sync *s) { if (s->has) vc_join(cur->vc, s->vc); }
static inline void release_to(Sync *s) { s->vc = cur->vc; s->has = true; cur->vc.c[cur->id]++; }
static inline void release_join(Sync *s) { if (!s->has) { s->vc = cur->vc; s->has = true; } else vc_join(s->vc, cur->vc); cur->vc.c[cur->id]++; }

/* ---- baton ---- */
static void fwait(std::atomic<int> *f)
	{
	while (f->load(std::memory_order_acquire) == 0)
		syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	f->store(0, std::memory_order_relaxed);
	}
static void fwake(std::atomic<int> *f) { f->store(1, std::memory_order_release); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void after_switch(void)
	{
	if (reap_pending)
		{
		Thr *d = reap_pending;
		reap_pending = nullptr;
		r_pthread_join(d->real, nullptr);
		d->reaped = true;
		}
	}
static void transfer(Thr *to, bool leaving)
	{
	Thr *me = cur;
	if (to == me) return;
	g_switches++;
	sh->switches++;
	sh->sched_hash = (sh->sched_hash ^ (g_step * 64 + to->id)) * 0x9FB21C651E98DF25ULL;
	note_hash(g_step * 64 + to->id);
	cur = to;
	to->since = g_step;
	if (leaving) reap_pending = me;
	int quiet = g_quiet;			// each thread has its own depth
	fwake(&to->go);
	if (leaving) return;
	fwait(&me->go);
	g_quiet = quiet;
	after_switch();
	}
static void record(uint32_t tid)
	{
	if (sh->n_sched < MAX_SCHED) sh_sched[sh->n_sched++] = {g_phase, g_step, tid};
	}
static int runnable_list(int *out)
	{
	int n = 0;
	for (int i = 0; i < n_thr; i++)
		{
		if (thr[i].state == BLOCKED && thr[i].wake && thr[i].wake <= g_now) { thr[i].state = RUNNABLE; thr[i].wake = 0; }
		if (thr[i].state == RUNNABLE) out[n++] = i;
		}
	return n;
	}
static void plan_next(void)
	{
	switch (g_plan.policy)
		{
		case POL_SEQ: g_next = g_step + 200000; break;			// fairness only
		case POL_RAND:
			{
			double u = g_srng.unit();
			uint64_t q = 1 + (uint64_t)(-__builtin_log(1 - u) * g_plan.mean);
			g_next = g_step + q;
			break;
			}
		case POL_FINE: g_next = g_step + 1 + g_srng.below(3); break;
		case POL_PCT:
			while (pct_pos < pct_n && pct_points[pct_pos] <= g_step) pct_pos++;
			g_next = pct_pos < pct_n ? pct_points[pct_pos] : g_step + 100000;
			if (g_next > g_step + 100000) g_next = g_step + 100000;
			break;
		case POL_SYNC:
		case POL_CONFLICT:
			g_next = g_step + 500 + g_srng.below(100000);
			break;
		default: g_next = g_step + 1000;
		}
	if (g_switches > g_plan.max_switches) g_next = g_step + 100000;
	}
/* choose who runs next; "forced" when the current thread cannot continue */
static Thr *choose(bool forced, int why)
	{
	int list[MAXT];
	int n = runnable_list(list);
	if (n == 0)
		{
		uint64_t best = 0;
		for (int i = 0; i < n_thr; i++)
			if (thr[i].state == BLOCKED && thr[i].wake && (best == 0 || thr[i].wake < best)) best = thr[i].wake;
		if (best == 0)
			{
			char buf[600]; int o = 0;
			o += snprintf(buf + o, sizeof(buf) - o, "no thread can run:");
			for (int i = 0; i < n_thr && o < 500; i++)
				if (thr[i].state == BLOCKED) o += snprintf(buf + o, sizeof(buf) - o, " t%d waits", i);
			die_violation("deadlock", buf);
			}
		g_now = best;
		n = runnable_list(list);
		}
	if (g_replay)
		{
		std::vector<SchedItem> &l = *g_rlist;
		Thr *pickd = nullptr;
		while (g_rpos < l.size() && (l[g_rpos].phase < g_phase || (l[g_rpos].phase == g_phase && l[g_rpos].step <= g_step)))
			{
			if (l[g_rpos].phase == g_phase && l[g_rpos].step == g_step)
				for (int i = 0; i < n; i++) if (list[i] == (int)l[g_rpos].tid) pickd = &thr[list[i]];
			g_rpos++;
			}
		g_next = (g_rpos < l.size() && l[g_rpos].phase == g_phase) ? l[g_rpos].step : ~0ULL;
		if (pickd) { record(pickd->id); return pickd; }
		if (!forced) { if (g_next == ~0ULL || g_next > g_step + 1000000) g_next = g_step + 1000000; }
		/* fairness backstop when the list has run out: round robin */
		if (!forced && why == 9 && n > 1)
			{
			for (int i = 0; i < n; i++) if (list[i] > cur->id) { record(list[i]); return &thr[list[i]]; }
			record(list[0]);
			return &thr[list[0]];
			}
		return forced ? &thr[list[0]] : cur;
		}
	Thr *r = nullptr;
	if (g_plan.policy == POL_PCT)
		{
		if (!forced && pct_pos < pct_n && pct_points[pct_pos] <= g_step) { cur->prio = --pct_low; }
		else if (!forced && why == 9) cur->prio = --pct_low;		// ran too long: let others make progress
		int best = -1;
		for (int i = 0; i < n; i++) if (best < 0 || thr[list[i]].prio > thr[best].prio) best = list[i];
		r = &thr[best];
		}
	else if (g_plan.policy == POL_SEQ)
		{
		r = &thr[list[0]];
		if (!forced)
			{
			r = cur;
			if (why == 9) { for (int i = 0; i < n; i++) if (list[i] > cur->id) { r = &thr[list[i]]; break; } if (r == cur) r = &thr[list[0]]; }
			}
		}
	else
		{
		if (!forced && n > 1)
			{
			/* a switch is wanted: pick somebody else */
			int k = (int)g_srng.below(n - 1);
			for (int i = 0, j = 0; i < n; i++)
				{
				if (list[i] == cur->id) continue;
				if (j++ == k) { r = &thr[list[i]]; break; }
				}
			if (!r) r = cur;
			}
		else
			r = &thr[list[g_srng.below(n)]];
		}
	plan_next();
	if (r != cur || (forced && n > 1)) record(r->id);
	return r;
	}
static void check_caps(void)
	{
	if (g_step > g_opt->step_cap) die_violation("no-progress", "the threads did not finish within the step budget");
	}
/* a place where the scheduler may switch */
static __attribute__((noinline)) void slow_yield(int why)
	{
	check_caps();
	Thr *n = choose(false, why);
	if (n != cur) transfer(n, false);
	}
static inline void step(void)
	{
	g_step++;
	if (__builtin_expect(g_step >= g_next, 0)) slow_yield(g_step - cur->since > 50000 ? 9 : 0);
	}
/* sync operations and I/O: more interesting than plain accesses */
void yield_point(int)
	{
	if (!g_active || g_quiet) return;
	if (n_live <= 1) { g_st++; return; }
	g_step++;
	note_hash(0x51);
	if (!g_replay && g_plan.policy == POL_SYNC && g_switches <= g_plan.max_switches && g_srng.chance(g_plan.p)) { slow_yield(1); return; }
	if (g_step >= g_next) slow_yield(1);
	}
static void block_on(const void *what, uint64_t wake = 0)
	{
	cur->state = BLOCKED;
	cur->block = what;
	cur->wake = wake;
	g_step++;
	check_caps();
	Thr *n = choose(true, 2);
	transfer(n, false);
	}
static void wake_all(const void *what)
	{
	for (int i = 0; i < n_thr; i++)
		if (thr[i].state == BLOCKED && thr[i].block == what) { thr[i].state = RUNNABLE; thr[i].block = nullptr; thr[i].wake = 0; }
	}
bool multi() { return g_active && n_live > 1; }
uint64_t stamp() { return g_active ? (g_step + g_st) * 1000 + (++g_wstamp % 1000) : ++g_wstamp; }

/* ------------------------------------------------------------------ shadow memory */
/* slot: tid 6 | clk 32 << 6 | mask 8 << 38 | write << 46 | atomic << 47 | valid << 48 */
static uint64_t *shadowA, *shadowB;
static uint32_t *pcA, *pcB;
static uint8_t *addr_ok;		// 1 byte per 8 bytes of the small heap: how many are addressable
static constexpr uintptr_t LOW_MAX = 0x40000000ULL;

static void *map_nr(size_t n)
	{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "sim: cannot map %zu\n", n); _exit(3); }
	return p;
	}
static inline uint64_t *slots_of(uintptr_t a, uint32_t **pcs)
	{
	if (a - R_BASE < R_END - R_BASE)
		{
		size_t g = (a - R_BASE) >> 3;
		*pcs = pcA + g * 4;
		return shadowA + g * 4;
		}
	if (a < LOW_MAX)
		{
		size_t g = a >> 3;
		*pcs = pcB + g * 4;
		return shadowB + g * 4;
		}
	return nullptr;
	}
static __attribute__((noinline)) void report_race(uintptr_t a, unsigned size, bool write, uintptr_t pc, uint64_t other, uint32_t opc)
	{
	char buf[400];
	snprintf(buf, sizeof(buf), "unsynchronised %s of %u bytes by thread %d at pc 0x%lx conflicts with %s by thread %d at pc 0x%x (step %lu)",
		write ? "write" : "read", size, cur->id, (unsigned long)pc, ((other >> 46) & 1) ? "write" : "read", (int)(other & 63), opc, (unsigned long)g_step);
	(void)a;
	die_violation("data-race", buf);
	}
static inline bool conflict_peek(uintptr_t a, bool write)
	{
	uint32_t *pcs;
	uint64_t *s = slots_of(a, &pcs);
	if (!s) return false;
	for (int i = 0; i < 4; i++)
		if (s[i] && (int)(s[i] & 63) != cur->id && (write || ((s[i] >> 46) & 1))) return true;
	return false;
	}
static inline void shadow_one(uintptr_t granule, uint8_t mask, bool write, bool atomic, uintptr_t pc)
	{
	uint32_t *pcs;
	uint64_t *s = slots_of(granule, &pcs);
	if (!s) return;
	uint64_t mine = (uint64_t)cur->id | ((uint64_t)cur->vc.c[cur->id] << 6) | ((uint64_t)mask << 38) | ((uint64_t)write << 46) | ((uint64_t)atomic << 47) | (1ULL << 48);
	int put = -1, old = -1;
	for (int i = 0; i < 4; i++)
		{
		uint64_t v = s[i];
		if (v == 0) { if (put < 0) put = i; continue; }
		int tid = (int)(v & 63);
		uint32_t clk = (uint32_t)(v >> 6);
		uint8_t m = (uint8_t)(v >> 38);
		bool w = (v >> 46) & 1, at = (v >> 47) & 1;
		if (tid == cur->id)
			{
			if ((m & ~mask) == 0 && (!w || write) && (!atomic || at)) put = i;		// subsumed
			continue;
			}
		bool ordered = clk <= cur->vc.c[tid];
		if (!ordered && (m & mask) && (w || write) && !(at && atomic))
			{
			sh->conflicts++;
			if (g_opt->detect_races) report_race(granule, 8, write, pc, v, pcs[i]);
			}
		if (ordered && old < 0 && (write || !w)) old = i;
		}
	if (put < 0) put = old >= 0 ? old : (int)((g_step + granule / 8) & 3);
	s[put] = mine;
	pcs[put] = (uint32_t)pc;
	}
static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool write, uintptr_t pc)
	{
	char buf[300];
	const char *what = "outside any allocated block";
	snprintf(buf, sizeof(buf), "%s of %zu bytes %s (heap) at pc 0x%lx", write ? "write" : "read", n, what, (unsigned long)pc);
	(void)a;
	die_violation("memory-error", buf);
	}
static inline bool ok8(uintptr_t a, size_t n)		// n <= 16
	{
	uintptr_t e = a + n;
	uintptr_t g = a & ~7ULL;
	while (g < e)
		{
		uint8_t k = addr_ok[(g - R_SMALL) >> 3];
		uintptr_t need = e - g < 8 ? e - g : 8;
		if (k < need) return false;
		g += 8;
		}
	return true;
	}
void mem_assert(uintptr_t a, size_t n, bool write, uintptr_t pc)
	{
	if (!g_opt->memcheck || n == 0) return;
	if (a - R_SMALL < R_SMALL_SZ)
		{
		uintptr_t e = a + n, g = a & ~7ULL;
		while (g < e)
			{
			uint8_t k = addr_ok[(g - R_SMALL) >> 3];
			uintptr_t need = e - g < 8 ? e - g : 8;
			if (k < need) bad_access(a, n, write, pc);
			g += 8;
			}
		}
	}
bool addressable(const void *p, size_t n)
	{
	uintptr_t a = (uintptr_t)p;
	if (a - R_SMALL >= R_SMALL_SZ) return true;
	uintptr_t e = a + n, g = a & ~7ULL;
	while (g < e)
		{
		uint8_t k = addr_ok[(g - R_SMALL) >> 3];
		uintptr_t need = e - g < 8 ? e - g : 8;
		if (k < need) return false;
		g += 8;
		}
	return true;
	}
/* pages of large blocks (and, unless races are looked for, of stacks) that one thread alone has used so far: nothing to
	schedule or to check there.  The first use by another thread ends that for the page. */
static uint8_t *page_own;
static inline bool private_page(uintptr_t a)
	{
	uintptr_t end = g_opt->detect_races ? R_BIG + R_BIG_SZ : R_STACK + R_STACK_SZ;
	if (a - R_BIG >= end - R_BIG) return false;
	uint8_t &o = page_own[(a - R_BIG) >> 12], me = (uint8_t)(cur->id + 1);
	if (o == me) return true;
	if (o == 0) { o = me; return true; }
	o = 0xFF;
	return false;
	}
static inline void access(uintptr_t a, unsigned n, bool write, uintptr_t pc)
	{
	if (!g_active || g_quiet) return;
	if (a - R_SMALL < R_SMALL_SZ && g_opt->memcheck && !ok8(a, n)) bad_access(a, n, write, pc);
	if (n_live <= 1)
		{
		if (++g_st > g_opt->st_cap) die_violation("no-progress", "the program did not finish within the step budget");
		return;
		}
	if (private_page(a)) { if (++g_st > g_opt->st_cap) die_violation("no-progress", "the program did not finish within the step budget"); return; }
	if (__builtin_expect(g_plan.policy == POL_CONFLICT && !g_replay, 0))
		{
		if (g_switches <= g_plan.max_switches && conflict_peek(a, write) && g_srng.chance(g_plan.p)) { g_step++; slow_yield(3); }
		else step();
		}
	else
		step();
	sh->hash = (sh->hash ^ pc) * 0x9FB21C651E98DF25ULL;
	uintptr_t g = a & ~7ULL;
	unsigned off = a & 7;
	if (off + n <= 8)
		shadow_one(g, (uint8_t)(((1u << n) - 1) << off), write, false, pc);
	else
		{
		uintptr_t e = a + n;
		while (g < e)
			{
			unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g < 8 ? (unsigned)(e - g) : 8;
			shadow_one(g, (uint8_t)(((1u << (hi - lo)) - 1) << lo), write, false, pc);
			g += 8;
			}
		}
	}
void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc)
	{
	if (!g_active || g_quiet || n == 0) return;
	mem_assert(a, n, write, pc);
	if (n_live <= 1) { g_st++; return; }
	if (a >= R_BIG && a < R_STACK + R_STACK_SZ)
		{
		bool all = true;
		for (uintptr_t p = a & ~4095ULL; p < a + n && all; p += 4096) all = private_page(p < a ? a : p);
		if (all) { g_st++; return; }
		}
	step();
	uintptr_t e = a + n, g = a & ~7ULL;
	bool huge = n > (1u << 20);		// a huge object cleared or copied at once: look at its two ends only
	while (g < e)
		{
		if (huge && g >= a + 65536 && g < a + 65536 + 8) g = (e - 65536) & ~7ULL;
		unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g < 8 ? (unsigned)(e - g) : 8;
		shadow_one(g, (uint8_t)(((1u << (hi - lo)) - 1) << lo), write, false, pc);
		g += 8;
		}
	}
void shadow_free(uintptr_t a, size_t n, uintptr_t pc)
	{
	if (n_live <= 1 || n > 65536) return;
	for (uintptr_t g = a; g < a + n; g += 8) shadow_one(g, 0xff, true, false, pc);
	}

/* ------------------------------------------------------------------ heap */
struct Hdr { uint64_t magic; uint64_t size; uint64_t seq; uint64_t pad; };
static constexpr uint64_t M_LIVE = 0xA110CA7EDB10C000ULL, M_FREE = 0xDEADB10C00000000ULL;
static uintptr_t small_top, small_mapped;
static uintptr_t big_top;
static uint64_t heap_total, heap_cap, heap_seq;
static uint64_t g_live_allocs, g_live_bytes, g_fired_nomem;
static uint64_t alloc_fail_in;		// in-phase control: fail when this many more (of at least alloc_fail_min bytes) have been asked for, 0 = off
static uint64_t alloc_fail_min;
static Rng g_hrng;
static uint64_t g_junk;
struct Big { uintptr_t base; size_t len; uintptr_t ptr; size_t size; bool live; };
static Big *bigs;
static uint32_t n_big;
static constexpr uint32_t MAX_BIG = 1 << 20;
static uint64_t allocation_index;

uint64_t live_allocs() { return g_live_allocs; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t alloc_failures_fired() { return g_fired_nomem; }
void fail_alloc_after(uint64_t n, uint64_t min) { alloc_fail_in = n; alloc_fail_min = min; }
void fail_alloc_off() { alloc_fail_in = 0; }

static void junk(uintptr_t p, size_t n)
	{
	uint64_t w = g_junk;
	if (g_opt->zero_heap) w = 0;
	else if (w == 0) w = 0xA5A5A5A5A5A5A5A5ULL;
	uint64_t *q = (uint64_t *)p;
	size_t k = n / 8;
	for (size_t i = 0; i < k; i++) q[i] = w;
	for (size_t i = k * 8; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(w >> ((i & 7) * 8));
	}
static bool alloc_denied(size_t n)
	{
	uint64_t idx = allocation_index++;
	sh->allocs++;
	FaultDecision d = {F_NONE, 0};
	if (g_replay)
		d = fault_decide(OP_ALLOC, "", n);
	else
		{
		if (alloc_fail_in && n >= alloc_fail_min && --alloc_fail_in == 0) d.kind = F_NOMEM;
		if (d.kind == F_NONE && !g_opt->faults.hard.empty()) d = fault_decide(OP_ALLOC, "", n);
		else if (d.kind != F_NONE) { fault_record(OP_ALLOC, idx, F_NOMEM, 0); }
		}
	if (d.kind != F_NONE) { g_fired_nomem++; return true; }
	if (n > heap_cap || heap_total + n > heap_cap) return true;
	return false;
	}
static void *sim_alloc(size_t n, size_t align)
	{
	if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
	heap_total += n;
	g_live_allocs++;
	g_live_bytes += n;
	note_hash(n * 3 + 1);
	if (align < 16) align = 16;
	if (n >= BIG_MIN)
		{
		size_t len = ((n + align + 4095) & ~4095ULL);
		uintptr_t base = big_top + 4096;
		if (n_big >= MAX_BIG || base + len + 4096 > R_BIG + R_BIG_SZ) { errno = ENOMEM; return nullptr; }
		if (mmap((void *)base, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { errno = ENOMEM; return nullptr; }
		big_top = base + len;
		uintptr_t p = (base + len - n) & ~(uintptr_t)(align - 1);
		bigs[n_big++] = {base, len, p, n, true};
		if (!g_opt->zero_heap)
			{
			size_t f = n > (2u << 20) ? (256u << 10) : n;
			junk(p, f);
			if (f < n) junk((p + n - 4096) & ~7ULL, 4096);
			}
		return (void *)p;
		}
	/* placement: a seeded gap so that addresses differ between heap seeds */
	uintptr_t gap = g_opt->heap_seed ? (g_hrng.next() & 7) * 16 : 0;
	uintptr_t p = (small_top + gap + sizeof(Hdr) + 16 + align - 1) & ~(uintptr_t)(align - 1);
	uintptr_t end = p + n;
	uintptr_t top = (end + 16 + 15) & ~15ULL;
	if (top > R_SMALL + (g_opt->mem_cap ? R_SMALL_SZ : (1500ULL << 20))) { errno = ENOMEM; return nullptr; }
	small_top = top;
	Hdr *h = (Hdr *)(p - sizeof(Hdr));
	h->magic = M_LIVE;
	h->size = n;
	h->seq = heap_seq++;
	h->pad = 0xCBCBCBCBCBCBCBCBULL;
	junk(p, n);
	memset((void *)end, 0xCB, top - end);
	uint8_t *ok = addr_ok + ((p - R_SMALL) >> 3);
	memset(ok, 8, n / 8);
	if (n & 7) ok[n / 8] = (uint8_t)(n & 7);
	return (void *)p;
	}
static void check_block(Hdr *h, uintptr_t p)
	{
	uintptr_t end = p + h->size, top = (end + 16 + 15) & ~15ULL;
	if (h->pad != 0xCBCBCBCBCBCBCBCBULL) die_violation("memory-error", "bytes before a heap block were overwritten");
	for (uintptr_t q = end; q < top; q++)
		if (*(uint8_t *)q != 0xCB)
			{
			char buf[200];
			snprintf(buf, sizeof(buf), "bytes after a heap block of %lu bytes were overwritten (offset %lu)", (unsigned long)h->size, (unsigned long)(q - p));
			die_violation("memory-error", buf);
			}
	}
static Big *big_find(uintptr_t p)
	{
	uint32_t lo = 0, hi = n_big;
	while (lo < hi)
		{
		uint32_t m = (lo + hi) / 2;
		if (bigs[m].base + bigs[m].len <= p) lo = m + 1; else hi = m;
		}
	if (lo < n_big && bigs[lo].ptr == p) return &bigs[lo];
	return nullptr;
	}
static size_t sim_size(void *ptr)
	{
	uintptr_t p = (uintptr_t)ptr;
	if (p >= R_BIG) { Big *b = big_find(p); return b ? b->size : 0; }
	return ((Hdr *)(p - sizeof(Hdr)))->size;
	}
static void sim_free(void *ptr, uintptr_t pc)
	{
	uintptr_t p = (uintptr_t)ptr;
	if (p >= R_BIG && p < R_BIG + R_BIG_SZ)
		{
		Big *b = big_find(p);
		if (!b) die_violation("memory-error", "free of a pointer that was never allocated");
		if (!b->live) die_violation("memory-error", "block freed twice");
		b->live = false;
		g_live_allocs--;
		g_live_bytes -= b->size;
		heap_total -= b->size;
		if (n_live > 1) shadow_free(p & ~7ULL, 64, pc);
		mmap((void *)b->base, b->len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		note_hash(b->size * 3 + 2);
		return;
		}
	if (p < R_SMALL || p >= R_SMALL + R_SMALL_SZ) die_violation("memory-error", "free of a pointer that was never allocated");
	Hdr *h = (Hdr *)(p - sizeof(Hdr));
	if (p < R_SMALL + sizeof(Hdr) || p >= small_top || (h->magic != M_LIVE && h->magic != M_FREE)) die_violation("memory-error", "free of a pointer that was never allocated");
	if (h->magic == M_FREE) die_violation("memory-error", "block freed twice");
	check_block(h, p);
	shadow_free(p, h->size, pc);
	h->magic = M_FREE;
	g_live_allocs--;
	g_live_bytes -= h->size;
	heap_total -= h->size;
	memset(addr_ok + ((p - R_SMALL) >> 3), 0, (h->size + 7) / 8);
	memset(ptr, 0xDD, h->size);
	note_hash(h->size * 3 + 2);
	}
void alloc_check_all(void)
	{
	/* walk the small blocks by their headers' order is not possible with gaps; check the live ones by scanning magic */
	for (uintptr_t p = R_SMALL; p + sizeof(Hdr) <= small_top; p += 16)
		{
		Hdr *h = (Hdr *)p;
		if (h->magic == M_LIVE && h->pad == 0xCBCBCBCBCBCBCBCBULL && h->size < BIG_MIN && addr_ok[(p - R_SMALL) >> 3] == 0)
			{
			check_block(h, p + sizeof(Hdr));
			p += sizeof(Hdr) + ((h->size + 15) & ~15ULL) - 16;
			}
		}
	}
void phase_alloc_init(Run &run, const PhaseOpt &opt)
	{
	(void)run;
	small_top = R_SMALL;
	if (mmap((void *)R_SMALL, R_SMALL_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "sim: cannot map heap\n"); _exit(3); }
	if (mmap((void *)R_BIG, R_BIG_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "sim: cannot map big heap\n"); _exit(3); }
	addr_ok = (uint8_t *)map_nr(R_SMALL_SZ / 8);
	page_own = (uint8_t *)map_nr((R_STACK + R_STACK_SZ - R_BIG) >> 12);
	bigs = (Big *)map_nr(sizeof(Big) * MAX_BIG);
	n_big = 0;
	big_top = R_BIG;
	heap_total = 0;
	heap_cap = opt.mem_cap ? opt.mem_cap : (24ULL << 30);
	heap_seq = 0;
	g_live_allocs = g_live_bytes = g_fired_nomem = 0;
	alloc_fail_in = 0;
	allocation_index = 0;
	g_hrng = Rng(opt.heap_seed * 77 + 5);
	g_junk = g_hrng.next();
	switch (opt.heap_seed % 5)
		{
		case 1: g_junk = 0xFFFFFFFFFFFFFFFFULL; break;
		case 2: g_junk = 0x0101010101010101ULL; break;
		}
	}

/* ------------------------------------------------------------------ thread bodies */
static void install_altstack(int id)
	{
	void *base = (void *)(R_STACK + (uintptr_t)(MAXT + id) * STACK_SZ);
	mmap(base, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	stack_t ss;
	memset(&ss, 0, sizeof(ss));
	ss.ss_sp = base;
	ss.ss_size = 65536;
	sigaltstack(&ss, nullptr);
	}
static void (*call_tls_dtors)(void);
static void *trampoline(void *a)
	{
	Thr *t = (Thr *)a;
	fwait(&t->go);
	g_quiet = 1;
	after_switch();
	install_altstack(t->id);
	t->started = true;
	g_quiet = 0;
	t->ret = t->fn(t->arg);
	if (call_tls_dtors) call_tls_dtors();
	g_quiet++;
	/* finish */
	cur->vc.c[cur->id]++;
	t->state = FINISHED;
	n_live--;
	wake_all(&thr[t->id]);
	g_step++;
	Thr *n = choose(true, 4);
	transfer(n, true);
	return nullptr;
	}
static void prepare_stack(int id, void **addr)
	{
	uintptr_t s = R_STACK + (uintptr_t)id * STACK_SZ;
	mmap((void *)s, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	mprotect((void *)s, 4096, PROT_NONE);
	/* the kernel zeroes stacks; a used stack is not zero */
	if (g_opt->heap_seed && !g_opt->zero_heap)
		{
		uint64_t *q = (uint64_t *)(s + STACK_SZ - (64 << 10));
		for (int i = 0; i < (64 << 10) / 8; i++) q[i] = g_junk;
		}
	*addr = (void *)s;
	}
static int spawn_real(Thr *t)
	{
	void *stk;
	prepare_stack(t->id, &stk);
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, stk, STACK_SZ);
	int e = r_pthread_create(&t->real, &at, trampoline, t);
	pthread_attr_destroy(&at);
	return e;
	}
static Thr *new_thr(void *(*fn)(void *), void *arg)
	{
	if (n_thr >= MAXT) return nullptr;
	Thr *t = &thr[n_thr];
	t->id = n_thr;
	t->state = RUNNABLE;
	t->go.store(0);
	t->fn = fn;
	t->arg = arg;
	t->joined = t->detached = t->reaped = t->started = false;
	t->block = nullptr;
	t->wake = 0;
	t->since = 0;
	memset(&t->vc, 0, sizeof(VC));
	memset(&t->acq, 0, sizeof(VC));
	t->has_rel = false;
	n_thr++;
	return t;
	}

static void on_signal(int s, siginfo_t *si, void *uc)
	{
	g_quiet++;
	sh->signo = s;
	sh->sig_addr = (uintptr_t)si->si_addr;
	ucontext_t *u = (ucontext_t *)uc;
	sh->sig_pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
	/* a shallow scan of the stack for return addresses: for the report only */
	uintptr_t sp = (uintptr_t)u->uc_mcontext.gregs[REG_RSP];
	sh->n_stack = 0;
	if (sp >= R_STACK && sp < R_STACK + R_STACK_SZ)
		{
		uintptr_t lim = (sp & ~(STACK_SZ - 1)) + STACK_SZ;
		for (uintptr_t q = sp & ~7ULL; q < lim && q < sp + 4096 && sh->n_stack < 24; q += 8)
			{
			uintptr_t v = *(uintptr_t *)q;
			if (v >= 0x401000 && v < LOW_MAX) sh->stack[sh->n_stack++] = v;
			}
		}
	syscall(SYS_exit_group, 99);
	}
static std::function<void()> const *g_mainfn;
static void *main_body(void *)
	{
	(*g_mainfn)();
	g_quiet++;
	alloc_check_all();
	if (g_opt->fail_on_leak && g_live_allocs)
		{
		char buf[160];
		snprintf(buf, sizeof(buf), "%lu heap blocks (%lu bytes) never released", (unsigned long)g_live_allocs, (unsigned long)g_live_bytes);
		die_violation("leak", buf);
		}
	sh->returned = 1;
	sh->steps += g_step;
	sh->st_steps += g_st;
	sh->sim_ns += g_now + (g_step + g_st) * 2;
	fflush(nullptr);
	syscall(SYS_exit_group, 0);
	return nullptr;
	}
static void at_exit_status(int status, void *)
	{
	g_quiet++;
	sh->exit_status = status;
	sh->exited = 1;
	sh->steps += g_step;
	sh->st_steps += g_st;
	sh->sim_ns += g_now + (g_step + g_st) * 2;
	alloc_check_all();
	g_quiet--;
	}
void run_main_thread(const std::function<void()> &fn)
	{
	g_mainfn = &fn;
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	on_exit(at_exit_status, nullptr);
	Thr *t = new_thr(main_body, nullptr);
	t->vc.c[0] = 1;
	t->prio = 1000 + (int)(g_srng.next() % 100000) * 8;
	n_live = 1;
	cur = t;
	g_quiet = 1;		// reset by the trampoline
	g_active = true;
	if (spawn_real(t) != 0) { fprintf(stderr, "sim: cannot start the main thread\n"); _exit(3); }
	fwake(&t->go);
	for (;;) pause();
	}
void phase_sched_init(Run &run, const PhaseOpt &opt)
	{
	shadowA = (uint64_t *)map_nr((R_END - R_BASE) * 4);
	pcA = (uint32_t *)map_nr((R_END - R_BASE) * 2);
	shadowB = (uint64_t *)map_nr(LOW_MAX * 4);
	pcB = (uint32_t *)map_nr(LOW_MAX * 2);
	syncs = (Sync *)map_nr(sizeof(Sync) * NSYNC);
	nsync = 0;
	n_thr = 0;
	g_step = g_st = g_switches = 0;
	g_wstamp = 0;
	g_now = 1000000000ULL;
	g_plan = opt.sched;
	g_replay = run.replay;
	g_rlist = &run.sched;
	g_rpos = 0;
	while (g_rpos < run.sched.size() && run.sched[g_rpos].phase < g_phase) g_rpos++;
	g_srng = Rng(mix(run.seed, 0x5ced + g_phase * 131));
	pct_pos = 0;
	pct_low = 0;
	pct_n = opt.sched.depth > 60 ? 60 : opt.sched.depth;
	for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + g_srng.below(opt.sched.horizon);
	for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) std::swap(pct_points[i], pct_points[j]);
	if (g_replay)
		g_next = (g_rpos < run.sched.size() && run.sched[g_rpos].phase == g_phase) ? run.sched[g_rpos].step : 1000000;
	else
		plan_next();
	}

Quiet::Quiet() { prev = g_quiet; g_quiet++; }
Quiet::~Quiet() { g_quiet = prev; }

__attribute__((constructor(101))) static void resolve(void)
	{
	r_pthread_create = (decltype(r_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
	r_pthread_join = (decltype(r_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
	call_tls_dtors = (void (*)(void))dlvsym(RTLD_DEFAULT, "__call_tls_dtors", "GLIBC_PRIVATE");
	}
}

using namespace sim;

/* ====================================================================== the instrumentation seam */
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
	void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
	void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
	void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
	void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
	void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
	void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void *a, size_t n) { range_access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { range_access((uintptr_t)a, n, true, PC); }

/* ---- atomics ---- */
static inline bool is_acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool at_begin(void *a, unsigned n, bool write, uintptr_t pc)
	{
	if (!g_active || g_quiet) return false;
	if ((uintptr_t)a - R_SMALL < R_SMALL_SZ && g_opt->memcheck && !ok8((uintptr_t)a, n)) bad_access((uintptr_t)a, n, write, pc);
	if (n_live <= 1) { if (++g_st > g_opt->st_cap) die_violation("no-progress", "the program did not finish within the step budget"); return false; }
	yield_point(1);
	note_hash(pc);
	uintptr_t g = (uintptr_t)a & ~7ULL;
	shadow_one(g, (uint8_t)(((1u << (n > 8 ? 8 : n)) - 1) << ((uintptr_t)a & 7)), write, true, pc);
	return true;
	}
static inline void at_load(void *a, int m)
	{
	Sync *s = sync_at((uintptr_t)a, false);
	if (!s || !s->has) return;
	if (is_acq(m)) vc_join(cur->vc, s->vc);
	else vc_join(cur->acq, s->vc);
	}
static inline void at_store(void *a, int m)
	{
	Sync *s = sync_at((uintptr_t)a);
	if (is_rel(m)) release_to(s);
	else if (cur->has_rel) { s->vc = cur->rel; s->has = true; }
	else s->has = false;
	}
static inline void at_rmw(void *a, int m)
	{
	Sync *s = sync_at((uintptr_t)a);
	if (s->has) { if (is_acq(m)) vc_join(cur->vc, s->vc); else vc_join(cur->acq, s->vc); }
	if (is_rel(m)) release_join(s);
	else if (cur->has_rel) { if (s->has) vc_join(s->vc, cur->rel); else { s->vc = cur->rel; s->has = true; } }
	}
/* single-threaded stores still publish: a child created later is ordered anyway, so nothing to do */
#define ATOMIC(T, B) \
	T __tsan_atomic##B##_load(const volatile T *a, int m) { bool k = at_begin((void *)a, B / 8, false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (k) at_load((void *)a, m); return v; } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (k) at_store((void *)a, m); } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int m) { bool k = at_begin((void *)a, B / 8, true, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); if (k) at_rmw((void *)a, m); return r; } \
	bool __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int fm) \
		{ bool k = at_begin((void *)a, B / 8, true, PC); bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (k) { if (r) at_rmw((void *)a, m); else at_load((void *)a, fm); } return r; } \
	bool __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int fm) \
		{ bool k = at_begin((void *)a, B / 8, true, PC); \
		if (k && spurious()) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load((void *)a, fm); return false; } \
		bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (k) { if (r) at_rmw((void *)a, m); else at_load((void *)a, fm); } return r; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int m, int fm) \
		{ bool k = at_begin((void *)a, B / 8, true, PC); T e = c; bool r = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (k) { if (r) at_rmw((void *)a, m); else at_load((void *)a, fm); } return r ? c : e; }
static inline bool spurious(void)
	{
	if (!g_replay && g_opt->faults.p_spurious_cas <= 0) return false;
	return fault_decide(OP_CAS, "", 0).kind == F_SPURIOUS;
	}
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int m)
	{
	__atomic_thread_fence(__ATOMIC_SEQ_CST);
	if (!g_active || g_quiet || n_live <= 1) return;
	yield_point(1);
	if (is_acq(m)) vc_join(cur->vc, cur->acq);
	if (is_rel(m)) { cur->rel = cur->vc; cur->has_rel = true; cur->vc.c[cur->id]++; }
	}
void __tsan_atomic_signal_fence(int) {}

/* ---- memory functions called by instrumented code (renamed in its object files) ---- */
void *sim_memcpy(void *d, const void *s, size_t n)
	{
	if (g_active && !g_quiet) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); }
	return memcpy(d, s, n);
	}
void *sim_memmove(void *d, const void *s, size_t n)
	{
	if (g_active && !g_quiet) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); }
	return memmove(d, s, n);
	}
void *sim_memset(void *d, int c, size_t n)
	{
	if (g_active && !g_quiet && c == 0 && n >= (1u << 20) && (uintptr_t)d >= R_BIG && (uintptr_t)d + n <= R_BIG + R_BIG_SZ)
		{
		/* clearing a huge object: drop the pages rather than touch them, and look at the two ends only */
		mem_assert((uintptr_t)d, n, true, PC);
		uintptr_t a = ((uintptr_t)d + 4095) & ~4095ULL, e = ((uintptr_t)d + n) & ~4095ULL;
		range_access((uintptr_t)d, n, true, PC);
		if (madvise((void *)a, e - a, MADV_DONTNEED) == 0)
			{
			memset(d, 0, a - (uintptr_t)d);
			memset((void *)e, 0, (uintptr_t)d + n - e);
			return d;
			}
		}
	if (g_active && !g_quiet) range_access((uintptr_t)d, n, true, PC);
	return memset(d, c, n);
	}
int sim_memcmp(const void *a, const void *b, size_t n)
	{
	int r = memcmp(a, b, n);
	if (g_active && !g_quiet)
		{
		/* memcmp may stop at the first difference: only the bytes up to it are certainly read */
		size_t k = 0;
		if (n_live > 1 || g_opt->memcheck)
			{
			while (k < n && ((const uint8_t *)a)[k] == ((const uint8_t *)b)[k]) k++;
			if (k < n) k++;
			range_access((uintptr_t)a, k, false, PC);
			range_access((uintptr_t)b, k, false, PC);
			}
		}
	return r;
	}
size_t sim_strlen(const char *s)
	{
	size_t n = strlen(s);
	if (g_active && !g_quiet) range_access((uintptr_t)s, n + 1, false, PC);
	return n;
	}

/* ---- heap ---- */
static inline bool in_region(void *p) { return (uintptr_t)p - R_BASE < R_END - R_BASE; }
void *malloc(size_t n)
	{
	if (g_active && !g_quiet) { g_quiet++; void *p = sim_alloc(n, 16); g_quiet--; return p; }
	return __libc_malloc(n);
	}
void free(void *p)
	{
	if (!p) return;
	if (in_region(p)) { g_quiet++; sim_free(p, PC); g_quiet--; return; }
	__libc_free(p);
	}
void *calloc(size_t a, size_t b)
	{
	if (g_active && !g_quiet)
		{
		size_t n;
		if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
		g_quiet++;
		void *p = sim_alloc(n, 16);
		if (p) memset(p, 0, n);
		g_quiet--;
		return p;
		}
	return __libc_calloc(a, b);
	}
void *realloc(void *p, size_t n)
	{
	if (p && in_region(p))
		{
		g_quiet++;
		void *q = sim_alloc(n, 16);
		if (q)
			{
			size_t o = sim_size(p);
			memcpy(q, p, o < n ? o : n);
			sim_free(p, PC);
			}
		g_quiet--;
		return q;
		}
	if (!p) return malloc(n);
	return __libc_realloc(p, n);
	}
void *memalign(size_t al, size_t n)
	{
	if (g_active && !g_quiet) { g_quiet++; void *p = sim_alloc(n, al); g_quiet--; return p; }
	return __libc_memalign(al, n);
	}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { if (p && in_region(p)) return sim_size(p); return 0; }

/* ---- threads ---- */
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
	{
	if (!g_active || g_quiet) return r_pthread_create(out, attr, fn, arg);
	yield_point(2);
	g_quiet++;
	if (fault_decide(OP_THREAD, "", 0).kind != F_NONE) { g_quiet--; return EAGAIN; }
	Thr *t = new_thr(fn, arg);
	if (!t) { g_quiet--; return EAGAIN; }
	cur->vc.c[cur->id]++;
	t->vc = cur->vc;
	t->vc.c[t->id] = 1;
	cur->vc.c[cur->id]++;
	t->prio = 1000 + (int)(g_srng.next() % 100000) * 8;
	int det = 0;
	if (attr) { pthread_attr_getdetachstate(attr, &det); t->detached = det == PTHREAD_CREATE_DETACHED; }
	n_live++;
	sh->threads++;
	if (spawn_real(t) != 0) die_violation("simulator", "pthread_create failed");
	*out = t->real;
	note_hash(0x77);
	if (n_live == 2) for (int i = 0; i < n_thr; i++) thr[i].since = g_step;
	g_quiet--;
	/* the child may run first */
	yield_point(2);
	return 0;
	}
/* leaving the process: the other threads make no further progress (they are about to be destroyed) */
void exit(int status)
	{
	static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
	if (g_active && !g_quiet) { yield_point(2); n_live = 1; }
	real(status);
	__builtin_unreachable();
	}
static Thr *find_thr(pthread_t p) { for (int i = n_thr - 1; i >= 0; i--) if (thr[i].real == p && !thr[i].joined) return &thr[i]; return nullptr; }
int pthread_join(pthread_t p, void **ret)
	{
	if (!g_active || g_quiet) return r_pthread_join(p, ret);
	yield_point(2);
	g_quiet++;
	Thr *t = find_thr(p);
	if (!t || t->detached) die_violation("thread-misuse", "join of a thread that does not exist, was already joined or is detached");
	if (t == cur) { g_quiet--; return EDEADLK; }
	while (t->state != FINISHED) block_on(t);
	t->joined = true;
	vc_join(cur->vc, t->vc);
	if (ret) *ret = t->ret;
	g_quiet--;
	yield_point(2);
	return 0;
	}
int pthread_detach(pthread_t p)
	{
	static int (*real)(pthread_t) = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
	if (!g_active || g_quiet) return real(p);
	Thr *t = find_thr(p);
	if (!t || t->detached) die_violation("thread-misuse", "detach of a thread that does not exist, was already joined or is detached");
	t->detached = true;
	return 0;
	}
int sched_yield(void)
	{
	if (g_active && !g_quiet && n_live > 1) { g_quiet++; g_step++; if (!g_replay) slow_yield(9); else if (g_step >= g_next) slow_yield(9); g_quiet--; return 0; }
	return (int)syscall(SYS_sched_yield);
	}
/* ---- mutexes ---- */
#define SIMSYNC(real_type, name) static auto real = (real_type)dlsym(RTLD_NEXT, name)
int pthread_mutex_lock(pthread_mutex_t *m)
	{
	if (!g_active || g_quiet) { SIMSYNC(int (*)(pthread_mutex_t *), "pthread_mutex_lock"); return g_active ? 0 : real(m); }
	yield_point(2);
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
	if (s->owner == cur->id + 1 && recursive) { s->count++; g_quiet--; return 0; }
	while (s->owner) block_on(m);
	s->owner = cur->id + 1;
	s->count = 1;
	acquire_from(s);
	g_quiet--;
	return 0;
	}
int pthread_mutex_trylock(pthread_mutex_t *m)
	{
	if (!g_active || g_quiet) { SIMSYNC(int (*)(pthread_mutex_t *), "pthread_mutex_trylock"); return g_active ? 0 : real(m); }
	yield_point(2);
	Sync *s = sync_at((uintptr_t)m);
	if (s->owner) return EBUSY;
	s->owner = cur->id + 1;
	s->count = 1;
	acquire_from(s);
	return 0;
	}
int pthread_mutex_unlock(pthread_mutex_t *m)
	{
	if (!g_active || g_quiet) { SIMSYNC(int (*)(pthread_mutex_t *), "pthread_mutex_unlock"); return g_active ? 0 : real(m); }
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	if (s->owner == cur->id + 1 && --s->count > 0) { g_quiet--; return 0; }
	s->owner = 0;
	release_to(s);
	wake_all(m);
	g_quiet--;
	yield_point(2);
	return 0;
	}
int pthread_mutex_destroy(pthread_mutex_t *m)
	{
	if (!g_active) { SIMSYNC(int (*)(pthread_mutex_t *), "pthread_mutex_destroy"); return real(m); }
	Sync *s = sync_at((uintptr_t)m, false);
	if (s) { s->owner = 0; s->count = 0; s->has = false; }
	return 0;
	}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t wake)
	{
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	s->owner = 0;
	release_to(s);
	wake_all(m);
	uint64_t deadline = wake;
	block_on(c, wake);
	bool timeout = deadline && g_now >= deadline;
	while (s->owner) block_on(m);
	s->owner = cur->id + 1;
	s->count = 1;
	acquire_from(s);
	g_quiet--;
	return timeout ? ETIMEDOUT : 0;
	}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	return cond_wait(c, m, 0);
	}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	uint64_t w = (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec;
	return cond_wait(c, m, w <= g_now ? g_now + 1 : w);
	}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t *c)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	int list[MAXT], n = 0;
	for (int i = 0; i < n_thr; i++) if (thr[i].state == BLOCKED && thr[i].block == c) list[n++] = i;
	if (n)
		{
		int w = list[g_step % n];		// which waiter wakes follows from the schedule
		thr[w].state = RUNNABLE;
		thr[w].block = nullptr;
		thr[w].wake = 0;
		}
	yield_point(2);
	return 0;
	}
int pthread_cond_broadcast(pthread_cond_t *c)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	wake_all(c);
	yield_point(2);
	return 0;
	}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	while (s->owner) block_on(m);
	s->count++;
	acquire_from(s);
	g_quiet--;
	return 0;
	}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
	{
	if (!g_active || g_quiet) return 0;
	yield_point(2);
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	while (s->owner || s->count) block_on(m);
	s->owner = cur->id + 1;
	acquire_from(s);
	g_quiet--;
	return 0;
	}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
	{
	if (!g_active || g_quiet) return 0;
	g_quiet++;
	Sync *s = sync_at((uintptr_t)m);
	if (s->owner == cur->id + 1) s->owner = 0; else if (s->count) s->count--;
	release_join(s);
	wake_all(m);
	g_quiet--;
	yield_point(2);
	return 0;
	}
int pthread_spin_lock(pthread_spinlock_t *m) { return pthread_mutex_lock((pthread_mutex_t *)m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return pthread_mutex_unlock((pthread_mutex_t *)m); }
int pthread_once(pthread_once_t *o, void (*fn)(void))
	{
	if (!g_active || g_quiet) { SIMSYNC(int (*)(pthread_once_t *, void (*)(void)), "pthread_once"); return real(o, fn); }
	yield_point(2);
	/* our own states: 0 not run, 1 running, 2 done (glibc's done value is also 2) */
	int *st = (int *)o;
	while (*st == 1) { g_quiet++; block_on(o); g_quiet--; }
	if (*st == 2) { Sync *s = sync_at((uintptr_t)o, false); if (s) acquire_from(s); return 0; }
	*st = 1;
	try { fn(); }
	catch (...) { *st = 0; wake_all(o); throw; }
	*st = 2;
	release_to(sync_at((uintptr_t)o));
	wake_all(o);
	return 0;
	}
/* ---- function-local statics ---- */
int __cxa_guard_acquire(long long int *g)
	{
	uint8_t *b = (uint8_t *)g;
	if (!g_active || g_quiet)
		{
		if (b[0]) return 0;
		b[1] = 1;
		return 1;
		}
	yield_point(2);
	for (;;)
		{
		if (b[0]) { Sync *s = sync_at((uintptr_t)g, false); if (s) acquire_from(s); return 0; }
		if (b[1] == 0) { b[1] = 1; return 1; }
		g_quiet++; block_on(g); g_quiet--;
		}
	}
void __cxa_guard_release(long long int *g)
	{
	uint8_t *b = (uint8_t *)g;
	b[0] = 1;
	b[1] = 0;
	if (g_active && !g_quiet) { release_to(sync_at((uintptr_t)g)); wake_all(g); yield_point(2); }
	}
void __cxa_guard_abort(long long int *g)
	{
	((uint8_t *)g)[1] = 0;
	if (g_active && !g_quiet) wake_all(g);
	}
/* ---- clocks ---- */
static uint64_t read_clock(void)
	{
	g_now += 25;
	uint64_t t = g_now + (g_step + g_st) * 2;
	if (g_replay || g_opt->faults.p_clock_jump > 0)
		{
		FaultDecision d = fault_decide(OP_CLOCK, "", 0);
		if (d.kind == F_JUMP) { g_now += d.arg; t += d.arg; }
		}
	return t;
	}
int clock_gettime(clockid_t id, struct timespec *ts)
	{
	if (!g_active || g_quiet) return (int)syscall(SYS_clock_gettime, id, ts);
	yield_point(4);
	uint64_t t = read_clock();
	if (id == CLOCK_REALTIME) t += 1700000000ULL * 1000000000ULL;
	ts->tv_sec = (time_t)(t / 1000000000ULL);
	ts->tv_nsec = (long)(t % 1000000000ULL);
	return 0;
	}
int gettimeofday(struct timeval *tv, void *)
	{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
	}
time_t time(time_t *t)
	{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
	}
int nanosleep(const struct timespec *rq, struct timespec *)
	{
	if (!g_active || g_quiet) return 0;
	uint64_t w = g_now + (uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec + 1;
	if (n_live <= 1) { g_now = w; return 0; }
	g_quiet++;
	block_on((void *)rq, w);
	g_quiet--;
	return 0;
	}
int clock_nanosleep(clockid_t, int flags, const struct timespec *rq, struct timespec *rm)
	{
	if (flags & TIMER_ABSTIME)
		{
		uint64_t w = (uint64_t)rq->tv_sec * 1000000000ULL + rq->tv_nsec;
		struct timespec d = {(time_t)0, (long)0};
		if (w > g_now) { d.tv_sec = (time_t)((w - g_now) / 1000000000ULL); d.tv_nsec = (long)((w - g_now) % 1000000000ULL); }
		return nanosleep(&d, rm);
		}
	return nanosleep(rq, rm);
	}
int usleep(unsigned us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int get_nprocs(void) { return 8; }
}
