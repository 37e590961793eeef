#include <sstream>
/*
	rt_main.cpp -- runs, phases, workers and the command line of the simulator.
*/
#include "rt_int.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <signal.h>
#include <fcntl.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>

namespace sim
{
const char *probe_names[32];
static int out_fd1 = -1, out_fd2 = -1;
static bool verbose = false;

std::vector<Scenario> &Scenario::all() { static std::vector<Scenario> *v = new std::vector<Scenario>; return *v; }
std::vector<Fixture> &Fixture::all() { static std::vector<Fixture> *v = new std::vector<Fixture>; return *v; }

std::string strf(const char *fmt, ...)
	{
	char *p = nullptr;
	int old = g_quiet;
	g_quiet++;
	va_list ap;
	va_start(ap, fmt);
	int n = vasprintf(&p, fmt, ap);
	va_end(ap);
	g_quiet = old;
	std::string r(p, (size_t)n);
	free(p);
	return r;
	}
void Run::violate(const char *cls, const char *fmt, ...)
	{
	if (failed) return;
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	failed = true;
	vclass = cls;
	vmsg = buf;
	}
void Run::hash(uint64_t v) { note_hash(v); }
void Run::hash(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; note_hash(h); }
void emit(const std::string &s)
	{
	g_quiet++;
	if (sh->out_len + s.size() > MAX_OUT) die_violation("no-progress", "more results than the simulator has room for, with no end in sight");
	memcpy(sh_out + sh->out_len, s.data(), s.size());
	sh->out_len += s.size();
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
	note_hash(h);
	g_quiet--;
	}
void note(uint64_t v) { note_hash(v); }
void probe_in(int which, uint64_t n) { sh->probes[which & 31] += n; }

SchedPlan Run::random_sched(int threads)
	{
	SchedPlan s;
	(void)threads;
	uint64_t k = rng.below(100);
	if (k < 4) { s.policy = POL_SEQ; }
	else if (k < 34) { s.policy = POL_RAND; static const double means[] = {3, 8, 20, 60, 200, 1000, 5000, 20000}; s.mean = means[rng.below(8)]; }
	else if (k < 56) { s.policy = POL_PCT; s.depth = 1 + (int)rng.below(6); static const uint64_t hz[] = {60, 300, 1500, 8000, 50000, 300000}; s.horizon = hz[rng.below(6)]; }
	else if (k < 74) { s.policy = POL_SYNC; static const double ps[] = {0.02, 0.1, 0.3, 0.6}; s.p = ps[rng.below(4)]; }
	else if (k < 95) { s.policy = POL_CONFLICT; static const double ps[] = {0.01, 0.05, 0.2, 0.5}; s.p = ps[rng.below(4)]; }
	else { s.policy = POL_FINE; }
	s.max_switches = rng.logu(200, 6000);
	return s;
	}

static PhaseResult run_phase(Run &run, const PhaseOpt &opt, const std::function<void()> &fn)
	{
	g_run = &run;
	g_opt = &opt;
	g_phase = run.phases++;
	sh->violated = sh->killed = sh->returned = sh->exited = sh->exit_status = sh->signo = 0;
	sh->out_len = 0;
	sh->n_stack = 0;
	sh->vclass[0] = sh->vmsg[0] = 0;
	if (ftruncate(out_fd1, 0) || ftruncate(out_fd2, 0)) {}
	lseek(out_fd1, 0, SEEK_SET);
	lseek(out_fd2, 0, SEEK_SET);
	fflush(nullptr);
	int pid = fork();
	if (pid < 0) { fprintf(stderr, "sim: fork failed: %s\n", strerror(errno)); _exit(3); }
	if (pid == 0)
		{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		dup2(out_fd1, 1);
		if (!verbose) dup2(out_fd2, 2);
		struct rlimit nocore = {0, 0};
		setrlimit(RLIMIT_CORE, &nocore);
		struct itimerval tv = {{0, 0}, {60, 0}};
		setitimer(ITIMER_PROF, &tv, nullptr);
		phase_disk_init(run, opt);
		phase_sched_init(run, opt);
		phase_alloc_init(run, opt);
		phase_disk_child(opt);
		run_main_thread(fn);
		_exit(3);
		}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	PhaseResult r;
	r.status = 0;
	r.out.assign(sh_out, sh->out_len);
	auto slurp = [](int fd) { std::string s; off_t n = lseek(fd, 0, SEEK_END); if (n > (8 << 20)) n = 8 << 20; s.resize((size_t)(n > 0 ? n : 0)); lseek(fd, 0, SEEK_SET); size_t k = 0; while (k < s.size()) { ssize_t g = syscall(SYS_read, fd, &s[k], s.size() - k); if (g <= 0) break; k += (size_t)g; } s.resize(k); return s; };
	r.std_out = slurp(out_fd1);
	std::string err = slurp(out_fd2);
	if (sh->out_len > (16 << 20)) madvise(sh_out, sh->out_len, MADV_REMOVE);
	if (sh->violated)
		{
		r.end = END_VIOLATION;
		if (!strcmp(sh->vclass, "simulator")) { fprintf(stderr, "sim: internal error in run %lu: %s\n", (unsigned long)run.index, sh->vmsg); run.violate("simulator", "%s", sh->vmsg); }
		else run.violate(sh->vclass, "[%s] %s", opt.name.c_str(), sh->vmsg);
		}
	else if (sh->killed) r.end = END_KILLED;
	else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.end = END_TIMEOUT; r.status = SIGPROF; }
	else if (WIFSIGNALED(st)) { r.end = END_SIGNAL; r.status = WTERMSIG(st); if (r.status == SIGKILL) { fprintf(stderr, "sim: phase was killed from outside\n"); _exit(3); } }
	else if (sh->signo)
		{
		r.end = END_SIGNAL;
		r.status = sh->signo;
		r.detail = strf("signal %d (%s) at pc 0x%lx", sh->signo, strsignal(sh->signo), (unsigned long)sh->sig_pc);
		for (uint64_t i = 0; i < sh->n_stack && i < 12; i++) r.detail += strf(" 0x%lx", (unsigned long)sh->stack[i]);
		std::string e = err.substr(0, 300);
		for (auto &c : e) if (c == '\n') c = ' ';
		if (!e.empty()) r.detail += " stderr: " + e;
		}
	else if (sh->returned) r.end = END_RETURN;
	else if (sh->exited) { r.end = END_EXIT; r.status = WEXITSTATUS(st); }
	else if (WIFEXITED(st)) { r.end = END_EXIT; r.status = WEXITSTATUS(st); if (r.status == 3) { fprintf(stderr, "sim: the phase could not start: %s\n", err.c_str()); _exit(3); } }
	else r.end = END_SIGNAL;
	note_hash((uint64_t)r.end * 1000 + (uint64_t)r.status);
	run.hash(r.std_out.size() < 4096 ? r.std_out : std::string());
	if (verbose) fprintf(stderr, "phase %u %s: end %d status %d out %zu bytes %s\n%s%s\n", g_phase, opt.name.c_str(), r.end, r.status, r.out.size(), r.detail.c_str(), r.std_out.substr(0, 2000).c_str(), err.c_str());
	return r;
	}
PhaseResult Run::phase(const PhaseOpt &opt, const std::function<void()> &fn) { return run_phase(*this, opt, fn); }
PhaseResult Run::tool(const PhaseOpt &opt, const std::vector<std::string> &argv, int (*fn)(int, const char **))
	{
	return run_phase(*this, opt, [&]()
		{
		static const char *av[256];
		size_t n = 0;
		for (; n < argv.size() && n < 255; n++) av[n] = argv[n].c_str();
		av[n] = nullptr;
		int rc = fn((int)n, av);
		exit(rc);
		});
	}
PhaseResult side_phase(const Files &in, Files &out, const std::function<void()> &fn)
	{
	Shared saved;
	memcpy((void *)&saved, (const void *)sh, sizeof(saved));
	Run *old_run = g_run;
	const PhaseOpt *old_opt = g_opt;
	uint32_t old_phase = g_phase;
	if (!disk_all().empty()) { fprintf(stderr, "sim: side phase with files on the disk\n"); _exit(3); }
	disk_load(in);
	Run side(1, 0);
	PhaseOpt opt;
	opt.name = "side";
	opt.zero_heap = false;
	opt.heap_seed = 7;
	PhaseResult r = run_phase(side, opt, fn);
	out = disk_all();
	if (r.end == END_VIOLATION) r.detail = side.vclass + ": " + side.vmsg;
	disk_run_reset();
	memcpy((void *)sh, (const void *)&saved, sizeof(saved));
	g_run = old_run;
	g_opt = old_opt;
	g_phase = old_phase;
	return r;
	}
bool Run::fine(const PhaseResult &r, const char *what, bool abort_allowed)
	{
	switch (r.end)
		{
		case END_RETURN: case END_EXIT: return true;
		case END_KILLED: return true;
		case END_VIOLATION: return false;
		case END_TIMEOUT: violate("no-progress", "[%s] did not finish", what); return false;
		case END_SIGNAL: if (abort_allowed && r.status == SIGABRT) return true; violate("crash", "[%s] %s", what, r.detail.c_str()); return false;
		}
	return false;
	}

/* ------------------------------------------------------------------ one run */
static void jstr(FILE *f, const std::string &s)
	{
	fputc('"', f);
	for (unsigned char c : s)
		{
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
		}
	fputc('"', f);
	}
static double now_s() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void reset_shared(void)
	{
	memset((void *)sh, 0, sizeof(*sh));
	disk_run_reset();
	}
static std::vector<Scenario> for_prop(const std::string &prop)
	{
	std::vector<Scenario> v;
	for (auto &s : Scenario::all()) if (prop == s.prop) v.push_back(s);
	return v;
	}
static void execute(Run &run, const std::string &prop)
	{
	reset_shared();
	std::vector<Scenario> v = for_prop(prop);
	double total = 0;
	for (auto &s : v) total += s.weight;
	double pick = run.rng.unit() * total;
	size_t k = 0;
	while (k + 1 < v.size() && pick >= v[k].weight) pick -= v[k++].weight;
	sh->hash = mix(run.seed, 0x1234);
	v[k].fn(run);
	}
static void report(FILE *f, Run &run, double wall)
	{
	fprintf(f, "{\"i\":%lu,\"seed\":%lu,\"ok\":%s,\"hash\":\"%016lx\",\"sched_hash\":\"%016lx\",\"sig\":\"%016lx\",\"nontrivial\":%s,\"evals\":%lu,", (unsigned long)run.index, (unsigned long)run.seed, run.failed ? "false" : "true",
		(unsigned long)sh->hash, (unsigned long)sh->sched_hash, (unsigned long)run.state_sig, run.nontrivial ? "true" : "false", (unsigned long)run.evals);
	fprintf(f, "\"steps\":%lu,\"st_steps\":%lu,\"switches\":%lu,\"conflicts\":%lu,\"sim_ns\":%lu,\"allocs\":%lu,\"disk_ops\":%lu,\"threads\":%lu,\"phases\":%u,\"wall\":%.4f,\"items\":%u,\"hard\":%lu,",
		(unsigned long)sh->steps, (unsigned long)sh->st_steps, (unsigned long)sh->switches, (unsigned long)sh->conflicts, (unsigned long)sh->sim_ns, (unsigned long)sh->allocs, (unsigned long)sh->disk_ops, (unsigned long)sh->threads, run.phases, wall, run.items, (unsigned long)sh->hard_fired);
	fprintf(f, "\"faults\":{");
	bool c = false;
	for (int o = 0; o < OP_MAX; o++) for (int k = 0; k < F_MAX; k++) if (sh->faults[o][k]) { fprintf(f, "%s\"%s/%s\":%lu", c ? "," : "", op_name[o], fault_name[k], (unsigned long)sh->faults[o][k]); c = true; }
	fprintf(f, "},\"probes\":{");
	c = false;
	for (int i = 0; i < 32; i++) if (sh->probes[i]) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", probe_names[i] ? probe_names[i] : strf("p%d", i).c_str(), (unsigned long)sh->probes[i]); c = true; }
	for (auto &p : run.probes) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", p.first.c_str(), (unsigned long)p.second); c = true; }
	fprintf(f, "},\"sample\":");
	jstr(f, run.sample);
	if (run.failed)
		{
		fprintf(f, ",\"class\":");
		jstr(f, run.vclass);
		fprintf(f, ",\"msg\":");
		jstr(f, run.vmsg);
		fprintf(f, ",\"sched\":[");
		for (uint64_t i = 0; i < sh->n_sched; i++) fprintf(f, "%s[%u,%lu,%u]", i ? "," : "", sh_sched[i].phase, (unsigned long)sh_sched[i].step, sh_sched[i].tid);
		fprintf(f, "],\"fault_list\":[");
		for (uint64_t i = 0; i < sh->n_fault; i++) fprintf(f, "%s[%u,%u,%lu,%u,%lu]", i ? "," : "", sh_fault[i].phase, sh_fault[i].op, (unsigned long)sh_fault[i].index, sh_fault[i].kind, (unsigned long)sh_fault[i].arg);
		fprintf(f, "]");
		}
	fprintf(f, "}\n");
	fflush(f);
	}
static void worker_setup(int w)
	{
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh_sched = (SchedItem *)mmap(nullptr, sizeof(SchedItem) * MAX_SCHED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	sh_fault = (FaultItem *)mmap(nullptr, sizeof(FaultItem) * MAX_FAULT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	sh_out = (char *)mmap(nullptr, MAX_OUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || sh_sched == MAP_FAILED || sh_fault == MAP_FAILED || sh_out == MAP_FAILED) { fprintf(stderr, "sim: cannot map\n"); _exit(3); }
	disk_global_init();
	out_fd1 = memfd_create("out", 0);
	out_fd2 = memfd_create("err", 0);
	cpu_set_t s, have;
	CPU_ZERO(&s);
	if (sched_getaffinity(0, sizeof(have), &have) == 0)
		{
		int n = CPU_COUNT(&have), k = n ? w % n : 0;
		for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have) && k-- == 0) { CPU_SET(i, &s); break; }
		sched_setaffinity(0, sizeof(s), &s);
		}
	}
static uint64_t run_seed(uint64_t base, const std::string &prop, uint64_t index)
	{
	uint64_t h = base;
	for (char c : prop) h = mix(h, (uint64_t)c);
	return mix(h, index + 1);
	}
static bool load_plan(const char *file, Run &run, std::string &prop)
	{
	FILE *f = fopen(file, "r");
	if (!f) return false;
	char *line = nullptr;
	size_t cap = 0;
	ssize_t n;
	while ((n = getline(&line, &cap, f)) >= 0)
		{
		unsigned long a, b, c, d, e;
		char s[64];
		if (sscanf(line, "prop %63s", s) == 1) prop = s;
		else if (sscanf(line, "seed %lu", &a) == 1) { run.seed = a; run.rng = Rng(a); }
		else if (sscanf(line, "index %lu", &a) == 1) run.index = a;
		else if (sscanf(line, "thorough %lu", &a) == 1) run.thorough = a;
		else if (sscanf(line, "record %lu", &a) == 1) run.replay = !a;
		else if (sscanf(line, "drop %lu", &a) == 1) run.dropped.insert((uint32_t)a);
		else if (sscanf(line, "sched %lu %lu %lu", &a, &b, &c) == 3) run.sched.push_back({(uint32_t)a, b, (uint32_t)c});
		else if (sscanf(line, "fault %lu %lu %lu %lu %lu", &a, &b, &c, &d, &e) == 5) run.faults.push_back({(uint32_t)a, (uint32_t)b, c, (uint32_t)d, e});
		}
	free(line);
	fclose(f);
	return true;
	}
int main_cli(int argc, char **argv)
	{
	/* the library fills its locale caches, under a lock, at first use: before any run, so that every run finds them filled */
	{ std::stringstream warm; warm << 1 << ' ' << 1.5 << ' ' << true << ' ' << (void *)&warm; int i; double d; warm >> i >> d; }
	std::string mode = argc > 1 ? argv[1] : "", prop, out = "/dev/stdout", plan;
	uint64_t base = 1, start = 0, count = 100;
	double budget = 1e9;
	int workers = 8;
	bool thorough = false;
	std::vector<uint64_t> indices;
	for (int i = 2; i < argc; i++)
		{
		std::string a = argv[i];
		auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if (a == "--seed") base = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--time") budget = atof(val().c_str());
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--out") out = val();
		else if (a == "--thorough") thorough = true;
		else if (a == "--verbose") verbose = true;
		else if (a == "--indices") { std::string s = val(); char *p = &s[0]; while (*p) { indices.push_back(strtoull(p, &p, 10)); if (*p == ',') p++; else if (*p) break; } }
		else if (mode == "replay") plan = a;
		else prop = a;
		}
	if (mode == "list") { for (auto &s : Scenario::all()) printf("%s\n", s.prop); return 0; }
	if (mode == "replay")
		{
		/* replay never changes with the environment: one process, one run */
		worker_setup(0);
		Run run(1, 0);
		run.replay = true;
		if (!load_plan(plan.c_str(), run, prop)) { fprintf(stderr, "sim: cannot read %s\n", plan.c_str()); return 3; }
		if (for_prop(prop).empty()) { fprintf(stderr, "sim: no scenario for %s\n", prop.c_str()); return 3; }
		for (auto &x : Fixture::all()) if (strstr(x.props, prop.c_str())) x.fn();
		double t = now_s();
		execute(run, prop);
		FILE *f = fopen(out.c_str(), "w");
		report(f, run, now_s() - t);
		fclose(f);
		return run.failed ? (run.vclass == "simulator" ? 3 : 1) : 0;
		}
	if (mode != "run" || for_prop(prop).empty()) { fprintf(stderr, "usage: jass_sim run PROP [--seed S --count N --time T --workers W --out F] | replay PLAN\n"); return 3; }
	double t0 = now_s();
	std::vector<pid_t> pids;
	for (int w = 0; w < workers; w++)
		{
		fflush(nullptr);
		pid_t p = fork();
		if (p < 0) { perror("fork"); return 3; }
		if (p == 0)
			{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			worker_setup(w);
			for (auto &x : Fixture::all()) if (strstr(x.props, prop.c_str())) x.fn();
			FILE *f = fopen((out + "." + std::to_string(w)).c_str(), "w");
			if (!f) _exit(3);
			int bad = 0;
			uint64_t n = indices.empty() ? count : indices.size();
			for (uint64_t k = (uint64_t)w; k < n; k += (uint64_t)workers)
				{
				if (now_s() - t0 > budget) break;
				uint64_t i = indices.empty() ? start + k : indices[k];
				Run run(run_seed(base, prop, i), i);
				run.thorough = thorough;
				double t = now_s();
				execute(run, prop);
				report(f, run, now_s() - t);
				if (run.failed && ++bad >= 3) break;
				}
			fclose(f);
			_exit(0);
			}
		pids.push_back(p);
		}
	int rc = 0;
	for (pid_t p : pids)
		{
		int st = 0;
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) rc = 3;
		}
	return rc;
	}
}
int main(int argc, char **argv) { return sim::main_cli(argc, argv); }
