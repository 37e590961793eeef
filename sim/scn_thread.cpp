/* scn_thread.cpp -- C19: starting, moving and joining threads */
#include "rt.h"
#include "threads.h"
#include <memory>
#include <algorithm>
#include <errno.h>
using namespace sim;

namespace
{
struct Cell { uint64_t in; uint64_t out; uint64_t runs; uint64_t pad[5]; };
static uint64_t work(uint64_t x, int n) { for (int i = 0; i < n; i++) x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x; }
static void by_ref(Cell &c, int n, uint64_t extra) { c.runs++; c.out = work(c.in + extra, n); }
static void by_ptr(Cell *c, std::string s, std::vector<uint64_t> v)
	{
	c->runs++;
	uint64_t h = c->in;
	for (char ch : s) h = h * 31 + (unsigned char)ch;
	for (uint64_t x : v) h = h * 131 + x;
	c->out = h;
	}
struct Obj { Cell *c; void member(uint64_t k) { c->runs++; c->out = work(c->in ^ k, 3); } };

struct Spec { int kind; int n; uint64_t in, extra; std::string s; std::vector<uint64_t> v; };
static uint64_t expect(const Spec &p)
	{
	if (p.kind == 0) return work(p.in + p.extra, p.n);
	if (p.kind == 2) return work(p.in ^ p.extra, 3);
	if (p.kind == 3) return work(p.in * 3, p.n);
	uint64_t h = p.in;
	for (char ch : p.s) h = h * 31 + (unsigned char)ch;
	for (uint64_t x : p.v) h = h * 131 + x;
	return h;
	}
static JASS::thread start(Cell *c, const Spec &p, Obj *o)
	{
	switch (p.kind)
		{
		case 0: return JASS::thread(by_ref, std::ref(*c), p.n, p.extra);
		case 1: { std::string s = p.s; std::vector<uint64_t> v = p.v; return JASS::thread(by_ptr, c, s, v); }		// copies must survive this scope
		case 2: return JASS::thread(&Obj::member, o, p.extra);
		default: { int n = p.n; return JASS::thread([c, n]() { c->runs++; c->out = work(c->in * 3, n); }); }
		}
	}

static void c19(Run &run)
	{
	std::vector<Spec> spec;
	int n = (int)run.rng.logu(1, 10);
	for (int i = 0; i < n; i++)
		{
		Spec p;
		p.kind = (int)run.rng.below(4);
		p.n = (int)run.rng.below(40);
		p.in = run.rng.next();
		p.extra = run.rng.next();
		p.s = std::string(run.rng.below(60), (char)('a' + run.rng.below(26)));
		for (uint64_t k = run.rng.below(6); k > 0; k--) p.v.push_back(run.rng.next());
		if (run.keep()) spec.push_back(p);
		}
	int shape = (int)run.rng.below(8);
	uint64_t mix_seed = run.rng.next();
	bool reserve = run.rng.chance(0.3);
	bool reverse = run.rng.chance(0.4);
	PhaseOpt opt;
	opt.name = "threads";
	opt.sched = run.random_sched(n);
	opt.detect_races = true;
	opt.heap_seed = 1 + run.rng.below(1000);
	run.sample = strf("%zu threads, container shape %d%s%s, policy %d", spec.size(), shape, reserve ? ", reserved" : ", growing", reverse ? ", joined in reverse" : "", opt.sched.policy);
	bool refuse = run.rng.chance(0.06);
	if (refuse) opt.faults.hard.push_back({OP_THREAD, (uint32_t)run.rng.below((uint64_t)n + 1), F_ERR, EAGAIN, run.rng.chance(0.3)});
	uint64_t before = faults_fired();
	PhaseResult r = run.phase(opt, [&]()
		{
		size_t n = spec.size();
		std::vector<Cell> cells(n);
		std::vector<Obj> objs(n);
		for (size_t i = 0; i < n; i++) { cells[i].in = spec[i].in; cells[i].out = 0; cells[i].runs = 0; objs[i].c = &cells[i]; }
		auto check = [&](size_t i)
			{
			if (cells[i].runs != 1) violate("thread-lost", "after join, the function of thread %zu had run %lu times", i, (unsigned long)cells[i].runs);
			if (cells[i].out != expect(spec[i])) violate("thread-args", "after join, thread %zu's effect is not that of its function and arguments", i);
			};
		if (shape == 0 || shape == 1)			// a growing vector: every growth moves running threads
			{
			std::vector<JASS::thread> pool;
			if (reserve) pool.reserve(n);
			for (size_t i = 0; i < n; i++)
				{
				if (shape == 0) pool.push_back(start(&cells[i], spec[i], &objs[i]));
				else { JASS::thread t = start(&cells[i], spec[i], &objs[i]); pool.push_back(std::move(t)); }
				}
			for (size_t k = 0; k < n; k++) { size_t i = reverse ? n - 1 - k : k; pool[i].join(); check(i); }
			}
		else if (shape == 2)						// through a chain of moves
			{
			for (size_t i = 0; i < n; i++)
				{
				JASS::thread a = start(&cells[i], spec[i], &objs[i]);
				JASS::thread b(std::move(a));
				std::unique_ptr<JASS::thread> c(new JASS::thread(std::move(b)));
				JASS::thread d(std::move(*c));
				c.reset();
				d.join();
				check(i);
				}
			}
		else if (shape == 3)						// plain array of pointers
			{
			std::vector<std::unique_ptr<JASS::thread>> pool;
			for (size_t i = 0; i < n; i++) pool.emplace_back(new JASS::thread(start(&cells[i], spec[i], &objs[i])));
			for (size_t k = 0; k < n; k++) { size_t i = reverse ? n - 1 - k : k; pool[i]->join(); check(i); }
			}
		else if (shape == 4)						// threads that start threads
			{
			std::vector<JASS::thread> pool;
			for (size_t i = 0; i < n; i++)
				pool.push_back(JASS::thread([&, i]() { JASS::thread t = start(&cells[i], spec[i], &objs[i]); t.join(); check(i); }));
			for (auto &t : pool) t.join();
			for (size_t i = 0; i < n; i++) check(i);
			}
		else if (shape == 6)						// assigned from place to place: sorted, swapped and removed
			{
			Rng m(mix_seed);
			std::vector<JASS::thread> pool;
			std::vector<size_t> who;
			for (size_t i = 0; i < n; i++) { pool.push_back(start(&cells[i], spec[i], &objs[i])); who.push_back(i); }
			while (!pool.empty())
				{
				size_t a = m.below(pool.size()), b = m.below(pool.size());
				switch (m.below(4))
					{
					case 0: { JASS::thread t(std::move(pool[a])); pool[a].join(); if (a != b) pool[a] = std::move(pool[b]); else { pool[a] = std::move(t); break; } pool[b] = std::move(t); std::swap(who[a], who[b]); break; }
					case 1: std::swap(pool[a], pool[b]); std::swap(who[a], who[b]); break;
					case 2: std::rotate(pool.begin(), pool.begin() + (ptrdiff_t)a, pool.end()); std::rotate(who.begin(), who.begin() + (ptrdiff_t)a, who.end()); break;
					default:
						pool[a].join();
						check(who[a]);
						pool.erase(pool.begin() + (ptrdiff_t)a);
						who.erase(who.begin() + (ptrdiff_t)a);
					}
				}
			}
		else if (shape == 7)						// a few places, each used again after its thread was joined or moved away
			{
			Rng m(mix_seed);
			std::vector<JASS::thread> place, away;
			std::vector<size_t> in_place, gone;
			size_t k = std::min<size_t>(n, 1 + m.below(3)), next = 0;
			for (; next < k; next++) { place.push_back(start(&cells[next], spec[next], &objs[next])); in_place.push_back(next); }
			for (; next < n; next++)
				{
				size_t a = m.below(k);
				if (m.chance(0.5)) { place[a].join(); check(in_place[a]); }
				else { away.push_back(std::move(place[a])); gone.push_back(in_place[a]); }
				place[a] = start(&cells[next], spec[next], &objs[next]);
				in_place[a] = next;
				}
			for (size_t i = 0; i < k; i++) { place[i].join(); check(in_place[i]); }
			for (size_t i = 0; i < away.size(); i++) { away[i].join(); check(gone[i]); }
			}
		else												// join while others are still being started
			{
			std::vector<JASS::thread> pool;
			size_t joined = 0;
			for (size_t i = 0; i < n; i++)
				{
				pool.push_back(start(&cells[i], spec[i], &objs[i]));
				if (i % 2) { pool[joined].join(); check(joined); joined++; }
				}
			for (; joined < n; joined++) { pool[joined].join(); check(joined); }
			}
		emit("done");
		});
	bool refused = faults_fired() != before;
	if (!run.fine(r, "threads", refused)) return;
	if (refused && (r.end == END_SIGNAL || (r.end == END_EXIT && r.status != 0))) { run.probe("threads that could not be started, reported"); return; }
	if (r.end != END_RETURN || r.out != "done") { run.violate("wrong-end", "the program did not reach its end"); return; }
	run.nontrivial = spec.size() >= 2;
	run.state_sig = mix(shape * 16 + spec.size(), opt.sched.policy);
	}
Register r19("C19", c19);
}
