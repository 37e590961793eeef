/*
	scn_accum.cpp -- C25: accumulators start every query at zero whatever was asked before and whatever was in the memory they got,
	and the query processors the search program can be compiled with keep exactly the best documents.
*/
#include "scn_util.h"
#include "query.h"
#include "query_heap.h"
#include "query_heap_clean.h"
#include "query_maxblock_heap.h"
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
#include "beap.h"
#include "heap.h"
#include <algorithm>
#include <memory>
#include <map>
#include <set>
#include <string.h>
#include <type_traits>
using namespace sim;
using namespace scn;

namespace
{
enum { REWIND, ADD, GET, INIT, TOP, MANY };
struct Op { uint8_t what; uint32_t a, b; };		// REWIND a times; ADD b to a; GET a; INIT for a documents, width b; TOP: compare all; MANY: read eight at once
struct Spec { int kind, element; uint32_t n; int width; uint32_t k; std::vector<Op> ops; std::vector<std::string> keys; };

/* ------------------------------------------------------------------ accumulators */
static const uint32_t MOST = 70000;
template <class A, class E> static void accumulate(const Spec &sp)
	{
	std::unique_ptr<A> a(new A);
	uint32_t n = sp.n;
	a->init(n, (size_t)sp.width);
	std::vector<E> want;
	{ Quiet q; want.assign(MOST, 0); }
	uint64_t queries = 0;
	auto check = [&](uint32_t d, const char *when)
		{
		E got = a->get_value(d);
		if (got != want[d]) violate("accumulator", "%s: the accumulator of document %u (of %u) is %lu after %lu rewinds, it is %lu", when, d, n, (unsigned long)got, (unsigned long)queries, (unsigned long)want[d]);
		};
	for (auto &o : sp.ops)
		switch (o.what)
			{
			case REWIND:
				for (uint32_t i = 0; i < o.a; i++, queries++) a->rewind();
				{ Quiet q; std::fill(want.begin(), want.end(), 0); }
				break;
			case ADD:
				{
				uint32_t d = o.a % n;
				if (o.b & 1) check(d, "before adding");
				E &e = (*a)[d];
				if (a->get_index(&e) != d) violate("accumulator", "the accumulator of document %u is said to be of document %zu", d, a->get_index(&e));
				e += (E)o.b;
				want[d] += (E)o.b;
				break;
				}
			case GET: check(o.a % n, "reading"); break;
			case INIT:
				n = o.a;
				a->init(n, (size_t)sp.width);
				queries = 0;
				{ Quiet q; std::fill(want.begin(), want.end(), 0); }
				break;
			case MANY:
				if constexpr (std::is_same<A, JASS::accumulator_2d<E, MOST>>::value)
					{
					uint32_t d[8], got[8];
					for (uint32_t i = 0; i < 8; i++) d[i] = (uint32_t)(((uint64_t)o.a + (uint64_t)i * o.b) % n);
					__m256i which, all;
					memcpy(&which, d, 32);
					all = (*a)[which];
					memcpy(got, &all, 32);
					for (int i = 0; i < 8; i++) if (got[i] != want[d[i]]) violate("accumulator", "reading eight at once: the accumulator of document %u (of %u) is %u after %lu rewinds, it is %lu", d[i], n, got[i], (unsigned long)queries, (unsigned long)want[d[i]]);
					}
				break;
			case TOP:
				for (uint32_t d = 0; d < n; d++) check(d, "reading all");
				break;
			}
	if (a->size() != n) violate("accumulator", "there are %zu accumulators, there should be %u", a->size(), n);
	}
template <class E> static void accumulate(const Spec &sp)
	{
	switch (sp.kind)
		{
		case 0: return accumulate<JASS::accumulator_2d<E, MOST>, E>(sp);
		case 1: return accumulate<JASS::accumulator_counter<E, MOST, 8>, E>(sp);
		case 2: return accumulate<JASS::accumulator_counter<E, MOST, 4>, E>(sp);
		case 3: return accumulate<JASS::accumulator_counter_interleaved<E, MOST, 8>, E>(sp);
		case 4: return accumulate<JASS::accumulator_counter_interleaved<E, MOST, 8, 1>, E>(sp);
		default: return accumulate<JASS::accumulator_counter_interleaved<E, MOST, 4>, E>(sp);
		}
	}

/* ------------------------------------------------------------------ query processors */
typedef std::vector<std::pair<uint32_t, uint32_t>> Ranking;		// score, document: best first
template <class Q> static void rank(const Spec &sp)
	{
	std::unique_ptr<Q> q(new Q);
	uint32_t n = sp.n, k = sp.k;
	q->init(sp.keys, n, k, (size_t)sp.width);
	std::map<uint32_t, uint32_t> want;
	uint64_t queries = 0;
	bool begun = false;
	auto compare = [&]()
		{
		Ranking got;
		for (const auto r : *q)
			{
			Quiet quiet;
			if (r.document_id >= n) violate("ranking", "query %lu returns document %zu of %u", (unsigned long)queries, r.document_id, n);
			if (r.primary_key != sp.keys[r.document_id]) violate("ranking", "query %lu returns document %zu under the key of another", (unsigned long)queries, r.document_id);
			got.push_back({r.rsv, (uint32_t)r.document_id});
			}
		Quiet quiet;
		Ranking best;
		for (auto &w : want) best.push_back({w.second, w.first});
		std::sort(best.begin(), best.end());
		if (best.size() > k) best.erase(best.begin(), best.end() - k);
		std::sort(got.begin(), got.end());
		if (got.size() != best.size()) violate("ranking", "query %lu returns %zu documents, there are %zu (%zu of %u with a score, the best %u wanted)", (unsigned long)queries, got.size(), best.size(), want.size(), n, k);
		for (size_t i = best.size(); i-- > 0;)
			if (got[i] != best[i]) violate("ranking", "query %lu (documents %u, best %u): document %u scores %u where document %u with %u belongs", (unsigned long)queries, n, k, got[i].second, got[i].first, best[i].second, best[i].first);
		};
	for (auto &o : sp.ops)
		switch (o.what)
			{
			case REWIND: case INIT:
				if (begun) compare();
				begun = true;
				if (o.what == INIT) { n = o.a; k = o.b; q->init(sp.keys, n, k, (size_t)sp.width); }
				else for (uint32_t i = 0; i < o.a % 4 + 1; i++) q->rewind();
				{ Quiet quiet; want.clear(); }
				queries++;
				break;
			case ADD:
				{
				uint32_t d = o.a % n, had;
				{ Quiet quiet; had = want[d]; if (had + o.b <= 255) want[d] += o.b; }
				if (had + o.b <= 255) q->add_rsv(d, (uint8_t)o.b);
				begun = true;
				break;
				}
			default: break;
			}
	compare();
	}

/* ------------------------------------------------------------------ the structures below them */
static void heaps(const Spec &sp)
	{
	typedef std::pair<uint32_t, uint32_t> V;
	std::vector<V> a(sp.k), b(sp.k);
	std::multiset<V> want;
	for (uint32_t i = 0; i < sp.k; i++) { a[i] = b[i] = {sp.ops[i].a % 50, i}; Quiet q; want.insert(a[i]); }
	JASS::beap<V> beap(a.data(), sp.k);
	JASS::heap<V> heap(b.data(), sp.k);
	beap.make_beap();
	heap.make_heap();
	uint32_t fresh = sp.k;
	auto check = [&]()
		{
		Quiet q;
		std::multiset<V> x(a.begin(), a.end()), y(b.begin(), b.end());
		if (x != want) violate("heap", "the beap of %u lost or invented a value", sp.k);
		if (y != want) violate("heap", "the heap of %u lost or invented a value", sp.k);
		if (a[0] != *want.begin()) violate("heap", "the first of the beap of %u is not the smallest", sp.k);
		if (b[0] != *want.begin()) violate("heap", "the first of the heap of %u is not the smallest", sp.k);
		};
	check();
	for (size_t i = sp.k; i < sp.ops.size(); i++)
		{
		const Op &o = sp.ops[i];
		V old, now;
		{
		Quiet q;
		if (o.what == ADD) old = *want.begin();
		else { auto it = want.begin(); std::advance(it, o.b % want.size()); old = *it; }
		now = {old.first + o.a % 7, fresh++};
		want.erase(want.find(old));
		want.insert(now);
		}
		if (o.what == ADD)
			{
			beap.replace_smallest_with(now);
			heap.push_back(now);
			}
		else
			{
			if (beap.guaranteed_replace_with_larger(old, now) < 0) violate("heap", "a value of the beap of %u is not found", sp.k);
			auto at = heap.find(old);
			if (at < 0) violate("heap", "a value of the heap of %u is not found", sp.k);
			heap.promote(now, (size_t)at);
			}
		check();
		}
	}

static void c25(Run &run)
	{
	Rng &r = run.rng;
	Spec sp;
	int group = r.chance(0.55) ? 0 : r.chance(0.85) ? 1 : 2;
	sp.kind = (int)r.below(group == 0 ? 6 : group == 1 ? 3 : 1);
	sp.element = (int)r.below(3);
	sp.n = (uint32_t)(r.chance(0.5) ? r.range(1, 300) : r.logu(1, group ? 20000 : MOST));
	sp.width = (int)(r.chance(0.3) ? 0 : r.range(1, 14));
	sp.k = (uint32_t)(group == 2 ? r.logu(1, 300) : r.chance(0.3) ? r.range(1, 3) : r.logu(1, 1000));
	uint64_t adds = 0, rewinds = 0;
	uint32_t n = sp.n;
	uint32_t hot = (uint32_t)r.logu(1, 400);			// most of what happens is in a few documents
	auto doc = [&]() { return (uint32_t)(r.chance(0.7) ? r.below(hot) * (1 + sp.n / (hot + 1)) : r.next() >> 33); };
	auto put = [&](uint8_t what, uint32_t a, uint32_t b) { if (run.keep()) { sp.ops.push_back({what, a, b}); if (what == ADD) adds++; if (what == REWIND) rewinds += a; } };
	if (group == 0)
		{
		for (uint64_t i = r.logu(1, 60); i > 0; i--)
			{
			/* a query; the flags of some strategies count to 15 or 255 and start again */
			for (uint64_t j = r.logu(1, 60); j > 0; j--) put(r.chance(0.6) ? ADD : r.chance(0.8) ? GET : MANY, doc(), (uint32_t)(r.chance(0.1) ? r.next() >> 33 : r.range(0, 40)));
			if (r.chance(0.1)) put(TOP, 0, 0);
			if (r.chance(0.05)) put(INIT, n = (uint32_t)r.logu(1, MOST), 0);
			else
				{
				static const uint32_t turns[] = {1, 1, 1, 1, 1, 2, 3, 14, 15, 16, 30, 254, 255, 256, 510, 511};
				put(REWIND, r.chance(0.8) ? turns[r.below(16)] : (uint32_t)r.range(1, 600), 0);
				}
			}
		put(TOP, 0, 0);
		}
	else if (group == 1)
		{
		for (uint64_t i = r.logu(1, 20); i > 0; i--)
			{
			uint32_t size = (uint32_t)(r.chance(0.1) ? r.logu(1, 6000) : r.logu(1, 300)), big = (uint32_t)(r.chance(0.3) ? 255 : r.logu(1, 100));
			for (uint32_t j = 0; j < size; j++) put(ADD, doc(), (uint32_t)r.logu(1, big));
			if (r.chance(0.1)) put(INIT, (uint32_t)r.logu(1, 20000), (uint32_t)r.logu(1, 1000));
			else put(REWIND, (uint32_t)r.below(4), 0);
			}
		sp.keys.resize(20001);
		for (size_t i = 0; i < sp.keys.size(); i++) sp.keys[i] = "K" + std::to_string(i);
		}
	else
		{
		for (uint32_t i = 0; i < sp.k; i++) sp.ops.push_back({ADD, (uint32_t)(r.next() >> 40), 0});
		for (uint64_t i = r.logu(1, 300); i > 0; i--) put(r.chance(0.5) ? ADD : GET, (uint32_t)(r.next() >> 40), (uint32_t)(r.next() >> 40));
		}
	static const char *accs[] = {"2d", "counter 8", "counter 4", "interleaved 8", "interleaved 8/1", "interleaved 4"}, *procs[] = {"query_heap", "query_maxblock_heap", "query_heap_clean"};
	run.sample = group == 0 ? strf("accumulator %s of %d bytes, width %d, %u documents, %lu additions, %lu rewinds", accs[sp.kind], 1 << sp.element, sp.width, sp.n, (unsigned long)adds, (unsigned long)rewinds)
		: group == 1 ? strf("%s, %u documents, the best %u, width %d, %lu additions", procs[sp.kind], sp.n, sp.k, sp.width, (unsigned long)adds) : strf("heap and beap of %u, %zu replacements", sp.k, sp.ops.size() - sp.k);
	PhaseOpt opt;
	opt.name = "queries";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	PhaseResult pr = run.phase(opt, [&]()
		{
		if (group == 2) heaps(sp);
		else if (group == 1) { if (sp.kind == 0) rank<JASS::query_heap>(sp); else if (sp.kind == 1) rank<JASS::query_maxblock_heap>(sp); else rank<JASS::query_heap_clean>(sp); }
		else if (sp.element == 0) accumulate<uint8_t>(sp);
		else if (sp.element == 1) accumulate<uint16_t>(sp);
		else accumulate<uint32_t>(sp);
		});
	if (!run.fine(pr, "queries")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "the program ended (status %d)", pr.status); return; }
	run.nontrivial = adds > 1;
	run.state_sig = mix(mix(group * 8 + sp.kind, sp.n), mix(sp.width, adds));
	run.probe(group == 0 ? "accumulator histories" : group == 1 ? "processor histories" : "heap histories");
	run.probe("additions", adds);
	run.evals = sp.ops.size();
	}
Register r25("C25", c25);
}
