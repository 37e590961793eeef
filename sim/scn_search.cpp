/*
	scn_search.cpp -- the search engine (JASS_anytime_api) under concurrency and history: C01 - C05.

	One run loads one generated index into one engine (one simulated process) and performs up to five operations on it:
	batches on 1..8 threads, single searches, changes of the limits.  What each operation returned is checked against the
	reference model (world.h) and against the same query run alone on a fresh engine.
*/
#include "world.h"
#include "search.h"
#include "JASS_anytime_api.h"
using namespace scn;

namespace
{
enum Kind { BATCH, THREADED, SINGLE };
struct OpSpec { Kind kind; int threads; Limits limits; bool set_limits; std::vector<std::string> queries; };
struct Answer { size_t op, thread; std::string key, id, query, list; uint64_t postings; };

/* ------------------------------------------------------------------ inside the simulated process */
static void emit_result(size_t op, size_t thread, const std::string &key, const JASS_anytime_result &r)
	{
	Quiet q;
	Out o;
	o.u(op).u(thread).str(key).str(r.query_id).str(r.query).str(r.results_list).u(r.postings_processed).send();
	}
static void apply_limits(JASS_anytime_api &e, const Limits &l, size_t op)
	{
	/* back to the defaults, then what is asked for: the settings are those of this operation only */
	e.set_postings_to_process(std::numeric_limits<size_t>::max());
	e.set_postings_to_process_relative(100);
	e.set_postings_to_process_minimum(l.min_kind == 1 ? l.min_count : 0);
	if (l.min_kind == 2) e.set_postings_to_process_proportion_minimum(l.min_percent);
	if (l.kind == 1) e.set_postings_to_process(l.count);
	else if (l.kind == 2) e.set_postings_to_process_proportion(l.percent);
	else if (l.kind == 3) e.set_postings_to_process_relative(l.percent);
	if (l.oracle) { if (e.load_oracle_scores(strf("/sim/oracle.%zu", op)) != JASS_ERROR_OK) violate("load", "loading oracle scores from a good file failed"); }
	else e.load_oracle_scores("");
	}
static void open_engine(JASS_anytime_api &e, const Settings &s)
	{
	e.set_top_k(s.k);
	e.set_accumulator_width(s.width);
	if (s.raw) e.use_ascii_parser();
	JASS_ERROR rc = e.load_index(collection(s.coll).version, "/sim/index");
	if (rc != JASS_ERROR_OK) violate("load", "loading a good index reported %d", (int)rc);
	}
static void do_op(JASS_anytime_api &e, const OpSpec &op, size_t n)
	{
	if (op.set_limits) apply_limits(e, op.limits, n);
	if (op.kind == SINGLE)
		for (size_t i = 0; i < op.queries.size(); i++)
			{
			JASS_anytime_result r = e.search(op.queries[i]);
			emit_result(n, i, r.query_id, r);
			}
	else
		{
		std::vector<JASS_anytime_thread_result> out;
		if (op.kind == BATCH)
			{
			std::vector<JASS_anytime_query> list;
			for (auto &q : op.queries) list.push_back(JASS_anytime_query(q));
			JASS_ERROR rc = e.search(out, list, (size_t)op.threads);
			if (rc != JASS_ERROR_OK) violate("batch-error", "a batch search reported %d", (int)rc);
			}
		else
			{
			std::vector<std::string> list = op.queries;
			out = e.threaded_search(list, (size_t)op.threads);
			}
		for (size_t t = 0; t < out.size(); t++)
			for (auto &r : out[t]) emit_result(n, t, r.first, r.second);
		}
	}
/* ------------------------------------------------------------------ a query alone on a fresh engine */
static Solo solo_impl(const Settings &s, const Limits &l, const std::string &query, const std::string &id)
	{
	static std::map<std::string, Solo> &cache = *new std::map<std::string, Solo>;		// never destroyed: a simulated exit() must not depend on it
	uint32_t bound = 0;
	if (l.oracle) { auto b = l.bounds.find(id); if (b != l.bounds.end()) bound = b->second; }
	std::string body = query.substr(id.size());
	/* the answer depends on the id only through the oracle */
	std::string key = strf("%d/%zu/%d/%d/%d/%lu/%g/%d/%lu/%g/%d/%u/", s.coll, s.k, s.width, s.raw, l.kind, (unsigned long)l.count, l.percent, l.min_kind, (unsigned long)l.min_count, l.min_percent, l.oracle, bound) + id + "|" + body;
	auto f = cache.find(key);
	if (f != cache.end()) return f->second;
	if (cache.size() > 20000) cache.clear();
	Files in, out;
	for (auto &x : index_files(s.coll)) in["/sim/index/" + x.first] = x.second;
	Limits mine = l;
	if (l.oracle) { mine.bounds.clear(); mine.bounds["unrelated"] = 3; if (bound) mine.bounds[id] = bound; }
	if (mine.oracle) in["/sim/oracle.0"] = oracle_file(mine);
	OpSpec op;
	op.kind = SINGLE;
	op.threads = 1;
	op.limits = mine;
	op.set_limits = true;
	op.queries.push_back(query);
	PhaseResult r = side_phase(in, out, [&]()
		{
		std::unique_ptr<JASS_anytime_api> e(new JASS_anytime_api);
		open_engine(*e, s);
		do_op(*e, op, 0);
		});
	Solo a;
	a.postings = 0;
	if (r.end != END_RETURN) a.error = strf("end %d %s", r.end, r.detail.c_str());
	else
		{
		In i(r.out);
		i.u(); i.u(); i.str(); i.str(); i.str();
		a.list = i.str();
		a.postings = i.u();
		if (i.bad) a.error = "nothing was returned";
		}
	cache[key] = a;
	return a;
	}

/* ------------------------------------------------------------------ drawing a run */
struct Plan { Settings s; std::vector<OpSpec> ops; PhaseOpt opt; int focus; };
static bool blank(const std::string &s) { return s.empty(); }

static uint32_t kth_score(const Truth &t, size_t k) { return t.all.size() >= k ? t.all[k - 1].score : 0; }

static Plan draw(Run &run, int focus)
	{
	Plan p;
	p.focus = focus;
	Rng &r = run.rng;
	int pool = run.thorough ? 48 : focus == 2 || focus == 5 || focus == 1 ? 12 : 24;
	p.s.coll = (int)r.below(pool);
	if (focus != 5 && r.chance(run.thorough ? 0.05 : 0.03)) p.s.coll = BIG + (r.chance(0.4) ? 4 : (int)r.below(run.thorough ? 4 : 2));
	const Collection &c = collection(p.s.coll);
	static const size_t ks[] = {1, 2, 3, 5, 10, 10, 20, 50, 100, 1000};
	static const int ws[] = {0, 0, 1, 3, 5, 7, 10, 14};
	bool pooled = focus == 2;				// few settings, so the solo answers repeat
	uint64_t variant = r.below(pooled && !run.thorough ? 3 : 1000000);
	Rng v(mix(0xAB + (uint64_t)p.s.coll, variant));
	p.s.k = ks[v.below(10)];
	p.s.width = ws[v.below(8)];
	p.s.raw = v.chance(0.25);
	Limits base;
	auto draw_limits = [&](Rng &x)
		{
		Limits l;
		double u = x.unit();
		if (u < 0.3) { l.kind = 1; l.count = x.chance(0.1) ? x.below(3) : x.chance(0.08) ? ((uint64_t)x.range(1, 3) << 32) + x.below(20) : x.logu(1, c.n() * 6 + 5); }
		else if (u < 0.45) { l.kind = 2; static const double ps[] = {1, 5, 10, 25, 50, 100, 150, 300, 0, 0.5, 12.5, 33.3}; l.percent = ps[x.below(12)]; }
		else if (u < 0.7) { l.kind = 3; static const double ps[] = {1, 5, 10, 20, 33, 50, 75, 90, 99, 0.5, 12.5, 66.6}; l.percent = ps[x.below(12)]; }
		if (x.chance(0.45)) l.oracle = true;
		if (x.chance(l.oracle ? 0.4 : 0.1)) { l.min_kind = 1 + (int)x.below(2); l.min_count = x.logu(1, c.n() * 4 + 4); l.min_percent = (double)x.below(200); }
		return l;
		};
	bool limits = focus == 4 || (focus != 3 && v.chance(focus == 2 ? 0.5 : 0.35));
	if (limits && focus != 4) base = draw_limits(v);
	int nops = 1 + (int)r.below(focus == 5 ? 2 : focus == 1 ? 3 : 4);
	bool big = p.s.coll >= BIG;
	if (big && nops > 2) nops = 2;
	/* now and then, more queries on one engine than fit in a byte */
	bool crowd = r.chance(0.03);
	if (crowd && nops > 3) nops = 3;			// 64 threads in all
	bool history = (focus == 2 || focus == 3) && c.n() <= 40 && r.chance(0.03);
	int maxq = pooled ? 16 : 200;
	int serial = 1 + (int)r.below(500);
	int total_threads = 1;
	for (int i = 0; i < nops; i++)
		{
		OpSpec op;
		double u = r.unit();
		op.kind = (focus == 1 || focus == 5) ? (u < 0.7 ? BATCH : u < 0.9 ? THREADED : SINGLE) : (u < 0.45 ? BATCH : u < 0.6 ? THREADED : SINGLE);
		if (focus == 5 && i == 0) op.kind = r.chance(0.8) ? BATCH : THREADED;
		if (history && i == 0) op.kind = SINGLE;
		op.threads = op.kind == SINGLE ? 1 : r.chance(0.12) ? 1 : (int)r.range(2, r.chance(0.2) ? 8 : 4);
		if (crowd && op.kind != SINGLE && i == 0) { static const int past[] = {9, 17, 33, 33}; op.threads = past[r.below(4)] + (int)r.below(8); }
		op.set_limits = focus == 4 ? (i == 0 || r.chance(0.5)) : i == 0;
		if (focus == 4 && op.set_limits) base = draw_limits(r);
		size_t n = op.kind == SINGLE ? (size_t)r.range(1, 3) : focus == 1 && r.chance(0.06) ? 0 : (size_t)r.logu(1, focus == 1 ? 24 : 10);
		std::vector<std::string> qs;
		if (history && i == 0) n = (size_t)r.range(250, 330);
		if (focus == 1 && op.kind != SINGLE && c.n() <= 200 && r.chance(0.012)) n = (size_t)r.range(250, 330);
		if (crowd && op.kind != SINGLE && i == 0) n = (size_t)op.threads + r.below(20);
		if (big && n > 4) n = 4;
		bool bare = false;
		size_t blanks = 0;
		for (size_t k = 0; k < n; k++)
			{
			std::string body = query_body(c, (int)r.below(maxq)), text;
			if (focus != 2) body = decorate(r, body, p.s.raw);
			static const char *seps[] = {" ", "\t", ":", "  ", " : "};
			std::string sep = seps[pooled ? 0 : r.below(5)];
			double w = r.unit();
			if (w < 0.02 && !bare && op.kind != SINGLE) { bare = true; text = c.vocab[r.below(c.vocab.size())]; }		// one word: no id
			else if (history && i == 0) text = strf("%zu", k % 4) + sep + body;
			else if (pooled) text = strf("%lu", (unsigned long)(r.below(3) * 100 + k)) + sep + body;
			else text = (r.chance(0.3) ? strf("Q-%d.%zu", serial, k) : strf("%d", serial * 100 + (int)k)) + sep + body;
			if (focus == 1 && r.chance(0.05)) text = strf("%d%s", serial * 100 + (int)k, r.chance(0.5) ? " " : "");			// an id and no terms
			if (op.kind == SINGLE && text.find_first_of(" \t:") == std::string::npos) text += " ";
			bool empty = op.kind != SINGLE && focus == 1 && r.chance(0.08);
			if (empty) text = "";
			qs.push_back(text);
			}
		if (focus == 1 && op.kind != SINGLE && !big && r.chance(0.003)) blanks = (size_t)r.range(250, 70000);
		serial++;
		/* one bare word at most (its id is the empty string) */
		bool seen_bare = false;
		for (auto &q : qs)
			{
			if (q.empty()) continue;
			std::string id, body;
			split_query(q, id, body);
			if (id.empty()) { if (seen_bare) { q = strf("%d ", serial * 1000 + (int)r.below(900)) + q; std::string dummy; } else seen_bare = true; }
			}
		std::set<std::string> ids;
		for (auto &q : qs)
			{
			std::string id, body;
			bool keep = run.keep();
			if (!keep) continue;
			split_query(q, id, body);
			if (op.kind != SINGLE && !q.empty() && !ids.insert(id).second) continue;
			op.queries.push_back(q);
			}
		if (blanks && !op.queries.empty()) op.queries.insert(op.queries.begin() + r.below(op.queries.size() + 1), blanks, "");			// more entries than fit in a byte, or in two
		op.limits = base;
		if (base.oracle)
			{
			op.limits.bounds.clear();
			for (auto &q : op.queries)
				{
				if (blank(q)) continue;
				Query m = make_query(q, p.s.raw);
				if (m.id.empty() || m.id.find(' ') != std::string::npos) continue;
				Rng b(mix(0xBEEF + (uint64_t)p.s.coll, std::hash<std::string>()(m.body) ^ variant));
				if (focus == 4) b = Rng(r.next());
				Truth t = evaluate(c, m);
				uint32_t kth = kth_score(t, p.s.k);
				double w = b.unit();
				uint32_t bound;
				if (w < 0.15) bound = 0;
				else if (w < 0.35) bound = kth;
				else if (w < 0.55) bound = kth > 1 ? (uint32_t)b.range(1, kth) : 1;
				else if (w < 0.75) bound = kth + (uint32_t)b.logu(1, 20);
				else bound = (uint32_t)b.logu(1, 300);
				if (t.exact() && bound > 300) bound = 300;
				if (b.chance(0.9)) op.limits.bounds[m.id] = bound;
				/* now and then, the minimum falls inside the segment with which k documents reach the bound */
				if (focus == 4 && b.chance(0.3) && t.exact() && kth >= 2)
					{
					bound = (uint32_t)b.range(2, kth);
					std::map<uint32_t, uint32_t> acc;
					uint64_t before = 0;
					for (auto &g : t.segments)
						{
						size_t reach = 0;
						for (uint32_t d : g.docs) acc[d] += g.impact;
						for (auto &a : acc) if (a.second >= bound) reach++;
						if (reach >= p.s.k)
							{
							op.limits.bounds[m.id] = bound;
							op.limits.min_kind = 1;
							op.limits.min_count = before + (uint64_t)b.range(1, (int64_t)g.docs.size());
							break;
							}
						before += g.docs.size();
						}
					}
				}
			op.limits.bounds["unrelated"] = 3;
			op.set_limits = true;
			}
		total_threads = std::max(total_threads, op.threads);
		p.ops.push_back(op);
		}
	p.opt.name = "engine";
	if (big) p.opt.step_cap = 300000000;
	if (focus == 1 && total_threads > 1 && r.chance(0.06)) p.opt.faults.hard.push_back({OP_THREAD, (uint32_t)r.below(6), F_ERR, 11, r.chance(0.3)});		// EAGAIN
	p.opt.sched = run.random_sched(total_threads);
	p.opt.heap_seed = 1 + r.below(1000);
	p.opt.detect_races = focus == 5;
	p.opt.memcheck = true;
	p.opt.fail_on_leak = false;
	return p;
	}

static std::string limits_text(const Limits &l)
	{
	std::string s;
	if (l.kind == 1) s += strf(" max %lu postings", (unsigned long)l.count);
	if (l.kind == 2) s += strf(" max %g%% of collection", l.percent);
	if (l.kind == 3) s += strf(" max %g%% of query", l.percent);
	if (l.min_kind) s += l.min_kind == 1 ? strf(" min %lu", (unsigned long)l.min_count) : strf(" min %g%%", l.min_percent);
	if (l.oracle) s += strf(" oracle(%zu)", l.bounds.size());
	return s;
	}
static std::string describe(const Plan &p)
	{
	const Collection &c = collection(p.s.coll);
	std::string s = strf("index %d (v%d codec %c, %u documents, %zu terms), k=%zu, width %d%s:", p.s.coll, c.version, c.codec, c.n(), c.terms.size(), p.s.k, p.s.width, p.s.raw ? ", raw parser" : "");
	for (auto &o : p.ops) s += strf(" [%s %zu queries, %d threads%s%s]", o.kind == SINGLE ? "single" : o.kind == BATCH ? "batch" : "threaded_search", o.queries.size(), o.threads, o.set_limits ? "" : ", settings kept,", limits_text(o.limits).c_str());
	return s.substr(0, 600);
	}

static bool execute(Run &run, Plan &p, std::vector<Answer> &answers)
	{
	run.sample = describe(p);
	const Files &idx = index_files(p.s.coll);
	if (idx.count("error") || idx.size() != 4) { run.violate("index", "the index of collection %d cannot be written: %s", p.s.coll, idx.count("error") ? idx.at("error").c_str() : "files are missing"); return false; }
	for (auto &x : idx) disk_put("/sim/index/" + x.first, x.second);
	for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].limits.oracle) disk_put(strf("/sim/oracle.%zu", i), oracle_file(p.ops[i].limits));
	uint64_t before = faults_fired();
	PhaseResult r = run.phase(p.opt, [&]()
		{
		std::unique_ptr<JASS_anytime_api> e(new JASS_anytime_api);
		open_engine(*e, p.s);
		for (size_t i = 0; i < p.ops.size(); i++) do_op(*e, p.ops[i], i);
		e.reset();
		{ Quiet q; Out o; o.u(999).u(0).str("").str("").str("").str("").u(0).send(); }
		});
	bool failed = faults_fired() != before;
	if (!run.fine(r, "engine", failed)) return false;
	if (failed && (r.end == END_SIGNAL || (r.end == END_EXIT && r.status != 0))) { run.probe("threads that could not be started, reported"); return false; }
	In in(r.out);
	bool done = false;
	while (in.more())
		{
		Answer a;
		a.op = in.u(); a.thread = in.u(); a.key = in.str(); a.id = in.str(); a.query = in.str(); a.list = in.str(); a.postings = in.u();
		if (in.bad) break;
		if (a.op == 999) { done = true; break; }
		answers.push_back(a);
		}
	if (r.end != END_RETURN || !done) { run.violate("wrong-end", "the program ended (status %d) before its operations were finished", r.status); return false; }
	size_t concurrent = 0;
	for (auto &o : p.ops) if (o.threads > 1 && o.queries.size() > 1) concurrent++;
	run.nontrivial = (p.focus == 3 || p.focus == 4) ? answers.size() > 0 : concurrent > 0;
	run.evals = answers.size() ? answers.size() : 1;
	uint64_t sig = mix((uint64_t)p.s.coll, p.s.k * 64 + (uint64_t)p.s.width * 2 + p.s.raw);
	for (auto &o : p.ops) sig = mix(sig, (uint64_t)o.kind * 4096 + (uint64_t)o.threads * 256 + o.queries.size());
	run.state_sig = sig;
	run.probe("queries answered", answers.size());
	run.probe("concurrent batches", concurrent);
	return true;
	}
static const Answer *find(const std::vector<Answer> &v, size_t op, const std::string &id, size_t single, bool is_single)
	{
	for (auto &a : v) if (a.op == op && (is_single ? a.thread == single : a.id == id)) return &a;
	return nullptr;
	}

/* ------------------------------------------------------------------ C01 */
static void c01(Run &run)
	{
	Plan p = draw(run, 1);
	std::vector<Answer> got;
	if (!execute(run, p, got)) return;
	for (size_t i = 0; i < p.ops.size(); i++)
		{
		const OpSpec &op = p.ops[i];
		std::map<std::string, std::string> want;
		for (auto &q : op.queries) if (!blank(q)) { std::string id, body; split_query(q, id, body); want[id] = body; }
		std::map<std::string, int> times;
		for (auto &a : got)
			{
			if (a.op != i) continue;
			if (a.key != a.id) { run.violate("wrong-id", "the result filed under '%s' carries the id '%s'", a.key.c_str(), a.id.c_str()); return; }
			auto w = want.find(a.id);
			if (w == want.end()) { run.violate("invented", "operation %zu answered '%s', which was not submitted", i, a.id.c_str()); return; }
			if (w->second != a.query) { run.violate("wrong-query", "query '%s' was submitted as '%s' and answered as '%s'", a.id.c_str(), w->second.substr(0, 80).c_str(), a.query.substr(0, 80).c_str()); return; }
			times[a.id]++;
			}
		for (auto &w : want)
			{
			if (times[w.first] == 0) { run.violate("lost", "operation %zu (%d threads, %zu queries): query '%s' was not answered", i, op.threads, op.queries.size(), w.first.c_str()); return; }
			if (times[w.first] > 1) { run.violate("twice", "operation %zu (%d threads, %zu queries): query '%s' was answered %d times", i, op.threads, op.queries.size(), w.first.c_str(), times[w.first]); return; }
			}
		}
	}
/* ------------------------------------------------------------------ C02 */
static void c02(Run &run)
	{
	Plan p = draw(run, 2);
	/* the answers each query has alone are computed first, outside the run */
	std::map<std::pair<size_t, size_t>, Solo> alone;
	for (size_t i = 0; i < p.ops.size(); i++)
		for (size_t k = 0; k < p.ops[i].queries.size(); k++)
			{
			if (blank(p.ops[i].queries[k])) continue;
			std::string id, body;
			split_query(p.ops[i].queries[k], id, body);
			alone[{i, k}] = solo(p.s, p.ops[i].limits, p.ops[i].queries[k], id);
			}
	std::vector<Answer> got;
	if (!execute(run, p, got)) return;
	for (size_t i = 0; i < p.ops.size(); i++)
		for (size_t k = 0; k < p.ops[i].queries.size(); k++)
			{
			const std::string &q = p.ops[i].queries[k];
			if (blank(q)) continue;
			std::string id, body;
			split_query(q, id, body);
			const Solo &s = alone[{i, k}];
			if (!s.error.empty()) { run.violate("alone", "query '%s' alone on a fresh engine: %s", q.substr(0, 80).c_str(), s.error.c_str()); return; }
			const Answer *a = find(got, i, id, k, p.ops[i].kind == SINGLE);
			if (!a) { run.violate("unanswered", "query '%s' has an answer alone but none here", id.c_str()); return; }
			if (a->postings != s.postings) { run.violate("postings", "operation %zu, query '%s': %lu postings processed, alone it is %lu", i, q.substr(0, 80).c_str(), (unsigned long)a->postings, (unsigned long)s.postings); return; }
			if (a->list != s.list)
				{
				std::vector<Line> x, y;
				std::string why, w1, w2;
				parse_lines(a->list, x, w1);
				parse_lines(s.list, y, w2);
				size_t d = 0;
				while (d < x.size() && d < y.size() && x[d].doc == y[d].doc && x[d].score == y[d].score) d++;
				run.violate("differs", "operation %zu (%d threads), query '%s': %zu results here, %zu alone; they differ from rank %zu on (here %s, alone %s)", i, p.ops[i].threads, q.substr(0, 80).c_str(), x.size(), y.size(), d + 1,
					d < x.size() ? strf("document %u score %u", x[d].doc, x[d].score).c_str() : "nothing", d < y.size() ? strf("document %u score %u", y[d].doc, y[d].score).c_str() : "nothing");
				return;
				}
			}
	}
/* ------------------------------------------------------------------ C03 */
static void c03(Run &run)
	{
	Plan p = draw(run, 3);
	std::vector<Answer> got;
	if (!execute(run, p, got)) return;
	const Collection &c = collection(p.s.coll);
	for (size_t i = 0; i < p.ops.size(); i++)
		for (size_t k = 0; k < p.ops[i].queries.size(); k++)
			{
			if (blank(p.ops[i].queries[k])) continue;
			Query q = make_query(p.ops[i].queries[k], p.s.raw);
			const Answer *a = find(got, i, q.id, k, p.ops[i].kind == SINGLE);
			if (!a) { run.violate("unanswered", "query '%s' has no answer", q.text.substr(0, 80).c_str()); return; }
			Truth t = evaluate(c, q);
			std::vector<Line> v;
			std::string why;
			if (!parse_lines(a->list, v, why) || !well_formed(c, q, v, p.s.k, why)) { run.violate("form", "query '%s' (operation %zu): %s", q.text.substr(0, 100).c_str(), i, why.c_str()); return; }
			if (t.exact() ? !same_ranking(t.all, v, p.s.k, why) : !scaled_ranking(t, v, p.s.k, why))
				{ run.violate(t.exact() ? "ranking" : "scaled-ranking", "query '%s' (operation %zu, %s): %s", q.text.substr(0, 100).c_str(), i, p.ops[i].kind == SINGLE ? "single" : strf("%d threads", p.ops[i].threads).c_str(), why.c_str()); return; }
			if (a->postings != t.postings) { run.violate("postings", "query '%s': %lu postings processed of %lu", q.text.substr(0, 100).c_str(), (unsigned long)a->postings, (unsigned long)t.postings); return; }
			run.probe(t.exact() ? "exact rankings" : "scaled rankings");
			}
	}
/* ------------------------------------------------------------------ C04 */
static void c04(Run &run)
	{
	Plan p = draw(run, 4);
	std::vector<Answer> got;
	if (!execute(run, p, got)) return;
	const Collection &c = collection(p.s.coll);
	for (size_t i = 0; i < p.ops.size(); i++)
		for (size_t j = 0; j < p.ops[i].queries.size(); j++)
			{
			if (blank(p.ops[i].queries[j])) continue;
			const Limits &l = p.ops[i].limits;
			Query q = make_query(p.ops[i].queries[j], p.s.raw);
			const Answer *a = find(got, i, q.id, j, p.ops[i].kind == SINGLE);
			if (!a) { run.violate("unanswered", "query '%s' has no answer", q.text.substr(0, 80).c_str()); return; }
			Truth t = evaluate(c, q);
			uint64_t limit = UINT64_MAX, least = 0;
			if (l.kind == 1) limit = l.count;
			else if (l.kind > 1)
				{
				/* a whole number, but for the rounding of the multiplication, may come out as either */
				double exact = (double)(l.kind == 2 ? c.n() : t.postings) * l.percent / 100.0;
				uint64_t lower = (uint64_t)std::max(0.0, exact - 1e-6);
				limit = (uint64_t)(exact + 1e-6);
				if (lower != limit && a->postings != limited(t, limit).processed) limit = lower;
				}
			if (l.min_kind == 1) least = l.min_count;
			else if (l.min_kind == 2) least = (uint64_t)std::max(0.0, (double)c.n() * l.min_percent / 100.0 - 1e-6);
			uint32_t bound = 0;
			if (l.oracle) { auto b = l.bounds.find(q.id); if (b != l.bounds.end()) bound = b->second; }
			std::string ctx = strf("query '%s' (operation %zu, %s):%s, %lu postings, bound %u, k %zu: ", q.text.substr(0, 60).c_str(), i, p.ops[i].kind == SINGLE ? "single" : strf("%d threads", p.ops[i].threads).c_str(), limits_text(l).c_str(), (unsigned long)t.postings, bound, p.s.k);
			std::vector<Line> v;
			std::string why;
			if (a->postings > limit) { run.violate("over-limit", "%s%lu postings processed, the limit is %lu", ctx.c_str(), (unsigned long)a->postings, (unsigned long)limit); return; }
			if (!parse_lines(a->list, v, why) || !well_formed(c, q, v, p.s.k, why)) { run.violate("form", "%s%s", ctx.c_str(), why.c_str()); return; }
			Limited full = limited(t, limit);
			std::map<uint32_t, uint32_t> truth;
			for (auto &s : t.all) truth[s.doc] = s.score;
			for (auto &x : v)
				{
				if (!truth.count(x.doc)) { run.violate("no-match", "%sdocument %u matches no term", ctx.c_str(), x.doc); return; }
				if (t.exact() && x.score > truth[x.doc]) { run.violate("score", "%sdocument %u has score %u, its sum is %u", ctx.c_str(), x.doc, x.score, truth[x.doc]); return; }
				}
			if (bound <= 1)				// nothing is known: the limits alone decide
				{
				if (a->postings != full.processed) { run.violate("under-limit", "%s%lu postings processed, whole segments up to the limit make %lu", ctx.c_str(), (unsigned long)a->postings, (unsigned long)full.processed); return; }
				if (t.exact() && full.unambiguous && !same_ranking(full.all, v, p.s.k, why)) { run.violate("ranking", "%s%s", ctx.c_str(), why.c_str()); return; }
				if (full.processed < t.postings) run.probe("queries cut by the limit");
				continue;
				}
			if (a->postings < full.processed && a->postings < least) { run.violate("under-minimum", "%sstopped after %lu postings, the minimum is %lu", ctx.c_str(), (unsigned long)a->postings, (unsigned long)least); return; }
			if (!t.exact()) continue;
			if (least > 1)			// what starts before the minimum is processed to its end: nothing that scores less than the k best of it is returned
				{
				Limited must{0, true, {}};
				std::map<uint32_t, uint32_t> acc;
				size_t n = 0;
				for (; n < t.segments.size() && must.processed < full.processed && must.processed < least; n++)
					{
					must.processed += t.segments[n].docs.size();
					for (uint32_t d : t.segments[n].docs) acc[d] += t.segments[n].impact;
					}
				if (n > 0 && n < t.segments.size() && t.segments[n].impact == t.segments[n - 1].impact && t.segments[n].docs.size() == t.segments[n - 1].docs.size()) must.unambiguous = false;
				must.all = rank(acc);
				if (must.unambiguous && full.unambiguous && must.all.size() >= p.s.k && must.all[p.s.k - 1].score >= bound)
					{
					uint32_t floor = must.all[p.s.k - 1].score;
					for (auto &x : v) if (x.score < floor) { run.violate("minimum-score", "%sdocument %u is returned with score %u, the first %lu postings have %zu documents of at least %u", ctx.c_str(), x.doc, x.score, (unsigned long)must.processed, p.s.k, floor); return; }
					run.probe("bounds reached before the minimum");
					}
				}
			if (full.processed == t.postings)		// only the known score can end the search early
				{
				size_t reach = 0;
				for (auto &s : t.all) if (s.score >= bound) reach++;
				if (reach < p.s.k)
					{
					if (!same_ranking(t.all, v, p.s.k, why)) { run.violate("oracle-ranking", "%s%zu documents reach the bound; %s", ctx.c_str(), reach, why.c_str()); return; }
					run.probe("bounds not reached by k documents");
					}
				else
					{
					if (v.size() != p.s.k) { run.violate("oracle-short", "%s%zu documents reach the bound but %zu are returned", ctx.c_str(), reach, v.size()); return; }
					for (auto &x : v) if (x.score < bound) { run.violate("oracle-score", "%sdocument %u is returned with score %u", ctx.c_str(), x.doc, x.score); return; }
					if (least >= t.postings && !same_ranking(t.all, v, p.s.k, why)) { run.violate("minimum-ranking", "%severy posting had to be processed; %s", ctx.c_str(), why.c_str()); return; }
					run.probe("bounds reached by k documents");
					if (a->postings < t.postings) run.probe("queries ended early by the bound");
					}
				}
			else if (!(a->postings == full.processed || v.size() == p.s.k)) { run.violate("under-limit", "%sstopped after %lu postings of the allowed %lu without %zu results", ctx.c_str(), (unsigned long)a->postings, (unsigned long)full.processed, p.s.k); return; }
			}
	}
/* ------------------------------------------------------------------ C05 */
static void c05(Run &run)
	{
	Plan p = draw(run, 5);
	std::vector<Answer> got;
	execute(run, p, got);			// the race detector decides
	}
Register r01("C01", c01), r02("C02", c02), r03("C03", c03), r04("C04", c04), r05("C05", c05);
}
namespace scn { Solo solo(const Settings &s, const Limits &l, const std::string &query, const std::string &id) { return solo_impl(s, l, query, id); } }
