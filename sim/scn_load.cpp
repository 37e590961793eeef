/*
	scn_load.cpp -- the engine's life cycle under misuse and failing loads: C06.

	One run is one process that makes a random sequence of API calls on one or two engines while opening, sizing, mapping
	or reading files and allocating memory fail at chosen points.  Every call's outcome is checked against a model of the
	engine's state, every answer against the reference ranking.
*/
#include "world.h"
#include <array>
#include <errno.h>
#include "JASS_anytime_api.h"
using namespace scn;

namespace
{
enum What { LOAD, TOPK, WIDTH, PROPORTION, ORACLE, SINGLE, BATCH, STRINGS, PARSER, GETTERS, DESTROY, WHATS };
static const char *what_name[] = {"load_index", "set_top_k", "set_accumulator_width", "set_postings_to_process_proportion", "load_oracle_scores", "search", "search (batch)", "threaded_search", "use parser", "getters", "new engine"};
struct Call
	{
	What what;
	uint64_t arg = 0;						// version, k, width, percent, threads, parser
	std::string path;						// directory or oracle file
	std::vector<std::string> queries;
	uint64_t fail_alloc = 0;			// the nth allocation in this call fails
	};
struct Event { uint64_t rc, fired, docs, topk; std::vector<std::array<std::string, 3>> answers; std::vector<uint64_t> postings; std::string name; };

static const char *parts[] = {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"};

static void perform(JASS_anytime_api *&e, const Call &c)
	{
	Out out;
	uint64_t before = faults_fired();
	JASS_ERROR rc = JASS_ERROR_OK;
	std::vector<JASS_anytime_thread_result> results;
	JASS_anytime_result one;
	std::string name;
	if (c.fail_alloc) fail_alloc_after(c.fail_alloc, 4096);			// small ones are left alone: libstdc++'s std::filesystem::path does not survive those
	switch (c.what)
		{
		case LOAD: rc = e->load_index(c.arg, c.path); break;
		case TOPK: rc = e->set_top_k(c.arg); break;
		case WIDTH: rc = e->set_accumulator_width(c.arg); break;
		case PROPORTION: rc = c.path == "min" ? e->set_postings_to_process_proportion_minimum((double)c.arg) : e->set_postings_to_process_proportion((double)c.arg); break;
		case ORACLE: try { rc = e->load_oracle_scores(c.path); } catch (std::bad_alloc &) { rc = JASS_ERROR_FAIL; } break;		// the name is passed by value
		case SINGLE: one = e->search(c.queries[0]); break;
		case BATCH:
			{
			std::vector<JASS_anytime_query> list;
			for (auto &q : c.queries) list.push_back(JASS_anytime_query(q));
			rc = e->search(results, list, (size_t)c.arg);
			break;
			}
		case STRINGS: { std::vector<std::string> list = c.queries; results = e->threaded_search(list, (size_t)c.arg); break; }
		case PARSER: rc = c.arg ? e->use_ascii_parser() : e->use_query_parser(); break;
		case GETTERS:
			{
			int32_t d = -7;
			rc = e->get_encoding_scheme(name, d);
			if (e->get_encoding_scheme_name() != name) violate("getters", "get_encoding_scheme_name() does not agree with get_encoding_scheme()");
			if (rc == JASS_ERROR_OK && e->get_encoding_scheme_d() != d) violate("getters", "get_encoding_scheme_d() does not agree with get_encoding_scheme()");
			if (rc != JASS_ERROR_OK && e->get_encoding_scheme_d() != JASS_ERROR_NO_INDEX) violate("getters", "get_encoding_scheme_d() without an index is %d", (int)e->get_encoding_scheme_d());
			break;
			}
		case DESTROY: delete e; e = new JASS_anytime_api; break;
		default: break;
		}
	fail_alloc_off();
	uint64_t docs = e->get_document_count(), topk = e->get_top_k();
	Quiet quiet;
	out.u((uint64_t)(int64_t)rc).u(faults_fired() - before).u(docs).u(topk).str(name);
	std::vector<const JASS_anytime_result *> all;
	if (c.what == SINGLE) all.push_back(&one);
	for (auto &t : results) for (auto &r : t) all.push_back(&r.second);
	out.u(all.size());
	for (auto r : all) out.str(r->query_id).str(r->query).str(r->results_list).u(r->postings_processed);
	out.send();
	}

static std::string text(const Call &c)
	{
	switch (c.what)
		{
		case LOAD: return strf("load_index(%lu, %s)%s", (unsigned long)c.arg, c.path.c_str(), c.fail_alloc ? strf(" with large allocation %lu failing", (unsigned long)c.fail_alloc).c_str() : "");
		case ORACLE: return "load_oracle_scores(" + c.path + ")" + (c.fail_alloc ? strf(" with large allocation %lu failing", (unsigned long)c.fail_alloc) : std::string());
		case BATCH: case STRINGS: return strf("%s of %zu on %lu threads", what_name[c.what], c.queries.size(), (unsigned long)c.arg);
		case SINGLE: return "search(" + c.queries[0].substr(0, 30) + ")";
		case GETTERS: case DESTROY: return what_name[c.what];
		default: return strf("%s(%lu)", what_name[c.what], (unsigned long)c.arg);
		}
	}

static void c06(Run &run)
	{
	Rng &r = run.rng;
	int id = (int)r.below(run.thorough ? 48 : 24);
	const Collection &c = collection(id);
	const Files &idx = index_files(id);
	if (idx.count("error") || idx.size() != 4) { run.violate("index", "the index of collection %d cannot be written", id); return; }
	/* the directories: a good index, and ones that lack, or have an empty or unusable version of, one file */
	std::vector<std::string> bad = {"/sim/none", "/sim/file", ""};
	for (auto &x : idx) { disk_put("/sim/index/" + x.first, x.second); }
	disk_put("/sim/file", "this is not a directory");
	for (int p = 0; p < 4; p++)
		for (int kind = 0; kind < 3; kind++)
			{
			std::string d = strf("/sim/%s%d", kind == 0 ? "lacks" : kind == 1 ? "empty" : "dir", p);
			for (auto &x : idx)
				if (x.first != parts[p]) disk_put(d + "/" + x.first, x.second);
				else if (kind == 1) disk_put(d + "/" + x.first, "");
				else if (kind == 2) disk_mkdir(d + "/" + x.first);
			bad.push_back(d);
			}
	disk_put("/sim/oracle.good", "unrelated 3\nother 200\n");
	disk_put("/sim/oracle.words", "unrelated\nother 200\n\n  \nthird  \n");
	disk_put("/sim/oracle.empty", "");
	disk_put("/sim/oracle.blank", "\n\n\n");

	std::vector<Call> calls;
	int n = (int)r.range(2, 14);
	int serial = 100;
	for (int i = 0; i < n; i++)
		{
		Call k;
		double u = r.unit();
		k.what = u < 0.36 ? LOAD : u < 0.42 ? TOPK : u < 0.48 ? WIDTH : u < 0.52 ? PROPORTION : u < 0.6 ? ORACLE : u < 0.72 ? SINGLE : u < 0.84 ? BATCH : u < 0.9 ? STRINGS : u < 0.92 ? PARSER : u < 0.97 ? GETTERS : DESTROY;
		if (k.what == LOAD)
			{
			double w = r.unit();
			k.arg = w < 0.12 ? (uint64_t)r.pick(std::vector<uint64_t>{0, 3, 99, 1ULL << 40}) : (uint64_t)c.version;
			k.path = r.chance(0.5) ? (r.chance(0.2) ? "/sim/index/" : "/sim/index") : r.pick(bad);
			if (r.chance(0.12)) k.fail_alloc = r.logu(1, 8);
			}
		if (k.what == TOPK) { static const uint64_t ks[] = {1, 5, 10, 100, 1000, 1001, 5000, 1ULL << 33}; k.arg = ks[r.below(8)]; }
		if (k.what == WIDTH) { static const uint64_t ws[] = {0, 1, 5, 10, 14, 33, 64, 1ULL << 32}; k.arg = ws[r.below(8)]; }
		if (k.what == PROPORTION) { k.arg = 100000; k.path = r.chance(0.5) ? "min" : "max"; }
		if (k.what == ORACLE) { static const char *o[] = {"good", "words", "empty", "blank", "missing"}; k.path = r.chance(0.15) ? "" : strf("/sim/oracle.%s", o[r.below(5)]); if (r.chance(0.15)) k.fail_alloc = r.logu(1, 2); }
		if (k.what == PARSER) k.arg = r.below(2);
		if (k.what == SINGLE || k.what == BATCH || k.what == STRINGS)
			{
			size_t q = k.what == SINGLE ? 1 : r.range(0, 4);
			k.arg = (uint64_t)r.range(1, 3);
			for (size_t j = 0; j < q; j++) k.queries.push_back(strf("%d ", serial++) + query_body(c, (int)r.below(40)));
			if (k.what == SINGLE && r.chance(0.1)) k.queries[0] = "";
			}
		if (run.keep()) calls.push_back(k);
		}
	/* the end is always: a good load, which must work whatever came before, and a search */
	Call last;
	last.what = DESTROY;
	if (r.chance(0.3) && run.keep()) calls.push_back(last);
	last.what = LOAD; last.arg = (uint64_t)c.version; last.path = "/sim/index";
	calls.push_back(last);
	last.what = SINGLE; last.queries.push_back(strf("%d ", serial) + query_body(c, (int)r.below(40)));
	calls.push_back(last);

	PhaseOpt opt;
	opt.name = "engine";
	opt.sched = run.random_sched(3);
	opt.heap_seed = 1 + r.below(1000);
	int faults = r.chance(0.25) ? 0 : (int)r.range(1, 3);
	for (int i = 0; i < faults; i++)
		{
		static const Op ops[] = {OP_OPEN_R, OP_STAT, OP_MMAP, OP_READ};
		static const uint64_t errs[] = {EIO, EACCES, ENOMEM, EMFILE, ENOENT};
		Hard h;
		h.op = ops[r.below(4)];
		h.nth = (uint32_t)r.below(h.op == OP_READ ? 3 : 14);
		h.kind = F_ERR;
		h.arg = errs[r.below(5)];
		h.persistent = r.chance(0.1);
		opt.faults.hard.push_back(h);
		}
	if (r.chance(0.3)) { static const char *only[] = {"CIpostings", "CIvocab.bin", "CIvocab_terms", "CIdoclist", "oracle"}; opt.faults.only_path = only[r.below(5)]; }
	if (r.chance(0.3)) opt.faults.p_short_read = 0.5;
	run.sample = strf("index %d (v%d, %u documents):", id, c.version, c.n());
	for (auto &k : calls) run.sample += " " + text(k) + ";";
	run.sample = run.sample.substr(0, 700);

	PhaseResult pr = run.phase(opt, [&]()
		{
		JASS_anytime_api *e = new JASS_anytime_api;
		for (auto &k : calls) perform(e, k);
		delete e;
		});
	if (!run.fine(pr, "engine")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "the engine ended the program (status %d)", pr.status); return; }

	/* ------------------------------------------------ the model */
	bool loaded = false, raw = false;
	uint64_t k = 10, width = 0;
	size_t loads = 0, failed = 0, searched = 0, retried = 0;
	std::string before;
	In in(pr.out);
	for (size_t i = 0; i < calls.size(); i++)
		{
		const Call &call = calls[i];
		std::string ctx = strf("call %zu, %s: ", i + 1, text(call).c_str());
		int64_t rc = (int64_t)in.u();
		uint64_t fired = in.u(), docs = in.u(), topk = in.u();
		std::string name = in.str();
		uint64_t na = in.u();
		struct A { std::string id, query, list; uint64_t postings; };
		std::vector<A> got;
		for (uint64_t j = 0; j < na && !in.bad; j++) { A a; a.id = in.str(); a.query = in.str(); a.list = in.str(); a.postings = in.u(); got.push_back(a); }
		if (in.bad) { run.violate("wrong-end", "%sits outcome was not recorded", ctx.c_str()); return; }
		auto bad_rc = [&](const char *expected) { run.violate("wrong-error", "%sreturned %ld, it should be %s", ctx.c_str(), (long)rc, expected); };
		switch (call.what)
			{
			case LOAD:
				{
				bool good = call.path == "/sim/index" || call.path == "/sim/index/";
				loads++;
				if (loaded) { if (rc != JASS_ERROR_INDEX_ALREADY_LOADED) { bad_rc("JASS_ERROR_INDEX_ALREADY_LOADED"); return; } break; }
				if (call.arg != 1 && call.arg != 2) { if (rc != JASS_ERROR_BAD_INDEX_VERSION) { bad_rc("JASS_ERROR_BAD_INDEX_VERSION"); return; } break; }
				if (rc == JASS_ERROR_OK)
					{
					if (!good) { run.violate("bad-load-ok", "%sthe directory holds no usable index but the load succeeded", ctx.c_str()); return; }
					if (failed) retried++;
					loaded = true;
					}
				else
					{
					if (rc == JASS_ERROR_NO_INDEX || rc == JASS_ERROR_INDEX_ALREADY_LOADED) { bad_rc("success or a failure to load"); return; }
					if (good && fired == 0) { run.violate("good-load-failed", "%sreturned %ld on a good index with nothing failing", ctx.c_str(), (long)rc); return; }
					failed++;
					}
				break;
				}
			case TOPK:
				if (loaded) { if (rc != JASS_ERROR_INDEX_ALREADY_LOADED) { bad_rc("JASS_ERROR_INDEX_ALREADY_LOADED"); return; } }
				else if (call.arg > 1000) { if (rc != JASS_ERROR_TOO_LARGE) { bad_rc("JASS_ERROR_TOO_LARGE"); return; } }
				else { if (rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; } k = call.arg; }
				break;
			case WIDTH:
				if (loaded) { if (rc != JASS_ERROR_INDEX_ALREADY_LOADED) { bad_rc("JASS_ERROR_INDEX_ALREADY_LOADED"); return; } }
				else if (call.arg > 32) { if (rc != JASS_ERROR_TOO_LARGE) { bad_rc("JASS_ERROR_TOO_LARGE"); return; } }
				else { if (rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; } width = call.arg; }
				break;
			case PROPORTION:
				if (!loaded && rc != JASS_ERROR_NO_INDEX) { bad_rc("JASS_ERROR_NO_INDEX"); return; }
				if (loaded && rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; }
				break;
			case ORACLE:
				if (call.path != "/sim/oracle.missing" && fired == 0 && rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; }
				break;
			case GETTERS:
				if (!loaded && rc != JASS_ERROR_NO_INDEX) { bad_rc("JASS_ERROR_NO_INDEX"); return; }
				if (loaded && rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; }
				if (loaded && name.empty()) { run.violate("getters", "%sthe loaded index has no encoding scheme", ctx.c_str()); return; }
				break;
			case DESTROY: loaded = raw = false; k = 10; width = 0; break;
			case PARSER: raw = call.arg != 0; break;
			case SINGLE: case BATCH: case STRINGS:
				{
				if (!loaded)
					{
					if (call.what == BATCH && rc != JASS_ERROR_NO_INDEX) { bad_rc("JASS_ERROR_NO_INDEX"); return; }
					for (auto &a : got) if (!a.list.empty()) { run.violate("answer-without-index", "%sthere is no index but '%s' was answered", ctx.c_str(), a.id.c_str()); return; }
					break;
					}
				if (rc != JASS_ERROR_OK) { bad_rc("JASS_ERROR_OK"); return; }
				for (auto &text : call.queries)
					{
					if (text.empty()) { for (auto &a : got) if (!a.list.empty()) { run.violate("empty-query", "%san empty query has results", ctx.c_str()); return; } continue; }
					Query q = make_query(text, raw);
					const A *a = nullptr;
					for (auto &x : got) if (x.id == q.id) a = &x;
					if (!a) { run.violate("unanswered", "%squery '%s' was not answered", ctx.c_str(), q.id.c_str()); return; }
					Truth t = evaluate(c, q);
					std::vector<Line> v;
					std::string why;
					if (!parse_lines(a->list, v, why) || !well_formed(c, q, v, k, why)) { run.violate("form", "%squery '%s': %s", ctx.c_str(), text.substr(0, 80).c_str(), why.c_str()); return; }
					if (t.exact() ? !same_ranking(t.all, v, k, why) : !scaled_ranking(t, v, k, why)) { run.violate("ranking", "%squery '%s': %s", ctx.c_str(), text.substr(0, 80).c_str(), why.c_str()); return; }
					searched++;
					}
				break;
				}
			default: break;
			}
		if (docs != (loaded ? c.n() : 0)) { run.violate(loaded ? "wrong-count" : "half-loaded", "after %sthe engine reports %lu documents, %s", ctx.c_str(), (unsigned long)docs, loaded ? strf("there are %u", c.n()).c_str() : "no index is loaded"); return; }
		if (topk != k) { run.violate("setting-changed", "after %stop-k is %lu, it was set to %lu", ctx.c_str(), (unsigned long)topk, (unsigned long)k); return; }
		}
	run.nontrivial = failed > 0 || searched > 1;
	run.evals = calls.size();
	run.probe("loads", loads);
	run.probe("failed loads", failed);
	run.probe("good loads after a failed one", retried);
	run.probe("answers checked", searched);
	uint64_t sig = mix(id, opt.faults.hard.size());
	for (auto &x : calls) sig = mix(sig, x.what * 64 + (x.what == LOAD ? std::hash<std::string>()(x.path) & 63 : 0));
	run.state_sig = sig;
	}
Register r06("C06", c06);
}
