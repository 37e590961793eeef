/*
	scn_program.cpp -- the command line programs as a whole: C18 (JASS_anytime: a query file in, a run out).
*/
#include "search.h"
#include <errno.h>
using namespace scn;
PROGRAM(jass_anytime_main)

namespace
{
struct Entry { std::string text; };			// as the engine is to see it
static std::string tokens_of(const std::string &body)			// what the topic reader makes of a title
	{
	std::string s;
	size_t i = 0;
	auto kind = [&](char ch) { return isalpha((unsigned char)ch) ? 1 : isdigit((unsigned char)ch) ? 2 : 0; };
	while (i < body.size())
		{
		int k = kind(body[i]);
		if (!k) { i++; continue; }
		if (!s.empty()) s += ' ';
		while (i < body.size() && kind(body[i]) == k) s += (char)tolower((unsigned char)body[i++]);
		}
	return s;
	}
static void add_arg(Rng &r, std::vector<std::string> &v, const char *brief, const char *full, const std::string &value)
	{
	std::string flag = r.chance(0.3) ? full : brief;
	if (r.chance(0.5)) v.push_back(flag + value);
	else { v.push_back(flag); v.push_back(value); }
	}
static void c18(Run &run)
	{
	Rng &r = run.rng;
	Settings s;
	s.coll = (int)r.below(run.thorough ? 48 : 12);
	const Collection &c = collection(s.coll);
	uint64_t variant = r.below(run.thorough ? 1000 : 4);
	Rng v(mix(0xC18 + (uint64_t)s.coll, variant));
	static const size_t ks[] = {1, 2, 5, 10, 10, 10, 50, 1000};
	static const int ws[] = {0, 0, 0, 1, 3, 7, 10};
	s.k = ks[v.below(8)];
	s.width = ws[v.below(7)];
	s.raw = v.chance(0.25);
	std::vector<std::string> argv = {"JASS_anytime"};
	if (c.version == 2) argv.push_back(r.chance(0.5) ? "-2" : "--v2_index");
	if (s.raw) argv.push_back("-a");
	if (s.k != 10 || r.chance(0.3)) add_arg(r, argv, "-k", "--top-k", std::to_string(s.k));
	if (s.width) add_arg(r, argv, "-w", "--width", std::to_string(s.width));
	/* limits: the later kinds override the earlier ones */
	Limits l;
	double u = v.unit();
	if (u < 0.2) { l.kind = 1; l.count = v.logu(1, c.n() * 5 + 5); }
	else if (u < 0.35) { l.kind = 2; static const double ps[] = {1, 5, 25, 50, 150, 300}; l.percent = ps[v.below(6)]; }
	else if (u < 0.5) { l.kind = 3; static const double ps[] = {5, 10, 33, 50, 75, 99}; l.percent = ps[v.below(6)]; }
	if (v.chance(0.3)) l.oracle = true;
	if (v.chance(l.oracle ? 0.4 : 0.1)) { l.min_kind = 1 + (int)v.below(2); l.min_count = v.logu(1, c.n() * 4 + 4); l.min_percent = (double)v.range(1, 200); }
	if (l.kind == 1 || (l.kind > 1 && r.chance(0.3))) add_arg(r, argv, "-R", "--RHO", std::to_string(l.kind == 1 ? l.count : 1 + r.below(50)));
	if (l.kind == 2 || (l.kind > 2 && r.chance(0.3))) add_arg(r, argv, "-r", "--rho", strf("%g", l.kind == 2 ? l.percent : (double)r.range(1, 60)));
	if (l.kind == 3) add_arg(r, argv, "-ℝ", "--Relative_RHO", strf("%g", l.percent));
	if (l.min_kind == 1) add_arg(r, argv, "-⌊R⌋", "--RHO_min", std::to_string(l.min_count));
	if (l.min_kind == 2) add_arg(r, argv, "-⌊r⌋", "--rho_min", strf("%g", l.min_percent));
	int threads = r.chance(0.2) ? 1 : (int)r.range(2, r.chance(0.2) ? 8 : 4);
	if (threads != 1 || r.chance(0.5)) add_arg(r, argv, "-t", "--threads", std::to_string(threads));
	if (l.oracle) add_arg(r, argv, "-Q", "--queryrsvfile", "/sim/scores");
	add_arg(r, argv, "-q", "--queryfile", "/sim/queries");
	/* the query file */
	bool topics = r.chance(0.4);
	int style = (int)r.below(4);			// of topics: Robust, Robust with the text on the tag's line, ClueWeb, all on one line
	size_t n = r.logu(1, 24);
	std::string file;
	std::vector<std::string> texts;
	std::set<std::string> ids;
	if (topics && r.chance(0.5)) file += "\n";
	for (size_t i = 0; i < n; i++)
		{
		std::string body = query_body(c, (int)r.below(16));
		if (!run.keep()) continue;
		if (topics)
			{
			std::string shown = decorate(r, body, false), id = std::to_string(i == 0 ? r.range(1, 900) : r.range(1, 99999));
			std::string words = tokens_of(shown);
			if (words.empty()) continue;
			Query q = make_query(id + " " + words, s.raw);
			if (!ids.insert(id).second) continue;
			std::string junk = r.chance(0.5) ? " about 1990 and 123456 " + c.vocab[r.below(c.vocab.size())] : "";
			std::string label = r.chance(0.5) ? " Number: " : r.chance(0.5) ? " " : "";
			if (style == 0) file += "<top>\n<num>" + label + id + "\n\n<title>\n" + shown + "\n\n<desc>\nwhat" + junk + "\n\n<narr>\n" + junk + "\n</top>\n\n";
			else if (style == 1) file += "<top>\n\n<num>" + label + id + "\n<title> " + shown + "\n\n<desc> Description:\nof" + junk + "\n<narr> Narrative:" + junk + "\n\n</top>\n";
			else if (style == 2) file += "  <topic number=\"" + id + "\" type=\"faceted\">\n    <query>" + shown + "</query>\n    <description>" + junk + " of</description>\n    <subtopic number=\"1\" type=\"inf\">" + junk + "</subtopic>\n  </topic>\n";
			else file += "<top><num>" + label + id + "<title>" + shown + "<desc>" + junk + "</top>" + (r.chance(0.5) ? "\n" : "");
			texts.push_back(id + " " + words);
			}
		else
			{
			std::string id = i == 0 || texts.empty() || r.chance(0.7) ? std::to_string(r.range(1, 99999)) : strf("Q-%zu", i);
			static const char *seps[] = {" ", "\t", ":", "  ", " : "};
			std::string text = id + seps[r.below(5)] + decorate(r, body, s.raw);
			size_t e = text.find_last_not_of(" \t\f\v\n\r");
			std::string shown = text;
			text.erase(e + 1);
			std::string qid, qbody;
			split_query(text, qid, qbody);
			if (!ids.insert(qid).second) continue;
			static const char *ends[] = {"\n", "\n", "\n", "\r\n", " \n"};
			file += shown + ends[r.below(5)];
			if (r.chance(0.08)) file += r.chance(0.5) ? "\n" : "  \n\r\n";
			texts.push_back(text);
			}
		}
	if (texts.empty()) { topics = false; texts.push_back("1 " + c.vocab[0]); file = texts[0] + "\n"; }
	if (r.chance(0.3) && !topics) while (!file.empty() && isspace((unsigned char)file.back())) file.pop_back();
	if (l.oracle)
		{
		for (auto &t : texts)
			{
			Query q = make_query(t, s.raw);
			if (q.id.empty()) continue;
			Rng b(mix(0xBEEF + (uint64_t)s.coll, std::hash<std::string>()(q.body) ^ variant));
			Truth truth = evaluate(c, q);
			uint32_t kth = truth.all.size() >= s.k ? truth.all[s.k - 1].score : 0;
			double w = b.unit();
			if (b.chance(0.9)) l.bounds[q.id] = w < 0.2 ? 0 : w < 0.5 ? kth : w < 0.7 ? (uint32_t)b.range(1, kth + 1) : (uint32_t)b.logu(1, 300);
			}
		l.bounds["unrelated"] = 3;
		}
	/* what must come out */
	std::map<std::string, std::string> want;
	std::map<std::string, uint64_t> postings;
	std::map<std::string, std::string> bodies;
	for (auto &t : texts)
		{
		std::string id, body;
		split_query(t, id, body);
		Solo a = solo(s, l, t, id);
		if (!a.error.empty()) { run.violate("alone", "query '%s' alone on a fresh engine: %s", t.substr(0, 80).c_str(), a.error.c_str()); return; }
		want[id] = a.list;
		postings[id] = a.postings;
		bodies[id] = body;
		}
	/* what goes wrong */
	PhaseOpt opt;
	opt.name = "JASS_anytime";
	opt.sched = run.random_sched(threads);
	opt.heap_seed = 1 + r.below(1000);
	if (r.chance(0.4)) { opt.faults.p_short_read = r.unit(); opt.faults.p_short_write = r.unit() * 0.9; }
	if (r.chance(0.2)) opt.faults.p_clock_jump = r.unit() * 0.5;
	bool broken = false, wrong = false;
	std::string what;
	bool no_index = false, no_queries = false, no_scores = false;
	if (r.chance(0.45))
		{
		double k = r.unit();
		broken = true;
		if (threads > 1 && r.chance(0.08))
			{
			opt.faults.hard.push_back({OP_THREAD, (uint32_t)r.below((uint64_t)threads), F_ERR, EAGAIN, r.chance(0.3)});
			what = "a thread that cannot be started";
			}
		else if (k < 0.5)
			{
			Hard h;
			double w = r.unit();
			h.op = w < 0.6 ? OP_WRITE : w < 0.8 ? OP_CLOSE : OP_OPEN_W;
			h.nth = (uint32_t)r.below(h.op == OP_WRITE ? 4 : 3);
			h.kind = h.op == OP_WRITE && r.chance(0.6) ? F_ENOSPC : F_ERR;
			h.arg = h.kind == F_ENOSPC ? r.below(1001) : EIO;
			h.persistent = r.chance(0.3);
			opt.faults.hard.push_back(h);
			if (r.chance(0.6)) opt.faults.only_path = r.chance(0.7) ? "ranking.txt" : "JASSv2Stats.txt";
			what = "failing output";
			}
		else if (k < 0.6)
			{
			size_t size = 0;
			for (auto &x : want) size += x.second.size();
			opt.faults.capacity = 1 + r.below(size + 200 + 100 * want.size());
			for (auto &x : index_files(s.coll)) opt.faults.capacity += x.second.size();
			opt.faults.capacity += file.size() + 10;
			what = "a full disk";
			}
		else if (k < 0.85)
			{
			Hard h;
			static const Op ops[] = {OP_OPEN_R, OP_READ, OP_STAT, OP_MMAP};
			h.op = ops[r.below(4)];
			h.nth = (uint32_t)r.below(6);
			h.kind = F_ERR;
			h.arg = h.op == OP_OPEN_R ? EACCES : EIO;
			h.persistent = r.chance(0.3);
			opt.faults.hard.push_back(h);
			if (r.chance(0.5)) { static const char *only[] = {"queries", "queries", "scores", "CI"}; opt.faults.only_path = only[r.below(4)]; if (opt.faults.only_path != "CI") h.nth = 0; opt.faults.hard[0].nth = h.nth; }
			what = "failing input";
			}
		else
			{
			wrong = true;
			switch (r.below(6))
				{
				case 0: no_index = true; what = "no index"; break;
				case 1: no_queries = true; what = "no query file"; break;
				case 2: if (l.oracle) { no_scores = true; what = "no score file"; } else { no_queries = true; what = "no query file"; } break;
				case 3: argv.push_back("-k"); argv.push_back("1001"); what = "k too large"; break;
				case 4: argv.push_back("--nonsense"); what = "an unknown option"; break;
				default: argv.push_back("-t0"); what = "no threads"; break;
				}
			}
		}
	bool missing = no_index && r.chance(0.6);
	size_t skip = r.below(index_files(s.coll).size()), at = 0;
	for (auto &x : index_files(s.coll)) if (!no_index || (missing && at++ != skip)) disk_put("/sim/cwd/" + x.first, x.second);
	if (!no_queries) disk_put("/sim/queries", file);
	if (l.oracle && !no_scores) disk_put("/sim/scores", oracle_file(l));
	if (r.chance(0.3)) { disk_put("/sim/cwd/ranking.txt", std::string(r.logu(1, 20000), 'z')); disk_put("/sim/cwd/JASSv2Stats.txt", "old\n"); }
	run.sample = strf("index %d (v%d, %u documents), %zu queries as %s, %d threads, k=%zu%s%s%s", s.coll, c.version, c.n(), texts.size(), topics ? "topics" : "lines", threads, s.k, s.raw ? ", raw" : "", l.oracle ? ", oracle" : "", what.empty() ? "" : (", " + what).c_str());
	run.nontrivial = texts.size() > 1 && threads > 1;
	run.state_sig = mix(mix(mix((uint64_t)s.coll, variant), texts.size() * 16 + (uint64_t)threads), opt.faults.hard.empty() ? wrong : opt.faults.hard[0].op * 8 + opt.faults.hard[0].nth + 2);
	run.evals = texts.size();
	uint64_t before = faults_fired();
	PhaseResult pr = run.tool(opt, argv, program_jass_anytime_main());
	bool no_thread = what == "a thread that cannot be started" && faults_fired() != before;
	if (!run.fine(pr, "JASS_anytime", no_thread)) return;
	if (no_thread && pr.end == END_SIGNAL) { run.probe("failures reported"); return; }
	if (pr.end != END_EXIT) { run.violate("wrong-end", "the program did not end by itself"); return; }
	if (pr.status != 0)
		{
		if (!broken) { run.violate("false-failure", "the program ended with status %d with nothing wrong: %s", pr.status, pr.std_out.substr(0, 200).c_str()); return; }
		run.probe("failures reported");
		return;
		}
	if (wrong) { run.violate("false-success", "the program reports success with %s", what.c_str()); return; }
	/* success: the run must be complete */
	std::string got, why;
	if (!disk_get("/sim/cwd/ranking.txt", got)) { run.violate("no-run", "the program reports success but writes no run"); return; }
	std::map<std::string, std::string> lists;
	size_t i = 0;
	std::string last;
	bool first = true;
	while (i < got.size())
		{
		size_t e = got.find('\n', i);
		if (e == std::string::npos) { run.violate("partial", "the program reports success but the last line of the run is cut off"); return; }
		std::string line = got.substr(i, e + 1 - i);
		i = e + 1;
		size_t q = line.find(" Q0 ");
		if (q == std::string::npos) { run.violate("partial", "the run has the line '%s'", line.substr(0, 80).c_str()); return; }
		std::string id = line.substr(0, q);
		if ((first || id != last) && lists.count(id)) { run.violate("twice", "the results of query '%s' are in the run twice", id.c_str()); return; }
		lists[id] += line;
		last = id;
		first = false;
		}
	for (auto &x : lists) if (!want.count(x.first)) { run.violate("invented", "the run has results for query '%s', which is not in the query file", x.first.c_str()); return; }
	for (auto &x : want)
		if (lists[x.first] != x.second)
			{
			size_t d = 0, line = 1;
			const std::string &a = lists[x.first];
			while (d < a.size() && d < x.second.size() && a[d] == x.second[d]) if (a[d++] == '\n') line++;
			run.violate(a.empty() ? "lost" : "differs", "query '%s': the run has %ld results, alone it has %ld; they differ from rank %zu on", x.first.c_str(), (long)std::count(a.begin(), a.end(), '\n'), (long)std::count(x.second.begin(), x.second.end(), '\n'), line);
			return;
			}
	/* the statistics file names every query once, with its postings */
	if (!disk_get("/sim/cwd/JASSv2Stats.txt", got)) { run.violate("no-statistics", "the program reports success but writes no statistics"); return; }
	std::map<std::string, int> times;
	for (size_t p = 0; (p = got.find("<id>", p)) != std::string::npos;)
		{
		p += 4;
		size_t e = got.find("</id>", p), a = got.find("<postings>", p), b = got.find("</postings>", p);
		if (e == std::string::npos || a == std::string::npos || b == std::string::npos) { run.violate("statistics", "the program reports success but the statistics are cut off"); return; }
		std::string id = got.substr(p, e - p), count = got.substr(a + 10, b - a - 10);
		if (!want.count(id) || times[id]++) { run.violate("statistics", "query '%s' is in the statistics %s", id.c_str(), want.count(id) ? "twice" : "but not in the query file"); return; }
		if (count != std::to_string(postings[id])) { run.violate("statistics", "query '%s': %s postings are reported, alone it is %lu", id.c_str(), count.c_str(), (unsigned long)postings[id]); return; }
		}
	if (times.size() != want.size()) { run.violate("statistics", "the statistics name %zu of %zu queries", times.size(), want.size()); return; }
	if (got.find("</JASSv2stats>\n") == std::string::npos) { run.violate("statistics", "the program reports success but the statistics are cut off"); return; }
	run.probe("complete runs");
	run.probe("queries answered", want.size());
	}
Register r18("C18", c18);
}
