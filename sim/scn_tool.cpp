/*
	scn_tool.cpp -- the programs around the engine: C21 (JASSv1_to_human: what it prints is what the index holds),
	C22 (JASS_eval: everything in the judgement and run files is evaluated), C24 (trec_to_query and bin_to_human: all of the
	input is converted).
*/
#include "world.h"
#include <errno.h>
#include <string.h>
#include <math.h>
using namespace scn;
PROGRAM(jass_dump_main)
PROGRAM(jass_eval_main)
PROGRAM(topics_main)
PROGRAM(integers_main)

namespace
{
static std::vector<std::string> lines_of(const std::string &s, bool &ended)
	{
	std::vector<std::string> v;
	size_t i = 0;
	ended = true;
	while (i < s.size())
		{
		size_t e = s.find('\n', i);
		if (e == std::string::npos) { ended = false; v.push_back(s.substr(i)); break; }
		v.push_back(s.substr(i, e - i));
		i = e + 1;
		}
	return v;
	}
/* what is wrong with the text of an index, if anything */
static std::string wrong_text(const Collection &c, const std::string &text, bool atire, bool dictionary)
	{
	bool ended;
	std::vector<std::string> lines = lines_of(text, ended);
	if (!ended) return "the last line is cut off";
	size_t at = 0;
	auto heading = [&](const char *name) { std::string n = name; if (at + 2 >= lines.size() || lines[at] != "" || lines[at + 1] != n || lines[at + 2].find_first_not_of('-') != std::string::npos) return false; at += 3; return true; };
	if (!atire && !heading(dictionary ? "DICTIONARY" : "POSTINGS LISTS")) return "the heading is missing";
	std::set<std::string> seen;
	for (size_t t = 0; t < c.terms.size(); t++, at++)
		{
		if (at >= lines.size()) return strf("%zu of %zu terms are printed", t, c.terms.size());
		std::string term = lines[at], rest;
		if (!dictionary)
			{
			size_t gap = term.find(' ');
			if (gap == std::string::npos) return "the line '" + term.substr(0, 60) + "' has no postings";
			rest = term.substr(gap + 1);
			term.resize(gap);
			}
		auto want = c.terms.find(term);
		if (want == c.terms.end()) return "the term '" + term.substr(0, 60) + "' is printed, it was never indexed";
		if (!seen.insert(term).second) return "the term '" + term.substr(0, 60) + "' is printed twice";
		if (dictionary) continue;
		std::map<uint64_t, uint64_t> got;
		const char *p = rest.c_str();
		while (*p)
			{
			unsigned long doc, impact;
			int used = 0;
			if (sscanf(p, "<%lu,%lu>%n", &doc, &impact, &used) != 2 || used == 0) return strf("the term '%.40s' is followed by '%.40s'", term.c_str(), p);
			if (!got.emplace(doc, impact).second) return strf("the term '%.40s' is printed with document %lu twice", term.c_str(), doc);
			p += used;
			}
		for (auto &w : want->second)
			{
			auto g = got.find(w.doc);
			if (g == got.end()) return strf("the term '%.40s' is printed without document %u", term.c_str(), w.doc);
			if (g->second != w.impact) return strf("the term '%.40s' is printed with impact %lu in document %u, it is %u", term.c_str(), (unsigned long)g->second, w.doc, w.impact);
			}
		if (got.size() != want->second.size()) return strf("the term '%.40s' is printed with %zu documents, it is in %zu", term.c_str(), got.size(), want->second.size());
		}
	if (!atire && !dictionary)
		{
		if (!heading("PRIMARY KEY LIST")) return "the heading of the primary keys is missing";
		for (size_t i = 0; i < c.keys.size(); i++, at++)
			{
			if (at >= lines.size()) return strf("%zu of %zu primary keys are printed", i, c.keys.size());
			if (lines[at] != c.keys[i]) return strf("the primary key of document %zu is printed as '%.60s', it is '%.60s'", i, lines[at].c_str(), c.keys[i].c_str());
			}
		}
	if (at != lines.size()) return "there is more: '" + lines[at].substr(0, 60) + "'";
	return "";
	}
/* faults that a program reading and printing meets; true when there are any a user must be told of */
static void random_faults(Rng &r, FaultPlan &f, const std::vector<std::string> &inputs, const std::string &output, uint64_t size, std::string &what)
	{
	if (r.chance(0.5)) { f.p_short_read = r.unit(); f.p_short_write = r.unit() * 0.9; if (r.chance(0.3)) f.chunk = r.logu(1, 10000); }
	double u = r.unit();
	if (u < 0.45) return;
	Hard h;
	h.persistent = r.chance(0.4);
	if (u < 0.75)
		{
		static const Op ops[] = {OP_OPEN_R, OP_READ, OP_READ, OP_STAT, OP_MMAP};
		h.op = ops[r.below(5)];
		h.kind = F_ERR;
		h.arg = h.op == OP_OPEN_R ? EACCES : EIO;
		h.nth = (uint32_t)(r.chance(0.7) ? 0 : r.logu(1, 30));
		f.only_path = inputs[r.below(inputs.size())];
		what = "failing input " + f.only_path;
		}
	else
		{
		h.op = OP_WRITE;
		h.kind = r.chance(0.6) ? F_ENOSPC : F_ERR;
		h.arg = h.kind == F_ENOSPC ? r.below(1001) : EIO;
		uint64_t blocks = size / 4096 + 1;
		h.nth = (uint32_t)(r.chance(0.3) ? 0 : r.chance(0.4) ? blocks - 1 : r.below(blocks));
		f.only_path = output;
		f.p_short_write = 0;
		what = "failing output";
		}
	f.hard.push_back(h);
	}
static const std::string OUTPUT = "/sim/printed";

/* ------------------------------------------------------------------ C21 */
static void c21(Run &run)
	{
	Rng &r = run.rng;
	int id = (int)r.below(run.thorough ? 48 : 16);
	const Collection &c = collection(id);
	const Files &files = index_files(id);
	std::vector<std::string> argv = {"JASSv1_to_human"};
	bool atire = r.chance(0.3), dictionary = r.chance(0.2);
	if (c.version == 2) argv.push_back(r.chance(0.5) ? "-2" : "--index_v2");
	if (atire) argv.push_back(r.chance(0.5) ? "-A" : "--ATIRE");
	if (dictionary) argv.push_back(r.chance(0.5) ? "-d" : "--dictionary");
	PhaseOpt opt;
	opt.name = "JASSv1_to_human";
	opt.heap_seed = 1 + r.below(1000);
	opt.stdout_path = OUTPUT;
	opt.step_cap = 400000000;
	std::string what, gone;
	uint64_t postings = 0;
	for (auto &t : c.terms) postings += t.second.size();
	random_faults(r, opt.faults, {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"}, OUTPUT, (dictionary ? 0 : postings * 8) + c.terms.size() * 6 + (atire || dictionary ? 0 : c.n() * 6ul), what);
	if (what.empty() && r.chance(0.25))
		{
		size_t k = r.below(5), i = 0;
		for (auto &x : files) if (k == 4 || i++ == k) gone += x.first + " ";
		what = "without " + gone;
		}
	for (auto &x : files) if (gone.find(x.first) == std::string::npos) disk_put("/sim/cwd/" + x.first, x.second);
	run.sample = strf("index %d (v%d, codec %c, %u documents, %zu terms, %lu postings)%s%s %s", id, c.version, c.codec, c.n(), c.terms.size(), (unsigned long)postings, atire ? " -A" : "", dictionary ? " -d" : "", what.c_str());
	run.nontrivial = true;
	run.state_sig = mix((uint64_t)id * 4 + atire * 2 + dictionary, opt.faults.hard.empty() ? std::hash<std::string>()(gone) : opt.faults.hard[0].op * 64 + opt.faults.hard[0].nth + 1);
	PhaseResult pr = run.tool(opt, argv, program_jass_dump_main());
	if (!run.fine(pr, "JASSv1_to_human")) return;
	if (pr.end != END_EXIT) { run.violate("wrong-end", "the program did not end by itself"); return; }
	std::string text;
	disk_get(OUTPUT, text);
	if (pr.status != 0)
		{
		if (what.empty()) { run.violate("false-failure", "the program ended with status %d with nothing wrong: %s", pr.status, text.substr(0, 200).c_str()); return; }
		run.probe("failures reported");
		return;
		}
	if (!gone.empty()) { run.violate("false-success", "the program reports success %s", what.c_str()); return; }
	std::string why = wrong_text(c, text, atire, dictionary);
	if (!why.empty()) { run.violate(what.empty() ? "differs" : "false-success", "the program reports success%s%s, but %s", what.empty() ? "" : " with ", what.c_str(), why.c_str()); return; }
	run.probe("indexes printed");
	run.probe("postings compared", dictionary ? 0 : postings);
	}
Register r21("C21", c21);

/* ------------------------------------------------------------------ C22 */
struct Judged { std::map<std::string, std::map<std::string, int>> of; };					// query -> document -> relevant or not
struct Ranked { std::string tag, file; std::vector<std::pair<std::string, std::vector<std::string>>> lists; };
typedef std::map<std::string, double> Scores;
/* the scores of one result list, from the definitions of the measures (every judgement is 0 or 1) */
static Scores score(const std::map<std::string, int> &judged, const std::vector<std::string> &list, size_t depth, double p)
	{
	Scores m;
	size_t relevant = 0, hits = 0;
	for (auto &j : judged) relevant += j.second != 0;
	auto rel = [&](size_t i) { auto f = judged.find(list[i]); return f != judged.end() && f->second != 0; };
	auto upto = [&](size_t n) { size_t k = 0; for (size_t i = 0; i < list.size() && i < n; i++) k += rel(i); return (double)k; };
	size_t all = (size_t)-1;
	hits = (size_t)upto(all);
	m["Number of Queries"] = 1;
	m["Number Relevant"] = (double)relevant;
	m["Number of Results Returned"] = (double)list.size();
	m["Number Relevant Returned"] = (double)hits;
	double mrr = 0, map = 0, rbp = 0, seen = 0;
	for (size_t i = 0; i < list.size() && i < depth; i++)
		if (rel(i))
			{
			if (mrr == 0) mrr = 1.0 / (double)(i + 1);
			seen++;
			map += seen / (double)(i + 1);
			rbp += (1 - p) * pow(p, (double)i);
			}
	m["Mean Reciprocal Rank (MRR)"] = mrr;
	m["Mean Average Precision (MAP)"] = map / (double)relevant;
	m["Rank Biased Precision (RBP)"] = rbp;
	auto f1 = [](double a, double b) { return a + b == 0 ? 0 : 2 * a * b / (a + b); };
	double P = (double)hits / (double)list.size(), R = (double)hits / (double)relevant;
	m["Precision (P)"] = P;
	m["Recall (R)"] = R;
	m["F1 (F1)"] = f1(P, R);
	for (size_t n : {5, 10, 15, 20, 30, 100, 200, 500, 1000})
		{
		double pn = upto(n) / (double)n, rn = upto(n) / (double)std::min(relevant, n);
		m[strf("Precision at %zu (P@%zu)", n, n)] = pn;
		m[strf("Recall at %zu (R@%zu)", n, n)] = rn;
		m[strf("F1 at %zu (F1@%zu)", n, n)] = f1(pn, rn);
		}
	return m;
	}
static void c22(Run &run)
	{
	Rng &r = run.rng;
	size_t nq = r.logu(1, 12), docs = r.logu(3, 300);
	Judged gold;
	std::vector<std::string> names;
	for (size_t i = 0; i < nq; i++) names.push_back(r.chance(0.8) ? std::to_string(i * (size_t)r.range(1, 3) + 1 + i * 10) : strf("Q%zu-x", i));
	auto doc = [&](size_t i) { return i % 3 == 0 ? strf("D%zu", i) : i % 3 == 1 ? strf("AP8802%02zu-%04zu", i % 30, i) : strf("D%zu%s", i / 3, "x"); };
	std::vector<std::string> qrels;
	static const char *gaps[] = {" ", " ", "  ", " \t"};
	bool tidy = r.chance(0.6);
	auto gap = [&]() { return tidy ? " " : gaps[r.below(4)]; };
	for (auto &q : names)
		{
		double p = r.unit();
		for (size_t i = 0; i < docs; i++) if (r.chance(0.6)) gold.of[q][doc(i)] = r.chance(p);
		gold.of[q][doc(r.below(docs))] = 1;
		for (auto &j : gold.of[q]) qrels.push_back(q + gap() + "0" + gap() + j.first + gap() + (j.second ? "1" : "0"));
		}
	for (size_t i = qrels.size(); i > 1; i--) std::swap(qrels[i - 1], qrels[r.below(i)]);
	const char *eol = r.chance(0.2) ? "\r\n" : "\n";
	auto join = [&](const std::vector<std::string> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += v[i] + (i + 1 < v.size() || r.chance(0.8) ? (r.chance(0.02) ? std::string(eol) + eol : eol) : ""); return s; };
	std::vector<Ranked> runs;
	size_t nr = r.chance(0.6) ? 1 : (size_t)r.range(2, 4);
	Files files;
	files["/sim/in/qrels"] = join(qrels);
	std::string list_of_files;
	for (size_t k = 0; k < nr; k++)
		{
		Ranked x;
		x.tag = strf("run%zu", k);
		x.file = strf("/sim/in/run-%c", (char)('a' + (k * 7) % 5));
		std::vector<std::string> lines;
		std::vector<std::string> order = names;
		for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
		for (auto &q : order)
			{
			if (x.lists.size() && r.chance(0.1)) continue;
			std::vector<std::string> v;
			size_t depth = r.chance(0.2) ? docs : r.logu(1, docs);
			for (size_t i = 0; i < docs; i++) v.push_back(doc(i));
			for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
			std::set<std::string> once;
			std::vector<std::string> unique;
			for (auto &d : v) if (once.insert(d).second) unique.push_back(d);
			if (unique.size() > depth) unique.resize(depth);
			if (r.chance(0.3)) unique.insert(unique.begin() + (long)r.below(unique.size() + 1), "never-judged");
			for (size_t i = 0; i < unique.size(); i++) lines.push_back(q + gap() + "Q0" + gap() + unique[i] + gap() + std::to_string(i + 1) + gap() + std::to_string(1000 - i) + gap() + x.tag);
			x.lists.push_back({q, unique});
			}
		files[x.file] = join(lines);
		list_of_files += (k ? "," : "") + x.file;
		runs.push_back(x);
		}
	std::vector<std::string> argv = {"JASS_eval", r.chance(0.5) ? "-a" : "--assesmentfile", "/sim/in/qrels", r.chance(0.5) ? "-r" : "--runfile", list_of_files};
	size_t depth = (size_t)-1;
	bool each = r.chance(0.7), present = r.chance(0.3);
	double p = 0.95;
	if (r.chance(0.3)) { depth = r.logu(1, 40); argv.push_back("-n"); argv.push_back(std::to_string(depth)); }
	if (each) argv.push_back(r.chance(0.5) ? "-p" : "--perquery");
	if (present) argv.push_back("-Z");
	if (r.chance(0.3)) { p = (double)r.range(1, 9) / 10; argv.push_back("-P"); argv.push_back(strf("%g", p)); }
	PhaseOpt opt;
	opt.name = "JASS_eval";
	opt.heap_seed = 1 + r.below(1000);
	opt.stdout_path = OUTPUT;
	opt.step_cap = 400000000;
	std::string what, gone;
	std::vector<std::string> inputs = {"/sim/in/qrels"};
	for (auto &x : runs) inputs.push_back(x.file);
	size_t entries = 0;
	for (auto &x : runs) entries += 1 + (each ? x.lists.size() : 0);
	random_faults(r, opt.faults, inputs, OUTPUT, entries * 2000, what);
	if (what.empty() && r.chance(0.15)) { gone = inputs[r.below(inputs.size())]; what = "without " + gone; }
	for (auto &x : files) if (x.first != gone) disk_put(x.first, x.second);
	run.sample = strf("%zu queries, %zu judgements, %zu runs%s%s %s", nq, qrels.size(), nr, each ? " -p" : "", present ? " -Z" : "", what.c_str());
	run.nontrivial = nq > 1;
	run.state_sig = mix(mix(nq * 1000 + docs, nr * 8 + each * 4 + present), opt.faults.hard.empty() ? std::hash<std::string>()(gone) : opt.faults.hard[0].op * 64 + opt.faults.hard[0].nth + 1);
	PhaseResult pr = run.tool(opt, argv, program_jass_eval_main());
	if (!run.fine(pr, "JASS_eval")) return;
	if (pr.end != END_EXIT) { run.violate("wrong-end", "the program did not end by itself"); return; }
	std::string text;
	disk_get(OUTPUT, text);
	if (pr.status != 0)
		{
		if (what.empty()) { run.violate("false-failure", "the program ended with status %d with nothing wrong: %s", pr.status, text.substr(0, 200).c_str()); return; }
		run.probe("failures reported");
		return;
		}
	if (!gone.empty()) { run.violate("false-success", "the program reports success %s", what.c_str()); return; }
	/* what is printed: one block of names and values for each query (when asked for), and one for the averages */
	std::map<std::pair<std::string, std::string>, Scores> got;
	bool ended;
	std::pair<std::string, std::string> at;
	const char *cls = what.empty() ? "differs" : "false-success";
	bool open = false;
	std::string query;
	for (auto &line : lines_of(text, ended))
		{
		if (line.empty()) { open = false; continue; }
		size_t colon = line.find(": ");
		if (colon == std::string::npos) { run.violate(cls, "%s: the line '%s' is printed", what.c_str(), line.substr(0, 60).c_str()); return; }
		std::string name = line.substr(0, colon), value = line.substr(colon + 2);
		name.erase(name.find_last_not_of(' ') + 1);
		if (name == "QUERY ID") { query = value; continue; }
		if (name == "RUN ID")
			{
			while (!value.empty() && isspace((unsigned char)value.back())) value.pop_back();
			at = {value, query};
			if (got.count(at)) { run.violate(cls, "query '%s' of %s is printed twice", query.c_str(), value.c_str()); return; }
			got[at];
			open = true;
			continue;
			}
		if (!open) { run.violate(cls, "the line '%s' belongs to nothing", line.substr(0, 60).c_str()); return; }
		got[at][name] = atof(value.c_str());
		}
	if (!ended) { run.violate(cls, "the program reports success%s%s, but the last line printed is cut off", what.empty() ? "" : " with ", what.c_str()); return; }
	std::map<std::pair<std::string, std::string>, Scores> want;
	for (auto &x : runs)
		{
		Scores sum;
		for (auto &l : x.lists)
			{
			Scores m = score(gold.of[l.first], l.second, depth, p);
			for (auto &v : m) sum[v.first] += v.second;
			if (each) want[{x.tag, l.first}] = m;
			}
		double n = present ? (double)x.lists.size() : (double)nq;
		for (auto &v : sum) if (v.first.compare(0, 7, "Number ") != 0) v.second /= n;
		want[{x.tag, "Averages"}] = sum;
		}
	for (auto &w : want)
		{
		auto g = got.find(w.first);
		if (g == got.end()) { run.violate(cls, "query '%s' of %s is not printed", w.first.second.c_str(), w.first.first.c_str()); return; }
		for (auto &v : w.second)
			{
			auto f = g->second.find(v.first);
			if (f == g->second.end()) { run.violate(cls, "query '%s' of %s is printed without %s", w.first.second.c_str(), w.first.first.c_str(), v.first.c_str()); return; }
			if (!(fabs(f->second - v.second) <= 0.00011)) { run.violate(cls, "query '%s' of %s: %s is printed as %.4f, it is %.4f", w.first.second.c_str(), w.first.first.c_str(), v.first.c_str(), f->second, v.second); return; }
			}
		}
	if (got.size() != want.size()) { run.violate(cls, "%zu blocks are printed, there should be %zu", got.size(), want.size()); return; }
	run.probe("evaluations compared");
	run.probe("result lists compared", want.size());
	}
Register r22("C22", c22);

/* ------------------------------------------------------------------ C24 */
static std::string title_words(const std::string &body)			// what the topic reader makes of a title
	{
	std::string s;
	size_t i = 0;
	auto kind = [&](char ch) { return isalpha((unsigned char)ch) ? 1 : isdigit((unsigned char)ch) ? 2 : 0; };
	while (i < body.size())
		{
		int k = kind(body[i]);
		if (!k) { i++; continue; }
		if (!s.empty()) s += ' ';
		while (i < body.size() && kind(body[i]) == k) s += (char)tolower((unsigned char)body[i++]);
		}
	return s;
	}
static std::string some_words(Rng &r, size_t n)
	{
	std::string s;
	static const char *gap[] = {" ", " ", " ", "-", ", ", ".", "  ", "/", "'", "\n", " & ", "\t"};
	for (size_t i = 0; i < n; i++)
		{
		std::string w = word(r.logu(1, 50000), r.chance(0.15));
		if (r.chance(0.2)) w[0] = (char)toupper((unsigned char)w[0]);
		if (r.chance(0.02)) w = std::string(r.logu(20, 1000), 'w');
		s += (i ? gap[r.below(12)] : "") + w;
		}
	return s;
	}
static void c24(Run &run)
	{
	Rng &r = run.rng;
	bool topics = r.chance(0.5);
	std::string name = "/sim/in/source", source, head, what;
	std::vector<std::string> want;
	bool cut = false;
	size_t n = r.logu(1, topics ? 200 : 400);
	if (topics)
		{
		int style = (int)r.below(4);
		if (r.chance(0.5)) source += "\n";
		for (size_t i = 0; i < n; i++)
			{
			std::string number = std::to_string(r.range(0, 99999)), title = some_words(r, r.logu(1, 12)), junk = r.chance(0.5) ? some_words(r, r.logu(1, 30)) : "";
			if (!run.keep()) continue;
			if (style == 2) for (auto &ch : title) if (ch == '\n') ch = ' ';
			if (r.chance(0.03)) title = "";
			std::string label = r.chance(0.5) ? " Number: " : r.chance(0.5) ? " " : "";
			if (style == 0) source += "<top>\n<num>" + label + number + "\n\n<title>\n" + title + "\n\n<desc>\nwhat " + junk + "\n\n<narr>\n" + junk + "\n</top>\n\n";
			else if (style == 1) source += "<top>\n\n<num>" + label + number + "\n<title> " + title + "\n\n<desc> Description:\nof " + junk + "\n<narr> Narrative:" + junk + "\n\n</top>\n";
			else if (style == 3) source += "<topic number=\"" + number + "\" type=\"faceted\">\n<title>" + title + "</title>\n<desc>" + junk + (r.chance(0.5) ? "</desc>" : "\n<narr>no " + junk) + "\n</topic>\n" + (r.chance(0.5) ? "\n" : "");
			else source += "<top><num>" + label + number + "<title>" + title + "<desc>" + junk + "</top>" + (r.chance(0.5) ? "\n" : "");
			std::string words = title_words(title);
			want.push_back(number + (words.empty() ? "" : " " + words));
			}
		if (want.empty()) { source = "<top><num>1<title>one</top>"; want = {"1 one"}; }
		if (r.chance(0.3)) while (source.back() == '\n') source.pop_back();
		}
	else
		{
		for (size_t i = 0; i < n; i++)
			{
			uint32_t k = (uint32_t)(r.chance(0.05) ? 0 : r.chance(0.03) ? r.logu(1000, 20000) : r.logu(1, 60));
			int wide = (int)r.below(3);
			std::string line = strf("%u:", k), list((const char *)&k, 4);
			for (uint32_t j = 0; j < k; j++)
				{
				uint32_t d = wide == 0 ? (uint32_t)r.below(10) : wide == 1 ? (uint32_t)r.logu(1, 1000000) : (uint32_t)r.next();
				list.append((const char *)&d, 4);
				line += strf("%u ", d);
				}
			if (!run.keep()) continue;
			source += list;
			if (k == 0) line = "0::"; else line.pop_back();
			want.push_back(line);
			}
		head = "Using:" + name;
		if (!source.empty() && r.chance(0.2))
			{
			/* cut somewhere; between two lists is no damage that could be seen */
			size_t keep = r.chance(0.4) ? source.size() - 1 - r.below(std::min<size_t>(source.size(), 8)) : r.below(source.size()), at = 0, whole = 0;
			while (at < keep) { uint32_t k; if (keep - at < 4) break; memcpy(&k, &source[at], 4); if ((keep - at - 4) / 4 < k) break; at += 4 + 4ul * k; whole++; }
			cut = at != keep;
			source.resize(keep);
			want.resize(whole);
			if (cut) what = strf("an input cut off after %zu bytes", keep);
			}
		}
	PhaseOpt opt;
	opt.name = topics ? "trec_to_query" : "bin_to_human";
	opt.heap_seed = 1 + r.below(1000);
	opt.stdout_path = OUTPUT;
	opt.step_cap = 400000000;
	uint64_t size = 0;
	for (auto &w : want) size += w.size() + 2;
	std::string bad;
	random_faults(r, opt.faults, {name}, OUTPUT, size, bad);
	bool missing = bad.empty() && !cut && r.chance(0.1);
	if (missing) what = "a missing input"; else { disk_put(name, source); if (!bad.empty()) what += (what.empty() ? "" : ", ") + bad; }
	run.sample = strf("%s: %zu %s, %zu bytes %s", opt.name.c_str(), want.size(), topics ? "topics" : "lists", source.size(), what.c_str());
	run.nontrivial = true;
	run.state_sig = mix(std::hash<std::string>()(source), opt.faults.hard.empty() ? missing : opt.faults.hard[0].op * 64 + opt.faults.hard[0].nth + 2);
	PhaseResult pr = run.tool(opt, {opt.name, name}, topics ? program_topics_main() : program_integers_main());
	if (!run.fine(pr, opt.name.c_str())) return;
	if (pr.end != END_EXIT) { run.violate("wrong-end", "the program did not end by itself"); return; }
	std::string text;
	disk_get(OUTPUT, text);
	if (pr.status != 0)
		{
		if (what.empty() && !(topics && source.empty())) { run.violate("false-failure", "the program ended with status %d with nothing wrong: %s", pr.status, text.substr(0, 200).c_str()); return; }
		run.probe("failures reported");
		return;
		}
	const char *cls = what.empty() ? "differs" : "false-success";
	if (missing || cut) { run.violate(cls, "the program reports success with %s", what.c_str()); return; }
	bool ended;
	std::vector<std::string> lines = lines_of(text, ended);
	if (!ended) { run.violate(cls, "the program reports success, but the last line is cut off"); return; }
	if (!head.empty()) { if (lines.empty() || lines[0] != head) { run.violate(cls, "the heading is not printed"); return; } lines.erase(lines.begin()); }
	if (topics && !lines.empty() && lines.back().empty()) lines.pop_back();
	for (size_t i = 0; i < want.size(); i++)
		{
		if (i >= lines.size()) { run.violate(cls, "the program reports success, but %zu of %zu are printed", i, want.size()); return; }
		std::string l = lines[i];
		while (!l.empty() && l.back() == ' ') l.pop_back();
		if (l == "0:") l = "0::";
		if (l != want[i]) { run.violate(cls, "the program reports success, but number %zu is printed as '%.80s', it is '%.80s'", i, l.c_str(), want[i].c_str()); return; }
		}
	if (lines.size() != want.size()) { run.violate(cls, "the program reports success, but there is more: '%.60s'", lines[want.size()].c_str()); return; }
	run.probe(topics ? "topic files converted" : "dumps printed");
	run.probe("lines compared", want.size());
	run.evals = want.size();
	}
Register r24("C24", c24);
}
