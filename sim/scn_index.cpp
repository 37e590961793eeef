/*
	scn_index.cpp -- building indexes: C07 (what was indexed is what loads), C08 (a failed write is reported), C09 (killed
	while writing), C10 (same input, same output), C20 (an index in the exchange format becomes the same index).

	Three ways of building: the serialisers alone, the index manager with its quantiser and serialisers, and the JASS_index
	program on TREC, FASTA and uniCOIL input.  C20 runs ciff_to_JASS.
*/
#include "world.h"
#include <errno.h>
#include <math.h>
#include <zlib.h>
#include "JASS_anytime_api.h"
#include "serialise_ci.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "quantize_none.h"
#include "index_manager_sequential.h"
using namespace scn;
PROGRAM(jass_index_main)
PROGRAM(ciff_to_jass_main)

namespace
{
static const std::string CWD = "/sim/cwd/";
static const char *index_file[] = {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"};

/* ------------------------------------------------------------------ collections */
static std::string random_term(Rng &r)
	{
	double p = r.unit();
	if (p < 0.6) return word(r.below(100000), r.chance(0.2));
	if (p < 0.9) return word(r.below(40), false);
	std::string s;
	size_t n = r.chance(0.1) ? r.logu(100, 1024) : r.logu(1, 30);
	for (size_t i = 0; i < n; i++) s += (char)r.range(1, 255);
	return s;
	}
static Collection random_collection(Rng &r, bool thorough, double p_huge = 0)
	{
	Collection c;
	static const char codecs[] = {'G', 's', 'q', 'D', 'g'};
	c.version = (int)r.range(1, 2);
	c.codec = codecs[r.below(5)];
	static const int aligns[] = {1, 4, 8, 16};
	c.align = aligns[r.below(4)];
	if (c.codec == 'q') { c.version = 1; c.align = 16; }
	uint32_t n = (uint32_t)(r.chance(0.1) ? r.logu(3000, thorough ? 70000 : 20000) : r.logu(1, 3000));
	bool huge = p_huge > 0 && r.chance(p_huge);
	if (huge) n = (uint32_t)r.logu(100000, thorough ? 5000000 : 1500000);			// document numbers, and gaps between them, of more than 16 bits
	int style = huge ? 0 : (int)r.below(3);
	for (uint32_t i = 0; i < n; i++)
		c.keys.push_back(style == 0 ? strf("D%u", i) : style == 1 ? strf("WSJ%04u-%u", i % 1000, i) : strf("k%lx-%u%s", (unsigned long)r.next(), i, std::string(r.below(20), 'x').c_str()));
	if (r.chance(0.03)) c.keys[r.below(n)] = std::string(r.range(9, 18) << 20, 'K') + "!";		// larger than the output buffer
	size_t t = huge ? r.range(3, 12) : r.chance(0.1) ? r.logu(60, 600) : r.logu(1, 60);
	uint64_t budget = thorough ? 400000 : 150000;
	for (size_t k = 0; k < t && budget; k++)
		{
		std::string w = random_term(r);
		if (c.terms.count(w)) continue;
		uint32_t top = (uint32_t)(r.chance(0.05) ? 1024 : r.logu(1, 1024));
		int shape = (int)r.below(5);
		uint32_t df = (uint32_t)(shape == 0 && !huge ? n : r.logu(1, n));
		int flat = (int)r.below(4);
		std::vector<Posting> v;
		auto impact = [&]() { return flat == 0 ? top : flat == 1 ? (uint32_t)r.range(1, top) : flat == 2 ? (uint32_t)r.logu(1, top) : (r.chance(0.9) ? 1u : top); };
		if (shape == 1) { uint32_t from = (uint32_t)r.below(n - df + 1); for (uint32_t d = from; d < from + df; d++) v.push_back({d, impact()}); }			// a run
		else if (shape == 2) for (uint32_t d = 0; d < n; d += (d == 0 ? n - 1 : n)) { v.push_back({d, impact()}); if (n == 1) break; }							// the first and the last
		else if (huge && shape == 3) for (uint64_t d = r.logu(1, n) - 1; d < n; d += r.logu(1, n)) v.push_back({(uint32_t)d, impact()});			// gaps of every size
		else for (uint32_t d = 0; d < n; d++) if (r.below(n) < df) v.push_back({d, impact()});
		if (v.empty()) v.push_back({(uint32_t)r.below(n), top});
		budget -= std::min<uint64_t>(budget, v.size());
		c.terms[w] = v;
		}
	for (auto &x : c.terms) c.vocab.push_back(x.first);
	return c;
	}
/* more than 16 bits of documents, postings of a term, or terms */
static void enlarge(Rng &r, Collection &c)
	{
	uint32_t n = (uint32_t)r.range(65500, 100000);
	if (r.chance(0.5))
		{
		while (c.keys.size() < n) c.keys.push_back(strf("B%zu", c.keys.size()));
		uint32_t impact = (uint32_t)r.logu(1, 1023);
		auto &v = c.terms["all"];
		v.clear();
		for (uint32_t d = 0; d < c.n(); d++) v.push_back({d, r.chance(0.0001) ? impact + 1 : impact});
		}
	else for (uint32_t i = 0; i < n; i++) c.terms[strf("t%u", i)] = {{(uint32_t)r.below(c.n()), (uint32_t)r.logu(1, 1024)}};
	c.vocab.clear();
	for (auto &x : c.terms) c.vocab.push_back(x.first);
	}
static std::string text(const Collection &c)
	{
	uint64_t p = 0;
	for (auto &x : c.terms) p += x.second.size();
	return strf("%u documents, %zu terms, %lu postings, version %d, codec %c, alignment %d", c.n(), c.terms.size(), (unsigned long)p, c.version, c.codec, c.align);
	}

/* ------------------------------------------------------------------ building, inside a phase */
static void feed(JASS::index_manager::delegate &s, const Collection &c)
	{
	JASS::allocator_pool memory;
	JASS::index_postings dummy(memory);
	std::vector<uint32_t> ids;
	std::vector<JASS::index_postings_impact::impact_type> tfs;
	for (auto &t : c.terms)
		{
		{
		Quiet q;
		ids.clear();
		tfs.clear();
		for (auto &p : t.second) { ids.push_back(p.doc + 1); tfs.push_back((JASS::index_postings_impact::impact_type)p.impact); }
		}
		s(JASS::slice((void *)t.first.c_str(), t.first.size()), dummy, (uint32_t)ids.size(), ids.data(), tfs.data());
		}
	s(0, JASS::slice("-"));
	for (size_t i = 0; i < c.keys.size(); i++) s(i + 1, JASS::slice((void *)c.keys[i].c_str(), c.keys[i].size()));
	s.finish();
	}
typedef std::unique_ptr<JASS::index_manager::delegate> Exporter;
/* kinds: 1, 2 the index versions; c compiled, i integers, f forward */
static Exporter exporter(char kind, const Collection &c)
	{
	auto codec = (JASS::serialise_jass_v1::jass_v1_codex)c.codec;
	switch (kind)
		{
		case '1': return std::make_unique<JASS::serialise_jass_v1>(c.n(), codec, (int8_t)c.align);
		case '2': return std::make_unique<JASS::serialise_jass_v2>(c.n(), codec, (int8_t)c.align);
		case 'c': return std::make_unique<JASS::serialise_ci>(c.n());
		case 'i': return std::make_unique<JASS::serialise_integers>(c.n());
		default: return std::make_unique<JASS::serialise_forward_index>(c.n());
		}
	}
static void build_direct(const Collection &c, const std::string &kinds)
	{
	std::vector<Exporter> all;
	for (char k : kinds) all.push_back(exporter(k, c));
	for (auto &e : all) feed(*e, c);
	}
/* the index manager sees the documents one after another, as the indexer does */
typedef std::vector<std::vector<std::pair<std::string, uint32_t>>> Documents;		// per document: term, count (may repeat)
static void build_managed(const Collection &c, const Documents &docs, const std::string &kinds)
	{
	JASS::index_manager_sequential index;
	JASS::parser::token token;
	for (size_t d = 0; d < docs.size(); d++)
		{
		index.begin_document(JASS::slice((void *)c.keys[d].c_str(), c.keys[d].size()));
		for (auto &t : docs[d])
			{
			token.lexeme = JASS::slice((void *)t.first.c_str(), t.first.size());
			token.type = JASS::parser::token::alpha;
			token.count = t.second;
			index.term(token);
			}
		index.end_document((JASS::compress_integer::integer)docs[d].size());
		}
	std::shared_ptr<JASS::ranking_function_atire_bm25> ranker(new JASS::ranking_function_atire_bm25(0.9, 0.4, index.get_document_length_vector()));
	JASS::quantize_none<JASS::ranking_function_atire_bm25> quantizer(docs.size(), ranker);
	std::vector<Exporter> all;
	for (char k : kinds) all.push_back(exporter(k, c));
	quantizer.serialise_index(index, all);
	}
static Documents documents_of(Rng &r, const Collection &c)
	{
	Documents docs(c.n());
	for (auto &t : c.terms)
		for (auto &p : t.second)
			if (r.chance(0.8) || p.impact < 2) docs[p.doc].push_back({t.first, p.impact});
			else { uint32_t first = (uint32_t)r.range(1, p.impact - 1); docs[p.doc].push_back({t.first, first}); docs[p.doc].push_back({t.first, p.impact - first}); }
	for (auto &d : docs) for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[r.below(i)]);
	return docs;
	}

/* ------------------------------------------------------------------ loading and comparing */
static void dump(JASS::deserialised_jass_v1 &index, const Collection &c, bool exact_impacts)
	{
	if (index.document_count() != c.n()) violate("documents", "the index has %zu documents, %u were indexed", index.document_count(), c.n());
	auto &keys = index.primary_keys();
	if (keys.size() != c.n()) violate("documents", "the index has %zu primary keys, %u documents were indexed", keys.size(), c.n());
	for (size_t i = 0; i < keys.size(); i++)
		if (keys[i] != c.keys[i]) violate("primary-key", "document %zu has the primary key '%.60s', it was indexed as '%.60s'", i + 1, keys[i].c_str(), c.keys[i].c_str());
	std::string name;
	int32_t d;
	auto codex = index.codex(name, d);
	std::set<std::string> seen;
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(2000);
	uint32_t *buffer = nullptr;
	if (posix_memalign((void **)&buffer, 64, (c.n() + 4096) * sizeof(uint32_t))) violate("simulator", "no memory");
	const uint8_t *base = index.postings();
	for (auto it = index.begin(); it != index.end(); ++it)
		{
		std::string term((const char *)it->term.address(), it->term.size());
		auto want = c.terms.find(term);
		if (want == c.terms.end()) violate("terms", "the index has the term '%.60s', it was never indexed", term.c_str());
		if (!seen.insert(term).second) violate("terms", "the term '%.60s' is in the index twice", term.c_str());
		if (it->impacts > 1025 || it->impacts == 0) violate("postings", "the term '%.60s' has %lu segments", term.c_str(), (unsigned long)it->impacts);
		uint32_t smallest, largest, df = 0;
		size_t n = index.get_segment_list(segments.data(), *it, 1, smallest, largest, df);
		std::map<uint32_t, uint32_t> got;
		uint32_t previous = 1u << 30, low = 1u << 30, high = 0;
		uint64_t total = 0;
		bool descending = true, ascending = true;
		for (size_t s = 0; s < n; s++)
			{
			auto &g = segments[s];
			low = std::min(low, g.impact);
			high = std::max(high, g.impact);
			if (s) { descending = descending && g.impact < previous; ascending = ascending && g.impact > previous; }
			previous = g.impact;
			total += g.segment_frequency;
			if (g.segment_frequency == 0 || g.segment_frequency > c.n()) violate("postings", "a segment of the term '%.60s' has %u documents of %u", term.c_str(), g.segment_frequency, c.n());
			codex->decode(buffer, g.segment_frequency, base + g.offset, g.end - g.offset);
			uint32_t doc = 0;
			for (uint32_t i = 0; i < g.segment_frequency; i++)
				{
				doc += buffer[i];
				if (doc >= c.n()) violate("postings", "the term '%.60s' occurs in document %u of %u", term.c_str(), doc, c.n());
				if (got.count(doc)) violate("postings", "the term '%.60s' has document %u twice", term.c_str(), doc);
				got[doc] = g.impact;
				}
			}
		if (!descending && !ascending) violate("order", "the segments of the term '%.60s' are not in order of impact", term.c_str());
		if (smallest != low || largest != high || df != total) violate("summary", "the term '%.60s' is reported with impacts %u-%u in %u documents, its segments have %u-%u in %lu", term.c_str(), smallest, largest, df, low, high, (unsigned long)total);
		if (got.size() != want->second.size()) violate("postings", "the term '%.60s' occurs in %zu documents, it was indexed in %zu", term.c_str(), got.size(), want->second.size());
		for (auto &p : want->second)
			{
			auto g = got.find(p.doc);
			if (g == got.end()) violate("postings", "the term '%.60s' is not in document %u, where it was indexed", term.c_str(), p.doc);
			uint32_t diff = g->second > p.impact ? g->second - p.impact : p.impact - g->second;
			if (diff > (exact_impacts ? 0 : 1)) violate("impact", "the term '%.60s' has impact %u in document %u, it was indexed with %u", term.c_str(), g->second, p.doc, p.impact);
			}
		/* and it is found by looking for it */
		JASS::deserialised_jass_v1::metadata found;
		if (!index.postings_details(found, JASS::query_term(it->term))) violate("lookup", "looking for the term '%.60s' does not find it", term.c_str());
		if (found.offset != it->offset || found.impacts != it->impacts) violate("lookup", "looking for the term '%.60s' finds another one", term.c_str());
		}
	if (seen.size() != c.terms.size()) violate("terms", "the index has %zu terms, %zu were indexed", seen.size(), c.terms.size());
	/* the neighbours of indexed terms, which are not indexed themselves, are not found */
	size_t every = c.terms.size() / 60 + 1, nth = 0;
	for (auto &t : c.terms)
		{
		if (nth++ % every || t.first.empty() || t.first.size() > 500) continue;
		std::string last = t.first;
		last.back() ^= 1;
		for (const std::string &w : {t.first.substr(0, t.first.size() - 1), t.first.substr(0, t.first.size() / 2), t.first + "\x01", t.first + t.first, last, t.first.substr(1)})
			{
			JASS::deserialised_jass_v1::metadata found;
			if (w.empty() || w.find('\0') != std::string::npos || c.terms.count(w)) continue;
			if (index.postings_details(found, JASS::query_term(JASS::slice((void *)w.c_str(), w.size())))) violate("lookup", "looking for '%.60s', which was never indexed ('%.60s' was), finds a term", w.c_str(), t.first.c_str());
			}
		}
	for (int i = 0; i < 8; i++)
		{
		std::string w = i < 4 ? strf("zq%dzq", i) : (c.vocab[(size_t)i % c.vocab.size()].substr(0, 500) + "\x01\x02");
		JASS::deserialised_jass_v1::metadata found;
		if (!c.terms.count(w) && index.postings_details(found, JASS::query_term(JASS::slice((void *)w.c_str(), w.size())))) violate("lookup", "looking for a term that was never indexed finds one");
		}
	free(buffer);
	}
static bool load_and_compare(Run &run, const Collection &c, const std::string &dir, bool exact, double shorts)
	{
	PhaseOpt opt;
	opt.name = "load";
	opt.heap_seed = 1 + run.rng.below(1000);
	opt.faults.p_short_read = shorts;
	opt.step_cap = 400000000;
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::unique_ptr<JASS::deserialised_jass_v1> index;
		if (c.version == 1) index.reset(new JASS::deserialised_jass_v1(false)); else index.reset(new JASS::deserialised_jass_v2(false));
		if (!index->read_index(dir)) violate("load", "the index cannot be loaded");
		Quiet quiet;
		dump(*index, c, exact);
		});
	if (!run.fine(pr, "load")) return false;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "loading the index ended the program (status %d)", pr.status); return false; }
	return true;
	}
static void legal_io(Rng &r, FaultPlan &f)
	{
	if (r.chance(0.6)) { f.p_short_read = r.unit(); f.p_short_write = r.unit() * 0.9; if (r.chance(0.3)) f.chunk = r.logu(1, 100000); }
	if (r.chance(0.2)) f.p_clock_jump = 0.3;
	}

/* ------------------------------------------------------------------ input for the indexing program */
struct ToolInput
	{
	std::string what;
	Files files;
	std::vector<std::string> args;			// everything but the kind of index
	Collection c;									// what should be in the index
	bool exact;
	};
static std::string gz(const std::string &s)
	{
	z_stream z;
	memset(&z, 0, sizeof(z));
	deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, s.size()) + 64, '\0');
	z.next_in = (Bytef *)s.data(); z.avail_in = (uInt)s.size();
	z.next_out = (Bytef *)&out[0]; z.avail_out = (uInt)out.size();
	deflate(&z, Z_FINISH);
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
	}
/* what the parser makes of ASCII text: runs of letters, folded, and runs of digits */
static void tokens(const std::string &s, std::vector<std::string> &out)
	{
	size_t i = 0;
	while (i < s.size())
		{
		size_t b = i;
		if (isalpha((unsigned char)s[i])) { while (i < s.size() && isalpha((unsigned char)s[i])) i++; }
		else if (isdigit((unsigned char)s[i])) { while (i < s.size() && isdigit((unsigned char)s[i])) i++; }
		else { i++; continue; }
		std::string w = s.substr(b, i - b);
		for (auto &ch : w) ch = (char)tolower((unsigned char)ch);
		out.push_back(w);
		}
	}
/* BM25 (k1 0.9, b 0.4) of every posting, spread linearly over 1..1024 */
static void bm25(Collection &c, const std::vector<uint64_t> &length, uint32_t total = 0)
	{
	if (total == 0) total = c.n();
	double mean = 0, lowest = 1e300, highest = 2.3e-308;
	for (auto l : length) mean += (double)l;
	mean /= (double)length.size();
	std::map<std::string, std::vector<double>> score;
	for (auto &t : c.terms)
		for (auto &p : t.second)
			{
			float correction = (float)(0.9 * (0.6 + 0.4 * (double)length[p.doc] / mean));
			double s = log((double)total / (double)t.second.size()) * (p.impact * 1.9 / (p.impact + (double)correction));
			score[t.first].push_back(s);
			lowest = std::min(lowest, s);
			highest = std::max(highest, s);
			}
	for (auto &t : c.terms)
		for (size_t i = 0; i < t.second.size(); i++)
			t.second[i].impact = highest > lowest ? 1 + (uint32_t)((score[t.first][i] - lowest) / (highest - lowest) * 1023) : 1;
	}
static ToolInput make_input(int id)
	{
	Rng r(mix(0xF00D + (uint64_t)id, 5));
	ToolInput t;
	int format = id % 4;			// TREC, FASTA, uniCOIL file, uniCOIL directory
	t.exact = format >= 2;
	uint32_t n = (uint32_t)(r.chance(0.3) ? r.range(1, 4) : r.logu(2, 120));
	std::vector<uint64_t> length;
	std::string body;
	auto count = [&](uint32_t d, const std::string &w, uint32_t amount)
		{
		auto &v = t.c.terms[w];
		if (!v.empty() && v.back().doc == d) v.back().impact = std::min<uint32_t>(1024, v.back().impact + amount); else v.push_back({d, amount});
		};
	std::vector<std::string> pieces;
	if (format == 0)
		{
		for (uint32_t d = 0; d < n; d++)
			{
			std::string key = strf("WSJ%02u-%04lu", d, (unsigned long)r.below(10000)), s;
			size_t words = r.logu(1, 200);
			for (size_t k = 0; k < words; k++)
				{
				std::string w = r.chance(0.1) ? std::to_string(r.below(3000)) : word(r.logu(1, 3000), false);
				if (r.chance(0.1)) for (auto &ch : w) ch = (char)toupper((unsigned char)ch);
				static const char *gap[] = {" ", "\n", ", ", ".\n\n", "-", " <b>", "</b> ", " <!-- unseen --> ", "\t", " & "};
				s += w + gap[r.chance(0.7) ? 0 : r.below(10)];
				}
			std::string clean = s;
			for (const char *tag : {"<b>", "</b>", "<!-- unseen -->"}) for (size_t at; (at = clean.find(tag)) != std::string::npos;) clean.replace(at, strlen(tag), " ");
			std::vector<std::string> all;
			tokens(key, all);
			tokens(clean, all);
			for (auto &w : all) count(d, w, 1);
			length.push_back(all.size());
			t.c.keys.push_back(key);
			body += "<DOC>\n<DOCNO> " + key + " </DOCNO>\n<TEXT>\n" + s + "</TEXT>\n</DOC>\n";
			}
		t.files["/sim/in/docs.trec"] = body;
		t.args = {"-f", "/sim/in/docs.trec"};
		t.what = "TREC";
		}
	else if (format == 1)
		{
		size_t k = (size_t)r.range(2, 12);
		for (uint32_t d = 0; d < n; d++)
			{
			std::string key = strf(">NR_%05u.%lu some name", d * 13, (unsigned long)r.below(9)), s, flat;
			size_t bases = r.logu(k, 300);
			for (size_t i = 0; i < bases; i++) { char b = "ACGT"[r.chance(0.5) ? r.below(4) : r.below(2)]; flat += (char)tolower(b); s += b; if (i % 60 == 59) s += '\n'; }
			if (s.empty() || s.back() != '\n') s += '\n';
			std::vector<std::string> all;
			tokens(key, all);
			for (size_t i = 0; i + k <= flat.size(); i++) all.push_back(flat.substr(i, k));
			for (auto &w : all) count(d, w, 1);
			length.push_back(all.size());
			t.c.keys.push_back(key);
			body += key + "\n" + s;
			}
		t.files["/sim/in/docs.fasta"] = body;
		t.args = {"-f", "/sim/in/docs.fasta", "-IF", std::to_string(k)};
		t.what = strf("FASTA %zu-mers", k);
		}
	else
		{
		for (uint32_t d = 0; d < n; d++)
			{
			std::string key = strf("%lu", (unsigned long)r.below(1000000)) + strf("-%u", d), s;
			size_t words = r.logu(1, 120);
			std::set<std::string> used;
			for (size_t i = 0; i < words; i++)
				{
				std::string w = r.chance(0.1) ? "##" + word(r.below(500), false) : word(r.logu(1, 2000), r.chance(0.1));
				if (r.chance(0.02)) w = "\\\"";
				if (!used.insert(w).second) continue;
				std::string weight = std::to_string(r.logu(1, 255));
				if (r.chance(0.03))
					{
					/* no weight at all, and weights that are larger than can be stored: stored as the largest */
					static const char *odd[] = {"0", "256", "1023", "1024", "1025", "32768", "65535", "65536", "65537", "66000", "100000", "4294967296", "4294967297", "18446744073709551617", "99999999999999999999999"};
					weight = odd[r.below(15)];
					}
				if (!s.empty()) s += ", ";
				s += "\"" + w + "\": " + weight;
				uint32_t impact = weight.size() > 4 ? 1024 : std::min(1024, atoi(weight.c_str()));
				if (impact) count(d, w, impact);
				}
			t.c.keys.push_back(key);
			pieces.push_back("{\"id\": \"" + key + "\", \"contents\": \"Some text.\", \"vector\": {" + s + "}}\n");
			}
		if (format == 2)
			{
			for (auto &p : pieces) body += p;
			t.files["/sim/in/docs.json.gz"] = gz(body);
			t.args = {"-f", "/sim/in/docs.json.gz", "-djc"};
			t.what = "uniCOIL file";
			}
		else
			{
			size_t parts = (size_t)r.range(1, std::min<int64_t>(5, n));
			bool zipped = r.chance(0.6);
			std::vector<std::string> out(parts);
			for (size_t i = 0; i < pieces.size(); i++) out[i * parts / pieces.size()] += pieces[i];
			for (size_t i = 0; i < parts; i++) t.files[strf("/sim/in/docs/part%02zu.json%s", i, zipped ? ".gz" : "")] = zipped ? gz(out[i]) : out[i];
			t.args = {"-f", "/sim/in/docs", "-djc"};
			t.what = strf("uniCOIL directory of %zu", parts);
			}
		}
	if (!t.exact) bm25(t.c, length);
	t.c.id = id;
	for (auto &x : t.c.terms) t.c.vocab.push_back(x.first);
	t.what += strf(", %u documents, %zu terms", n, t.c.terms.size());
	return t;
	}
static const ToolInput &tool_input(int id)
	{
	static std::map<int, std::unique_ptr<ToolInput>> &cache = *new std::map<int, std::unique_ptr<ToolInput>>;		// never destroyed: a simulated exit() must not depend on it
	auto &p = cache[id];
	if (!p) p.reset(new ToolInput(make_input(id)));
	return *p;
	}
static std::vector<std::string> command(const ToolInput &t, const std::string &kinds)
	{
	std::vector<std::string> v = {"JASS_index", "-q"};
	for (auto &a : t.args) v.push_back(a);
	for (char k : kinds) v.push_back(k == '1' ? "-I1" : k == '2' ? "-I2" : k == 'i' ? "-Ib" : k == 'c' ? "-Ic" : "-If");
	return v;
	}
static Files outputs(const Files &all)
	{
	Files out;
	for (auto &x : all) if (x.first.compare(0, CWD.size(), CWD) == 0) out[x.first.substr(CWD.size())] = x.second;
	return out;
	}
/* what the program writes when nothing goes wrong (cached; call with an empty disk) */
static const Files &reference(int id, const std::string &kinds)
	{
	static std::map<std::string, std::unique_ptr<Files>> &cache = *new std::map<std::string, std::unique_ptr<Files>>;		// never destroyed: a simulated exit() must not depend on it
	auto &p = cache[strf("%d ", id) + kinds];
	if (p) return *p;
	const ToolInput &t = tool_input(id);
	auto argv = command(t, kinds);
	Files out;
	PhaseResult pr = side_phase(t.files, out, [&]()
		{
		static const char *av[64];
		size_t n = 0;
		for (auto &a : argv) av[n++] = a.c_str();
		exit(program_jass_index_main()((int)n, av));
		});
	p.reset(new Files(outputs(out)));
	if (pr.end != END_EXIT || pr.status != 0) { p->clear(); (*p)["error"] = strf("end %d status %d %s", pr.end, pr.status, pr.detail.c_str()); }
	return *p;
	}
static std::string random_kinds(Rng &r)
	{
	std::string k;
	if (r.chance(0.75)) k += r.chance(0.5) ? '1' : '2';
	if (r.chance(0.3)) k += 'c';
	if (r.chance(0.3)) k += 'i';
	if (r.chance(0.3)) k += 'f';
	if (k.empty()) k = "1";
	return k;
	}
static bool compare_files(const Files &want, const Files &got, std::string &why)
	{
	for (auto &x : want)
		{
		auto g = got.find(x.first);
		if (g == got.end()) { why = x.first + " is missing"; return false; }
		if (g->second == x.second) continue;
		size_t d = 0;
		while (d < g->second.size() && d < x.second.size() && g->second[d] == x.second[d]) d++;
		why = strf("%s has %zu bytes where it should have %zu; they differ from byte %zu on", x.first.c_str(), g->second.size(), x.second.size(), d);
		return false;
		}
	for (auto &x : got) if (!want.count(x.first)) { why = x.first + " should not be there"; return false; }
	return true;
	}

/* ------------------------------------------------------------------ C07 */
static void c07_direct(Run &run)
	{
	Rng &r = run.rng;
	Collection c = random_collection(r, run.thorough, 0.025);
	bool managed = r.chance(0.04);
	if (!managed && r.chance(0.015)) enlarge(r, c);
	PhaseOpt opt;
	opt.name = "write";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 1000000000;
	opt.st_cap = 20000000000ULL;
	legal_io(r, opt.faults);
	run.sample = (managed ? "index manager: " : "serialiser: ") + text(c);
	std::string kind(1, (char)('0' + c.version));
	Documents docs;
	if (managed) docs = documents_of(r, c);
	if (r.chance(0.2)) for (auto f : index_file) disk_put(CWD + f, std::string(r.logu(1, 100000), 'z'));		// something older is overwritten
	PhaseResult pr = run.phase(opt, [&]() { if (managed) build_managed(c, docs, kind); else build_direct(c, kind); });
	if (!run.fine(pr, "write")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "writing the index ended the program (status %d)", pr.status); return; }
	run.nontrivial = true;
	run.state_sig = mix(mix(c.n(), c.terms.size()), (uint64_t)(c.version * 256 + c.codec) * 32 + (uint64_t)c.align);
	if (!load_and_compare(run, c, r.chance(0.5) ? "/sim/cwd" : "/sim/cwd/", true, opt.faults.p_short_read)) return;
	run.probe(managed ? "indexes through the index manager" : "indexes through the serialisers");
	uint64_t p = 0;
	for (auto &x : c.terms) p += x.second.size();
	run.probe("postings compared", p);
	run.evals = p;
	}
static void c07_tool(Run &run)
	{
	Rng &r = run.rng;
	int id = (int)r.below(run.thorough ? 4000 : 400);
	const ToolInput &t = tool_input(id);
	std::string kinds(1, r.chance(0.5) ? '1' : '2');
	PhaseOpt opt;
	opt.name = "JASS_index";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	legal_io(r, opt.faults);
	if (r.chance(0.3)) opt.zero_heap = true;
	disk_load(t.files);
	run.sample = "JASS_index: " + t.what + ", version " + kinds;
	PhaseResult pr = run.tool(opt, command(t, kinds), program_jass_index_main());
	if (!run.fine(pr, "JASS_index")) return;
	if (pr.end != END_EXIT || pr.status != 0) { run.violate("wrong-end", "JASS_index ended with status %d", pr.status); return; }
	run.nontrivial = true;
	run.state_sig = mix((uint64_t)id, (uint64_t)kinds[0]);
	Collection c = t.c;
	c.version = kinds[0] - '0';
	if (!load_and_compare(run, c, "/sim/cwd", t.exact, opt.faults.p_short_read)) return;
	run.probe("indexes through JASS_index");
	uint64_t p = 0;
	for (auto &x : c.terms) p += x.second.size();
	run.probe("postings compared", p);
	run.evals = p;
	}

/* ------------------------------------------------------------------ C08 */
static void bad_io(Rng &r, FaultPlan &f, uint64_t size)
	{
	int n = r.chance(0.1) ? 0 : r.chance(0.8) ? 1 : 2;
	for (int i = 0; i < n; i++)
		{
		Hard h;
		double u = r.unit();
		h.op = u < 0.7 ? OP_WRITE : u < 0.85 ? OP_CLOSE : OP_OPEN_W;
		h.nth = (uint32_t)(r.chance(0.6) ? r.below(4) : r.below(20));
		h.kind = h.op == OP_WRITE && r.chance(0.6) ? F_ENOSPC : F_ERR;
		static const uint64_t errs[] = {EIO, EDQUOT, ENOSPC, EFBIG};
		h.arg = h.kind == F_ENOSPC ? r.below(1001) : errs[r.below(4)];
		h.persistent = r.chance(0.3);
		f.hard.push_back(h);
		}
	if (r.chance(0.3)) { static const char *only[] = {"CIpostings", "CIvocab.bin", "CIvocab_terms", "CIdoclist", "JASS_", "postings"}; f.only_path = only[r.below(6)]; }
	if (r.chance(0.25)) f.capacity = 1 + r.below(size + size / 8 + 1);
	if (r.chance(0.3)) { f.p_short_write = r.unit() * 0.9; f.p_short_read = r.unit(); }
	}
static void judge_c08(Run &run, const PhaseResult &pr, const Files &want, const FaultPlan &f, bool tool)
	{
	bool success = tool ? pr.end == END_EXIT && pr.status == 0 : pr.end == END_RETURN;
	std::string why;
	if (success)
		{
		if (!compare_files(want, outputs(disk_all()), why)) { run.violate("false-success", "success is reported, but %s", why.c_str()); return; }
		run.probe("exports complete");
		}
	else
		{
		if (pr.end != END_EXIT || (!tool && pr.status == 0)) { run.violate("silent-end", "the export ended with status %d without saying so", pr.status); return; }
		if (f.hard.empty() && !f.capacity) { run.violate("false-failure", "failure (status %d) is reported with nothing failing", pr.status); return; }
		run.probe("failures reported");
		}
	run.nontrivial = true;
	}
static void c08_direct(Run &run)
	{
	Rng &r = run.rng;
	Collection c = random_collection(r, false);
	std::string kinds = random_kinds(r);
	if (c.codec == 'q' && kinds[0] == '2') c.codec = 'G';
	bool managed = r.chance(0.03);
	Documents docs;
	if (managed) docs = documents_of(r, c);
	auto body = [&]() { if (managed) build_managed(c, docs, kinds); else build_direct(c, kinds); };
	Files out;
	PhaseResult ref = side_phase(Files(), out, body);
	run.sample = (managed ? "index manager: " : "serialisers: ") + kinds + ", " + text(c);
	if (ref.end != END_RETURN) { run.violate("wrong-end", "the export fails with nothing failing (end %d, status %d) %s", ref.end, ref.status, ref.detail.c_str()); return; }
	out = outputs(out);
	uint64_t size = 0;
	for (auto &x : out) size += x.second.size();
	PhaseOpt opt;
	opt.name = "export";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 1000000000;
	opt.st_cap = 20000000000ULL;
	bad_io(r, opt.faults, size);
	if (r.chance(0.3)) for (auto &x : out) disk_put(CWD + x.first, r.chance(0.5) ? x.second : std::string(r.logu(1, 10000), 'z'));		// an older export is overwritten
	PhaseResult pr = run.phase(opt, body);
	if (!run.fine(pr, "export")) return;
	run.state_sig = mix(mix(c.n(), std::hash<std::string>()(kinds)), opt.faults.hard.empty() ? 0 : opt.faults.hard[0].op * 32 + opt.faults.hard[0].nth);
	judge_c08(run, pr, out, opt.faults, false);
	}
static void c08_tool(Run &run)
	{
	Rng &r = run.rng;
	int id = (int)r.below(8);
	static const char *sets[] = {"1", "2", "1cif", "2f", "ci"};
	std::string kinds = sets[r.below(5)];
	const Files &want = reference(id, kinds);
	const ToolInput &t = tool_input(id);
	run.sample = "JASS_index: " + t.what + ", output " + kinds;
	if (want.count("error")) { run.violate("wrong-end", "JASS_index fails with nothing failing: %s", want.at("error").c_str()); return; }
	uint64_t size = 0;
	for (auto &x : want) size += x.second.size();
	PhaseOpt opt;
	opt.name = "JASS_index";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	bad_io(r, opt.faults, size);
	disk_load(t.files);
	PhaseResult pr = run.tool(opt, command(t, kinds), program_jass_index_main());
	if (!run.fine(pr, "JASS_index")) return;
	run.state_sig = mix(mix((uint64_t)id, std::hash<std::string>()(kinds)), opt.faults.hard.empty() ? 0 : opt.faults.hard[0].op * 32 + opt.faults.hard[0].nth);
	judge_c08(run, pr, want, opt.faults, true);
	}

/* ------------------------------------------------------------------ C09 */
/* load an image of the disk with the engine and search it: an error, or the answers of one of the complete indexes */
static bool try_image(Run &run, const Files &image, int version, const std::vector<const Collection *> &whole, const std::string &when)
	{
	Rng &r = run.rng;
	disk_reset();
	disk_load(image);
	std::vector<std::string> queries;
	for (auto c : whole)
		for (int i = 0; i < 3; i++)
			{
			std::string s = strf("%zu", queries.size() + 1);
			int n = (int)r.range(1, 6);
			for (int k = 0; k < n; k++) s += " " + (r.chance(0.1) ? "zzznotthere" : c->vocab[r.below(c->vocab.size())]);
			queries.push_back(s);
			}
	for (int i = 0; i < 2; i++)		// every term once
		{
		std::string s = strf("%zu", queries.size() + 1);
		size_t from = r.below(whole[0]->vocab.size());
		for (size_t k = 0; k < 12 && k < whole[0]->vocab.size(); k++) s += " " + whole[0]->vocab[(from + k) % whole[0]->vocab.size()];
		queries.push_back(s);
		}
	PhaseOpt opt;
	opt.name = "engine";
	opt.heap_seed = 1 + r.below(1000);
	if (r.chance(0.3)) opt.faults.p_short_read = 0.5;
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::unique_ptr<JASS_anytime_api> e(new JASS_anytime_api);
		JASS_ERROR rc = e->load_index((size_t)version, "/sim/cwd");
		{ Quiet q; Out o; o.u((uint64_t)(int64_t)rc).u(e->get_document_count()).send(); }
		if (rc != JASS_ERROR_OK) return;
		e->use_ascii_parser();
		for (auto &q : queries)
			{
			JASS_anytime_result a = e->search(q);
			Quiet quiet;
			Out o; o.str(a.results_list).send();
			}
		});
	if (!run.fine(pr, ("engine, index killed " + when).c_str())) return false;
	if (pr.end == END_EXIT && pr.status != 0) { run.probe("images refused by ending"); return true; }
	if (pr.end != END_RETURN) { run.violate("wrong-end", "killed %s: loading what is left ends the program with status %d", when.c_str(), pr.status); return false; }
	In in(pr.out);
	int64_t rc = (int64_t)in.u();
	uint64_t docs = in.u();
	if (rc != JASS_ERROR_OK) { run.probe("images refused"); return true; }
	std::string why;
	std::vector<std::string> lists;
	for (size_t i = 0; i < queries.size(); i++) lists.push_back(in.str());
	if (in.bad) { run.violate("wrong-end", "killed %s: a search did not finish", when.c_str()); return false; }
	for (auto c : whole)
		{
		bool good = docs == c->n();
		if (!good) { why = strf("it has %lu documents", (unsigned long)docs); continue; }
		for (size_t i = 0; good && i < queries.size(); i++)
			{
			Query q = make_query(queries[i], true);
			Truth t = evaluate(*c, q);
			std::vector<Line> v;
			good = parse_lines(lists[i], v, why) && well_formed(*c, q, v, 10, why) && (t.exact() ? same_ranking(t.all, v, 10, why) : scaled_ranking(t, v, 10, why));
			if (!good) why = "query '" + queries[i].substr(0, 80) + "': " + why;
			}
		if (good) { run.probe("images that are complete"); return true; }
		}
	run.violate("partial-index", "killed %s: what is left loads, but is no complete index: %s", when.c_str(), why.c_str());
	return false;
	}
/* a collection whose terms can be searched for with a plain query */
static Collection searchable(Rng &r)
	{
	Collection c = random_collection(r, false);
	if (c.n() > 4000) { for (auto &t : c.terms) { std::vector<Posting> v; for (auto &p : t.second) if (p.doc < 4000) v.push_back(p); if (v.empty()) v.push_back({0, 1}); t.second = v; } c.keys.resize(4000); }
	for (auto &k : c.keys) if (k.size() > 100) k = "long";
	std::map<std::string, std::vector<Posting>> terms;
	for (auto &t : c.terms)
		{
		bool plain = !t.first.empty() && t.first.size() < 200;
		for (char ch : t.first) plain = plain && isalnum((unsigned char)ch);
		if (plain) terms[t.first] = t.second;
		}
	if (terms.empty()) terms["only"] = {{0, 3}};
	c.terms = terms;
	c.vocab.clear();
	for (auto &x : c.terms) c.vocab.push_back(x.first);
	return c;
	}
static void images(Run &run, const std::vector<JOp> &journal, const Files &before, int version, const std::vector<const Collection *> &whole, int count)
	{
	Rng &r = run.rng;
	/* the journal starts on an empty disk: the older index is put in front of it */
	std::vector<JOp> j;
	for (auto &x : before) { j.push_back({'C', x.first, 0, ""}); j.push_back({'W', x.first, 0, x.second}); j.push_back({'X', x.first, 0, ""}); }
	size_t base = j.size();
	j.insert(j.end(), journal.begin(), journal.end());
	for (int i = 0; i < count; i++)
		{
		size_t at = r.chance(0.5) ? base + r.below(journal.size() + 1) : j.size() - r.below(std::min<size_t>(journal.size(), 12) + 1);
		double torn = at < j.size() && r.chance(0.7) ? r.unit() : 0;
		if (at < j.size() && r.chance(0.15) && !j[at].data.empty()) torn = 1.0 - (double)r.range(1, 24) / (double)std::max<size_t>(24, j[at].data.size());
		if (!run.keep()) continue;
		Files image = journal_prefix(j, at, torn);
		std::string when = at < j.size() ? strf("after file operation %zu of %zu (next: %c %s, %.0f%% done)", at - base, journal.size(), j[at].kind, j[at].path.c_str(), torn * 100) : "after its last file operation";
		if (!try_image(run, image, version, whole, when)) return;
		run.probe("crash images");
		run.evals++;
		}
	}
static void c09_direct(Run &run)
	{
	Rng &r = run.rng;
	Collection c = searchable(r), older;
	bool overwrite = r.chance(0.4);
	Files before;
	if (overwrite)
		{
		older = searchable(r);
		older.version = c.version;
		if (older.version == 2 && older.codec == 'q') older.codec = 'G';
		PhaseResult pr = side_phase(Files(), before, [&]() { build_direct(older, std::string(1, (char)('0' + older.version))); });
		if (pr.end != END_RETURN) { run.violate("wrong-end", "writing an index fails with nothing failing"); return; }
		disk_load(before);
		}
	PhaseOpt opt;
	opt.name = "write";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 1000000000;
	opt.journal = true;
	if (r.chance(0.5)) opt.faults.p_short_write = r.unit() * 0.9;
	run.sample = text(c) + (overwrite ? ", over an older index of " + text(older) : "");
	PhaseResult pr = run.phase(opt, [&]() { build_direct(c, std::string(1, (char)('0' + c.version))); });
	if (!run.fine(pr, "write")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "writing the index ended the program (status %d)", pr.status); return; }
	std::vector<const Collection *> whole = {&c};
	if (overwrite) whole.push_back(&older);
	run.nontrivial = true;
	run.evals = 0;
	run.state_sig = mix(mix(c.n(), c.terms.size()), overwrite);
	images(run, disk_journal(), before, c.version, whole, run.thorough ? 12 : 5);
	}
/* the journal of the indexing program, per input (cached) */
struct Traced { std::vector<JOp> journal; Collection c; bool ok = false; };
static void c09_tool(Run &run)
	{
	Rng &r = run.rng;
	int id = 2 + 4 * (int)r.below(4) + (int)r.below(2);		// uniCOIL: the impacts are known exactly
	const ToolInput &t = tool_input(id);
	std::string kinds(1, r.chance(0.5) ? '1' : '2');
	Collection c = t.c;
	c.version = kinds[0] - '0';
	PhaseOpt opt;
	opt.name = "JASS_index";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	opt.journal = true;
	if (r.chance(0.5)) opt.faults.p_short_write = r.unit() * 0.9;
	disk_load(t.files);
	run.sample = "JASS_index: " + t.what + ", version " + kinds;
	PhaseResult pr = run.tool(opt, command(t, kinds), program_jass_index_main());
	if (!run.fine(pr, "JASS_index")) return;
	if (pr.end != END_EXIT || pr.status != 0) { run.violate("wrong-end", "JASS_index ended with status %d", pr.status); return; }
	std::vector<std::string> plain;
	for (auto &w : c.vocab) { bool p = true; for (char ch : w) p = p && isalnum((unsigned char)ch); if (p) plain.push_back(w); }
	if (plain.empty()) return;
	c.vocab = plain;
	run.nontrivial = true;
	run.evals = 0;
	run.state_sig = mix((uint64_t)id, (uint64_t)kinds[0]);
	images(run, disk_journal(), Files(), c.version, {&c}, run.thorough ? 12 : 8);
	}

/* ------------------------------------------------------------------ C10 */
static void vary(Rng &r, PhaseOpt &opt)
	{
	opt.heap_seed = 1 + r.below(1000000);
	opt.zero_heap = r.chance(0.2);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	legal_io(r, opt.faults);
	}
static void c10_direct(Run &run)
	{
	Rng &r = run.rng;
	Collection c = random_collection(r, false);
	std::string kinds = random_kinds(r);
	if (c.codec == 'q' && kinds[0] == '2') c.codec = 'G';
	bool managed = r.chance(0.05);
	Documents docs;
	if (managed) docs = documents_of(r, c);
	auto body = [&]() { if (managed) build_managed(c, docs, kinds); else build_direct(c, kinds); };
	run.sample = (managed ? "index manager: " : "serialisers: ") + kinds + ", " + text(c);
	Files first;
	int rounds = managed ? 2 : (int)r.range(2, 3);
	for (int i = 0; i < rounds; i++)
		{
		PhaseOpt opt;
		opt.name = strf("build %d", i + 1);
		vary(r, opt);
		disk_reset();
		PhaseResult pr = run.phase(opt, body);
		if (!run.fine(pr, "build")) return;
		if (pr.end != END_RETURN) { run.violate("wrong-end", "building ended the program (status %d)", pr.status); return; }
		Files got = outputs(disk_all());
		std::string why;
		if (i == 0) first = got;
		else if (!compare_files(first, got, why)) { run.violate("different", "build %d of the same input differs from the first: %s", i + 1, why.c_str()); return; }
		}
	run.nontrivial = true;
	run.evals = (uint64_t)rounds - 1;
	run.probe("builds compared", (uint64_t)rounds - 1);
	run.state_sig = mix(mix(c.n(), c.terms.size()), std::hash<std::string>()(kinds));
	}
static void c10_tool(Run &run)
	{
	Rng &r = run.rng;
	int id = (int)r.below(run.thorough ? 64 : 16);
	static const char *sets[] = {"1cif", "2f"};
	std::string kinds = sets[r.below(2)];
	const Files &want = reference(id, kinds);
	const ToolInput &t = tool_input(id);
	run.sample = "JASS_index: " + t.what + ", output " + kinds;
	if (want.count("error")) { run.violate("wrong-end", "JASS_index fails with nothing failing: %s", want.at("error").c_str()); return; }
	PhaseOpt opt;
	opt.name = "JASS_index";
	vary(r, opt);
	disk_load(t.files);
	PhaseResult pr = run.tool(opt, command(t, kinds), program_jass_index_main());
	if (!run.fine(pr, "JASS_index")) return;
	if (pr.end != END_EXIT || pr.status != 0) { run.violate("wrong-end", "JASS_index ended with status %d", pr.status); return; }
	std::string why;
	if (!compare_files(want, outputs(disk_all()), why)) { run.violate("different", "two builds of the same input differ: %s", why.c_str()); return; }
	run.nontrivial = true;
	run.probe("program runs compared");
	run.state_sig = mix((uint64_t)id, std::hash<std::string>()(kinds));
	}
/* ------------------------------------------------------------------ C20 */
static void varint(std::string &s, uint64_t v) { while (v >= 128) { s += (char)(v | 128); v >>= 7; } s += (char)v; }
static void field(std::string &s, int number, uint64_t v) { if (v == 0) return; s += (char)(number << 3); varint(s, v); }		// a field with the default value is left out
static void field(std::string &s, int number, const std::string &v) { if (v.empty()) return; s += (char)(number << 3 | 2); varint(s, v.size()); s += v; }
static std::string message(const std::string &s) { std::string out; varint(out, s.size()); return out + s; }
struct Ciff
	{
	std::vector<std::string> lists, docs;		// encoded messages, in file order
	std::vector<std::string> order;				// the term of each list
	std::vector<std::vector<uint64_t>> length;
	int64_t lists_more = 0, docs_more = 0;		// declared in the header beyond what is there
	uint32_t total = 0;
	std::string trailing;
	std::string header(Rng &r) const
		{
		std::string h;
		field(h, 1, (uint64_t)r.below(3));
		field(h, 2, (uint64_t)((int64_t)lists.size() + lists_more));
		field(h, 3, (uint64_t)((int64_t)docs.size() + docs_more));
		field(h, 4, lists.size() + r.below(2) * r.below(1000));
		field(h, 5, total);
		field(h, 6, r.next() >> 20);
		if (r.chance(0.7)) { double d = r.unit() * 1000; h += (char)(7 << 3 | 1); h.append((const char *)&d, 8); }
		if (r.chance(0.7)) { std::string d; size_t n = r.logu(1, 300); for (size_t i = 0; i < n; i++) d += (char)r.range(r.chance(0.1) ? 0 : 32, 126); field(h, 8, d); }
		return message(h);
		}
	std::string file(Rng &r) const
		{
		std::string s = header(r);
		for (auto &x : lists) s += x;
		for (auto &x : docs) s += x;
		return s + trailing;
		}
	};
static std::string postings_message(const std::string &term, const std::vector<std::pair<uint64_t, uint64_t>> &v, bool late)
	{
	std::string m, p;
	uint64_t cf = 0;
	for (auto &x : v) cf += x.second;
	if (!late) field(m, 1, term);
	field(m, 2, v.size());
	field(m, 3, cf);
	for (auto &x : v)
		{
		p.clear();
		field(p, 1, x.first);
		field(p, 2, x.second);
		m += (char)(4 << 3 | 2);
		m += message(p);
		}
	if (late) field(m, 1, term);
	return message(m);
	}
static std::string document_message(uint64_t id, const std::string &key, uint64_t length)
	{
	std::string m;
	field(m, 1, id);
	field(m, 2, key);
	field(m, 3, length);
	return message(m);
	}
static void c20(Run &run)
	{
	Rng &r = run.rng;
	/* a collection with term frequencies where an index has impacts */
	Collection c = random_collection(r, false);
	for (auto &k : c.keys) if (k.size() > 1000) k = "a-long-one";
	if (c.n() > 4000) { for (auto &t : c.terms) { std::vector<Posting> v; for (auto &p : t.second) if (p.doc < 4000) v.push_back(p); if (v.empty()) v.push_back({0, 1}); t.second = v; } c.keys.resize(4000); }
	if (r.chance(0.2)) for (auto &t : c.terms) for (auto &p : t.second) if (r.chance(0.1)) p.impact = (uint32_t)r.logu(1000, 2000000000);
	int mode = (int)r.below(3);			// passed through, scaled, BM25
	bool two = r.chance(0.5);
	c.version = two ? 2 : 1;
	std::vector<uint64_t> length(c.n());
	int lengths = (int)r.below(3);
	for (auto &l : length) l = lengths == 0 ? 1 + r.below(1000) : lengths == 1 ? r.logu(1, 100000) : r.below(3);
	length[r.below(c.n())] = 7;
	Ciff f;
	f.total = c.n() + (uint32_t)(r.chance(0.15) ? r.logu(1, 5000) : 0);
	for (auto &t : c.terms) f.order.push_back(t.first);
	if (r.chance(0.5)) for (size_t i = f.order.size(); i > 1; i--) std::swap(f.order[i - 1], f.order[r.below(i)]);
	bool late = r.chance(0.1);
	auto encode = [&](const std::string &t)
		{
		std::vector<std::pair<uint64_t, uint64_t>> v;
		uint32_t last = 0;
		for (auto &p : c.terms[t]) { v.push_back({p.doc - last, p.impact}); last = p.doc; }
		return v;
		};
	for (auto &t : f.order) f.lists.push_back(postings_message(t, encode(t), late));
	for (uint32_t d = 0; d < c.n(); d++) f.docs.push_back(document_message(d, c.keys[d], length[d]));
	/* what is wrong with it */
	enum { GOOD, CUT, WRONG, READ, WRITE, NOISE } kind = GOOD;
	double u = r.unit();
	if (u < 0.4) kind = GOOD; else if (u < 0.55) kind = CUT; else if (u < 0.7) kind = WRONG; else if (u < 0.76) kind = READ; else if (u < 0.92) kind = WRITE; else kind = NOISE;
	std::string wrong = "";
	size_t at = r.below(f.order.size());
	auto v = encode(f.order[at]);
	bool drop_file = false;
	if (kind == WRONG)
		switch (r.below(9))
			{
			case 0: wrong = "a document beyond the last"; v.push_back({c.n() - c.terms[f.order[at]].back().doc - 1 + 1 + r.logu(1, 3) - 1, 1}); f.lists[at] = postings_message(f.order[at], v, late); break;
			case 1: wrong = "a document twice in a list"; v.insert(v.begin() + 1 + (long)r.below(v.size()), {0, 1}); f.lists[at] = postings_message(f.order[at], v, late); break;
			case 2: wrong = "a list of nothing"; f.lists[at] = postings_message(f.order[at], {}, late); break;
			case 3: wrong = "fewer lists than declared"; f.lists_more = (int64_t)r.logu(1, 1000000); break;
			case 4: wrong = "fewer documents than declared"; f.docs_more = (int64_t)r.logu(1, 1000000); break;
			case 5: wrong = "more documents than declared"; f.docs_more = -1 - (int64_t)r.below(c.n()); break;
			case 6: wrong = "more after the last document"; f.trailing = std::string(r.logu(1, 100), (char)r.below(256)); break;
			case 7: if (c.n() > 1) { wrong = "documents out of order"; size_t a = r.below(c.n() - 1); std::swap(f.docs[a], f.docs[a + 1]); } else { wrong = "a term twice"; f.lists.push_back(f.lists[at]); } break;
			case 8: wrong = "a term twice"; f.lists.insert(f.lists.begin() + (long)r.below(f.lists.size() + 1), f.lists[at]); break;
			}
	std::string file = f.file(r);
	if (kind == CUT)
		{
		size_t keep = r.chance(0.3) ? r.below(std::min<size_t>(file.size(), 64)) : r.chance(0.4) ? file.size() - 1 - r.below(std::min<size_t>(file.size(), 64)) : r.below(file.size());
		file.resize(keep);
		wrong = strf("only the first %zu bytes", keep);
		}
	if (kind == NOISE)
		{
		size_t n = r.logu(1, 20);
		for (size_t i = 0; i < n; i++)
			{
			size_t b = r.chance(0.3) ? r.below(std::min<size_t>(file.size(), 80)) : r.below(file.size());
			if (r.chance(0.7)) file[b] = (char)(r.chance(0.3) ? 0xFF : r.below(256));
			else if (r.chance(0.5)) file.erase(b, r.logu(1, 20));
			else file.insert(b, std::string(r.logu(1, 20), (char)(r.chance(0.5) ? 0xFF : r.below(256))));
			if (file.empty()) file = "x";
			}
		}
	std::string name = r.chance(0.05) ? "/sim/in/" + std::string(r.range(200, 240), 'n') : "/sim/in/index.ciff";
	PhaseOpt opt;
	opt.name = "ciff_to_JASS";
	opt.heap_seed = 1 + r.below(1000);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	legal_io(r, opt.faults);
	if (kind == READ)
		{
		if (r.chance(0.2)) drop_file = true;
		else { Hard h; double x = r.unit(); h.op = x < 0.7 ? OP_READ : x < 0.85 ? OP_OPEN_R : OP_STAT; h.nth = r.chance(0.7) ? 0 : (uint32_t)r.below(4); h.kind = F_ERR; h.arg = r.chance(0.5) ? EIO : ENOMEM; h.persistent = r.chance(0.5); opt.faults.hard.push_back(h); opt.faults.only_path = "/sim/in"; }
		}
	if (kind == WRITE) bad_io(r, opt.faults, file.size());
	if (kind == WRITE && !opt.faults.only_path.empty() && r.chance(0.5)) opt.faults.only_path = "";
	std::vector<std::string> argv = {"ciff_to_JASS", name};
	if (two) argv.push_back("-2");
	if (mode != 2) argv.insert(r.chance(0.5) ? argv.end() : argv.begin() + 2, mode == 0 ? "-passthrough" : "-scalepassthrough");
	static const char *what[] = {"good", "cut off", "inconsistent", "unreadable", "unwritable", "garbled"}, *how[] = {"passed through", "scaled", "BM25"};
	run.sample = strf("CIFF: %s%s%s, %s, ", what[kind], wrong.empty() ? "" : ": ", wrong.c_str(), how[mode]) + text(c);
	if (!drop_file) disk_put(name, file);
	PhaseResult pr = run.tool(opt, argv, program_ciff_to_jass_main());
	if (!run.fine(pr, "ciff_to_JASS")) return;
	run.nontrivial = true;
	run.state_sig = mix(mix(c.n(), c.terms.size()), (uint64_t)(kind * 8 + mode * 2 + two));
	bool success = pr.end == END_EXIT && pr.status == 0;
	if (pr.end != END_EXIT) { run.violate("wrong-end", "the converter did not end by itself"); return; }
	if (!success)
		{
		if (kind == GOOD || ((kind == READ || kind == WRITE) && !drop_file && opt.faults.hard.empty() && !opt.faults.capacity)) { run.violate("false-failure", "the source is good and nothing fails, but the converter fails with status %d", pr.status); return; }
		run.probe("failures reported");
		return;
		}
	if (kind == CUT || kind == WRONG || drop_file) { run.violate("false-success", "the converter succeeds although the source %s", drop_file ? "does not exist" : ("has " + wrong).c_str()); return; }
	if (kind == NOISE) { run.probe("garbled sources read"); return; }
	/* what should be in it */
	if (mode == 0) { for (auto &t : c.terms) for (auto &p : t.second) p.impact = std::min(p.impact, 1024u); }
	else
		{
		for (auto &t : c.terms) for (auto &p : t.second) p.impact = std::min(p.impact, 1024u);
		if (mode == 2) bm25(c, length, f.total);
		else
			{
			uint32_t low = 2000, high = 0;
			for (auto &t : c.terms) for (auto &p : t.second) { low = std::min(low, p.impact); high = std::max(high, p.impact); }
			for (auto &t : c.terms) for (auto &p : t.second) p.impact = high > low ? 1 + (p.impact - low) * 1023 / (high - low) : 1;
			}
		}
	if (!load_and_compare(run, c, "/sim/cwd", mode == 0, opt.faults.p_short_read)) return;
	run.probe("indexes converted");
	uint64_t p = 0;
	for (auto &x : c.terms) p += x.second.size();
	run.probe("postings compared", p);
	run.evals = p;
	}
/* ------------------------------------------------------------------ C23 */
static bool begins(const std::string &s, size_t at, const std::string &w) { return at <= s.size() && s.compare(at, w.size(), w) == 0; }
static std::string shown(const std::string &s) { std::string o; for (char ch : s.substr(0, 40)) o += ch >= 32 && ch < 127 ? ch : '?'; return o; }
static bool impact_is(uint64_t got, uint64_t want, bool exact) { return got == want || (!exact && (got + 1 == want || got == want + 1)); }
static bool number_at(const std::string &s, size_t &at, uint64_t &v)
	{
	size_t b = at;
	v = 0;
	while (at < s.size() && at < b + 18 && isdigit((unsigned char)s[at])) v = v * 10 + (uint64_t)(s[at++] - '0');
	return at != b;
	}
/* lists of documents counted from 0, one for each impact of each term, each after its length */
static std::string wrong_integers(const Collection &c, const std::string &file)
	{
	std::map<std::vector<uint32_t>, int> want;
	uint64_t lists = 0, seen = 0;
	for (auto &t : c.terms)
		{
		std::map<uint32_t, std::vector<uint32_t>> by;
		for (auto &p : t.second) by[p.impact].push_back(p.doc);
		for (auto &b : by) { want[b.second]++; lists++; }
		}
	size_t at = 0;
	while (at < file.size())
		{
		uint32_t n = 0;
		if (file.size() - at < 4) return "ends in the middle of a length";
		memcpy(&n, &file[at], 4);
		at += 4;
		if ((file.size() - at) / 4 < n) return strf("ends in the middle of a list of %u", n);
		std::vector<uint32_t> v(n);
		if (n) memcpy(v.data(), &file[at], n * 4ul);
		at += n * 4ul;
		auto w = want.find(v);
		if (w == want.end() || w->second == 0) return strf("has a list of %u documents (the first is %u) that no term has at any impact, or has it too often", n, n ? v[0] : 0);
		w->second--;
		seen++;
		}
	if (seen != lists) return strf("has %lu lists, there should be %lu", (unsigned long)seen, (unsigned long)lists);
	return "";
	}
static std::string wrong_forward(const Collection &c, const std::string &file, bool exact)
	{
	std::vector<std::map<std::string, uint32_t>> want(c.n());
	for (auto &t : c.terms) for (auto &p : t.second) want[p.doc][t.first] = p.impact;
	size_t at = 0;
	uint64_t previous = 0, documents = 0, full = 0;
	for (auto &w : want) if (!w.empty()) full++;
	while (at < file.size())
		{
		uint64_t id;
		if (!begins(file, at, "<DOC><DOCNO>")) return strf("has no document at byte %zu", at);
		at += 12;
		if (!number_at(file, at, id)) return strf("has no document number at byte %zu", at);
		if (id <= previous || id > c.n()) return strf("has document %lu after document %lu (of %u)", (unsigned long)id, (unsigned long)previous, c.n());
		previous = id;
		documents++;
		size_t e = file.find('>', at);
		if (file[at] != '<' || e == std::string::npos) return strf("has no end of a document number at byte %zu", at);
		at = e + 1;
		auto &terms = want[id - 1];
		while (!begins(file, at, "</DOC>\n") || terms.count("</DOC>\n"))
			{
			size_t colon = at;
			bool found = false;
			while ((colon = file.find(':', colon)) != std::string::npos && colon - at <= 1100)
				{
				auto w = terms.find(file.substr(at, colon - at));
				size_t after = ++colon;
				uint64_t impact;
				if (w == terms.end() || !number_at(file, after, impact) || file[after] != ' ') continue;
				if (!impact_is(impact, w->second, exact)) return strf("has '%s' in document %lu with impact %lu, it is %u", shown(w->first).c_str(), (unsigned long)id, (unsigned long)impact, w->second);
				terms.erase(w);
				at = after + 1;
				found = true;
				break;
				}
			if (!found) return strf("has '%s' in document %lu, which it is not in (or is in once)", shown(file.substr(at)).c_str(), (unsigned long)id);
			}
		at += 7;
		if (!terms.empty()) return strf("is without '%s' in document %lu", shown(terms.begin()->first).c_str(), (unsigned long)id);
		}
	if (documents != full) return strf("has %lu documents, %lu have terms", (unsigned long)documents, (unsigned long)full);
	return "";
	}
static std::string wrong_compiled(const Collection &c, const Files &files, bool exact)
	{
	auto get = [&](const char *n) -> const std::string & { static const std::string none; auto f = files.find(n); return f == files.end() ? none : f->second; };
	/* the functions */
	const std::string &post = get("JASS_postings.cpp"), open = "(query_heap &q)\n{\n";
	size_t at = post.find("void T_");
	std::set<std::string> seen;
	while (at < post.size())
		{
		if (!begins(post, at, "void T_")) return "JASS_postings.cpp has '" + shown(post.substr(at)) + "' where a function should start";
		size_t e = post.find(open, at += 7);
		if (e == std::string::npos) return "JASS_postings.cpp ends in the middle of a function";
		std::string term = post.substr(at, e - at);
		auto t = c.terms.find(term);
		if (t == c.terms.end() || !seen.insert(term).second) return "JASS_postings.cpp has a function for '" + shown(term) + "', which is not a term or has one already";
		at = e + open.size();
		size_t n = 0;
		for (; !begins(post, at, "}\n"); n++)
			{
			uint64_t doc, impact;
			if (!begins(post, at, "q.add_rsv(")) return "JASS_postings.cpp has '" + shown(post.substr(at)) + "' in the function of '" + shown(term) + "'";
			at += 10;
			if (!number_at(post, at, doc) || post[at++] != ',' || !number_at(post, at, impact) || !begins(post, at, ");\n")) return "JASS_postings.cpp has a broken line in the function of '" + shown(term) + "'";
			at += 3;
			if (n >= t->second.size() || doc != t->second[n].doc + 1 || !impact_is(impact, t->second[n].impact, exact)) return strf("JASS_postings.cpp has document %lu with %lu as posting %zu of '%s'", (unsigned long)doc, (unsigned long)impact, n, shown(term).c_str());
			}
		if (n != t->second.size()) return strf("JASS_postings.cpp has %zu postings of '%s', there are %zu", n, shown(term).c_str(), t->second.size());
		at += 2;
		}
	if (seen.size() != c.terms.size()) return strf("JASS_postings.cpp has %zu functions, there are %zu terms", seen.size(), c.terms.size());
	/* their declarations and the dictionary: one line for each term, whatever the order */
	const std::string &head = get("JASS_postings.h"), &vocab = get("JASS_vocabulary.cpp"), &keys = get("JASS_primary_keys.cpp");
	size_t hsize = 0, vsize = 0, hat = head.find("void T_"), vat = vocab.find("dictionary[] = {\n") + 17;			// usually they are in order
	for (auto &t : c.terms)
		{
		std::string h = "void T_" + t.first + "(query_heap &);\n", v = "{\"" + t.first + "\",T_" + t.first + "},\n";
		if (!begins(head, hat + hsize, h) && head.find("\n" + h) == std::string::npos) return "JASS_postings.h is without '" + shown(t.first) + "'";
		if (!begins(vocab, vat + vsize, v) && vocab.find("\n" + v) == std::string::npos) return "JASS_vocabulary.cpp is without '" + shown(t.first) + "'";
		hsize += h.size();
		vsize += v.size();
		}
	size_t h0 = head.find("void T_"), v0 = vocab.find("dictionary[] = {\n");
	if (h0 == std::string::npos || head.size() - h0 != hsize) return "JASS_postings.h has something else as well";
	std::string tail = strf("};\nuint64_t dictionary_length = %zu;\n", c.terms.size());
	if (v0 == std::string::npos || vocab.size() != v0 + 17 + vsize + tail.size() || !begins(vocab, v0 + 17 + vsize, tail)) return "JASS_vocabulary.cpp does not have exactly the terms, and then their number";
	/* the primary keys, in order; the list starts with a key for document 0, which does not exist */
	size_t k = keys.find("primary_key =\n{\n");
	if (k == std::string::npos) return "JASS_primary_keys.cpp has no list";
	std::string want;
	for (auto &x : c.keys) want += "\"" + x + "\",\n";
	want += "};\n";
	k += 16;
	if (keys.size() < k + want.size() || keys.compare(keys.size() - want.size(), want.size(), want) != 0) return "JASS_primary_keys.cpp does not end with exactly the primary keys in order";
	std::string first = keys.substr(k, keys.size() - want.size() - k);
	if (std::count(first.begin(), first.end(), '\n') > 1) return "JASS_primary_keys.cpp has more primary keys than there are documents";
	return "";
	}
static void c23(Run &run)
	{
	Rng &r = run.rng;
	bool tool = r.chance(0.3);
	std::string kinds;
	for (char k : {'i', 'c', 'f'}) if (r.chance(0.6)) kinds += k;
	if (kinds.empty()) kinds = "icf"[r.below(3)];
	if (r.chance(0.3)) kinds.insert(kinds.begin() + (long)r.below(kinds.size() + 1), r.chance(0.5) ? '1' : '2');
	PhaseOpt opt;
	opt.name = "export";
	opt.heap_seed = 1 + r.below(1000);
	opt.zero_heap = r.chance(0.1);
	opt.step_cap = 2000000000;
	opt.st_cap = 40000000000ULL;
	legal_io(r, opt.faults);
	Collection c;
	PhaseResult pr;
	bool exact = true;
	auto older = [&]() { for (const char *f : {"postings.bin", "JASS_forward.index", "JASS_postings.cpp", "JASS_postings.h", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp"}) if (r.chance(0.2)) disk_put(CWD + f, std::string(r.logu(1, 300000), 'z')); };
	if (tool)
		{
		int id = (int)r.below(run.thorough ? 2000 : 200);
		const ToolInput &t = tool_input(id);
		c = t.c;
		exact = t.exact;
		run.sample = "JASS_index: " + t.what + ", output " + kinds;
		disk_load(t.files);
		older();
		pr = run.tool(opt, command(t, kinds), program_jass_index_main());
		if (!run.fine(pr, "JASS_index")) return;
		if (pr.end != END_EXIT || pr.status != 0) { run.violate("wrong-end", "JASS_index ended with status %d", pr.status); return; }
		}
	else
		{
		c = random_collection(r, false);
		bool managed = r.chance(0.04), big = !managed && r.chance(0.05);
		if (big)
			{
			/* more than 16 bits of documents, postings of a term, or terms */
			uint32_t n = (uint32_t)r.range(65500, 100000);
			if (r.chance(0.5))
				{
				while (c.keys.size() < n) c.keys.push_back(strf("B%zu", c.keys.size()));
				uint32_t impact = (uint32_t)r.logu(1, 1024);
				auto &v = c.terms["all"];
				v.clear();
				for (uint32_t d = 0; d < c.n(); d++) v.push_back({d, r.chance(0.0001) ? impact + 1 : impact});
				}
			else for (uint32_t i = 0; i < n; i++) c.terms[strf("t%u", i)] = {{(uint32_t)r.below(c.n()), (uint32_t)r.logu(1, 1024)}};
			c.vocab.clear();
			for (auto &x : c.terms) c.vocab.push_back(x.first);
			}
		Documents docs;
		if (managed) docs = documents_of(r, c);
		run.sample = (managed ? "index manager: " : "serialisers: ") + kinds + ", " + text(c);
		older();
		pr = run.phase(opt, [&]() { if (managed) build_managed(c, docs, kinds); else build_direct(c, kinds); });
		if (!run.fine(pr, "export")) return;
		if (pr.end != END_RETURN) { run.violate("wrong-end", "exporting ended the program (status %d)", pr.status); return; }
		}
	run.nontrivial = true;
	run.state_sig = mix(mix(c.n(), c.terms.size()), std::hash<std::string>()(kinds) + tool);
	Files got = outputs(disk_all());
	std::string why;
	uint64_t p = 0;
	for (auto &x : c.terms) p += x.second.size();
	if (why.empty() && exact && kinds.find('i') != std::string::npos) { why = wrong_integers(c, got["postings.bin"]); if (!why.empty()) why = "postings.bin " + why; run.probe("integer dumps compared"); }
	if (why.empty() && kinds.find('f') != std::string::npos) { why = wrong_forward(c, got["JASS_forward.index"], exact); if (!why.empty()) why = "JASS_forward.index " + why; run.probe("forward indexes compared"); }
	if (why.empty() && kinds.find('c') != std::string::npos) { why = wrong_compiled(c, got, exact); run.probe("compiled indexes compared"); }
	if (!why.empty()) { run.violate("differs", "%s", why.c_str()); return; }
	run.probe("postings compared", p);
	run.evals = p;
	}
Register r23("C23", c23);
Register r07a("C07", c07_direct, 3), r07b("C07", c07_tool, 1);
Register r08a("C08", c08_direct, 4), r08b("C08", c08_tool, 1);
Register r09a("C09", c09_direct, 8), r09b("C09", c09_tool, 1);
Register r20("C20", c20);
Register r10a("C10", c10_direct, 2), r10b("C10", c10_tool, 1);
}
