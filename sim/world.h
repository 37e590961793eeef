/*
	world.h -- generated collections, the reference model of searching them, and indexes made from them by the real
	serialisers (shared by the search, load and program scenarios).
*/
#pragma once
#include "scn_util.h"
#include <algorithm>
#include <memory>

namespace scn
	{
	struct Posting { uint32_t doc; uint32_t impact; };			// doc counts from 0
	struct Collection
		{
		int id = 0;
		int version = 1;			// index version
		char codec = 'G';
		int align = 1;
		std::vector<std::string> keys;
		std::map<std::string, std::vector<Posting>> terms;
		std::vector<std::string> vocab;
		uint32_t n() const { return (uint32_t)keys.size(); }
		};

	inline std::string word(uint64_t x, bool digits)
		{
		std::string s;
		if (digits) { s = std::to_string(1 + x * 37); return s; }
		do { s += (char)('a' + x % 26); x /= 26; } while (x);
		return s + (char)('a' + s.size());
		}
	/* the collection with this number: always the same one */
	static const int BIG = 90;
	inline Collection make_collection(int id)
		{
		Rng r(mix(0x5EED0000 + (uint64_t)id, 77));
		Collection c;
		c.id = id;
		static const char codecs[] = {'G', 's', 'q', 'D', 'g'};
		static const uint32_t sizes[] = {40, 700, 7, 3000, 200, 1, 1500, 15, 90, 400, 2, 260};
		c.version = 1 + id % 2;
		c.codec = codecs[(id / 2 + id) % 5];
		c.align = (id % 3 == 0) ? 16 : 1;
		if (c.codec == 'q') { c.version = 1; c.align = 16; }		// QMX reads aligned: only version 1 can pad its segments
		uint32_t n = sizes[id % 12];
		bool big = id >= BIG;			// document numbers of more than 16 bits
		if (big) n = id == BIG + 4 ? 60 : id % 2 ? 70001 : 140000;
		int shape = (id / 3) % 4;
		static const uint32_t largest[] = {12, 60, 255, 1000};
		for (uint32_t i = 0; i < n; i++) c.keys.push_back(r.chance(0.1) ? strf("doc-%u-%s", i, std::string(r.below(30), 'k').c_str()) : strf("D%u", i * 7 + 3));
		size_t t = id == BIG + 4 ? 400 : big ? r.range(6, 12) : r.logu(2, 40);
		for (size_t k = 0; k < t; k++)
			{
			std::string w = word(k * 11 + r.below(5), r.chance(0.15));
			if (k == 0 && id % 3 == 1) w = "z";				// the last of the vocabulary, of one letter
			if (k == 1 && id % 4 == 2) w = "7";
			if (c.terms.count(w)) continue;
			uint32_t top = (uint32_t)(shape == 3 ? r.logu(2, largest[3]) : r.logu(1, largest[shape]));
			uint32_t df = (uint32_t)(r.chance(0.15) ? n : r.logu(1, n));
			int flat = (int)r.below(4);
			std::vector<Posting> v;
			for (uint32_t d = 0; d < n; d++)
				if (r.below(n) < df) v.push_back({d, flat == 0 ? top : flat == 1 ? (uint32_t)r.range(1, top) : (uint32_t)r.logu(1, top)});
			if (v.empty()) v.push_back({(uint32_t)r.below(n), top});
			c.terms[w] = v;
			}
		for (auto &x : c.terms) c.vocab.push_back(x.first);
		return c;
		}

	Files build_index(const Collection &c);			// CI*.bin as the real serialiser writes them (no directory)
	const Collection &collection(int id);				// cached
	const Files &index_files(int id);					// cached; only call before the run's first phase, with the disk empty

	/* ------------------------------------------------------------------ queries */
	inline bool is_sep(char c) { return c == ' ' || c == '\t' || c == ':'; }
	struct Query
		{
		std::string text;			// as submitted
		std::string id, body;	// as the engine splits it
		std::map<std::string, uint32_t> tf;
		};
	inline void split_query(const std::string &s, std::string &id, std::string &body)
		{
		size_t e = 0;
		while (e < s.size() && !is_sep(s[e])) e++;
		if (e == s.size()) { id = ""; body = s; return; }
		id = s.substr(0, e);
		size_t b = e;
		while (b < s.size() && is_sep(s[b])) b++;
		body = b == s.size() ? s.substr(e + 1) : s.substr(b);
		}
	/* what a query means: runs of letters or of digits, folded to lower case; or, unparsed, what stands between blanks */
	inline Query make_query(const std::string &text, bool raw)
		{
		Query q;
		q.text = text;
		split_query(text, q.id, q.body);
		const std::string &b = q.body;
		size_t i = 0;
		while (i < b.size())
			{
			size_t s = i;
			auto kind = [&](char ch) { return isalpha((unsigned char)ch) ? 1 : isdigit((unsigned char)ch) ? 2 : 0; };
			if (raw)
				{
				if (isspace((unsigned char)b[i])) { i++; continue; }
				while (i < b.size() && !isspace((unsigned char)b[i])) i++;
				q.tf[b.substr(s, i - s)]++;
				}
			else
				{
				int k = kind(b[i]);
				if (!k) { i++; continue; }
				while (i < b.size() && kind(b[i]) == k) i++;
				std::string w = b.substr(s, i - s);
				for (auto &ch : w) ch = (char)tolower((unsigned char)ch);
				q.tf[w]++;
				}
			}
		return q;
		}
	/* the text of a random query over the collection; the same (collection, number) always gives the same body */
	inline std::string query_body(const Collection &c, int number)
		{
		Rng r(mix(0x9E37 + (uint64_t)c.id, (uint64_t)number + 1));
		std::string s;
		size_t n = r.chance(0.1) ? r.logu(8, 40) : r.logu(1, 7);
		if (r.chance(0.03)) return "";
		if (r.chance(c.id == BIG + 4 ? 0.5 : 0.016))
			{
			/* long: one term hundreds of times, or hundreds of terms few of which are in the index */
			bool same = r.chance(0.5);
			std::string often = c.vocab[r.below(c.vocab.size())];
			if (r.chance(0.5))
				{
				uint32_t most = 0;			// the term of the largest impact
				for (auto &x : c.terms) for (auto &p : x.second) if (p.impact > most) { most = p.impact; often = x.first; }
				}
			n = same ? (size_t)r.range(200, 700) : (size_t)r.range(150, 700);
			for (size_t i = 0; i < n; i++)
				{
				if (i) s += ' ';
				if (same) s += r.chance(0.99) ? often : c.vocab[r.below(c.vocab.size())];
				else s += r.chance(c.id == BIG + 4 ? 0.95 : 0.005) ? c.vocab[r.below(c.vocab.size())] : "zz" + word(i, false) + "zz";
				}
			return s;
			}
		std::vector<std::string> used;
		for (size_t i = 0; i < n; i++)
			{
			std::string w;
			double p = r.unit();
			if (p < 0.06) w = "zz" + word(r.below(1000), false) + "zz";
			else if (p < 0.1)
				{
				/* the neighbour of a term in the vocabulary, usually not a term itself */
				w = c.vocab[r.below(c.vocab.size())];
				bool digits = isdigit((unsigned char)w[0]);
				int how = (int)r.below(4);
				if (how == 0) w += (char)(digits ? '0' + r.below(10) : 'a' + r.below(26));
				else if (how == 1 && w.size() > 1) w.pop_back();
				else if (how == 2) w.back() = (char)(digits ? '0' + r.below(10) : w.back() == 'z' ? 'y' : w.back() + 1);
				else w[0] = (char)(digits ? '1' + r.below(9) : w[0] == 'a' ? 'b' : w[0] - 1);
				}
			else if (p < 0.2 && !used.empty()) w = used[r.below(used.size())];
			else w = c.vocab[r.below(c.vocab.size())];
			used.push_back(w);
			if (i) { static const char *gap[] = {" ", "  ", "\t", " "}; s += gap[r.below(4)]; }
			s += w;
			}
		return s;
		}
	/* decoration that a parsed query ignores */
	inline std::string decorate(Rng &r, const std::string &s, bool raw)
		{
		if (raw) return s;
		std::string o;
		bool up = r.chance(0.3), dots = r.chance(0.2);
		for (char ch : s) { o += up ? (char)toupper((unsigned char)ch) : ch; if (dots && ch == ' ') o += r.chance(0.5) ? ", " : "-"; }
		return o;
		}

	/* ------------------------------------------------------------------ the reference model */
	struct Scored { uint32_t doc; uint32_t score; };
	struct Segment { uint32_t impact; std::vector<uint32_t> docs; };
	struct Truth
		{
		std::vector<Scored> all;			// matching documents, best first
		uint64_t largest = 0;				// highest possible sum
		uint64_t postings = 0;
		uint32_t terms = 0;					// distinct terms of the query that are in the index
		std::vector<Segment> segments;	// in processing order
		bool exact() const { return largest <= 255; }
		};
	inline std::vector<Scored> rank(const std::map<uint32_t, uint32_t> &acc)
		{
		std::vector<Scored> v;
		for (auto &x : acc) if (x.second) v.push_back({x.first, x.second});
		std::sort(v.begin(), v.end(), [](const Scored &a, const Scored &b) { return a.score != b.score ? a.score > b.score : a.doc > b.doc; });
		return v;
		}
	inline Truth evaluate(const Collection &c, const Query &q)
		{
		Truth t;
		std::map<uint32_t, uint32_t> acc;
		for (auto &x : q.tf)
			{
			auto f = c.terms.find(x.first);
			if (f == c.terms.end()) continue;
			t.terms++;
			std::map<uint32_t, std::vector<uint32_t>> seg;
			for (auto &p : f->second) { acc[p.doc] += p.impact * x.second; seg[p.impact * x.second].push_back(p.doc); }
			for (auto &s : seg) t.segments.push_back({s.first, s.second});
			t.largest += seg.rbegin()->first;
			t.postings += f->second.size();
			}
		t.all = rank(acc);
		std::stable_sort(t.segments.begin(), t.segments.end(), [](const Segment &a, const Segment &b) { return a.impact != b.impact ? a.impact > b.impact : a.docs.size() < b.docs.size(); });
		return t;
		}
	/* with a limit on postings: how many are processed, and (unless the cut falls among equals) what is accumulated */
	struct Limited { uint64_t processed; bool unambiguous; std::vector<Scored> all; };
	inline Limited limited(const Truth &t, uint64_t limit)
		{
		Limited l{0, true, {}};
		std::map<uint32_t, uint32_t> acc;
		size_t i = 0;
		for (; i < t.segments.size(); i++)
			{
			if (l.processed + t.segments[i].docs.size() > limit) break;
			l.processed += t.segments[i].docs.size();
			for (uint32_t d : t.segments[i].docs) acc[d] += t.segments[i].impact;
			}
		if (i > 0 && i < t.segments.size() && t.segments[i].impact == t.segments[i - 1].impact && t.segments[i].docs.size() == t.segments[i - 1].docs.size()) l.unambiguous = false;
		l.all = rank(acc);
		return l;
		}

	/* ------------------------------------------------------------------ results */
	struct Line { std::string qid, key; uint32_t rank, score, doc; };
	inline bool parse_lines(const std::string &s, std::vector<Line> &out, std::string &why)
		{
		size_t i = 0;
		while (i < s.size())
			{
			size_t e = s.find('\n', i);
			if (e == std::string::npos) { why = "the last line of a result list is not ended"; return false; }
			std::string l = s.substr(i, e - i);
			i = e + 1;
			size_t q = l.find(" Q0 ");
			Line x;
			if (q == std::string::npos) { why = "malformed result line: " + l.substr(0, 100); return false; }
			x.qid = l.substr(0, q);
			char key[256], name[64];
			uint32_t again;
			if (sscanf(l.c_str() + q + 4, "%255s %u %u %63[^(](ID:%u->%u)", key, &x.rank, &x.score, name, &x.doc, &again) != 6 || again != x.score)
				{ why = "malformed result line: " + l.substr(0, 100); return false; }
			x.key = key;
			out.push_back(x);
			}
		return true;
		}
	/* form shared by every result list: ranks count up, scores do not rise, documents are distinct and carry their own keys */
	inline bool well_formed(const Collection &c, const Query &q, const std::vector<Line> &v, size_t k, std::string &why)
		{
		std::set<uint32_t> seen;
		if (v.size() > k) { why = strf("%zu results where at most %zu were asked for", v.size(), k); return false; }
		for (size_t i = 0; i < v.size(); i++)
			{
			if (v[i].qid != q.id) { why = "a result line carries the query id '" + v[i].qid + "'"; return false; }
			if (v[i].rank != i + 1) { why = strf("result %zu carries rank %u", i + 1, v[i].rank); return false; }
			if (v[i].doc >= c.n()) { why = strf("document number %u of %u is reported", v[i].doc, c.n()); return false; }
			if (v[i].key != c.keys[v[i].doc]) { why = strf("document %u is reported as '%s', its key is '%s'", v[i].doc, v[i].key.c_str(), c.keys[v[i].doc].c_str()); return false; }
			if (!seen.insert(v[i].doc).second) { why = strf("document %u is reported twice", v[i].doc); return false; }
			if (i && (v[i].score > v[i - 1].score || (v[i].score == v[i - 1].score && v[i].doc > v[i - 1].doc))) { why = strf("results %zu and %zu are out of order", i, i + 1); return false; }
			}
		return true;
		}
	inline bool same_ranking(const std::vector<Scored> &want, const std::vector<Line> &got, size_t k, std::string &why)
		{
		size_t n = std::min(k, want.size());
		if (got.size() != n) { why = strf("%zu results, there should be %zu", got.size(), n); return false; }
		for (size_t i = 0; i < n; i++)
			if (got[i].doc != want[i].doc || got[i].score != want[i].score)
				{ why = strf("result %zu is document %u with score %u, it should be document %u with score %u", i + 1, got[i].doc, got[i].score, want[i].doc, want[i].score); return false; }
		return true;
		}
	/* scores are scaled to fit: the order is that of the true scores, up to the rounding of each term */
	inline bool scaled_ranking(const Truth &t, const std::vector<Line> &got, size_t k, std::string &why)
		{
		std::map<uint32_t, uint32_t> acc;
		for (auto &s : t.all) acc[s.doc] = s.score;
		size_t n = std::min(k, t.all.size());
		bool crowded = t.terms >= 255;			// not even 1 for each: rounded down, what comes to nothing is dropped
		if (crowded ? got.size() > n : got.size() != n) { why = strf("%zu results, there should be %zu", got.size(), n); return false; }
		double unit = (crowded ? 255.0 : 255.0 - t.terms) / (double)t.largest, slack = crowded ? 0.001 : t.terms + 1.0, under = crowded ? t.terms : 0.001;
		uint32_t lowest = 1u << 30;
		std::set<uint32_t> in;
		for (auto &l : got)
			{
			if (!acc.count(l.doc)) { why = strf("document %u matches no term of the query", l.doc); return false; }
			double s = acc[l.doc] * unit;
			if (l.score + under < s || l.score > s + slack) { why = strf("document %u has score %u, its scaled sum is %.2f (+%u)", l.doc, l.score, s, t.terms); return false; }
			lowest = std::min(lowest, l.score);
			in.insert(l.doc);
			}
		if (!got.empty())
			for (auto &s : t.all)
				if (!in.count(s.doc) && s.score * unit > lowest + under) { why = strf("document %u (scaled sum %.2f) is missing, the last result has score %u", s.doc, s.score * unit, lowest); return false; }
		return true;
		}
	}
