/*
	scn_stream.cpp -- input: C15 (documents do not depend on how the bytes arrive), C16 (files, compressed files and
	directories are read once and completely), C17 (channels: lines in, text out).
*/
#include "scn_util.h"
#include <zlib.h>
#include <string.h>
#include <errno.h>
#include "instream_memory.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "instream_deflate.h"
#include "instream_directory_iterator.h"
#include "instream_document_trec.h"
#include "instream_document_fasta.h"
#include "instream_document_warc.h"
#include "instream_document_unicoil_json.h"
#include "channel_file.h"
#include "channel_buffer.h"
using namespace scn;

namespace
{
/* ------------------------------------------------------------------ sources */
static std::string pack(const std::string &s, int bits, int level = 6, size_t comment = 0)			// one compressed member; bits 31: gzip, 15: zlib
	{
	z_stream z;
	memset(&z, 0, sizeof(z));
	deflateInit2(&z, level, Z_DEFLATED, bits, 8, Z_DEFAULT_STRATEGY);
	std::string note(comment, 'c');
	gz_header head;
	memset(&head, 0, sizeof(head));
	head.os = 3;
	if (comment) { head.comment = (Bytef *)&note[0]; deflateSetHeader(&z, &head); }
	std::string out(deflateBound(&z, s.size()) + 100 + comment, 0);
	z.next_in = (Bytef *)s.data();
	z.avail_in = (uInt)s.size();
	z.next_out = (Bytef *)&out[0];
	z.avail_out = (uInt)out.size();
	deflate(&z, Z_FINISH);
	out.resize(out.size() - z.avail_out);
	deflateEnd(&z);
	return out;
	}
/* hands out the bytes in pieces of its own choosing, never more than asked for */
class pieces : public JASS::instream
	{
	public:
		const std::string &data;
		size_t at = 0;
		uint64_t longest;
		Rng rng;
		uint64_t calls = 0;
		pieces(const std::string &data, uint64_t longest, uint64_t seed) : data(data), longest(longest), rng(seed) {}
		virtual void read(JASS::document &into)
			{
			Quiet q;
			size_t n = std::min(into.contents.size(), data.size() - at);
			if (longest && n) n = std::min<size_t>(n, longest == 1 ? 1 : longest >= 50000 ? 1 + rng.below(longest) : rng.logu(1, longest));
			if (++calls > data.size() + 10000000) violate("no-progress", "the source is read for ever");
			if (n) memcpy(into.contents.address(), data.data() + at, n);
			at += n;
			into.contents.resize(n);
			}
	};
/* passes reads on and remembers what arrived */
class tee : public JASS::instream
	{
	public:
		std::string *seen;
		tee(std::shared_ptr<JASS::instream> &from, std::string *seen) : JASS::instream(from), seen(seen) {}
		virtual void read(JASS::document &into)
			{
			void *where = into.contents.address();
			size_t asked = into.contents.size();
			source->read(into);
			Quiet q;
			if (into.contents.size() > asked) violate("too-much", "%zu bytes are asked for, %zu are returned", asked, into.contents.size());
			if (into.contents.size()) { if (into.contents.address() != where) violate("wrong-place", "the bytes are returned somewhere else than asked for"); seen->append((char *)where, into.contents.size()); }
			}
	};

/* ------------------------------------------------------------------ C15 */
enum Format { TREC, FASTA, UNICOIL, WARC };
static const char *format_name[] = {"TREC", "FASTA", "uniCOIL", "WARC"};
struct Doc { std::string key, contents; size_t end; };			// end: the offset at which the document is complete
struct Stream { Format format; std::string bytes; std::vector<Doc> docs; bool regular; };

static std::string letters(Rng &r, size_t n, const char *from)
	{
	std::string s(n, 0);
	size_t k = strlen(from);
	for (size_t i = 0; i < n; i++) s[i] = from[r.below(k)];
	return s;
	}
static Stream make_stream(Rng &r, bool thorough)
	{
	Stream s;
	s.format = (Format)r.below(4);
	s.regular = r.chance(0.85);
	size_t n = r.chance(0.05) ? 0 : r.logu(1, 40);
	uint64_t longest = r.chance(0.15) ? 40000 : r.chance(0.3) ? 20 : 1500;
	bool huge = r.chance(0.02);			// a document larger than the largest internal buffer that starts small
	std::string &b = s.bytes;
	size_t big = r.below(n ? n : 1);
	for (size_t d = 0; d < n; d++)
		{
		size_t len = r.chance(0.1) ? 0 : r.logu(1, longest);
		if (huge && d == big) len = s.format == UNICOIL ? (size_t)r.logu(900000, thorough ? 6000000 : 3000000) : (size_t)r.logu(50000, 400000);
		Doc x;
		switch (s.format)
			{
			case TREC:
				{
				if (d == 0 || r.chance(0.7)) b += letters(r, r.chance(0.7) ? r.below(3) : r.below(200), "\n \nx<DOC/");
				while (!b.empty() && b.find("<DOC>", b.size() > 20 ? b.size() - 20 : 0) != std::string::npos && (s.docs.empty() || b.find("<DOC>", b.size() > 20 ? b.size() - 20 : 0) >= s.docs.back().end)) b[b.find("<DOC>", b.size() > 20 ? b.size() - 20 : 0)] = 'x';
				std::string body;
				std::string key = r.chance(0.05) ? "" : strf("WSJ%04lu-%zu", (unsigned long)r.below(10000), d) + (r.chance(0.1) ? " part two" : "");
				std::string text = letters(r, len, "abc def\nxyz <>/&DOCN");
				for (const char *tag : {"<DOC>", "</DOC>", "<DOCNO>", "</DOCNO>"}) for (size_t p; (p = text.find(tag)) != std::string::npos;) text[p] = '.';
				bool no_key = r.chance(0.05);
				static const char *space[] = {"", " ", "\n", " \n\t "};
				body = "<DOC>" + std::string(r.below(3), '\n');
				bool late = r.chance(0.1);
				std::string field = no_key ? "" : std::string("<DOCNO>") + space[r.below(4)] + key + space[r.below(4)] + "</DOCNO>";
				body += late ? text + "." + field + "\n" : field + "\n" + text + (r.chance(0.5) ? "\n" : ".");
				body += "</DOC>";
				x.key = no_key ? "Unknown" : key;
				x.contents = body;
				b += body;
				break;
				}
			case FASTA:
				{
				if (d == 0 && r.chance(0.2)) b += letters(r, r.below(100), "\n ;ACGT");
				std::string key = ">" + letters(r, r.chance(0.1) ? 0 : r.logu(1, 60), "NR_0123456789. >|x");
				while (!key.empty() && isspace((unsigned char)key.back())) key.pop_back();
				std::string text = letters(r, len, r.chance(0.5) ? "ACGTacgtN\n" : "ACGTN");
				if (r.chance(0.02)) text += ">";			// not at the start of a line
				for (size_t p; (p = text.find("\n>")) != std::string::npos;) text[p + 1] = 'A';
				if (!text.empty() && text[0] == '>') text[0] = 'A';
				std::string trail = r.chance(0.1) ? std::string(r.below(4), ' ') : "";
				bool last = d + 1 == n, bare = last && r.chance(0.3);
				x.key = key;
				x.contents = key + trail + "\n" + text + (bare ? "" : "\n");
				if (last && r.chance(0.1)) { x.contents = key; }			// a header line alone, without its line end
				b += x.contents;
				break;
				}
			case UNICOIL:
				{
				if (r.chance(0.15)) b += std::string(r.below(3), '\n');
				std::string key = strf("%lu", (unsigned long)r.below(10000000));
				std::string vec;
				while (vec.size() < len) vec += (vec.empty() ? "\"" : ", \"") + letters(r, r.logu(1, 20), "abcdefgh#\\") + "\": " + std::to_string(r.logu(1, 255));
				for (size_t p; (p = vec.find("\\\"")) != std::string::npos;) vec[p] = 'q';
				std::string text = letters(r, r.below(60), "abc xyz.,:0123");
				x.key = key;
				x.contents = vec;
				b += "{\"id\": \"" + key + "\", \"contents\": \"" + text + "\", \"vector\": {" + vec + "}}";
				if (d + 1 < n || r.chance(0.7)) b += "\n";
				else x.contents += "}}";			// the reader leaves the closing braces of a last line without a line end
				break;
				}
			case WARC:
				{
				if (d == 0 || r.chance(0.2)) b += "WARC/1.0\nWARC-Type: warcinfo\nWARC-Date: 2012-02-10T21:42:47Z\nContent-Length: 20\n\nsoftware: some robot\n\n\n";
				std::string key = strf("clueweb12-%04luwb-%02zu-%05lu", (unsigned long)r.below(2000), d, (unsigned long)r.below(50000));
				std::string extra;
				int lines = (int)r.below(4);
				for (int i = 0; i < lines; i++)
					{
					size_t uri = r.chance(0.15) ? (size_t)r.range(8180, 8200) : r.chance(0.05) ? (size_t)r.range(8192, 20000) : (size_t)r.logu(1, 100);
					std::string name = r.chance(0.5) ? "WARC-Target-URI: " : "WARC-Payload: ";
					extra += name + std::string(uri > name.size() ? uri - name.size() : 1, 'u') + "\n";
					}
				std::string body = letters(r, len, "abc\n:WARCT-EID xyz0Content-Length");
				for (const char *tag : {"WARC-TREC-ID", "Content-Length"}) for (size_t p; (p = body.find(tag)) != std::string::npos;) body[p] = '.';
				b += "WARC/1.0\n";
				bool before = r.chance(0.5);
				if (before) b += extra;
				b += "WARC-TREC-ID:" + std::string(r.below(3), ' ') + key + "\n";
				if (!before) b += extra;
				b += "Content-Length: " + std::to_string(body.size()) + "\n";
				size_t from = b.size();
				b += "\n" + body + "\n\n";
				x.key = key;
				x.contents = b.substr(from, body.size());
				x.end = from + body.size();
				s.docs.push_back(x);
				continue;
				}
			}
		x.end = b.size();
		if (s.format == FASTA) x.end = b.size() + 1;			// known to be complete only when the next one starts, or at the end of the stream
		s.docs.push_back(x);
		}
	if (s.format == TREC && r.chance(0.3)) b += letters(r, r.below(50), "\n <DOC");
	if (s.format == TREC && b.find("<DOC>", s.docs.empty() ? 0 : s.docs.back().end) != std::string::npos) s.regular = false;
	if (s.format == UNICOIL && r.chance(0.1) && !b.empty() && b.back() == '\n') b += "\n";
	if (!s.regular && !b.empty())
		{
		/* not what the format says any more: only the independence of the pieces is left to check */
		int edits = (int)r.range(1, 4);
		for (int i = 0; i < edits; i++)
			{
			size_t p = r.below(b.size()), k = r.logu(1, 30);
			static const char *bits[] = {"<DOC>", "</DOC>", "<DOCNO>", "</DOCNO>", ">", "\n>", "{\"id\":", "\"id\": \"", "\"vector\": {", "}}\n", "}}", "\"", "WARC-TREC-ID:", "\n", "WARC-TREC-ID: a\nContent-Length: 3\n", " ", "<"};
			if (r.chance(0.4)) b.erase(p, k);
			else if (r.chance(0.5)) b.insert(p, bits[r.below(17)]);
			else if (r.chance(0.5)) b += bits[r.below(17)];
			else b.replace(p, 1, bits[r.below(17)]);
			if (b.empty()) b = ">";
			}
		s.docs.clear();
		}
	return s;
	}
class small_trec : public JASS::instream_document_trec { public: small_trec(std::shared_ptr<JASS::instream> &s, size_t n) : instream_document_trec(s, n, "DOC", "DOCNO") {} };
class small_fasta : public JASS::instream_document_fasta { public: small_fasta(std::shared_ptr<JASS::instream> &s, size_t n) : instream_document_fasta(s, n) {} };
static std::shared_ptr<JASS::instream> reader(Format f, std::shared_ptr<JASS::instream> &source, size_t buffer)
	{
	switch (f)
		{
		case TREC: return std::shared_ptr<JASS::instream>(buffer ? (JASS::instream *)new small_trec(source, buffer) : new JASS::instream_document_trec(source));
		case FASTA: return std::shared_ptr<JASS::instream>(buffer ? (JASS::instream *)new small_fasta(source, buffer) : new JASS::instream_document_fasta(source));
		case UNICOIL: return std::shared_ptr<JASS::instream>(new JASS::instream_document_unicoil_json(source));
		default: return std::shared_ptr<JASS::instream>(new JASS::instream_document_warc(source));
		}
	}
/* read every document, as the indexer does, and report them */
static void read_all(Out &o, JASS::instream &from, size_t bound)
	{
	JASS::document doc;
	size_t n = 0;
	for (;;)
		{
		doc.rewind();
		from.read(doc);
		if (doc.isempty() && doc.primary_key.size() == 0) break;
		if (++n > bound) violate("no-end", "more documents come out (%zu) than the input has bytes", n);
		/* the identifier and the contents must be readable: instrumented code looks at every byte */
		std::string key((char *)doc.primary_key.address(), doc.primary_key.size()), contents((char *)doc.contents.address(), doc.contents.size());
		Quiet q;
		o.u(1).str(key).str(contents);
		}
	o.u(0);
	for (int again = 0; again < 2; again++)
		{
		doc.rewind();
		from.read(doc);
		if (!doc.isempty()) violate("after-the-end", "a document comes out after the end");
		}
	}
static bool parse_docs(In &in, std::vector<Doc> &out)
	{
	while (in.u() == 1 && !in.bad) { Doc d; d.key = in.str(); d.contents = in.str(); d.end = 0; out.push_back(d); }
	return !in.bad;
	}
static std::string brief(const std::string &s) { std::string t = s.size() > 60 ? s.substr(0, 28) + "..." + s.substr(s.size() - 28) : s; for (auto &c : t) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '~'; return strf("%zu bytes '", s.size()) + t + "'"; }

static void c15(Run &run)
	{
	Rng &r = run.rng;
	Stream s = make_stream(r, run.thorough);
	/* what of it arrives */
	std::string data = s.bytes;
	bool cut = r.chance(0.35);
	if (cut) data.resize(r.chance(0.5) || s.docs.empty() ? r.below(data.size() + 1) : std::min<size_t>(data.size(), (size_t)std::max<int64_t>(0, (int64_t)r.pick(s.docs).end + r.range(-12, 3))));
	static const uint64_t longs[] = {0, 1, 2, 7, 60, 500, 5000, 100000};
	uint64_t longest = longs[r.below(8)];
	if (data.size() > 100000 && longest) longest = 50000 + r.below(1000000);
	size_t buffer = r.chance(0.15) ? 0 : r.chance(0.3) ? (size_t)r.range(1, 16) : (size_t)r.logu(1, 3000);
	if (data.size() > 100000 && buffer && buffer < 5000) buffer = 20000;
	uint64_t piece_seed = r.next();
	int via = (int)r.below(4);			// pieces, a file, a compressed file, a directory of compressed and plain files
	if (s.format == WARC && data.size() > 60000 && via == 0) longest = 0;
	PhaseOpt opt;
	opt.name = "read";
	opt.heap_seed = 1 + r.below(1000);
	bool damage = false;
	std::string source = "/sim/in/docs";
	if (via)
		{
		if (via == 1) disk_put("/sim/in/docs", data);
		else if (via == 2)
			{
			std::string z;
			int members = r.chance(0.6) ? 1 : (int)r.range(2, 5);
			for (int i = 0; i < members; i++) { size_t a = data.size() * (size_t)i / (size_t)members, e = data.size() * (size_t)(i + 1) / (size_t)members; z += pack(data.substr(a, e - a), r.chance(0.8) ? 31 : 15, (int)r.range(0, 9)); }
			disk_put("/sim/in/docs", z);
			}
		else
			{
			/* one file: the order of several is the directory's business, and C16's */
			bool z = r.chance(0.5);
			source = "/sim/in";
			disk_put(z ? "/sim/in/docs.gz" : "/sim/in/docs", z ? pack(data, 31) : data);
			}
		if (r.chance(0.6)) { opt.faults.p_short_read = r.unit(); if (r.chance(0.4) && data.size() < 20000) opt.faults.chunk = r.logu(1, 2000); }
		if (r.chance(0.25))
			{
			Hard h;
			h.op = OP_READ;
			h.nth = (uint32_t)r.below(r.chance(0.5) ? 3 : 12);
			h.kind = F_ERR;
			h.arg = EIO;
			h.persistent = true;
			opt.faults.hard.push_back(h);
			damage = true;
			}
		}
	run.sample = strf("%s, %zu documents%s, %zu of %zu bytes, through %s, buffer %zu", format_name[s.format], s.docs.size(), s.regular ? "" : " (irregular)", data.size(), s.bytes.size(), via == 0 ? "pieces" : via == 1 ? "a file" : via == 2 ? "a compressed file" : "a directory", buffer);
	run.nontrivial = s.docs.size() > 1 || !s.regular;
	run.state_sig = mix(mix((uint64_t)s.format * 64 + (uint64_t)via * 16 + (uint64_t)cut * 8, longest), mix(buffer, s.docs.size()));
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::string seen;
		{
		std::shared_ptr<JASS::instream> from;
		if (via == 0) from.reset(new pieces(data, longest, piece_seed));
		else if (via == 3) from.reset(new JASS::instream_directory_iterator(source));
		else
			{
			from.reset(new JASS::instream_file(source));
			if (via == 2) from = std::shared_ptr<JASS::instream>(new JASS::instream_deflate(from));
			}
		std::shared_ptr<JASS::instream> watch(new tee(from, &seen));
		std::shared_ptr<JASS::instream> docs = reader(s.format, watch, buffer);
		Out o;
		read_all(o, *docs, data.size() + 2);
		Quiet q;
		o.str(seen);
		if (!s.regular)
			{
			/* the same bytes in one piece */
			Out whole;
			Quiet *noisy = &q;
			(void)noisy;
			o.send();
			}
		else o.send();
		}
		if (!s.regular)
			{
			std::shared_ptr<JASS::instream> from(new pieces(seen, 0, 1));
			std::shared_ptr<JASS::instream> docs = reader(s.format, from, 0);
			Out o;
			read_all(o, *docs, data.size() + 2);
			Quiet q;
			o.send();
			}
		});
	if (!run.fine(pr, "read")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "reading ended the program with status %d", pr.status); return; }
	In in(pr.out);
	std::vector<Doc> got;
	if (!parse_docs(in, got)) { run.violate("wrong-end", "reading did not finish"); return; }
	std::string seen = in.str();
	if (!damage && seen.size() != data.size()) { run.violate("source", "%zu of %zu bytes were taken from the source", seen.size(), data.size()); return; }
	if (data.compare(0, seen.size(), seen) != 0) { run.violate("source", "the bytes delivered are not those of the file"); return; }
	run.evals = got.size() + 1;
	if (!s.regular)
		{
		std::vector<Doc> want;
		parse_docs(in, want);
		for (size_t i = 0; i < got.size() || i < want.size(); i++)
			if (i >= got.size() || i >= want.size() || got[i].key != want[i].key || got[i].contents != want[i].contents)
				{
				run.violate("depends-on-pieces", "document %zu of the stream is %s; when the stream arrives at once it is %s", i + 1, i < got.size() ? (brief(got[i].key) + " " + brief(got[i].contents)).c_str() : "missing", i < want.size() ? (brief(want[i].key) + " " + brief(want[i].contents)).c_str() : "not there");
				return;
				}
		for (auto &d : got)
			if (seen.find(d.contents) == std::string::npos || (d.key != "Unknown" && d.key != "AnonymousDocument" && seen.find(d.key) == std::string::npos)) { run.violate("invented", "document %s %s is not part of the input", brief(d.key).c_str(), brief(d.contents).c_str()); return; }
		run.probe("irregular streams compared");
		return;
		}
	bool all = seen.size() == s.bytes.size();
	size_t complete = 0;
	while (complete < s.docs.size() && (all || s.docs[complete].end <= seen.size())) complete++;
	for (size_t i = 0; i < complete; i++)
		{
		if (i >= got.size()) { run.violate("lost", "%zu documents are complete, %zu came out", complete, got.size()); return; }
		if (got[i].key != s.docs[i].key) { run.violate("identifier", "document %zu has identifier %s, it should be %s", i + 1, brief(got[i].key).c_str(), brief(s.docs[i].key).c_str()); return; }
		if (got[i].contents != s.docs[i].contents) { run.violate("contents", "document %zu is %s, it should be %s", i + 1, brief(got[i].contents).c_str(), brief(s.docs[i].contents).c_str()); return; }
		}
	size_t extra = got.size() - complete;
	if (extra > (all ? 0 : 1)) { run.violate("invented", "%zu documents are complete, %zu came out; the first of the others is %s", complete, got.size(), brief(got[complete].contents).c_str()); return; }
	if (extra)
		{
		Doc &d = got[complete];
		size_t from = complete ? (s.format == FASTA ? s.docs[complete - 1].end - 1 : s.docs[complete - 1].end) : 0;
		std::string rest = seen.substr(std::min(from, seen.size()));
		if (rest.find(d.contents) == std::string::npos || (d.key != "Unknown" && d.key != "AnonymousDocument" && rest.find(d.key) == std::string::npos)) { run.violate("invented", "the part of a document at the end of a cut stream, %s %s, is not in the input", brief(d.key).c_str(), brief(d.contents).c_str()); return; }
		run.probe("parts of documents at a cut");
		}
	run.probe("documents compared", complete);
	if (!all) run.probe("cut streams");
	}
Register r15("C15", c15);

/* ------------------------------------------------------------------ C16 */
struct InFile { std::string name, raw, content; bool bad; };
static bool decompose(const std::string &out, size_t at, std::vector<const InFile *> &left)
	{
	if (at == out.size())
		{
		for (auto f : left) if (f && !f->bad && !f->content.empty()) return false;
		return true;
		}
	for (auto &slot : left)
		{
		if (!slot || slot->content.empty()) continue;
		const InFile *f = slot;
		size_t next = out.find('[', at + 1);
		size_t len = (next == std::string::npos ? out.size() : next) - at;
		if (!(f->bad ? len <= f->content.size() : len == f->content.size()) || out.compare(at, len, f->content, 0, len) != 0) continue;
		slot = nullptr;
		if (decompose(out, at + len, left)) return true;
		slot = f;
		}
	return false;
	}
static void c16(Run &run)
	{
	Rng &r = run.rng;
	int shape = (int)r.below(5);			// a directory (twice as often), a file, a compressed file, standard input
	size_t n = shape <= 1 ? (size_t)r.below(7) : 1;
	std::vector<InFile> files;
	uint64_t total = 0;
	static const char *names[] = {"part%zu.gz", "part%zu.json.gz", "part%zu", "x.gz.%zu", "%zu.txt", "p.%zu.gz"};
	for (size_t i = 0; i < n; i++)
		{
		InFile f;
		f.bad = false;
		f.name = strf(names[r.below(6)], i);
		size_t len = r.chance(0.15) ? 0 : r.chance(0.05) ? r.logu(100000, 400000) : r.logu(1, 5000);
		if (len) { f.content = strf("[%zu:", i); f.content += letters(r, len, "abcdefgh 0123\n\\{}\""); }
		total += f.content.size();
		bool z = shape == 3 || (shape <= 1 && f.name.size() > 3 && f.name.compare(f.name.size() - 3, 3, ".gz") == 0);
		if (shape == 4 && r.chance(0.3)) z = false;
		f.raw = f.content;
		if (z)
			{
			f.raw.clear();
			int members = r.chance(0.6) ? 1 : (int)r.range(2, 6);
			std::vector<size_t> cuts;
			for (int k = 1; k < members; k++) cuts.push_back(r.below(f.content.size() + 1));
			cuts.push_back(0);
			cuts.push_back(f.content.size());
			std::sort(cuts.begin(), cuts.end());
			bool zlib = r.chance(0.2);
			/* now and then a member ends at, or next to, the end of a block read from the file */
			size_t pad = members > 1 && r.chance(0.06) ? (size_t)((10 << 20) + (r.chance(0.5) ? 0 : r.range(-14, 80))) : 0;
			if (pad) zlib = false;
			for (size_t k = 1; k < cuts.size(); k++)
				{
				std::string part = f.content.substr(cuts[k - 1], cuts[k] - cuts[k - 1]);
				int level = (int)r.range(0, 9);
				std::string m = pack(part, zlib ? 15 : 31, level);
				if (pad && k + 1 < cuts.size() && (k + 2 == cuts.size() || r.chance(0.5)) && f.raw.size() + m.size() + 1 < pad) { m = pack(part, 31, level, pad - f.raw.size() - m.size() - 1); pad = 0; }
				f.raw += m;
				}
			if (r.chance(0.1)) { f.raw.resize(r.below(f.raw.size())); f.bad = true; }
			if (r.chance(0.05)) { f.raw.clear(); f.content.clear(); f.bad = false; }			// an empty file: nothing compressed, nothing lost
			}
		files.push_back(f);
		}
	PhaseOpt opt;
	opt.name = "read";
	opt.heap_seed = 1 + r.below(1000);
	opt.faults.shuffle_dirs = r.chance(0.8);
	if (r.chance(0.6)) { opt.faults.p_short_read = r.unit(); if (r.chance(0.4) && total < 20000) opt.faults.chunk = r.logu(1, 2000); }
	std::string broken;
	if (n && r.chance(0.4))
		{
		InFile &f = files[r.below(n)];
		Hard h;
		h.op = r.chance(0.4) ? OP_OPEN_R : OP_READ;
		h.nth = (uint32_t)(h.op == OP_OPEN_R ? 0 : r.below(4));
		h.kind = F_ERR;
		h.arg = h.op == OP_OPEN_R ? EACCES : EIO;
		h.persistent = h.op == OP_OPEN_R || r.chance(0.5);
		if (shape != 4) { opt.faults.hard.push_back(h); opt.faults.only_path = "/sim/in/" + f.name; f.bad = true; broken = f.name; }
		for (auto &x : files) if (&x != &f && ("/sim/in/" + x.name).find(opt.faults.only_path) != std::string::npos) x.bad = true;
		}
	bool sub = shape <= 1 && r.chance(0.1);
	disk_mkdir("/sim/in");
	if (sub) disk_mkdir("/sim/in/sub");
	if (shape != 4) for (auto &f : files) disk_put("/sim/in/" + f.name, f.raw);
	else { opt.has_stdin = true; opt.stdin_data = files[0].raw; }
	static const uint64_t sizes[] = {1, 7, 100, 1000, 4096, 16384, 20000, 1048576, 0};
	uint64_t ask = sizes[r.below(9)];
	if (total > 50000 && ask && ask < 1000) ask = 1000;
	Rng asks = r.fork(9);
	run.sample = strf("%s, %zu files, %lu bytes%s%s, reads of %s%lu", shape <= 1 ? "a directory" : shape == 2 ? "a file" : shape == 3 ? "a compressed file" : "standard input", n, (unsigned long)total, broken.empty() ? "" : ", fault in ", broken.c_str(), ask ? "" : "random size ", (unsigned long)ask);
	run.nontrivial = total > 1;
	run.state_sig = mix(mix((uint64_t)shape, n), mix(ask, opt.faults.hard.empty() ? 0 : opt.faults.hard[0].op * 8 + opt.faults.hard[0].nth));
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::shared_ptr<JASS::instream> from;
		if (shape <= 1) from.reset(new JASS::instream_directory_iterator("/sim/in"));
		else if (shape == 4) from.reset(new JASS::instream_file_star(stdin));
		else from.reset(new JASS::instream_file("/sim/in/" + files[0].name));
		if (shape == 3) from = std::shared_ptr<JASS::instream>(new JASS::instream_deflate(from));
		std::string all;
		uint64_t calls = 0;
		int ends = 0;
		std::vector<char> into;
		while (ends < 3)
			{
			size_t want;
			{ Quiet q; want = ask ? ask : asks.logu(1, 50000); into.assign(want, (char)0xEE); if (++calls > total + 1000) violate("no-end", "reading %lu bytes has not ended after %lu reads", (unsigned long)total, (unsigned long)calls); }
			size_t got = from->fetch(into.data(), want);
			Quiet q;
			if (got > want) violate("too-much", "%zu bytes are asked for, %zu are returned", want, got);
			if (got && ends) { if (opt.faults.hard.empty()) violate("after-the-end", "%zu bytes come out after the end", got); ends = 0; }
			if (got == 0) ends++;
			all.append(into.data(), got);
			}
		Quiet q;
		Out o; o.str(all).send();
		});
	if (!run.fine(pr, "read")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "reading ended the program with status %d", pr.status); return; }
	In in(pr.out);
	std::string all = in.str();
	if (in.bad) { run.violate("wrong-end", "reading did not finish"); return; }
	std::vector<const InFile *> left;
	for (auto &f : files) left.push_back(&f);
	if (!decompose(all, 0, left))
		{
		uint64_t good = 0;
		for (auto &f : files) if (!f.bad) good += f.content.size();
		run.violate("not-once", "%zu bytes came out, %s, which is not every readable file once (%lu bytes of %zu files)", all.size(), brief(all).c_str(), (unsigned long)good, files.size());
		return;
		}
	run.evals = 1 + files.size();
	run.probe("bytes compared", all.size());
	run.probe("files read", files.size());
	}
Register r16("C16", c16);

/* ------------------------------------------------------------------ C17 */
static std::string lines(Rng &r, bool nul)
	{
	std::string s;
	size_t n = r.chance(0.05) ? 0 : r.logu(1, 60);
	for (size_t i = 0; i < n; i++)
		{
		size_t len = r.chance(0.25) ? 0 : r.chance(0.05) ? (size_t)r.logu(1000, 20000) : r.chance(0.1) ? (size_t)r.range(1020, 1028) : r.logu(1, 60);
		std::string t = letters(r, len, "abc def 123\t<>");
		if (nul && !t.empty() && r.chance(0.1)) t[r.below(t.size())] = (char)(r.chance(0.5) ? 0 : 255);
		s += t;
		if (i + 1 < n || r.chance(0.6)) s += '\n';
		}
	return s;
	}
static void c17_read(Run &run)
	{
	Rng &r = run.rng;
	int kind = (int)r.below(3);			// a file, standard input, memory
	std::string data = lines(r, kind != 2);
	PhaseOpt opt;
	opt.name = "lines";
	opt.heap_seed = 1 + r.below(1000);
	if (r.chance(0.6)) { opt.faults.p_short_read = r.unit(); if (r.chance(0.4)) opt.faults.chunk = r.logu(1, 500); }
	bool fault = false;
	if (kind != 2 && r.chance(0.3))
		{
		Hard h;
		h.op = kind == 0 && r.chance(0.2) ? OP_OPEN_R : OP_READ;
		h.nth = (uint32_t)(h.op == OP_OPEN_R ? 0 : r.below(4));
		h.kind = h.op == OP_READ && r.chance(0.3) ? F_EINTR : F_ERR;
		h.arg = EIO;
		h.persistent = r.chance(0.5);
		opt.faults.hard.push_back(h);
		fault = true;
		}
	if (kind == 0 && r.chance(0.95)) disk_put("/sim/queries", data); else if (kind == 0) data.clear();
	if (kind == 1) { opt.has_stdin = true; opt.stdin_data = data; }
	bool mixed = r.chance(0.2), own = r.chance(0.5);
	Rng choose = r.fork(3);
	run.sample = strf("%zu bytes of lines from %s%s", data.size(), kind == 0 ? "a file" : kind == 1 ? "standard input" : "memory", fault ? ", failing" : "");
	run.nontrivial = data.size() > 1;
	run.state_sig = mix(mix((uint64_t)kind, data.size()), opt.faults.hard.empty() ? 0 : opt.faults.hard[0].nth);
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::unique_ptr<JASS::channel> from;
		if (kind == 0) from.reset(new JASS::channel_file("/sim/queries"));
		else if (kind == 1) from.reset(new JASS::channel_file());
		else
			{
			std::shared_ptr<char> copy(new char[data.size() + 1], [](char *p) { delete [] p; });
			strcpy(copy.get(), data.c_str());
			from.reset(new JASS::channel_buffer(copy));
			}
		JASS::allocator_pool memory;
		JASS::allocator_cpp<char> allocator(memory);
		JASS::string theirs(allocator);
		std::string line;
		Out o;
		uint64_t calls = 0;
		for (int ends = 0; ends < 3; )
			{
			bool block;
			size_t n = 0;
			{ Quiet q; block = mixed && choose.chance(0.3); if (block) n = choose.logu(1, 200); if (++calls > data.size() + 100) violate("no-end", "reading %zu bytes has not ended after %lu lines", data.size(), (unsigned long)calls); }
			if (block) { line.resize(n); from->read(line); }
			else if (own) { from->gets(theirs); line.assign(theirs.c_str(), theirs.size()); }
			else from->gets(line);
			Quiet q;
			if (line.empty()) ends++;
			else if (ends) violate("after-the-end", "'%s' comes out after the end", line.substr(0, 50).c_str());
			o.u(block).u(n).str(line);
			}
		Quiet q;
		o.send();
		});
	if (!run.fine(pr, "lines")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "reading lines ended the program with status %d", pr.status); return; }
	In in(pr.out);
	size_t at = 0;
	bool over = false;
	uint64_t count = 0;
	while (in.more())
		{
		bool block = in.u();
		size_t n = in.u();
		std::string line = in.str();
		if (line.empty()) { over = true; continue; }
		if (over) { run.violate("after-the-end", "a line comes out after the end"); return; }
		size_t want;
		if (block) want = std::min(n, data.size() - at);
		else { size_t e = data.find('\n', at); want = (e == std::string::npos ? data.size() : e + 1) - at; }
		bool shorter = fault && line.size() < want && data.compare(at, line.size(), line) == 0;
		if (data.compare(at, want, line) != 0 && !shorter) { run.violate("line", "at byte %zu of the input the line is %s, it should be %s", at, brief(line).c_str(), brief(data.substr(at, want)).c_str()); return; }
		at += line.size();
		count++;
		if (shorter) { while (in.more()) { in.u(); in.u(); if (!in.str().empty()) { run.violate("line", "after a failed read in the middle of a line, more lines come out"); return; } } over = true; break; }
		}
	if (!over || in.bad) { run.violate("wrong-end", "the lines did not end"); return; }
	if (at != data.size() && !fault) { run.violate("lost", "%zu of %zu bytes came out", at, data.size()); return; }
	run.evals = count + 1;
	run.probe("lines compared", count);
	}
static void c17_write(Run &run)
	{
	Rng &r = run.rng;
	bool std_out = r.chance(0.2);
	std::string before = !std_out && r.chance(0.3) ? lines(r, true) : "", want = before;
	if (!before.empty()) disk_put("/sim/run", before);
	struct W { int kind; std::string s; double d; int64_t i; };
	std::vector<W> list;
	size_t n = r.logu(1, 60);
	for (size_t i = 0; i < n; i++)
		{
		W w;
		w.kind = (int)r.below(7);
		w.s = letters(r, r.chance(0.1) ? 0 : r.chance(0.1) ? r.logu(1000, 20000) : r.logu(1, 40), "abc DEF 01\n\t.");
		w.i = r.chance(0.3) ? r.range(-5, 5) : (int64_t)r.next();
		w.d = (double)r.range(-100000, 100000) / 16;
		if (!run.keep()) continue;
		list.push_back(w);
		std::ostringstream o;
		switch (w.kind)
			{
			case 0: o << w.s; break;
			case 1: o << w.s << "\n"; break;
			case 2: o << w.s.c_str(); break;
			case 3: o << w.s.c_str(); break;
			case 4: o << w.i; break;
			case 5: o << w.d; break;
			case 6: o << w.s; break;
			}
		want += o.str();
		}
	PhaseOpt opt;
	opt.name = "write";
	opt.heap_seed = 1 + r.below(1000);
	if (r.chance(0.6)) opt.faults.p_short_write = r.unit();
	bool refuse = !std_out && r.chance(0.1);
	if (refuse) { Hard h; h.op = OP_OPEN_W; h.nth = 0; h.kind = F_ERR; h.arg = EACCES; h.persistent = true; opt.faults.hard.push_back(h); }
	run.sample = strf("%zu writes to %s%s", list.size(), std_out ? "standard output" : "a file", refuse ? " that cannot be opened" : "");
	run.nontrivial = list.size() > 1;
	run.state_sig = mix(list.size(), want.size());
	PhaseResult pr = run.phase(opt, [&]()
		{
		{
		JASS::channel_file out_file("/sim/run"), out_std;
		JASS::channel &out = std_out ? out_std : out_file;
		JASS::allocator_pool memory;
		JASS::allocator_cpp<char> allocator(memory);
		for (auto &w : list)
			switch (w.kind)
				{
				case 0: out << w.s; break;
				case 1: out.puts(w.s); break;
				case 2: out << w.s.c_str(); break;
				case 3: out << (const unsigned char *)w.s.c_str(); break;
				case 4: out << w.i; break;
				case 5: out << w.d; break;
				case 6: out << JASS::string(w.s.c_str(), allocator); break;
				}
		}
		fflush(stdout);
		});
	if (!run.fine(pr, "write")) return;
	if (refuse)
		{
		if (pr.end == END_RETURN && !list.empty()) { run.violate("false-success", "the file cannot be opened and nothing is said"); return; }
		if (pr.end == END_EXIT && pr.status == 0) { run.violate("false-success", "the file cannot be opened and the program ends reporting success"); return; }
		run.probe("refused opens reported");
		return;
		}
	if (pr.end != END_RETURN) { run.violate("wrong-end", "writing ended the program with status %d", pr.status); return; }
	std::string got;
	if (std_out) got = pr.std_out; else disk_get("/sim/run", got);
	if (got != want)
		{
		size_t d = 0;
		while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
		run.violate("written", "%zu bytes arrived, %zu were written; they differ from byte %zu on", got.size(), want.size(), d);
		return;
		}
	run.evals = list.size() + 1;
	run.probe("bytes written", want.size());
	}
Register r17a("C17", c17_read, 3), r17b("C17", c17_write, 1);
}
