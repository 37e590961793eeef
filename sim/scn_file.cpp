/*
	scn_file.cpp -- JASS::file as a byte array under short and failing system calls: C14.
*/
#include "scn_util.h"
#include "file.h"
#include <errno.h>
using namespace scn;

namespace
{
enum Kind { READ, READV, WRITE, WRITES, SEEK, SIZE };
struct Step { Kind kind; uint64_t n; std::string data; };
struct Session { std::string mode; uint64_t buffer; std::vector<Step> steps; };

static std::string bytes(Rng &r, size_t n)
	{
	std::string s(n, 0);
	int style = (int)r.below(3);
	for (size_t i = 0; i < n; i++) s[i] = style == 0 ? (char)('a' + i % 26) : style == 1 ? (char)r.next() : (char)(i * 7 + n);
	return s;
	}

/* ------------------------------------------------------------------ a file object against an array of bytes */
static void play(const Session &s, std::string &model)
	{
	/* the model lives outside the simulation; only the file object's own work is scheduled and faulted */
	JASS::file *f = new JASS::file("/sim/file", s.mode);
	uint64_t pos = 0;
	if (s.buffer) f->setvbuf(s.buffer);
	if (s.mode[0] == 'w') { Quiet q; model.clear(); }
	bool clean = true;				// nothing is waiting in the object's own buffer
	for (size_t i = 0; i < s.steps.size(); i++)
		{
		const Step &x = s.steps[i];
		uint64_t fired = faults_fired();
		switch (x.kind)
			{
			case READ: case READV:
				{
				std::vector<uint8_t> into(x.n);
				size_t got;
				if (x.kind == READ) got = f->read(into.data(), x.n);
				else { f->read(into); got = into.size(); }
				Quiet q;
				uint64_t left = pos >= model.size() ? 0 : model.size() - pos, want = std::min(left, x.n);
				if (got > want || (got < want && faults_fired() == fired)) violate("read-length", "step %zu: reading %lu bytes at %lu of a file of %lu gave %zu", i, (unsigned long)x.n, (unsigned long)pos, (unsigned long)model.size(), got);
				for (size_t k = 0; k < got; k++) if ((uint8_t)model[pos + k] != into[k]) violate("read-data", "step %zu: byte %lu reads back as %u, it was written as %u", i, (unsigned long)(pos + k), into[k], (uint8_t)model[pos + k]);
				pos += got;
				clean = true;
				break;
				}
			case WRITE: case WRITES:
				{
				if (pos >= 1ULL << 31) break;			// far beyond the end: nothing is written there
				if (x.kind == WRITE) f->write(x.data.data(), x.data.size()); else f->write(x.data);
				Quiet q;
				if (!x.data.empty())
					{
					if (pos > model.size()) model.resize(pos, '\0');
					model.replace(pos, std::min<uint64_t>(x.data.size(), model.size() - pos), x.data);
					}
				pos += x.data.size();
				clean = false;
				break;
				}
			case SEEK:
				try { f->seek(x.n); pos = x.n; }
				catch (std::out_of_range &) { if (faults_fired() == fired) violate("seek", "step %zu: seeking to %lu failed with nothing failing below", i, (unsigned long)x.n); delete f; return; }
				clean = true;
				break;
			case SIZE:
				{
				if (!clean) break;
				size_t got = f->size();
				if (got != model.size() && faults_fired() == fired) violate("size", "step %zu: the size of a file of %lu bytes is reported as %zu", i, (unsigned long)model.size(), got);
				if (faults_fired() != fired) { delete f; return; }			// where the failed seek left the stream is nobody's promise
				break;
				}
			}
		if (f->tell() != pos) violate("position", "step %zu (%d): the position is reported as %zu, it is %lu", i, (int)x.kind, f->tell(), (unsigned long)pos);
		}
	delete f;
	}
static void session(Run &run)
	{
	Rng &r = run.rng;
	std::string start = bytes(r, r.chance(0.2) ? 0 : r.logu(1, 20000));
	disk_put("/sim/file", start);
	std::vector<Session> list;
	uint64_t most = r.chance(0.15) ? 40000 : 3000;
	int n = (int)r.range(1, 3);
	uint64_t longest = start.size() + 100;
	for (int i = 0; i < n; i++)
		{
		Session s;
		static const char *modes[] = {"rb", "wb", "w+b", "r+b", "w+b", "r+b"};
		s.mode = modes[r.below(6)];
		s.buffer = r.chance(0.1) ? 0 : r.logu(1, 600);
		bool rd = s.mode != "wb", wr = s.mode != "rb";
		int steps = (int)r.logu(1, 40);
		for (int k = 0; k < steps; k++)
			{
			Step x;
			double u = r.unit();
			uint64_t len = r.chance(0.1) ? 0 : r.chance(0.3) && s.buffer ? s.buffer * (uint64_t)r.range(1, 3) + (uint64_t)r.range(0, 2) - 1 : r.logu(1, most);
			if (u < 0.4 && wr) { x.kind = r.chance(0.5) ? WRITE : WRITES; x.data = bytes(r, len); x.n = 0; longest += len; }
			else if (u < 0.7 && rd) { x.kind = r.chance(0.6) ? READ : READV; x.n = x.kind == READV ? len + 1 : len; }
			else if (u < 0.92) { x.kind = SEEK; x.n = r.chance(0.06) ? ((uint64_t)r.range(1, 5) << (r.chance(0.5) ? 31 : 32)) + r.below(longest) : r.below(longest + (wr ? 50 : 0)); }
			else { x.kind = SIZE; x.n = 0; }
			if (run.keep()) s.steps.push_back(x);
			}
		list.push_back(s);
		}
	PhaseOpt opt;
	opt.name = "file";
	opt.heap_seed = 1 + r.below(1000);
	int plan = (int)r.below(4);
	if (plan == 1 || plan == 3) { opt.faults.p_short_read = r.unit(); opt.faults.p_short_write = r.unit(); if (r.chance(0.3)) opt.faults.chunk = r.logu(1, 100); }
	if (plan >= 2)
		{
		static const Op ops[] = {OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_WRITE};
		Hard h;
		h.op = ops[r.below(5)];
		h.nth = (uint32_t)r.below(h.op == OP_CLOSE ? 3 : 8);
		h.kind = h.op == OP_WRITE ? (r.chance(0.5) ? F_ENOSPC : F_ERR) : F_ERR;
		h.arg = h.kind == F_ENOSPC ? r.below(1001) : EIO;
		h.persistent = r.chance(0.3);
		opt.faults.hard.push_back(h);
		}
	run.sample = strf("%zu sessions on a file of %zu bytes:", list.size(), start.size());
	for (auto &s : list) run.sample += strf(" [%s buffer %lu, %zu steps]", s.mode.c_str(), (unsigned long)s.buffer, s.steps.size());
	PhaseResult pr = run.phase(opt, [&]()
		{
		std::string model;
		{ Quiet q; model = start; }
		for (auto &s : list)
			{
			uint64_t fired = faults_fired();
			play(s, model);
			if (faults_fired() != fired)
				{
				/* it carried on: allowed only when nothing was lost, which what is on the disk shows */
				Quiet q;
				Out o; o.u(1).str(model).send();
				return;
				}
			}
		Quiet q;
		Out o; o.u(0).str(model).send();
		});
	if (!run.fine(pr, "file")) return;
	run.nontrivial = list[0].steps.size() > 1;
	run.state_sig = mix(mix(list.size(), list[0].buffer), list[0].steps.size() * 8 + (uint64_t)plan);
	if (pr.end == END_EXIT)
		{
		if (pr.status == 0) { run.violate("silent-end", "the file object ended the program reporting success"); return; }
		if (opt.faults.hard.empty()) { run.violate("false-failure", "the file object ended the program (status %d) with nothing failing", pr.status); return; }
		run.probe("failures reported by ending");
		return;
		}
	In in(pr.out);
	uint64_t faulted = in.u();
	std::string model = in.str(), disk;
	if (in.bad) { run.violate("wrong-end", "the session did not finish"); return; }
	(void)faulted;
	disk_get("/sim/file", disk);
	if (disk != model)
		{
		size_t d = 0;
		while (d < disk.size() && d < model.size() && disk[d] == model[d]) d++;
		run.violate("contents", "after closing, the file has %zu bytes, it should have %zu; they differ from byte %zu on", disk.size(), model.size(), d);
		return;
		}
	run.evals = list[0].steps.size() + 1;
	run.probe("sessions with all bytes on disk");
	}

/* ------------------------------------------------------------------ whole files */
static void whole(Run &run)
	{
	Rng &r = run.rng;
	std::vector<std::string> data;
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) data.push_back(bytes(r, r.chance(0.15) ? 0 : r.logu(1, 100000)));
	std::vector<int> how;
	for (int i = 0; i < n; i++) how.push_back((int)r.below(4));
	for (int i = 0; i < n; i++) if (how[i] != 0 && r.chance(0.9)) disk_put(strf("/sim/f%d", i), data[i]); else if (how[i] == 0 && r.chance(0.4)) disk_put(strf("/sim/f%d", i), bytes(r, r.logu(1, 100000)));
	std::vector<bool> exists;
	for (int i = 0; i < n; i++) exists.push_back(disk_exists(strf("/sim/f%d", i)));
	PhaseOpt opt;
	opt.name = "file";
	opt.heap_seed = 1 + r.below(1000);
	if (r.chance(0.5)) { opt.faults.p_short_read = r.unit(); opt.faults.p_short_write = r.unit(); if (r.chance(0.3)) opt.faults.chunk = r.logu(1, 5000); }
	int hard = r.chance(0.3) ? 0 : (int)r.range(1, 2);
	for (int i = 0; i < hard; i++)
		{
		static const Op ops[] = {OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_MMAP, OP_OPEN_R, OP_OPEN_W, OP_WRITE};
		Hard h;
		h.op = ops[r.below(8)];
		h.nth = (uint32_t)r.below(4);
		h.kind = h.op == OP_WRITE && r.chance(0.5) ? F_ENOSPC : F_ERR;
		h.arg = h.kind == F_ENOSPC ? r.below(1001) : EIO;
		h.persistent = r.chance(0.2);
		opt.faults.hard.push_back(h);
		}
	if (r.chance(0.15)) opt.faults.capacity = r.logu(1, 200000);
	run.sample = strf("%d whole files:", n);
	for (int i = 0; i < n; i++) run.sample += strf(" %s %zu bytes", how[i] == 0 ? "write" : how[i] == 3 ? "map" : "read", data[i].size());
	PhaseResult pr = run.phase(opt, [&]()
		{
		for (int i = 0; i < n; i++)
			{
			uint64_t fired = faults_fired();
			std::string name = strf("/sim/f%d", i);
			uint64_t result = 0, ok = 1;
			if (how[i] == 0) result = JASS::file::write_entire_file(name, data[i]);
			else if (how[i] == 3)
				{
				JASS::file::file_read_only m;
				result = JASS::file::read_entire_file(name, m);
				const uint8_t *p = nullptr;
				size_t len = m.read_entire_file(p);
				if (len != result) violate("length", "file %d: mapping it reports %lu bytes, then %zu", i, (unsigned long)result, len);
				for (size_t k = 0; k < len && k < data[i].size(); k++) if (p[k] != (uint8_t)data[i][k]) violate("read-data", "file %d: byte %zu of the mapped file is wrong", i, k);
				}
			else
				{
				std::string into;
				if (how[i] == 2) into = "what was there before";
				result = JASS::file::read_entire_file(name, into);
				Quiet q;
				if (into.size() != result) violate("length", "file %d: read_entire_file() returned %lu and %zu bytes", i, (unsigned long)result, into.size());
				if (result && into != data[i]) violate("read-data", "file %d: read_entire_file() returned %zu bytes of a file of %zu, not its contents", i, into.size(), data[i].size());
				}
			Quiet q;
			Out o; o.u(result).u(faults_fired() - fired).send();
			}
		});
	if (!run.fine(pr, "file")) return;
	if (pr.end != END_RETURN) { run.violate("wrong-end", "whole-file input or output ended the program (status %d)", pr.status); return; }
	In in(pr.out);
	for (int i = 0; i < n; i++)
		{
		uint64_t result = in.u(), fired = in.u();
		std::string name = strf("/sim/f%d", i), disk;
		if (in.bad) { run.violate("wrong-end", "the run did not finish"); return; }
		bool have = disk_get(name, disk);
		if (how[i] == 0)
			{
			if (result && (!have || disk != data[i])) { run.violate("false-success", "write_entire_file() of %zu bytes reported success, %zu bytes are on disk", data[i].size(), disk.size()); return; }
			if (!result && !fired && !opt.faults.capacity) { run.violate("false-failure", "write_entire_file() of %zu bytes reported failure with nothing failing", data[i].size()); return; }
			run.probe(result ? "whole files written" : "write failures reported");
			}
		else
			{
			if (result && (!exists[i] || result != data[i].size())) { run.violate("length", "reading a file of %zu bytes reports %lu", exists[i] ? data[i].size() : 0, (unsigned long)result); return; }
			if (!result && exists[i] && !data[i].empty() && !fired) { run.violate("false-failure", "reading a file of %zu bytes failed with nothing failing", data[i].size()); return; }
			run.probe(result ? "whole files read" : "read failures reported (or empty)");
			}
		}
	run.nontrivial = true;
	run.evals = (uint64_t)n;
	run.state_sig = mix(mix((uint64_t)n, opt.faults.hard.size()), data[0].size());
	}
Register r14a("C14", session, 2), r14b("C14", whole, 1);
}
