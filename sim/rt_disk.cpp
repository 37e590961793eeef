/*
	rt_disk.cpp -- the simulated disk, and the libc file interface in front of it.

	Files live in memory shared between the orchestrator and the phases, so they survive a simulated crash of the
	process, while everything the process only had in its stdio buffers is lost with it (process-kill model).
*/
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include "rt_int.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>

namespace sim
{
static constexpr int MAXINODE = 4096, MAXENT = 4096, VFD0 = 1000000, MAXFD = 1024;
static constexpr uint64_t DISK_SZ = 3ULL << 30, JDATA_SZ = 4ULL << 30;
struct Inode { uint64_t size, cap, off; bool used, dir; };
struct Dent { char path[232]; int ino; };
struct JRec { char kind; int fd_path; uint64_t off, len, data; char path[120]; };
struct Disk
	{
	Inode in[MAXINODE];
	Dent de[MAXENT];
	int n_in, n_de;
	uint64_t bump, used;
	uint64_t n_j, jbump;
	JRec j[65536];
	};
static Disk *dk;
static char *dd;			// file data
static char *jd;			// journal data

struct Vfd { bool open; int ino; uint64_t pos; bool rd, wr, app, isdir, isstdin, dirty; FILE *fp; char path[232]; };
static Vfd fds[MAXFD];
struct MapRec { uintptr_t base; size_t len; bool live; };
static MapRec maps[4096];
static int n_maps;
static uintptr_t map_top;
static int n_open;
struct SimDir { int vfd; std::vector<std::string> *names; size_t pos; struct dirent ent; uint64_t magic; };

static uint64_t op_count[OP_MAX];
static uint32_t hard_count[64];
static size_t frpos;
static char *stdin_buf;
static uint64_t stdin_len;

int open_files() { return n_open; }
uint64_t faults_fired()
	{
	uint64_t n = 0;
	for (int o = 0; o < OP_MAX; o++)
		for (int k = 0; k < F_MAX; k++)
			if (k == F_ERR || k == F_ENOSPC || k == F_NOMEM || k == F_EINTR || (k == F_SHORT && o != OP_READ && o != OP_WRITE)) n += sh->faults[o][k];
	return n;
	}

/* ------------------------------------------------------------------ fault decisions */
void fault_record(Op op, uint64_t index, Fault kind, uint64_t arg)
	{
	sh->faults[op][kind]++;
	if (sh->n_fault < MAX_FAULT) sh_fault[sh->n_fault++] = {g_phase, (uint32_t)op, index, (uint32_t)kind, arg};
	note_hash(op * 1000003ULL + index * 31 + kind * 7 + arg);
	}
FaultDecision fault_decide(Op op, const char *path, uint64_t request)
	{
	uint64_t idx = op_count[op]++;
	FaultDecision d = {F_NONE, 0};
	if (g_run->replay)
		{
		for (size_t i = frpos; i < g_run->faults.size(); i++)
			{
			const FaultItem &f = g_run->faults[i];
			if (f.phase > g_phase) break;
			if (f.phase == g_phase && f.op == (uint32_t)op && f.index == idx)
				{
				d.kind = (Fault)f.kind;
				d.arg = f.arg;
				break;
				}
			}
		}
	else
		{
		const FaultPlan &p = g_opt->faults;
		bool match = p.only_path.empty() || op == OP_ALLOC || op == OP_CLOCK || op == OP_CAS || op == OP_THREAD || strstr(path, p.only_path.c_str()) != nullptr;
		if (match)
			for (size_t i = 0; i < p.hard.size() && i < 64; i++)
				{
				if (p.hard[i].op != op) continue;
				uint32_t c = hard_count[i]++;
				if (d.kind == F_NONE && (c == p.hard[i].nth || (p.hard[i].persistent && c > p.hard[i].nth)))
					{
					d.kind = p.hard[i].kind;
					d.arg = p.hard[i].arg;
					if ((d.kind == F_SHORT || d.kind == F_CRASH || d.kind == F_ENOSPC)) d.arg = request * (p.hard[i].arg > 1000 ? 1000 : p.hard[i].arg) / 1000;
					sh->hard_fired++;
					}
				}
		if (d.kind == F_NONE)
			switch (op)
				{
				case OP_READ: if (p.p_short_read > 0 && request > 1 && g_frng.chance(p.p_short_read)) { d.kind = F_SHORT; d.arg = g_frng.logu(1, request - 1); } break;
				case OP_WRITE: if (p.p_short_write > 0 && request > 1 && g_frng.chance(p.p_short_write)) { d.kind = F_SHORT; d.arg = g_frng.logu(1, request - 1); } break;
				case OP_CAS: if (p.p_spurious_cas > 0 && g_frng.chance(p.p_spurious_cas)) d.kind = F_SPURIOUS; break;
				case OP_CLOCK: if (p.p_clock_jump > 0 && g_frng.chance(p.p_clock_jump)) { d.kind = F_JUMP; d.arg = g_frng.logu(1000, 3600ULL * 1000000000ULL); } break;
				case OP_OPENDIR: if (p.shuffle_dirs) { d.kind = F_SHUFFLE; d.arg = g_frng.next(); } break;
				default: break;
				}
		}
	if (d.kind != F_NONE) fault_record(op, idx, d.kind, d.arg);
	return d;
	}

/* ------------------------------------------------------------------ the store */
void disk_global_init(void)
	{
	dk = (Disk *)mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dd = (char *)mmap(nullptr, DISK_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	jd = (char *)mmap(nullptr, JDATA_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (dk == MAP_FAILED || dd == MAP_FAILED || jd == MAP_FAILED) { fprintf(stderr, "sim: cannot map the disk\n"); _exit(3); }
	}
static void norm(const char *path, char *out)		// relative paths live under /sim/cwd
	{
	std::string s = path[0] == '/' ? path : std::string("/sim/cwd/") + path;
	std::vector<std::string> parts;
	size_t i = 0;
	while (i < s.size())
		{
		size_t j = s.find('/', i);
		if (j == std::string::npos) j = s.size();
		std::string c = s.substr(i, j - i);
		i = j + 1;
		if (c.empty() || c == ".") continue;
		if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; }
		parts.push_back(c);
		}
	std::string r;
	for (auto &c : parts) r += "/" + c;
	if (r.empty()) r = "/";
	strncpy(out, r.c_str(), 231);
	out[231] = 0;
	}
static bool is_sim(const char *n) { return strncmp(n, "/sim", 4) == 0 && (n[4] == '/' || n[4] == 0); }
static Dent *find(const char *n)
	{
	for (int i = 0; i < dk->n_de; i++) if (dk->de[i].ino >= 0 && strcmp(dk->de[i].path, n) == 0) return &dk->de[i];
	return nullptr;
	}
static int new_inode(bool dir)
	{
	if (dk->n_in >= MAXINODE) die_violation("no-progress", "more files than the simulated disk has room for, with no end in sight");
	int i = dk->n_in++;
	dk->in[i] = {0, 0, 0, true, dir};
	return i;
	}
static Dent *link_at(const char *n, int ino)
	{
	Dent *slot = nullptr;
	for (int i = 0; i < dk->n_de; i++) if (dk->de[i].ino < 0) { slot = &dk->de[i]; break; }
	if (!slot)
		{
		if (dk->n_de >= MAXENT) die_violation("no-progress", "more files than the simulated disk has room for, with no end in sight");
		slot = &dk->de[dk->n_de++];
		}
	strncpy(slot->path, n, 231);
	slot->path[231] = 0;
	slot->ino = ino;
	return slot;
	}
static void reserve(Inode &f, uint64_t need)
	{
	if (need <= f.cap) return;
	uint64_t cap = f.cap * 2 < need ? need + 4096 : f.cap * 2;
	cap = (cap + 63) & ~63ULL;
	if (dk->bump + cap > DISK_SZ) die_violation("no-progress", "more output than the simulated disk has room for, with no end in sight");
	memcpy(dd + dk->bump, dd + f.off, f.size);
	f.off = dk->bump;
	f.cap = cap;
	dk->bump += cap;
	}
static void put_bytes(Inode &f, uint64_t pos, const char *p, uint64_t n)
	{
	if (pos + n > f.size)
		{
		reserve(f, pos + n);
		if (pos > f.size) memset(dd + f.off + f.size, 0, pos - f.size);
		dk->used += pos + n - f.size;
		f.size = pos + n;
		}
	memcpy(dd + f.off + pos, p, n);
	}
static void journal(char kind, const char *path, uint64_t off, const char *p, uint64_t n)
	{
	if (!g_active || !g_opt->journal) return;
	if (dk->n_j >= 65536 || dk->jbump + n > JDATA_SZ) return;
	JRec &r = dk->j[dk->n_j++];
	r.kind = kind; r.off = off; r.len = n; r.data = dk->jbump;
	strncpy(r.path, path, 119); r.path[119] = 0;
	memcpy(jd + dk->jbump, p, n);
	dk->jbump += n;
	}
static bool parent_exists(const char *n)
	{
	std::string s = n;
	size_t k = s.rfind('/');
	if (k == 0 || k == std::string::npos) return true;
	s = s.substr(0, k);
	if (s == "/sim" || s == "/sim/cwd") return true;
	Dent *d = find(s.c_str());
	return d && dk->in[d->ino].dir;
	}
/* orchestrator interface */
void disk_reset()
	{
	uint64_t b = dk->bump, jb = dk->jbump;
	dk->n_in = dk->n_de = 0;
	dk->bump = dk->used = dk->n_j = dk->jbump = 0;
	if (b > (4 << 20)) madvise(dd, b, MADV_REMOVE);
	if (jb > (4 << 20)) madvise(jd, jb, MADV_REMOVE);
	}
void disk_run_reset(void) { disk_reset(); }
void disk_put(const std::string &path, const std::string &data)
	{
	char n[232];
	norm(path.c_str(), n);
	/* parents appear by themselves */
	std::string s = n;
	for (size_t k = 1; (k = s.find('/', k)) != std::string::npos; k++)
		{
		std::string par = s.substr(0, k);
		if (par != "/sim" && !find(par.c_str())) link_at(par.c_str(), new_inode(true));
		}
	Dent *d = find(n);
	if (!d) d = link_at(n, new_inode(false));
	Inode &f = dk->in[d->ino];
	f.size = 0;
	put_bytes(f, 0, data.data(), data.size());
	}
void disk_mkdir(const std::string &path)
	{
	char n[232];
	norm(path.c_str(), n);
	if (!find(n)) link_at(n, new_inode(true));
	}
bool disk_get(const std::string &path, std::string &data)
	{
	char n[232];
	norm(path.c_str(), n);
	Dent *d = find(n);
	if (!d || dk->in[d->ino].dir) return false;
	Inode &f = dk->in[d->ino];
	data.assign(dd + f.off, f.size);
	return true;
	}
bool disk_exists(const std::string &path) { char n[232]; norm(path.c_str(), n); return find(n) != nullptr; }
void disk_remove(const std::string &path) { char n[232]; norm(path.c_str(), n); Dent *d = find(n); if (d) d->ino = -1; }
Files disk_all()
	{
	Files r;
	for (int i = 0; i < dk->n_de; i++)
		if (dk->de[i].ino >= 0 && !dk->in[dk->de[i].ino].dir)
			r[dk->de[i].path] = std::string(dd + dk->in[dk->de[i].ino].off, dk->in[dk->de[i].ino].size);
	return r;
	}
void disk_load(const Files &f, const std::string &prefix) { for (auto &x : f) disk_put(prefix + x.first, x.second); }
std::vector<JOp> disk_journal()
	{
	std::vector<JOp> r;
	for (uint64_t i = 0; i < dk->n_j; i++)
		r.push_back({dk->j[i].kind, dk->j[i].path, dk->j[i].off, std::string(jd + dk->j[i].data, dk->j[i].len)});
	return r;
	}
Files journal_prefix(const std::vector<JOp> &j, size_t ops, double torn)
	{
	Files f;
	for (size_t i = 0; i < j.size() && i <= ops; i++)
		{
		const JOp &o = j[i];
		bool partial = i == ops;
		if (partial && (o.kind != 'W' || torn <= 0)) break;
		switch (o.kind)
			{
			case 'C': f[o.path] = ""; break;
			case 'W':
				{
				size_t n = partial ? (size_t)(o.data.size() * torn) : o.data.size();
				std::string &s = f[o.path];
				if (n && s.size() < o.off + n) s.resize(o.off + n, 0);
				if (n) s.replace(o.off, n, o.data, 0, n);
				break;
				}
			case 'U': f.erase(o.path); break;
			case 'R': if (f.count(o.path)) { f[o.data] = f[o.path]; f.erase(o.path); } break;
			}
		}
	return f;
	}
void phase_disk_init(Run &run, const PhaseOpt &opt)
	{
	(void)opt;
	memset(op_count, 0, sizeof(op_count));
	memset(hard_count, 0, sizeof(hard_count));
	frpos = 0;
	while (frpos < run.faults.size() && run.faults[frpos].phase < g_phase) frpos++;
	g_frng = Rng(mix(run.seed, 0xfa017 + g_phase * 977));
	memset(fds, 0, sizeof(fds));
	n_maps = 0;
	map_top = R_FILE;
	n_open = 0;
	dk->n_j = 0;
	}

/* ------------------------------------------------------------------ operations on virtual descriptors (quiet) */
static Vfd *get(int fd) { return fd >= VFD0 && fd < VFD0 + MAXFD && fds[fd - VFD0].open ? &fds[fd - VFD0] : nullptr; }
static int v_open(const char *n, int flags, bool stream)
	{
	(void)stream;
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	sh->disk_ops++;
	FaultDecision d = fault_decide(wr ? OP_OPEN_W : OP_OPEN_R, n, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : EACCES; return -1; }
	Dent *e = find(n);
	if (e && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (!e)
		{
		if (strcmp(n, "/sim/cwd") == 0 || strcmp(n, "/sim") == 0) e = link_at(n, new_inode(true));
		else if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		else
			{
			if (!parent_exists(n)) { errno = ENOENT; return -1; }
			e = link_at(n, new_inode(false));
			journal('C', n, 0, "", 0);
			}
		}
	else if (wr && dk->in[e->ino].dir) { errno = EISDIR; return -1; }
	else if (flags & O_TRUNC)
		{
		dk->used -= dk->in[e->ino].size;
		dk->in[e->ino].size = 0;
		journal('C', n, 0, "", 0);
		}
	if ((flags & O_DIRECTORY) && !dk->in[e->ino].dir) { errno = ENOTDIR; return -1; }
	for (int i = 0; i < MAXFD; i++)
		if (!fds[i].open)
			{
			Vfd &v = fds[i];
			memset(&v, 0, sizeof(v));
			v.open = true;
			v.ino = e->ino;
			v.rd = (flags & O_ACCMODE) != O_WRONLY;
			v.wr = wr;
			v.app = flags & O_APPEND;
			v.isdir = dk->in[e->ino].dir;
			strcpy(v.path, e->path);
			n_open++;
			return VFD0 + i;
			}
	errno = EMFILE;
	return -1;
	}
static ssize_t v_read(Vfd *v, char *buf, size_t n)
	{
	if (!v->rd) { errno = EBADF; return -1; }
	if (v->isdir) { errno = EISDIR; return -1; }
	sh->disk_ops++;
	FaultDecision d = fault_decide(OP_READ, v->path, n);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind == F_ERR || d.kind == F_EINTR) { errno = d.kind == F_EINTR ? EINTR : d.arg ? (int)d.arg : EIO; return -1; }
	const char *data = v->isstdin ? stdin_buf : dd + dk->in[v->ino].off;
	uint64_t size = v->isstdin ? stdin_len : dk->in[v->ino].size;
	size_t k = v->pos >= size ? 0 : size - v->pos;
	if (k > n) k = n;
	if (g_opt->faults.chunk && k > g_opt->faults.chunk) k = g_opt->faults.chunk;
	if (d.kind == F_SHORT && k > d.arg && d.arg > 0) k = d.arg;
	memcpy(buf, data + v->pos, k);
	v->pos += k;
	note_hash(k * 5 + 3);
	return (ssize_t)k;
	}
static ssize_t v_write(Vfd *v, const char *buf, size_t n)
	{
	if (!v->wr) { errno = EBADF; return -1; }
	sh->disk_ops++;
	FaultDecision d = fault_decide(OP_WRITE, v->path, n);
	Inode &f = dk->in[v->ino];
	if (v->app) v->pos = f.size;
	size_t k = n;
	if (d.kind == F_ERR || d.kind == F_EINTR) { errno = d.kind == F_EINTR ? EINTR : d.arg ? (int)d.arg : EIO; return -1; }
	if (d.kind == F_SHORT && d.arg > 0 && d.arg < k) k = d.arg;
	if (d.kind == F_CRASH || d.kind == F_ENOSPC) k = d.arg < n ? d.arg : n;
	uint64_t cap = g_opt->faults.capacity;
	bool full = false;
	if (cap && !g_run->replay)
		{
		uint64_t grow = v->pos + k > f.size ? v->pos + k - f.size : 0;
		if (dk->used + grow > cap)
			{
			uint64_t room = cap > dk->used ? cap - dk->used : 0;
			k = (f.size > v->pos ? f.size - v->pos : 0) + room;
			if (k > n) k = n;
			full = true;
			fault_record(OP_WRITE, op_count[OP_WRITE] - 1, F_ENOSPC, k);
			sh->hard_fired++;
			}
		}
	if (k)
		{
		journal('W', v->path, v->pos, buf, k);
		put_bytes(f, v->pos, buf, k);
		v->dirty = true;
		v->pos += k;
		}
	note_hash(k * 5 + 4);
	if (d.kind == F_CRASH) sim_kill();
	if ((full || d.kind == F_ENOSPC) && k == 0 && n > 0) { errno = ENOSPC; return -1; }
	return (ssize_t)k;
	}
static int v_close(Vfd *v)
	{
	sh->disk_ops++;
	FaultDecision d = fault_decide(OP_CLOSE, v->path, 0);
	if (d.kind == F_CRASH) sim_kill();
	journal('X', v->path, 0, "", 0);
	v->open = false;
	n_open--;
	if (d.kind == F_ERR)
		{
		/* a failing close() of a file that was written: the part the system had not stored yet is lost (nothing can be lost of a file nothing was written to) */
		if (v->dirty && !v->isstdin && dk->in[v->ino].size) { uint64_t keep = dk->in[v->ino].size / 2; memset(dd + dk->in[v->ino].off + keep, 0, dk->in[v->ino].size - keep); dk->used -= dk->in[v->ino].size - keep; dk->in[v->ino].size = keep; }
		errno = d.arg ? (int)d.arg : EIO;
		return -1;
		}
	return 0;
	}
static off_t v_seek(Vfd *v, off_t off, int whence)
	{
	if (v->isstdin) { errno = ESPIPE; return -1; }
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)v->pos : (int64_t)dk->in[v->ino].size;
	FaultDecision d = fault_decide(OP_SEEK, v->path, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind == F_ERR) { errno = d.arg ? (int)d.arg : EIO; return -1; }
	if (base + off < 0) { errno = EINVAL; return -1; }
	v->pos = (uint64_t)(base + off);
	return (off_t)v->pos;
	}
static void fill_stat(int ino, struct stat *st)
	{
	memset(st, 0, sizeof(*st));
	st->st_dev = 77;
	st->st_ino = (ino_t)ino + 100;
	st->st_mode = dk->in[ino].dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
	st->st_nlink = 1;
	st->st_size = (off_t)(dk->in[ino].dir ? 4096 : dk->in[ino].size);
	st->st_blksize = 4096;
	st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtime = 1700000000;
	}
/* stdio cookies */
static ssize_t c_read(void *c, char *b, size_t n) { QuietScope q; Vfd *v = (Vfd *)c; return v_read(v, b, n); }
static ssize_t c_write(void *c, const char *b, size_t n)
	{
	QuietScope q;
	Vfd *v = (Vfd *)c;
	size_t done = 0;
	/* as stdio does above write(2): a short count is continued, an error ends it */
	while (done < n)
		{
		ssize_t k = v_write(v, b + done, n - done);
		if (k < 0) return done ? (ssize_t)done : 0;
		done += (size_t)k;
		}
	return (ssize_t)done;
	}
static int c_seek(void *c, off64_t *o, int w) { QuietScope q; off_t r = v_seek((Vfd *)c, (off_t)*o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { QuietScope q; return v_close((Vfd *)c); }
static FILE *stream_on(int fd, const char *mode)
	{
	cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
	FILE *f = fopencookie(&fds[fd - VFD0], mode, io);
	fds[fd - VFD0].fp = f;
	return f;
	}
static int mode_flags(const char *m)
	{
	int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
	return f;
	}
void phase_disk_child(const PhaseOpt &opt)
	{
	if (opt.has_stdin)
		{
		stdin_buf = (char *)mmap(nullptr, opt.stdin_data.size() + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		memcpy(stdin_buf, opt.stdin_data.data(), opt.stdin_data.size());
		stdin_len = opt.stdin_data.size();
		Vfd &v = fds[MAXFD - 1];
		memset(&v, 0, sizeof(v));
		v.open = v.rd = v.isstdin = true;
		strcpy(v.path, "<stdin>");
		cookie_io_functions_t io = {c_read, nullptr, nullptr, nullptr};
		v.fp = fopencookie(&v, "r", io);
		stdin = v.fp;
		}
	else
		stdin = fopen("/dev/null", "r");
	if (!opt.stdout_path.empty())
		{
		disk_put(opt.stdout_path, "");
		char n[232];
		norm(opt.stdout_path.c_str(), n);
		Vfd &v = fds[MAXFD - 2];
		memset(&v, 0, sizeof(v));
		v.open = v.wr = true;
		v.ino = find(n)->ino;
		strcpy(v.path, n);
		cookie_io_functions_t io = {nullptr, c_write, nullptr, c_close};
		v.fp = fopencookie(&v, "w", io);
		stdout = v.fp;
		std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
		}
	}
}

using namespace sim;
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
#define ON (g_active && !g_quiet)
/* which paths are the simulator's while a phase runs: everything relative, and /sim/... */
static bool ours(const char *p, char *n) { if (!p) return false; norm(p, n); return is_sim(n); }
static bool safe_real(const char *p) { return strncmp(p, "/proc/", 6) == 0 || strncmp(p, "/dev/", 5) == 0 || strncmp(p, "/etc/", 5) == 0 || strncmp(p, "/usr/", 5) == 0 || strncmp(p, "/sys/", 5) == 0; }

extern "C" {
FILE *fopen(const char *path, const char *mode)
	{
	static FILE *(*r)(const char *, const char *) = real<FILE *(*)(const char *, const char *)>("fopen");
	if (!ON) return r(path, mode);
	yield_point(5);
	QuietScope q;
	char n[232];
	if (!ours(path, n)) { if (mode[0] == 'r' && safe_real(path)) return r(path, mode); errno = EACCES; return nullptr; }
	int fd = v_open(n, mode_flags(mode), true);
	if (fd < 0) return nullptr;
	return stream_on(fd, mode);
	}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode)
	{
	static FILE *(*r)(int, const char *) = real<FILE *(*)(int, const char *)>("fdopen");
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return r(fd, mode);
	QuietScope q;
	return stream_on(fd, mode);
	}
int fileno(FILE *f)
	{
	static int (*r)(FILE *) = real<int (*)(FILE *)>("fileno");
	if (g_active) for (int i = 0; i < MAXFD; i++) if (fds[i].open && fds[i].fp == f) return VFD0 + i;
	return r(f);
	}
size_t fread(void *p, size_t sz, size_t cnt, FILE *f)
	{
	static size_t (*r)(void *, size_t, size_t, FILE *) = real<size_t (*)(void *, size_t, size_t, FILE *)>("fread");
	if (!ON) return r(p, sz, cnt, f);
	yield_point(5);
	g_quiet++;
	size_t k = r(p, sz, cnt, f);
	g_quiet--;
	range_access((uintptr_t)p, k * sz, true, (uintptr_t)__builtin_return_address(0));
	return k;
	}
size_t fwrite(const void *p, size_t sz, size_t cnt, FILE *f)
	{
	static size_t (*r)(const void *, size_t, size_t, FILE *) = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
	if (!ON) return r(p, sz, cnt, f);
	yield_point(5);
	range_access((uintptr_t)p, sz * cnt, false, (uintptr_t)__builtin_return_address(0));
	g_quiet++;
	size_t k = r(p, sz, cnt, f);
	g_quiet--;
	return k;
	}
int fclose(FILE *f)
	{
	static int (*r)(FILE *) = real<int (*)(FILE *)>("fclose");
	if (!ON) return r(f);
	yield_point(5);
	g_quiet++;
	int k = r(f);
	g_quiet--;
	return k;
	}
int open(const char *path, int flags, ...)
	{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
	if (!ON) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
	yield_point(5);
	QuietScope q;
	char n[232];
	if (!ours(path, n)) { if ((flags & O_ACCMODE) == O_RDONLY && safe_real(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); errno = EACCES; return -1; }
	return v_open(n, flags, false);
	}
int open64(const char *path, int flags, ...)
	{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
	return open(path, flags, m);
	}
int openat(int dirfd, const char *path, int flags, ...)
	{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
	if (!ON) return (int)syscall(SYS_openat, dirfd, path, flags, m);
	Vfd *d = get(dirfd);
	if (path[0] == '/' || !d) return open(path, flags, m);
	char b[500];
	snprintf(b, sizeof(b), "%s/%s", d->path, path);
	return open(b, flags, m);
	}
int openat64(int dirfd, const char *path, int flags, ...)
	{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
	return openat(dirfd, path, flags, m);
	}
int __openat_2(int dirfd, const char *path, int flags) { return openat(dirfd, path, flags); }
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open(path, flags); }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) { if (ON && fd == 0 && fds[MAXFD - 1].isstdin) v = &fds[MAXFD - 1]; else return syscall(SYS_read, fd, b, n); }
	yield_point(5);
	ssize_t k;
	{ QuietScope q; k = v_read(v, (char *)b, n); }
	if (k > 0) range_access((uintptr_t)b, (size_t)k, true, (uintptr_t)__builtin_return_address(0));
	return k;
	}
ssize_t write(int fd, const void *b, size_t n)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return syscall(SYS_write, fd, b, n);
	yield_point(5);
	QuietScope q;
	return v_write(v, (const char *)b, n);
	}
ssize_t writev(int fd, const struct iovec *io, int c)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return syscall(SYS_writev, fd, io, c);
	ssize_t t = 0;
	for (int i = 0; i < c; i++)
		{
		if (io[i].iov_len == 0) continue;
		ssize_t k = write(fd, io[i].iov_base, io[i].iov_len);
		if (k < 0) return t ? t : -1;
		t += k;
		if ((size_t)k < io[i].iov_len) break;
		}
	return t;
	}
ssize_t pread(int fd, void *b, size_t n, off_t off)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return syscall(SYS_pread64, fd, b, n, off);
	yield_point(5);
	QuietScope q;
	uint64_t p = v->pos;
	v->pos = (uint64_t)off;
	ssize_t k = v_read(v, (char *)b, n);
	v->pos = p;
	return k;
	}
ssize_t pread64(int fd, void *b, size_t n, off_t off) { return pread(fd, b, n, off); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return syscall(SYS_pwrite64, fd, b, n, off);
	yield_point(5);
	QuietScope q;
	uint64_t p = v->pos;
	v->pos = (uint64_t)off;
	ssize_t k = v_write(v, (const char *)b, n);
	v->pos = p;
	return k;
	}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) { return pwrite(fd, b, n, off); }
off_t lseek(int fd, off_t o, int w)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return syscall(SYS_lseek, fd, o, w);
	QuietScope q;
	return v_seek(v, o, w);
	}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v)
		{
		if (g_active && fd >= VFD0) { errno = EBADF; return -1; }
		return (int)syscall(SYS_close, fd);
		}
	yield_point(5);
	QuietScope q;
	return v_close(v);
	}
int fsync(int fd)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return (int)syscall(SYS_fsync, fd);
	return 0;
	}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return (int)syscall(SYS_ftruncate, fd, n);
	QuietScope q;
	Inode &f = dk->in[v->ino];
	if ((uint64_t)n > f.size) { reserve(f, (uint64_t)n); memset(dd + f.off + f.size, 0, (uint64_t)n - f.size); dk->used += (uint64_t)n - f.size; }
	else dk->used -= f.size - (uint64_t)n;
	f.size = (uint64_t)n;
	return 0;
	}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fstat(int fd, struct stat *st)
	{
	Vfd *v = g_active ? get(fd) : nullptr;
	if (!v) return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
	yield_point(5);
	QuietScope q;
	if (v->isstdin) { memset(st, 0, sizeof(*st)); st->st_mode = S_IFIFO | 0600; return 0; }
	FaultDecision d = fault_decide(OP_STAT, v->path, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : EIO; return -1; }
	fill_stat(v->ino, st);
	return 0;
	}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
static int stat_at(const char *path, struct stat *st, int flags)
	{
	if (!ON) return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, flags);
	yield_point(5);
	QuietScope q;
	char n[232];
	if (!ours(path, n)) { if (safe_real(path)) return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, flags); errno = ENOENT; return -1; }
	FaultDecision d = fault_decide(OP_STAT, n, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : EIO; return -1; }
	Dent *e = find(n);
	if (!e)
		{
		if (strcmp(n, "/sim") == 0 || strcmp(n, "/sim/cwd") == 0) e = link_at(n, new_inode(true));
		else { errno = ENOENT; return -1; }
		}
	fill_stat(e->ino, st);
	return 0;
	}
int stat(const char *path, struct stat *st) { return stat_at(path, st, 0); }
int stat64(const char *path, struct stat64 *st) { return stat_at(path, (struct stat *)st, 0); }
int lstat(const char *path, struct stat *st) { return stat_at(path, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *path, struct stat64 *st) { return stat_at(path, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int dirfd, const char *path, struct stat *st, int flags)
	{
	if (!ON) return (int)syscall(SYS_newfstatat, dirfd, path, st, flags);
	Vfd *d = get(dirfd);
	if (path[0] == '/' || !d) return stat_at(path, st, flags);
	char b[500];
	snprintf(b, sizeof(b), "%s/%s", d->path, path);
	return stat_at(b, st, flags);
	}
int fstatat64(int dirfd, const char *path, struct stat64 *st, int flags) { return fstatat(dirfd, path, (struct stat *)st, flags); }
int access(const char *path, int m)
	{
	if (!ON) return (int)syscall(SYS_faccessat, AT_FDCWD, path, m);
	struct stat st;
	return stat(path, &st);
	}
int unlink(const char *path)
	{
	if (!ON) return (int)syscall(SYS_unlinkat, AT_FDCWD, path, 0);
	yield_point(5);
	QuietScope q;
	char n[232];
	if (!ours(path, n)) { errno = EACCES; return -1; }
	FaultDecision d = fault_decide(OP_UNLINK, n, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : EACCES; return -1; }
	Dent *e = find(n);
	if (!e) { errno = ENOENT; return -1; }
	journal('U', n, 0, "", 0);
	dk->used -= dk->in[e->ino].size;
	e->ino = -1;
	return 0;
	}
int remove(const char *path) { return unlink(path); }
int unlinkat(int, const char *path, int) { return unlink(path); }
int rmdir(const char *path) { return unlink(path); }
int rename(const char *a, const char *b)
	{
	if (!ON) return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
	yield_point(5);
	QuietScope q;
	char n[232], m[232];
	if (!ours(a, n) || !ours(b, m)) { errno = EACCES; return -1; }
	FaultDecision d = fault_decide(OP_UNLINK, n, 0);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : EACCES; return -1; }
	Dent *e = find(n);
	if (!e) { errno = ENOENT; return -1; }
	journal('R', n, 0, m, strlen(m));
	Dent *o = find(m);
	int ino = e->ino;
	e->ino = -1;
	if (o) o->ino = ino; else link_at(m, ino);
	return 0;
	}
int mkdir(const char *path, mode_t)
	{
	if (!ON) { errno = EACCES; return -1; }
	QuietScope q;
	char n[232];
	if (!ours(path, n)) { errno = EACCES; return -1; }
	if (find(n)) { errno = EEXIST; return -1; }
	link_at(n, new_inode(true));
	return 0;
	}
int chdir(const char *) { errno = EACCES; return -1; }
int mkstemp(char *t)
	{
	if (!ON) { errno = EACCES; return -1; }
	static unsigned counter = 0;
	size_t l = strlen(t);
	if (l < 6) { errno = EINVAL; return -1; }
	snprintf(t + l - 6, 7, "%06u", (unsigned)(++counter) % 1000000);
	return open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
	}
int mkstemp64(char *t) { return mkstemp(t); }
void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
	{
	Vfd *v = g_active && !(flags & MAP_ANONYMOUS) ? get(fd) : nullptr;
	if (!v)
		{
		if (g_active && !g_quiet && !(flags & MAP_ANONYMOUS)) { errno = EBADF; return MAP_FAILED; }
		return (void *)syscall(SYS_mmap, a, len, prot, flags, fd, off);
		}
	yield_point(5);
	QuietScope q;
	sh->disk_ops++;
	FaultDecision d = fault_decide(OP_MMAP, v->path, len);
	if (d.kind == F_CRASH) sim_kill();
	if (d.kind != F_NONE) { errno = d.arg ? (int)d.arg : ENOMEM; return MAP_FAILED; }
	if (len == 0 || (off & 4095)) { errno = EINVAL; return MAP_FAILED; }
	if (v->isdir || v->isstdin) { errno = ENODEV; return MAP_FAILED; }
	Inode &f = dk->in[v->ino];
	size_t pages = (len + 4095) & ~4095ULL;
	uintptr_t base = map_top + 4096;
	if (n_maps >= 4096 || base + pages + 4096 > R_FILE + R_FILE_SZ) { errno = ENOMEM; return MAP_FAILED; }
	/* pages wholly beyond the end of the file fault, as they do on a real mapping */
	uint64_t avail = (uint64_t)off >= f.size ? 0 : f.size - (uint64_t)off;
	uint64_t have = avail < len ? avail : len;
	uint64_t hp = (have + 4095) & ~4095ULL;
	syscall(SYS_mmap, base - 4096, pages + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (hp)
		{
		syscall(SYS_mmap, base, hp, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
		memcpy((void *)base, dd + f.off + off, have);
		if (!(prot & PROT_WRITE)) syscall(SYS_mprotect, base, hp, PROT_READ);
		}
	map_top = base + pages;
	maps[n_maps++] = {base, pages, true};
	return (void *)base;
	}
void *mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return mmap(a, len, prot, flags, fd, off); }
int munmap(void *a, size_t len)
	{
	uintptr_t p = (uintptr_t)a;
	if (!g_active || g_quiet || (p >= R_BASE && p < R_FILE)) return (int)syscall(SYS_munmap, a, len);
	if (p >= R_FILE && p < R_END)
		{
		for (int i = 0; i < n_maps; i++)
			if (maps[i].base == p && maps[i].live)
				{
				maps[i].live = false;
				syscall(SYS_mmap, p, maps[i].len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
				return 0;
				}
		die_violation("memory-error", "munmap of an address that is not mapped");
		}
	if (p & 4095 || len == 0) { errno = EINVAL; return -1; }
	/* anything else was not obtained from the simulated disk: the kernel would reject or ignore it */
	if (p > 0x7fffffffffffULL) { errno = EINVAL; return -1; }
	return (int)syscall(SYS_munmap, a, len);
	}
/* directories */
static constexpr uint64_t DMAGIC = 0xD1D1D1D10001ULL;
static DIR *dir_on(int fd)
	{
	Vfd *v = get(fd);
	SimDir *d = new SimDir;
	d->vfd = fd;
	d->magic = DMAGIC;
	d->pos = 0;
	d->names = new std::vector<std::string>{".", ".."};
	std::string pre = std::string(v->path) + "/";
	std::set<std::string> s;
	for (int i = 0; i < dk->n_de; i++)
		if (dk->de[i].ino >= 0 && strncmp(dk->de[i].path, pre.c_str(), pre.size()) == 0)
			{
			std::string rest = dk->de[i].path + pre.size();
			if (!rest.empty() && rest.find('/') == std::string::npos) s.insert(rest);
			}
	std::vector<std::string> l(s.begin(), s.end());
	FaultDecision f = fault_decide(OP_OPENDIR, v->path, 0);
	if (f.kind == F_CRASH) sim_kill();
	if (f.kind == F_ERR) { delete d->names; delete d; errno = f.arg ? (int)f.arg : EACCES; return nullptr; }
	if (f.kind == F_SHUFFLE)
		{
		Rng r(f.arg);
		for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
		}
	for (auto &x : l) d->names->push_back(x);
	return (DIR *)d;
	}
DIR *opendir(const char *path)
	{
	static DIR *(*r)(const char *) = real<DIR *(*)(const char *)>("opendir");
	if (!ON) return r(path);
	int fd = open(path, O_RDONLY | O_DIRECTORY);
	if (fd < 0) return nullptr;
	QuietScope q;
	DIR *d = dir_on(fd);
	if (!d) v_close(get(fd));
	return d;
	}
DIR *fdopendir(int fd)
	{
	static DIR *(*r)(int) = real<DIR *(*)(int)>("fdopendir");
	if (!ON || !get(fd)) return r(fd);
	QuietScope q;
	return dir_on(fd);
	}
struct dirent *readdir(DIR *dp)
	{
	static struct dirent *(*r)(DIR *) = real<struct dirent *(*)(DIR *)>("readdir");
	SimDir *d = (SimDir *)dp;
	if (!ON || d->magic != DMAGIC) return r(dp);
	yield_point(5);
	QuietScope q;
	FaultDecision f = fault_decide(OP_READDIR, fds[d->vfd - VFD0].path, 0);
	if (f.kind == F_ERR) { errno = f.arg ? (int)f.arg : EIO; return nullptr; }
	if (d->pos >= d->names->size()) return nullptr;
	memset(&d->ent, 0, sizeof(d->ent));
	const std::string &nm = (*d->names)[d->pos++];
	strncpy(d->ent.d_name, nm.c_str(), sizeof(d->ent.d_name) - 1);
	std::string full = std::string(fds[d->vfd - VFD0].path) + "/" + nm;
	Dent *e = find(full.c_str());
	d->ent.d_type = (nm == "." || nm == ".." || (e && dk->in[e->ino].dir)) ? DT_DIR : DT_REG;
	d->ent.d_ino = e ? (ino_t)e->ino + 100 : 1;
	return &d->ent;
	}
struct dirent64 *readdir64(DIR *dp) { return (struct dirent64 *)readdir(dp); }
int closedir(DIR *dp)
	{
	static int (*r)(DIR *) = real<int (*)(DIR *)>("closedir");
	SimDir *d = (SimDir *)dp;
	if (!g_active || d->magic != DMAGIC) return r(dp);
	QuietScope q;
	Vfd *v = get(d->vfd);
	if (v) { v->open = false; n_open--; }
	delete d->names;
	delete d;
	return 0;
	}
int dirfd(DIR *dp)
	{
	static int (*r)(DIR *) = real<int (*)(DIR *)>("dirfd");
	SimDir *d = (SimDir *)dp;
	if (!g_active || d->magic != DMAGIC) return r(dp);
	return d->vfd;
	}
}
