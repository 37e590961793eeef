/* scn_struct.cpp -- C11 allocators, C12 the growing array, C13 the term dictionary, all under concurrent callers */
#include "scn_util.h"
#include "asserts.h"
#include "slice.h"
#include "allocator_pool.h"
#include <sys/mman.h>
#include "allocator_memory.h"
#include "allocator_cpp.h"
#include "dynamic_array.h"
#include "hash_table.h"
#include "binary_tree.h"
#include <memory>
#include <optional>
#include <new>
#include <algorithm>
#include <string.h>
using namespace sim;
using namespace scn;

namespace
{
/* ------------------------------------------------------------------ C11 */
struct Req { uint32_t bytes; uint32_t align; uint32_t unit; };		// unit: as so many objects of this size, 1000: as bytes
struct Got { uint8_t *p; uint32_t bytes; uint32_t align; uint8_t tag; };
struct Wide { uint8_t b[24]; };
template <class T> static uint8_t *through_cpp(JASS::allocator &memory, size_t n)
	{
	JASS::allocator_cpp<T> a(memory);
	return (uint8_t *)a.allocate(n);
	}
static void c11(Run &run)
	{
	int kind = run.rng.chance(0.8) ? 0 : 1;				// pool, or a caller's buffer
	int threads = (int)run.rng.range(1, 6);
	int rounds = (int)run.rng.range(1, 3);
	static const size_t blocks[] = {1, 8, 24, 64, 100, 256, 1024, 4096, 65536, 1024 * 1024, 128 * 1024 * 1024};
	size_t block_size = blocks[run.rng.below(11)];
	static const uint32_t aligns[] = {1, 1, 1, 2, 4, 8, 8, 16, 32, 64, 10, 3, 4096};
	std::vector<std::vector<std::vector<Req>>> work(rounds);
	bool cpp = run.rng.chance(0.15);				// as the containers of the standard library ask
	int style = run.rng.chance(0.06) ? 4 : (int)run.rng.below(4);
	uint64_t total = 0;
	for (auto &r : work)
		{
		r.resize(threads);
		for (auto &t : r)
			for (int n = (int)run.rng.logu(1, style == 4 ? 5 : 40); n > 0; n--)
				{
				Req q;
				q.unit = 1000;
				q.bytes = style == 0 ? (uint32_t)run.rng.range(1, 24) : style == 1 ? (uint32_t)run.rng.logu(1, 3000) : style == 2 ? (uint32_t)run.rng.range(0, 40) : style == 3 ? (uint32_t)run.rng.logu(1, 200000) : (uint32_t)run.rng.range(250000, 900000);
				q.align = aligns[run.rng.below(style == 0 ? 9 : 13)];
				if (cpp) { q.align = 1; q.unit = run.rng.chance(0.4) ? 1 : run.rng.chance(0.5) ? 8 : 24; q.bytes -= q.bytes % q.unit; if (run.rng.chance(0.01)) q.unit = 0; }
				if (run.keep()) { t.push_back(q); total += q.bytes; }
				}
		}
	bool nomem = kind == 0 && run.rng.chance(0.25);
	uint64_t nomem_at = run.rng.below(6);
	uint64_t buffer = kind == 1 ? (run.rng.chance(0.5) ? total * 2 + 4096 * 40 * threads * rounds : 1 + run.rng.below(total + 1)) : 0;
	PhaseOpt opt;
	opt.name = "allocator";
	opt.mem_cap = 2ULL << 30;
	opt.sched = run.random_sched(threads);
	opt.detect_races = true;
	opt.heap_seed = 1 + run.rng.below(1000);
	run.sample = strf("%s, %d threads, %d rounds, block %zu, %lu bytes asked for%s", kind == 0 ? "pool" : "buffer", threads, rounds, block_size, (unsigned long)total, nomem ? ", system allocation fails" : "");
	if (nomem) opt.faults.hard.push_back({OP_ALLOC, (uint32_t)nomem_at, F_NOMEM, 0, true});
	PhaseResult r = run.phase(opt, [&]()
		{
		std::unique_ptr<uint8_t, void (*)(uint8_t *)> area(nullptr, [](uint8_t *) {});
		std::optional<Quiet> q0; q0.emplace();
		if (kind == 1)				// at a fixed address: padding depends on it
			{
			void *at = mmap((void *)(0x6a0000000000ULL + opt.heap_seed), buffer + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if ((uintptr_t)at >> 32 != 0x6a00) violate("simulator", "no room for the caller's buffer");
			area.reset((uint8_t *)at + opt.heap_seed % 64);
			}
		std::vector<std::vector<Got>> got(threads);
		for (int t = 0; t < threads; t++) { size_t n = 0; for (auto &r : work) n = std::max(n, r[t].size()); got[t].reserve(n); }
		std::unique_ptr<JASS::allocator> memory;
		std::function<void(size_t)> body;
		int round = 0;
		body = [&](size_t t)
			{
			uint8_t tag = (uint8_t)(t * 37 + 1);
			for (auto &q : work[round][t])
				{
				if (q.unit == 0)			// more than there is in any machine
					{
					bool thrown = false;
					try { through_cpp<Wide>(*memory, (size_t)-1 / 24 + 1 + q.bytes); } catch (std::bad_alloc &) { thrown = true; }
					if (!thrown) violate("alloc-bounds", "more memory than there are addresses was handed out");
					continue;
					}
				uint8_t *p = nullptr;
				try { p = q.unit == 1000 ? (uint8_t *)memory->malloc(q.bytes, q.align) : q.unit == 1 ? through_cpp<uint8_t>(*memory, q.bytes) : q.unit == 8 ? through_cpp<uint64_t>(*memory, q.bytes / 8) : through_cpp<Wide>(*memory, q.bytes / 24); }
				catch (std::bad_alloc &) {}
				if (q.unit != 1000 && q.bytes == 0 && p == nullptr) continue;
				if (p == nullptr) { if (nomem || kind == 1) continue; violate("alloc-null", "no memory was returned though the system had some"); }
				if ((uintptr_t)p % q.align != 0) violate("alloc-align", "a block asked for with alignment %u is at %% %lu", q.align, (unsigned long)((uintptr_t)p % q.align));
				if (!addressable(p, q.bytes)) violate("alloc-bounds", "a block of %u bytes reaches outside the allocator's memory", q.bytes);
				if (kind == 1 && (p < area.get() || p + q.bytes > area.get() + buffer)) violate("alloc-bounds", "a block of %u bytes reaches outside the caller's buffer", q.bytes);
				memset(p, tag, q.bytes);
				got[t].push_back({p, q.bytes, q.align, tag});
				tag = (uint8_t)(tag * 5 + 11);
				}
			};
		uint64_t own = live_allocs();
		if (kind == 0) memory.reset(new JASS::allocator_pool(block_size)); else memory.reset(new JASS::allocator_memory(area.get(), buffer));
		q0.reset();
		uint64_t empty = live_allocs();
		for (; round < rounds; round++)
			{
			if (memory->size() != 0) violate("alloc-accounting", "a fresh or rewound allocator reports %zu bytes in use", memory->size());
			for (auto &g : got) g.clear();
			parallel(threads, body);
			std::optional<Quiet> q1; q1.emplace();
			std::vector<Got> all;
			uint64_t sum = 0;
			for (auto &g : got) for (auto &b : g) { all.push_back(b); sum += b.bytes; }
			for (auto &b : all) for (uint32_t i = 0; i < b.bytes; i++) if (b.p[i] != b.tag) violate("alloc-content", "byte %u of a block of %u changed after it was handed out", i, b.bytes);
			std::sort(all.begin(), all.end(), [](const Got &a, const Got &b) { return a.p < b.p; });
			const uint8_t *end = nullptr;
			for (auto &b : all) if (b.bytes) { if (b.p < end) violate("alloc-overlap", "two blocks overlap by %ld bytes", (long)(end - b.p)); end = b.p + b.bytes; }
			if (memory->size() < sum) violate("alloc-accounting", "%zu bytes reported in use, %lu handed out", memory->size(), (unsigned long)sum);
			if (kind == 0 && memory->size() != sum) violate("alloc-accounting", "%zu bytes reported in use, %lu handed out", memory->size(), (unsigned long)sum);
			if (memory->capacity() < memory->size()) violate("alloc-accounting", "capacity %zu is less than the %zu in use", memory->capacity(), memory->size());
			{ std::vector<Got> none; all.swap(none); }
			q1.reset();
			memory->rewind();
			if (kind == 0 && live_allocs() > empty) violate("alloc-leak", "%lu blocks of system memory are still held after rewinding", (unsigned long)(live_allocs() - empty));
			}
		memory.reset();
		if (live_allocs() > own) violate("alloc-leak", "%lu blocks of system memory are still held after the allocator is destroyed", (unsigned long)(live_allocs() - own));
		emit("done");
		});
	if (!run.fine(r, "allocator")) return;
	bool may_exit = nomem || kind == 1;
	if (r.end == END_RETURN && r.out == "done") ;
	else if (may_exit && r.end == END_EXIT && r.status != 0) run.probe("out-of-memory-reported");
	else run.violate("wrong-end", "the program ended with status %d without finishing", r.status);
	run.nontrivial = threads >= 2;
	run.state_sig = mix(mix(block_size, threads), mix(style, opt.sched.policy));
	}
Register r11("C11", c11);

/* ------------------------------------------------------------------ C12 */
struct Big { uint32_t t, s; uint64_t a, b; Big() : t(0), s(0), a(0), b(0) {} Big(uint32_t t, uint32_t s) : t(t), s(s), a(mix(t, s)), b(~a) {} bool ok() const { return a == mix(t, s) && b == ~a; } };
struct Word { uint64_t v; Word() : v(~0ULL) {} Word(uint32_t t, uint32_t s) : v(((uint64_t)t << 32) | s) {} bool ok() const { return v != ~0ULL; } };
static uint32_t who(const Big &x) { return x.t; }
static uint32_t seq(const Big &x) { return x.s; }
static uint32_t who(const Word &x) { return (uint32_t)(x.v >> 32); }
static uint32_t seq(const Word &x) { return (uint32_t)x.v; }

struct ASpec { int threads; int rounds; int arrays; size_t initial; size_t fill; double growth; size_t block; std::vector<std::vector<std::vector<uint8_t>>> n; };
template <class T> static void array_phase(const ASpec &sp)
	{
	JASS::allocator_pool memory(sp.block);
	std::vector<std::unique_ptr<JASS::dynamic_array<T>>> arr;
	for (int a = 0; a < sp.arrays; a++) arr.emplace_back(new JASS::dynamic_array<T>(memory, sp.initial, sp.growth));
	std::vector<std::vector<uint32_t>> next(sp.arrays, std::vector<uint32_t>(sp.threads, 0));
	for (int a = 0; a < sp.arrays; a++)
		{
		Quiet q;				// not one of these is concurrent
		for (size_t i = 0; i < sp.fill; i++) arr[a]->push_back(T(0, next[a][0]++));
		}
	for (int round = 0; round < sp.rounds; round++)
		{
		std::function<void(size_t)> body = [&](size_t t)
			{
			for (uint8_t a : sp.n[round][t]) { arr[a]->push_back(T((uint32_t)t, next[a][t])); next[a][t]++; }
			};
		parallel(sp.threads, body);
		for (int a = 0; a < sp.arrays; a++)
			{
			JASS::dynamic_array<T> &x = *arr[a];
			size_t want = 0;
			for (uint32_t c : next[a]) want += c;
			std::vector<uint32_t> seen(sp.threads, 0);
			std::vector<const T *> order;
			order.reserve(want + 1);
			for (const auto &e : x)
				{
				if (order.size() >= want) violate("array-extra", "iterating gives more than the %zu elements appended", want);
				if (!e.ok() || who(e) >= (uint32_t)sp.threads) violate("array-garbage", "element %zu was never appended", order.size());
				if (seq(e) != seen[who(e)]) violate(seq(e) < seen[who(e)] ? "array-duplicate" : "array-lost", "element %zu is number %u of thread %u, number %u was due", order.size(), seq(e), who(e), seen[who(e)]);
				seen[who(e)]++;
				order.push_back(&e);
				}
			if (order.size() != want) violate("array-lost", "%zu elements were appended, iterating gives %zu", want, order.size());
			size_t length = x.serialise(nullptr, 0);
			if (length != want) violate("array-length", "%zu elements were appended, the reported length is %zu", want, length);
			for (size_t i = 0; i < want; i += want < 2000 || i + 300 > want ? 1 : 997) if (&x[i] != order[i]) violate("array-index", "element [%zu] is not the one iterating gives at that place", i);
			if (want && &x.back() != order[want - 1]) violate("array-back", "the last element is not the one iterating ends with");
			std::unique_ptr<T[]> out(new T[want]);
			if (x.serialise(out.get(), want) != want) violate("array-export", "exporting reports the wrong length");
			for (size_t i = 0; i < want; i++) if (who(out[i]) != who(*order[i]) || seq(out[i]) != seq(*order[i])) violate("array-export", "element %zu of the export differs", i);
			if (round == 0)				// a buffer with room to spare
				{
				size_t room = want + 3;
				std::unique_ptr<T[]> part(new T[room]);
				for (size_t i = want; i < room; i++) part[i] = T(77, 99);
				if (x.serialise(part.get(), room) != want) violate("array-export", "exporting into a larger buffer reports the wrong length");
				for (size_t i = 0; i < want; i++) if (who(part[i]) != who(*order[i]) || seq(part[i]) != seq(*order[i])) violate("array-export", "element %zu of an export into a larger buffer differs", i);
				for (size_t i = want; i < room; i++) if (who(part[i]) != 77 || seq(part[i]) != 99) violate("array-export", "exporting wrote past the elements");
				}
			if (want > 1)					// a buffer too small for everything
				{
				size_t room = (want * 3 + round) % want;
				std::unique_ptr<T[]> part(new T[room]);
				if (x.serialise(part.get(), room) != want) violate("array-export", "exporting into a short buffer reports the wrong length");
				for (size_t i = 0; i < room; i++) if (who(part[i]) != who(*order[i]) || seq(part[i]) != seq(*order[i])) violate("array-export", "element %zu of a short export differs", i);
				}
			}
		}
	emit("done");
	}
static void c12(Run &run)
	{
	ASpec sp;
	sp.threads = (int)run.rng.range(1, 6);
	sp.rounds = (int)run.rng.range(1, 3);
	sp.arrays = (int)run.rng.range(1, 2);
	sp.initial = run.rng.chance(0.5) ? 1 : run.rng.logu(1, 64);
	sp.fill = 0;
	if (run.rng.chance(0.06))			// parts of more elements than fit in a byte, or in two
		{
		sp.arrays = 1;
		bool two = run.rng.chance(0.5);
		sp.fill = two ? 65480 + run.rng.below(90) : 200 + run.rng.below(90);
		sp.initial = (two ? 65520 : 240) + run.rng.below(two ? 40000 : 1000);
		if (run.rng.chance(0.3)) { sp.initial = 1 + run.rng.below(8); sp.fill = 70000 + run.rng.below(80000); }
		}
	static const double growths[] = {1, 1, 1.1, 1.5, 1.5, 2, 3.7, 25};
	sp.growth = growths[run.rng.below(8)];
	if (sp.fill && sp.growth < 1.5) sp.growth = 1.5;
	static const size_t blocks[] = {1, 64, 256, 4096, 1024 * 1024};
	sp.block = blocks[run.rng.below(5)];
	sp.n.resize(sp.rounds);
	uint64_t total = 0;
	uint64_t most = run.rng.chance(0.1) ? 300 : 40;
	for (auto &r : sp.n)
		{
		r.resize(sp.threads);
		for (auto &t : r) for (uint64_t k = run.rng.chance(0.1) ? 0 : run.rng.logu(1, most); k > 0; k--) { uint8_t a = (uint8_t)run.rng.below(sp.arrays); if (run.keep()) { t.push_back(a); total++; } }
		}
	bool big = run.rng.chance(0.5);
	PhaseOpt opt;
	opt.name = "array";
	opt.sched = run.random_sched(sp.threads);
	opt.detect_races = true;
	opt.heap_seed = 1 + run.rng.below(1000);
	run.sample = strf("%d threads append %lu elements to %d arrays (already holding %zu, initial size %zu, growth %.1f) in %d rounds", sp.threads, (unsigned long)total, sp.arrays, sp.fill, sp.initial, sp.growth, sp.rounds);
	PhaseResult r = run.phase(opt, [&]() { if (big) array_phase<Big>(sp); else array_phase<Word>(sp); });
	if (!run.fine(r, "array")) return;
	if (r.end != END_RETURN || r.out != "done") { run.violate("wrong-end", "the program did not reach its end"); return; }
	run.nontrivial = sp.threads >= 2 && total >= 2;
	run.state_sig = mix(mix(sp.threads, sp.initial), mix((uint64_t)(sp.growth * 10), opt.sched.policy));
	}
Register r12("C12", c12);

/* ------------------------------------------------------------------ C13 */
struct Elem
	{
	std::atomic<uint64_t> hits;
	uint64_t magic;
	Elem(JASS::allocator &) : hits(0), magic(0x600D600D600D600DULL) {}
	};
struct DSpec { int threads; int kind; int rounds; size_t block; bool twice; std::vector<std::string> keys; std::vector<std::vector<std::vector<uint16_t>>> ops; };
struct Hist { uint16_t key; const Elem *e; };
template <class D> static void dict_list(D &d, const DSpec &sp, const std::vector<const Elem *> &where, bool ordered)
	{
	std::map<std::string, int> times;
	std::string last;
	bool first = true;
	size_t n = 0, want = 0;
	for (auto *w : where) if (w) want++;
	const void *last_key = nullptr;
	for (const auto kv : d)
		{
		std::string k((const char *)kv.first.address(), kv.first.size());
		if (++n > want) violate("dict-extra", "listing visits more than the %zu keys inserted", want);
		size_t i = 0;
		while (i < sp.keys.size() && sp.keys[i] != k) i++;
		if (i == sp.keys.size() || !where[i]) violate("dict-invented", "listing visits a key nobody inserted");
		if (times[k]++) violate("dict-duplicate", "listing visits the key \"%s\" twice", k.substr(0, 20).c_str());
		if (&kv.second != where[i]) violate("dict-duplicate", "the key \"%s\" is listed with another element than lookups return", k.substr(0, 20).c_str());
		if (ordered && !first)
			{
			JASS::slice a((void *)last.data(), last.size());
			if (!(kv.first < a)) violate("dict-order", "listing is not in key order at key %zu", n);
			}
		first = false;
		last = k;
		(void)last_key;
		}
	if (n != want) violate("dict-lost", "%zu keys were inserted, listing visits %zu", want, n);
	}
template <class D> static void dict_phase(const DSpec &sp, bool ordered)
	{
	JASS::allocator_pool memory(sp.block);
	D d(memory);
	std::vector<const Elem *> where(sp.keys.size(), nullptr);
	std::vector<uint64_t> count(sp.keys.size(), 0);
	for (int round = 0; round < sp.rounds; round++)
		{
		std::vector<std::vector<Hist>> hist(sp.threads);
		for (int t = 0; t < sp.threads; t++) hist[t].reserve(sp.ops[round][t].size());
		std::function<void(size_t)> body = [&](size_t t)
			{
			for (uint16_t k : sp.ops[round][t])
				{
				const std::string &s = sp.keys[k];
				Elem &e = d[JASS::slice((void *)s.data(), s.size())];
				e.hits++;
				hist[t].push_back({k, &e});
				}
			};
		parallel(sp.threads, body);
		for (auto &h : hist) for (auto &o : h)
			{
			if (where[o.key] == nullptr) where[o.key] = o.e;
			else if (where[o.key] != o.e) violate("dict-duplicate", "two callers asking for the key \"%s\" got different elements", sp.keys[o.key].substr(0, 20).c_str());
			count[o.key]++;
			}
		std::set<const Elem *> distinct;
		size_t used = 0;
		for (size_t k = 0; k < sp.keys.size(); k++) if (where[k])
			{
			used++;
			distinct.insert(where[k]);
			if (where[k]->magic != 0x600D600D600D600DULL) violate("dict-corrupt", "the element of key \"%s\" was overwritten", sp.keys[k].substr(0, 20).c_str());
			if (where[k]->hits.load() != count[k]) violate("dict-lost-update", "the element of key \"%s\" was used %lu times but records %lu", sp.keys[k].substr(0, 20).c_str(), (unsigned long)count[k], (unsigned long)where[k]->hits.load());
			}
		if (distinct.size() != used) violate("dict-shared", "two different keys share an element");
		dict_list(d, sp, where, ordered);
		for (size_t k = 0; k < sp.keys.size(); k++) if (where[k] && &d[JASS::slice((void *)sp.keys[k].data(), sp.keys[k].size())] != where[k]) violate("dict-lost", "a key inserted earlier is not found afterwards");
		}
	emit("done");
	}
static void c13(Run &run)
	{
	DSpec sp;
	sp.threads = (int)run.rng.range(1, 6);
	sp.rounds = (int)run.rng.range(1, 2);
	sp.kind = (int)run.rng.below(run.rng.chance(0.15) ? 3 : 2);			// tree, 8-bit table, 16-bit table
	static const size_t blocks[] = {1, 64, 256, 4096, 1024 * 1024};
	sp.block = blocks[run.rng.below(5)];
	size_t nk = run.rng.logu(1, 60);
	int alphabet = (int)run.rng.range(1, 26);
	std::set<std::string> have;
	for (size_t i = 0; i < nk * 3 && sp.keys.size() < nk; i++)
		{
		std::string s;
		if (run.rng.chance(0.5)) s = std::to_string(run.rng.below(nk * 2));
		else for (uint64_t n = run.rng.below(12); n > 0; n--) s += (char)('a' + run.rng.below(alphabet));
		if (run.rng.chance(0.05)) s += std::string(1, '\0') + "x";
		if (run.rng.chance(0.05)) s = std::string(run.rng.range(250, 300), (char)('a' + run.rng.below(2))) + s;
		if (run.rng.chance(0.1)) s.insert(run.rng.below(s.size() + 1), 1, (char)run.rng.range(0x80, 0xFF));
		if (have.insert(s).second) sp.keys.push_back(s);
		}
	if (sp.keys.empty()) sp.keys.push_back("k");
	sp.ops.resize(sp.rounds);
	int mode = (int)run.rng.below(3);
	uint64_t total = 0;
	for (auto &r : sp.ops)
		{
		r.resize(sp.threads);
		std::vector<uint16_t> same;
		for (uint64_t k = run.rng.logu(1, 40); k > 0; k--) same.push_back((uint16_t)run.rng.below(sp.keys.size()));
		for (size_t t = 0; t < r.size(); t++)
			if (mode == 0) { for (uint16_t k : same) if (run.keep()) r[t].push_back(k); }			// everyone inserts the same keys in the same order
			else if (mode == 1) { std::vector<uint16_t> v = same; for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[run.rng.below(i)]); for (uint16_t k : v) if (run.keep()) r[t].push_back(k); }
			else for (uint64_t k = run.rng.logu(1, 40); k > 0; k--) { uint16_t x = (uint16_t)run.rng.below(sp.keys.size()); if (run.keep()) r[t].push_back(x); }
		for (auto &t : r) total += t.size();
		}
	PhaseOpt opt;
	opt.name = "dictionary";
	opt.sched = run.random_sched(sp.threads);
	opt.detect_races = true;
	opt.heap_seed = 1 + run.rng.below(1000);
	run.sample = strf("%d threads make %lu lookups of %zu keys in a %s", sp.threads, (unsigned long)total, sp.keys.size(), sp.kind == 0 ? "tree" : sp.kind == 1 ? "hash table of 256" : "hash table of 65536");
	PhaseResult r = run.phase(opt, [&]()
		{
		if (sp.kind == 0) dict_phase<JASS::binary_tree<JASS::slice, Elem>>(sp, true);
		else if (sp.kind == 1) dict_phase<JASS::hash_table<JASS::slice, Elem, 8>>(sp, false);
		else dict_phase<JASS::hash_table<JASS::slice, Elem, 16>>(sp, false);
		});
	if (!run.fine(r, "dictionary")) return;
	if (r.end != END_RETURN || r.out != "done") { run.violate("wrong-end", "the program did not reach its end"); return; }
	run.nontrivial = sp.threads >= 2 && total >= 2;
	run.state_sig = mix(mix(sp.threads, sp.keys.size()), mix(sp.kind, opt.sched.policy));
	}
Register r13("C13", c13);
}
