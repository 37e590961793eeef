/* scn_world.cpp -- indexes of generated collections, written by the real serialisers in a side phase */
#include "world.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "allocator_pool.h"

namespace scn
	{
	static void write_index(JASS::serialise_jass_v1 &s, const Collection &c)
		{
		JASS::allocator_pool memory;
		JASS::index_postings dummy(memory);
		std::vector<uint32_t> ids;
		std::vector<JASS::index_postings_impact::impact_type> tfs;
		for (auto &t : c.terms)
			{
			ids.clear();
			tfs.clear();
			for (auto &p : t.second) { ids.push_back(p.doc + 1); tfs.push_back((JASS::index_postings_impact::impact_type)p.impact); }
			s(JASS::slice((void *)t.first.c_str(), t.first.size()), dummy, (uint32_t)ids.size(), ids.data(), tfs.data());
			}
		s(0, JASS::slice("-"));
		for (size_t i = 0; i < c.keys.size(); i++) s(i + 1, JASS::slice((void *)c.keys[i].c_str(), c.keys[i].size()));
		s.finish();
		}
	Files build_index(const Collection &c)
		{
		Files out;
		PhaseResult r = side_phase(Files(), out, [&]()
			{
			auto codec = (JASS::serialise_jass_v1::jass_v1_codex)c.codec;
			if (c.version == 1) { std::unique_ptr<JASS::serialise_jass_v1> s(new JASS::serialise_jass_v1(c.n(), codec, (int8_t)c.align)); write_index(*s, c); }
			else { std::unique_ptr<JASS::serialise_jass_v2> s(new JASS::serialise_jass_v2(c.n(), codec, (int8_t)c.align)); write_index(*s, c); }
			});
		if (r.end != END_RETURN) { Files none; none["error"] = strf("end %d status %d %s", r.end, r.status, r.detail.c_str()); return none; }
		return out;
		}
	const Collection &collection(int id)
		{
		static std::map<int, std::unique_ptr<Collection>> &cache = *new std::map<int, std::unique_ptr<Collection>>;		// never destroyed: a simulated exit() must not depend on it
		auto &p = cache[id];
		if (!p) p.reset(new Collection(make_collection(id)));
		return *p;
		}
	const Files &index_files(int id)
		{
		static std::map<int, std::unique_ptr<Files>> &cache = *new std::map<int, std::unique_ptr<Files>>;		// never destroyed: a simulated exit() must not depend on it
		auto &p = cache[id];
		if (!p)
			{
			Files f = build_index(collection(id)), g;
			for (auto &x : f) { size_t k = x.first.rfind('/'); g[k == std::string::npos ? x.first : x.first.substr(k + 1)] = x.second; }
			p.reset(new Files(g));
			}
		return *p;
		}
	}
