/* search.h -- one query alone on a fresh engine: the reference answer of the search and program scenarios */
#pragma once
#include "world.h"

namespace scn
{
struct Limits
	{
	int kind = 0;				// 0 none, 1 count, 2 % of collection, 3 % of the query's postings
	uint64_t count = 0;
	double percent = 100;
	int min_kind = 0;			// 0 none, 1 count, 2 % of collection
	uint64_t min_count = 0;
	double min_percent = 0;
	bool oracle = false;
	std::map<std::string, uint32_t> bounds;		// by query id
	};
struct Settings { int coll; size_t k; int width; bool raw; };
inline std::string oracle_file(const Limits &l)
	{
	std::string s;
	static const char *gap[] = {" ", " ", "  ", " \t", "    "}, *end[] = {"\n", "\n", "\n", "\r\n", "\n\n", " \n"};
	for (auto &b : l.bounds)
		{
		uint64_t h = mix(b.second, b.first.size() + l.bounds.size());
		s += b.first + gap[h % 5] + std::to_string(b.second) + end[h / 5 % 6];
		}
	if (s.size() % 3 == 0) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
	return s;
	}
struct Solo { std::string list; uint64_t postings; std::string error; };
Solo solo(const Settings &s, const Limits &l, const std::string &query, const std::string &id);			// cached; call with the disk empty
}
