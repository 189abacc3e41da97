// @pbt quick=250000 thorough=10000000 fuzz=8 tfuzz=200 maxlen=300
#include "pbt.h"
#include <coda/string.hpp>
#include <coda/easy_parsing.hpp>

const char *prop_id = "C24";
const char *prop_rule = "texts of 0-120 bytes over delimiters, blanks, letters, zero and non-ASCII bytes; delimiter sets of 0-4 arbitrary non-zero bytes; both suppression flags; zero-terminated and exactly bounded buffers; comma lists; word scans. Oracle: independent splitter. Non-trivial: at least one delimiter in the text.";

static std::string join(const std::vector<std::string> &v) { std::string r = "["; for (auto &x : v) r += show(x) + " "; return r + "]"; }
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	switch (s.weighted({ 4, 2, 2 }))
	{
		case 0:
		{
			std::string P = s.oneof<const char *>({ ",", ", ", ",;|", "ab", "\xff\x80,", "./" });
			std::string delims = s.chance(20) ? "" : s.chance(60) ? P.substr(0, 1 + s.below(P.size())) : P;
			std::string U = P + std::string("xyz\0", s.chance(128) ? 4 : 3);
			std::string t = s.from(U, s.len(120));
			if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "x", ",", "xy,", "z,;" }));
			bool ign = s.below(2);
			std::vector<std::string> all, want; std::string cur;
			for (char ch : t) { if (delims.find(ch) != std::string::npos) { all.push_back(cur); cur.clear(); } else cur += ch; }
			all.push_back(cur);
			for (auto &x : all) if (!ign || !x.empty()) want.push_back(x);
			c.say("split %s at any of %s%s", show(t).c_str(), show(delims).c_str(), ign ? ", empty pieces dropped" : "");
			c.nontrivial(all.size() > 1); c.label(t.find('\0') != std::string::npos ? "split, zero bytes" : "split");
			Exact in(t), d(std::string(delims.c_str(), delims.size() + 1));
			std::vector<std::string> g = coda_split_string((const char *) in.data(), in.size(), (const char *) d.data(), ign);
			CHECK(g == want, "coda_split_string(%s, size %zu, %s, %d) gives %s, expected %s", show(t).c_str(), t.size(), show(delims).c_str(), ign, join(g).c_str(), join(want).c_str());
			if (t.find('\0') == std::string::npos)
			{
				Exact z(std::string(t.c_str(), t.size() + 1));
				g = coda_split_string((const char *) z.data(), (const char *) d.data(), ign);
				CHECK(g == want, "coda_split_string(%s, %s, %d) gives %s, expected %s", show(t).c_str(), show(delims).c_str(), ign, join(g).c_str(), join(want).c_str());
			}
			break;
		}
		case 1:
		{
			std::string t = s.from(std::string(",,abcd \xe9"), s.len(60));
			if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "x", ",", "xy," }));
			std::set<std::string> want, got;
			if (s.chance(60)) { want.insert("kept"); got.insert("kept"); }
			if (!t.empty()) { std::string cur; for (char ch : t) { if (ch == ',') { want.insert(cur); cur.clear(); } else cur += ch; } want.insert(cur); }
			c.say("comma list %s", show(t).c_str()); c.nontrivial(t.find(',') != std::string::npos); c.label("comma list");
			Exact z(std::string(t.c_str(), t.size() + 1));
			coda_get_stringset(z, got);
			CHECK(got == want, "coda_get_stringset(%s) gives %s, expected %s", show(t).c_str(), join(std::vector<std::string>(got.begin(), got.end())).c_str(), join(std::vector<std::string>(want.begin(), want.end())).c_str());
			break;
		}
		default:
		{
			std::string t = s.from(std::string(" \t\n\rabc\v\xa0."), s.len(60));
			if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "x", " ", "xy\n" }));
			std::vector<std::string> want, got; std::string cur;
			for (char ch : t + " ") { if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; }
			c.say("words of %s", show(t).c_str()); c.nontrivial(want.size() > 1); c.label("words");
			Exact z(std::string(t.c_str(), t.size() + 1));
			const char *be = z.data(), *en = be;
			while (get_next_word(be, en))
			{
				CHECK(be >= z.data() && en <= z.data() + t.size() && be < en, "get_next_word leaves its text");
				got.push_back(std::string(be, en - be)); be = en;
				CHECK(got.size() <= t.size(), "get_next_word does not advance in %s", show(t).c_str());
			}
			CHECK(got == want, "words of %s: %s, expected %s", show(t).c_str(), join(got).c_str(), join(want).c_str());
		}
	}
}
