// @pbt quick=30000 thorough=2000000 fuzz=10 tfuzz=240 maxlen=1500
#include "pbt.h"
#include <coda/stringstorage.h>
extern "C" void *string_storage_find(string_storage *, const char *);

const char *prop_id = "C18";
const char *prop_rule = "1-120 additions and lookups of strings: short random, over two letters, extensions, variations and cut-offs of earlier strings at every depth, families sharing prefixes of 7-12, 200-300 and 500+ bytes, bytes above 0x7F, the empty string, lengths around the block size and up to 131072; some histories start with a bulk of 15-1100 (rarely 65000-68000) distinct short strings in ascending, descending or scrambled order, with or without a shared prefix; slot sizes 0-4000; slots written by the user after each addition. Oracle: dictionary of strings to slot address and contents; enumeration; heap balance. Non-trivial: at least two stored strings sharing more than eight bytes.";

struct Enum { std::map<std::string, std::vector<char *> > seen; size_t n; };
static void on_elem(void *ud, const char *key, void *value) { Enum *e = (Enum *) ud; e->seen[key].push_back((char *) value); ++e->n; }

static std::string gen_str(Src &s, const std::vector<std::string> &pool, size_t uds)
{
	static const std::string two = "ab", ext = "abc\xff\x80z";
	std::string r;
	switch (pool.empty() ? s.below(3) : s.weighted({ 2, 1, 2, 5, 5, 2, 1 }))
	{
		case 0: r = s.from(two, s.len(30)); break;
		case 1: r = s.from(ext, s.len(12)); break;
		case 2: r = std::string(s.oneof<int>({ 8, 9, 7, 10, 40, 247, 254, 255, 256, 257, 263, 264, 300, 520 }), 'p') + s.from(two, s.below(6)); break;
		case 3: r = s.pick(pool) + s.from(two, s.below(14)); break;                                            // extension
		case 4: { r = s.pick(pool); size_t p = s.below(r.size() + 1); r = r.substr(0, p) + s.from(two, s.below(12)); break; } // variation
		case 5: { r = s.pick(pool); size_t p = s.below(r.size() + 1); std::string t = s.pick(pool); r = r.substr(0, p) + t.substr(std::min(t.size(), s.below(2) ? p : s.below(t.size() + 1))); break; } // crossing
		default: r = std::string(s.oneof<int>({ 4095, 4094, 4096, 4093, 4000, 2048, 1500, 3000, 5000, 4096 - (int) uds }) - s.below(3), s.below(2) ? 'q' : 'p'); break;
	}
	if (r.size() > 6000) r.resize(6000);
	if (s.chance(2)) r = stretch(s, r, "p"); // too long for a block, also around 65536 bytes
	return r;
}

static void history(Src &s, Ctx &c, bool &shared, std::vector<std::string> &all, size_t &uds)
{
	uds = s.weighted({ 3, 3, 1, 1 });
	uds = uds == 0 ? 8 : uds == 1 ? s.below(40) : uds == 2 ? 0 : s.oneof<size_t>({ 300, 1000, 4000 });
	string_storage *ss = new string_storage; memset(ss, 0xA5, sizeof *ss);
	string_storage_init(ss, uds);
	struct Free { string_storage *p; ~Free() { string_storage_free(p); delete p; } } guard = { ss };
	std::map<std::string, std::pair<char *, std::string> > m;
	std::vector<std::string> pool;
	c.say("slot size %zu", uds);
	int steps = 0, tag = 0;
	auto verify = [&](const char *when) {
		for (auto &e : m)
		{
			Exact k(e.first + std::string(1, '\0'));
			char *p = (char *) string_storage_find(ss, k);
			CHECK(p == e.second.first, "%s: looking up %s gives %s", when, show(e.first.size() > 60 ? e.first.substr(0, 60) + "..." : e.first).c_str(), p ? "another slot" : "nothing");
			CHECK(std::string(p, uds) == e.second.second, "%s: the data of %s changed", when, show(e.first).c_str());
		}
	};
	if (s.below(160) == 159)
	{
		size_t n = s.oneof<size_t>({ 15, 60, 250, 250, 500, 1000 }) + s.below(30), order = s.below(3);
		std::string pre = s.below(2) ? "" : std::string(s.oneof<size_t>({ 3, 9, 20, 250 }), 'p');
		bool tail = s.below(2);
		if (!pbt::guided && s.chance(3)) { n = 65000 + s.below(3000); order = 0; pre = ""; uds = std::min<size_t>(uds, 16); string_storage_free(ss); string_storage_init(ss, uds); c.label("very many strings"); }
		c.say("add a bulk of %zu strings, order %zu, prefix of %zu bytes", n, order, pre.size()); c.label("bulk");
		std::vector<std::string> b;
		for (size_t i = 0; i < n; ++i)
		{
			size_t k = order == 0 ? i : order == 1 ? n - 1 - i : i * 7919 % 65521;
			b.push_back(pre + fmt("%05zu", k) + (tail ? "x" : ""));
		}
		for (auto &t : b)
		{
			if (t.size() + uds > 4000) break;
			char *p = (char *) string_storage_add(ss, t.c_str());
			CHECK(p && !m.count(t), "bulk: a string of %zu bytes with %zu bytes of data was refused", t.size(), uds);
			CHECK(std::string(p, uds) == std::string(uds, '\0'), "bulk: the slot of %s is not zero", show(t).c_str());
			std::string d(uds, (char) (0x80 + ++tag)); memcpy(p, d.data(), uds);
			m[t] = std::make_pair(p, d); all.push_back(t);
			if (pool.size() < 24) pool.push_back(t);
		}
		std::vector<char *> at; for (auto &e : m) at.push_back(e.second.first);
		std::sort(at.begin(), at.end());
		for (size_t i = 1; i < at.size(); ++i) CHECK(at[i - 1] + uds <= at[i], "bulk: two slots overlap");
	}
	while ((steps < 2 || s.more(12)) && steps < 120)
	{
		++steps;
		std::string t = s.chance(40) && !pool.empty() ? s.pick(pool) : gen_str(s, pool, uds);
		Exact z(t + std::string(1, '\0'));
		bool held = m.count(t);
		if (s.chance(50))
		{
			c.say("find %s (%zu bytes)", show(t.substr(0, 40)).c_str(), t.size());
			char *p = (char *) string_storage_find(ss, z);
			CHECK(p == (held ? m[t].first : NULL), "step %d: looking up %s of %zu bytes gives %s", steps, show(t.substr(0, 60)).c_str(), t.size(), p ? held ? "another slot" : "a slot although it was never added" : "nothing although it was added");
			continue;
		}
		c.say("add %s (%zu bytes)%s", show(t.substr(0, 40)).c_str(), t.size(), held ? " again" : "");
		char *p = (char *) string_storage_add(ss, z);
		if (held) { CHECK(p == m[t].first, "step %d: adding %s again gives %s", steps, show(t.substr(0, 60)).c_str(), p ? "another slot" : "nothing"); continue; }
		if (t.size() + 2 + uds > 4096) { CHECK(!p, "a string of %zu bytes with %zu bytes of data was accepted", t.size(), uds); c.label("refused"); continue; }
		CHECK(p, "a string of %zu bytes with %zu bytes of data was refused", t.size(), uds);
		CHECK(std::string(p, uds) == std::string(uds, '\0'), "the slot of the new string %s is not zero", show(t.substr(0, 60)).c_str());
		for (auto &e : m)
		{
			char *q = e.second.first;
			CHECK(p + uds <= q || q + uds <= p, "the slots of %s and %s overlap", show(t.substr(0, 60)).c_str(), show(e.first.substr(0, 60)).c_str());
			size_t k = 0; while (k < t.size() && k < e.first.size() && t[k] == e.first[k]) ++k;
			if (k > 8) shared = true;
		}
		std::string d(uds, (char) (0x80 + ++tag)); if (uds) d[uds - 1] = (char) tag;
		memcpy(p, d.data(), uds);
		m[t] = std::make_pair(p, d); pool.push_back(t); all.push_back(t);
		if (pool.size() > 24) pool.erase(pool.begin() + s.below(24));
		if (m.size() < 12 && s.chance(60)) verify("later");
	}
	verify("at the end");
	Enum e; e.n = 0;
	string_storage_enumerate(ss, on_elem, &e);
	for (auto &x : m)
	{
		std::string k = show(x.first.size() > 60 ? x.first.substr(0, 60) + "..." : x.first);
		auto i = e.seen.find(x.first);
		CHECK(i != e.seen.end(), "enumeration does not report %s (%zu bytes)", k.c_str(), x.first.size());
		CHECK(i->second.size() == 1, "enumeration reports %s %zu times", k.c_str(), i->second.size());
		CHECK(i->second[0] == x.second.first, "enumeration reports %s with another slot", k.c_str());
	}
	CHECK(e.n == m.size(), "enumeration reports %zu strings, %zu are stored", e.n, m.size());
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	bool shared = false; std::vector<std::string> all; size_t uds = 0;
	history(s, c, shared, all, uds);
	if (s.chance(60))
	{	// the same additions again: everything is given back
		leakcheck("storage", [&] { string_storage t; string_storage_init(&t, uds); for (auto &x : all) string_storage_add(&t, x.c_str()); string_storage_free(&t); });
	}
	c.nontrivial(shared);
}
