// @pbt quick=200000 thorough=8000000 fuzz=8 tfuzz=240 maxlen=600
#include "pbt.h"
#include <coda/url.hpp>

const char *prop_id = "C06";
const char *prop_rule = "buffers of 0-200 bytes made of separators (& = : CR LF and CRLF), key/value fragments, arbitrary bytes including zero, parsed with exact lengths and with lengths that end before a separator lying beyond; maps that already hold entries, repeated keys. Oracle: split-based reference parser. Non-trivial: at least two separators.";

typedef std::map<std::string, std::string> Map;

static void ref_params(Map &m, const std::string &t)
{
	size_t at = 0;
	while (at <= t.size())
	{
		size_t e = t.find('&', at); if (e == std::string::npos) e = t.size();
		std::string piece = t.substr(at, e - at);
		size_t q = piece.find('=');
		if (q != std::string::npos) m[piece.substr(0, q)] = piece.substr(q + 1);
		at = e + 1;
	}
}
static void ref_header(Map &m, const std::string &t)
{
	size_t at = 0;
	while (at < t.size())
	{
		size_t e = t.find("\r\n", at); if (e == std::string::npos) e = t.size();
		if (e == at) break;
		std::string line = t.substr(at, e - at);
		size_t q = line.find(':');
		if (q != std::string::npos) m[line.substr(0, q)] = line.substr(q + 1);
		at = e + 2;
	}
}
static std::string show_map(const Map &m)
{
	std::string r = "{"; for (auto &x : m) r += show(x.first) + ":" + show(x.second) + " "; return r + "}";
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	bool hdr = s.below(2);
	std::string t; int seps = 0;
	bool ztext = s.chance(128);              // no zero bytes: also try the zero-terminated variant
	while (s.more(12) && t.size() < 200)
	{
		switch (s.weighted({ 5, 5, 4, 2, 2, 2, 1 }))
		{
			case 0: t += s.oneof<const char *>({ "a", "b", "key", "value", "x1", "Host", "k" }); break;
			case 1: t += hdr ? ':' : '='; ++seps; break;
			case 2: t += hdr ? "\r\n" : "&"; ++seps; break;
			case 3: t += s.oneof<const char *>({ "\r", "\n", "&", "=", ":", "\n\r", "\r\r\n", "\r\n\r\n", "==", "&&", "::" }); break;
			case 4: { char ch = (char) s.byte(); if (ztext && !ch) ch = ' '; s.note((uint8_t) ch); t += ch; break; }
			case 5: if (!ztext) t += '\0'; break;
			default: t += ' '; break;
		}
	}
	if (s.chance(4)) t = stretch(s, t, hdr ? s.oneof<const char *>({ "a", "k:v\r\n", ":" }) : s.oneof<const char *>({ "a", "k=v&", "=" }));
	std::string beyond = s.chance(60) ? std::string(s.oneof<const char *>({ "&a=1", "=", "\r\n", ":v", "\n", "b=2&", "k:v\r\n" })) : std::string();
	Map init;
	if (s.chance(80)) { init["a"] = "old"; init["zz"] = "kept"; init[""] = "e"; }
	Map want = init, got = init;
	(hdr ? ref_header : ref_params)(want, t);
	c.say("%s %s (%zu bytes; beyond: %s) -> %s", hdr ? "header" : "params", show(t).c_str(), t.size(), show(beyond).c_str(), show_map(want).c_str());
	c.nontrivial(seps >= 2); c.label(hdr ? "header" : "params");
	Exact in(t + beyond);
	int r = hdr ? coda_get_header_buf(got, in, t.size()) : coda_get_params_buf(got, in, t.size());
	CHECK(r == 0 && got == want, "%s %s: returned %d, %s, expected %s", hdr ? "coda_get_header_buf" : "coda_get_params_buf", show(t).c_str(), r, show_map(got).c_str(), show_map(want).c_str());
	if (t.find('\0') == std::string::npos)
	{
		Map g2 = init; Exact z(std::string(t.c_str(), t.size() + 1));
		r = hdr ? coda_get_header(g2, z) : coda_get_params(g2, z);
		CHECK(r == 0 && g2 == want, "%s %s: returned %d, %s, expected %s", hdr ? "coda_get_header" : "coda_get_params", show(t).c_str(), r, show_map(g2).c_str(), show_map(want).c_str());
	}
}
