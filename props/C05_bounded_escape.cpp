// @pbt quick=200000 thorough=10000000 fuzz=8 tfuzz=240 maxlen=400
#include "pbt.h"
#include <coda/url.hpp>

const char *prop_id = "C05";
const char *prop_rule = "zero-terminated texts built from literal bytes of every value, '+', complete, truncated and malformed %XX, \\xXX and %uXXXX escapes; destination sizes from 0 to well beyond the conversion, concentrated around its length; each of the three functions. Oracle: the full conversion computed token by token. Non-trivial: an escape in the text or a byte that needs one, or a destination that is too small.";

static bool safe(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }
static int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hexn(const std::string &t, size_t at, int n)
{
	int v = 0;
	while (n--) { if (at >= t.size() || hex(t[at]) < 0) return -1; v = v * 16 + hex(t[at++]); }
	return v;
}
static std::string full(int f, const std::string &t, std::vector<bool> *ends = 0)
{
	std::string r; int v;
	for (size_t i = 0; i < t.size();)
	{
		if (ends) { ends->resize(r.size() + 1); (*ends)[r.size()] = true; }
		unsigned char c = t[i];
		if (f == 0)
		{
			if (safe(c)) r += c; else if (c == ' ') r += '+'; else r += fmt("%%%02X", c);
			++i;
		}
		else if (c == '%' && (v = hexn(t, i + 1, 2)) >= 0)
		{
			if (f == 1 || v > 0x7f) r += (char) v; else r += t.substr(i, 3);
			i += 3;
		}
		else if (c == '\\' && i + 1 < t.size() && t[i + 1] == 'x' && (v = hexn(t, i + 2, 2)) >= 0)
		{
			if (f == 1 || v > 0x7f) r += (char) v; else r += t.substr(i, 4);
			i += 4;
		}
		else if (f == 1 && c == '+') { r += ' '; ++i; }
		else if (f == 1 && c == '%' && i + 1 < t.size() && t[i + 1] == 'u' && (v = hexn(t, i + 2, 4)) >= 0)
		{
			if (v < 0x80) r += (char) v;
			else if (v < 0x800) { r += (char) (0xc0 | v >> 6); r += (char) (0x80 | (v & 63)); }
			i += 6;
		}
		else { r += c; ++i; }
	}
	if (ends) { ends->resize(r.size() + 1); (*ends)[r.size()] = true; }
	return r;
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	static const std::string H = "0123456789abcdefABCDEF";
	static const char *name[] = { "coda_url_escape", "coda_url_unescape", "coda_url_preunescape" };
	int f = s.below(3);
	std::string t; bool esc = false;
	while (s.more(7) && t.size() < 300)
	{
		switch (s.weighted({ 6, 2, 4, 3, 3, 2, 1 }))
		{
			case 0: { char ch = (char) s.byte(); if (!ch) ch = 'a'; s.note((uint8_t) ch); t += ch; if (f == 0 && !safe(ch)) esc = true; break; }
			case 1: t += s.oneof<char>({ '+', ' ', '%', '\\', 'u', 'x' }); break;
			case 2: t += '%'; t += s.pick(H); t += s.pick(H); esc = true; break;
			case 3: t += "\\x"; t += s.pick(H); t += s.pick(H); esc = true; break;
			case 4: t += "%u"; if (s.below(2)) t += fmt("%04x", (unsigned) s.below(0x900)); else t += s.from(H, 4); esc = true; break;
			case 5: { static const char *tok[] = { "%", "%4", "%u", "%u0", "%u04", "%u041", "\\", "\\x", "\\x4", "%%41", "\\\\x41", "%uZ", "%gg" }; t += tok[s.below(13)]; esc = true; break; }
			default: t += s.oneof<const char *>({ "%u007f", "%u0080", "%u07FF", "%u0800", "%7f", "%80", "\\x7f", "\\x80", "%u0000", "%00", "%uFFFF" }); esc = true; break;
		}
	}
	if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "a", "%41", "%u0041", "\\x41", "!" }));
	std::vector<bool> ends; std::string want = full(f, t, &ends);
	size_t wl = strlen(want.c_str()), sz;
	switch (s.weighted({ 3, 3, 1, 1 }))
	{
		case 0: sz = want.size() + 8 + s.below(40); break;
		case 1: sz = want.size() + 10 - std::min<size_t>(want.size() + 10, s.below(20)); break;
		case 2: sz = s.below(want.size() + 9); break;
		default: sz = s.below(8); break;
	}
	if (s.below(1000) == 999)
	{
		// a destination much larger than needed (it is zeroed as a whole, so no gigabytes)
		sz = s.oneof<size_t>({ 256, 65536, 131072, 1 << 24 }) + s.below(24); Vast v(sz); if (!v.data()) return;
		Exact in(std::string(t.c_str(), t.size() + 1)); memset(v.data(), 0x5a, std::min(sz, want.size() + 1)); if (sz < want.size() + 8) return;
		c.say("%s(%s) into %zu bytes", name[f], show(t).c_str(), sz); c.label("huge destination"); c.nontrivial();
		if (f == 0) coda_url_escape(in, v.data(), sz);
		else if (f == 1) coda_url_unescape(in, v.data(), sz);
		else coda_url_preunescape(in, v.data(), sz);
		CHECK(!strncmp(v.data(), want.c_str(), wl + 1), "%s(%s) into %zu bytes = %s", name[f], show(t).c_str(), sz, show(v.data(), wl + 1).c_str());
		return;
	}
	bool roomy = sz >= want.size() + 8;
	c.say("%s(%s) into %zu bytes; full conversion %s (%zu)", name[f], show(t).c_str(), sz, show(want).c_str(), want.size());
	c.nontrivial(esc || !roomy); c.label(fmt("%s, %s", name[f], roomy ? "room" : "tight"));
	Exact in(std::string(t.c_str(), t.size() + 1)); Exact out(sz, 0x5a);
	if (f == 0) coda_url_escape(in, out, sz);
	else if (f == 1) coda_url_unescape(in, out, sz);
	else coda_url_preunescape(in, out, sz);
	if (!sz) return;
	const char *z = (const char *) memchr(out.data(), 0, sz);
	CHECK(z, "%s(%s) into %zu bytes leaves no terminating zero", name[f], show(t).c_str(), sz);
	size_t n = z - out.data();
	CHECK(n <= wl && !memcmp(out.data(), want.data(), n), "%s(%s) into %zu bytes = %s, expected a prefix of %s", name[f], show(t).c_str(), sz, show(out.data(), n).c_str(), show(want).c_str());
	CHECK(n == wl || ends[n], "%s(%s) into %zu bytes = %s, cut inside an escape of %s", name[f], show(t).c_str(), sz, show(out.data(), n).c_str(), show(want).c_str());
	if (roomy) CHECK(n == wl, "%s(%s) into %zu bytes = %s, expected all of %s", name[f], show(t).c_str(), sz, show(out.data(), n).c_str(), show(want).c_str());
}
