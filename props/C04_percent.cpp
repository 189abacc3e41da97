// @pbt quick=150000 thorough=8000000 fuzz=7 tfuzz=240 maxlen=800
#include "pbt.h"
#include <coda/url.hpp>

const char *prop_id = "C04";
const char *prop_rule = "byte strings of 0-500 bytes (all byte values, runs, unreserved/reserved mixes) encoded by all variants and decoded back; texts built from literal bytes, '+', valid and truncated %XX escapes in both cases, decoded by all variants. Oracle: byte-wise encoder/decoder from the property text; texts with a malformed escape (two following bytes not hex) are only checked for agreement of the variants. Non-trivial: at least one byte needing an escape, or an escape in the text.";

static bool safe(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }
static int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string ref_enc(const std::string &d, bool plus)
{
	std::string r;
	for (unsigned char c : d)
	{
		if (safe(c)) r += (char) c;
		else if (c == ' ' && plus) r += '+';
		else { r += '%'; r += "0123456789ABCDEF"[c / 16]; r += "0123456789ABCDEF"[c % 16]; }
	}
	return r;
}
static std::string ref_dec(const std::string &t, bool &malformed)
{
	std::string r; malformed = false;
	for (size_t i = 0; i < t.size(); ++i)
	{
		if (t[i] == '+') r += ' ';
		else if (t[i] == '%' && i + 2 < t.size())
		{
			int a = hex(t[i + 1]), b = hex(t[i + 2]);
			if (a < 0 || b < 0) { malformed = true; return r; }
			r += (char) (a * 16 + b); i += 2;
		}
		else r += t[i];
	}
	return r;
}

static void dec_all(const std::string &t, const std::string *want)
{
	Exact in(t); Exact out(t.size() + 1, 0x5a);
	size_t n = coda_urldec(out.data(), in.data(), in.size());
	CHECK(n <= t.size(), "urldec(%s) reports %zu bytes", show(t).c_str(), n);
	std::string a(out.data(), n), b = coda_urldec((const char *) in.data(), in.size()), d = coda_urldec(t);
	CHECK(out.data()[n] == 0, "urldec(%s) into a buffer is not zero-terminated", show(t).c_str());
	CHECK(a == b && b == d, "urldec(%s): buffer variant %s, pointer variant %s, string variant %s", show(t).c_str(), show(a).c_str(), show(b).c_str(), show(d).c_str());
	if (want) CHECK(a == *want, "urldec(%s) = %s, expected %s", show(t).c_str(), show(a).c_str(), show(*want).c_str());
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.weighted({ 1, 1 }) == 0)
	{
		std::string d = s.blob(s.chance(16) ? 500 : 40);
		if (s.chance(60)) { std::string sp = " +%~!*'();:@&=$,/?#[]-_.<>\"\\^`{|}\x7f"; size_t k = s.len(12); for (size_t i = 0; i < k; ++i) d.insert(s.below(d.size() + 1), 1, s.pick(sp)); }
		if (s.chance(4)) d = stretch(s, d, s.oneof<const char *>({ "a", "% ", "\xff" }));
		std::string want = ref_enc(d, true), want2 = ref_enc(d, false);
		c.say("encode %s", show(d).c_str());
		c.nontrivial(want != d); c.label("encode");
		Exact in(d); Exact out(3 * d.size() + 1, 0x5a);
		size_t n = coda_urlenc(out.data(), in.data(), in.size());
		CHECK(n <= 3 * d.size(), "urlenc(%s) reports %zu bytes", show(d).c_str(), n);
		std::string a(out.data(), n), b = coda_urlenc((const char *) in.data(), in.size()), e = coda_urlenc(d);
		CHECK(out.data()[n] == 0, "urlenc(%s) into a buffer is not zero-terminated", show(d).c_str());
		CHECK(a == want, "urlenc(%s) into a buffer = %s, expected %s", show(d).c_str(), show(a).c_str(), show(want).c_str());
		CHECK(b == want, "urlenc(%s) = %s, expected %s", show(d).c_str(), show(b).c_str(), show(want).c_str());
		CHECK(e == want, "urlenc(string %s) = %s, expected %s", show(d).c_str(), show(e).c_str(), show(want).c_str());
		std::string f = coda_urlenc_noplus((const char *) in.data(), in.size()), g = coda_urlenc_noplus(d);
		CHECK(f == want2, "urlenc_noplus(%s) = %s, expected %s", show(d).c_str(), show(f).c_str(), show(want2).c_str());
		CHECK(g == want2, "urlenc_noplus(string %s) = %s, expected %s", show(d).c_str(), show(g).c_str(), show(want2).c_str());
		dec_all(want, &d); dec_all(want2, &d);
	}
	else
	{
		std::string t; bool esc = false, bad = s.chance(50);
		while (s.more(10) && t.size() < 400)
		{
			static const std::string H = "0123456789abcdefABCDEF";
			switch (s.weighted({ 100, 40, 100, bad ? 30 : 0, bad ? 10 : 0 }))
			{
				case 0: { char ch = (char) s.byte(); s.note((uint8_t) ch); t += ch == '%' ? '#' : ch; break; }
				case 1: t += '+'; break;
				case 2: t += '%'; t += s.pick(H); t += s.pick(H); esc = true; break;
				case 3: t += '%'; if (s.below(2)) t += s.pick(H); break;
				default: t += s.oneof<const char *>({ "%%41", "%4", "%", "%zz", "%u0041", "%+1", "%0x" }); break;
			}
		}
		if (s.chance(60) && !t.empty()) t.resize(t.size() - std::min<size_t>(t.size(), s.below(3)));
		if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "a", "+" }));
		std::string want = ref_dec(t, bad);
		c.say("decode %s%s", show(t).c_str(), bad ? " (malformed escape)" : "");
		c.nontrivial(esc); c.label(bad ? "decode, malformed escape" : esc ? "decode, escapes" : "decode");
		dec_all(t, bad ? NULL : &want);
	}
}
