// @pbt quick=250000 thorough=10000000 fuzz=8 tfuzz=200 maxlen=300
#include "pbt.h"
#include "viet_table.h"
#include <coda/vietnam.hpp>

const char *prop_id = "C25";
const char *prop_rule = "sequences of 0-40 code points (ASCII, the Vietnamese letters of a table generated from Unicode decompositions, their code point neighbours, combining marks and their neighbours, two/three/four byte code points, U+0000) in UTF-8, whole or cut inside the last character; arbitrary byte strings. Oracle: code-point-wise mapping; for byte strings only bounds, length and exact reads. Non-trivial: at least one letter or mark that must change, or arbitrary bytes above 0x7F.";

static std::string u8(unsigned cp)
{
	std::string r;
	if (cp < 0x80) r += (char) cp;
	else if (cp < 0x800) { r += (char) (0xc0 | cp >> 6); r += (char) (0x80 | (cp & 63)); }
	else if (cp < 0x10000) { r += (char) (0xe0 | cp >> 12); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
	else { r += (char) (0xf0 | cp >> 18); r += (char) (0x80 | (cp >> 12 & 63)); r += (char) (0x80 | (cp >> 6 & 63)); r += (char) (0x80 | (cp & 63)); }
	return r;
}
static std::string mapcp(unsigned cp)
{
	if (cp >= 0x300 && cp <= 0x36f) return "";
	for (auto &v : VIET) if (v.cp == cp) return std::string(1, v.base);
	return u8(cp);
}
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.chance(50))
	{
		std::string t = s.from(s.below(2) ? std::string("\xe1\xba\xcc\x80\xf0\xff\xc4\x90 a\xc0\x80\xe0") : std::string("\xf0\x80\xc3\x81\xbf\xed", 6), s.len(60));
		if (s.chance(80)) t = s.blob(60);
		if (s.chance(4)) t = stretch(s, t, "\xe1\xba\xa3");
		c.say("bytes %s", show(t).c_str()); c.label("arbitrary bytes");
		for (unsigned char ch : t) if (ch > 0x7f) c.nontrivial();
		Exact in(t);
		std::string r = coda_remove_tones_utf8(in, in.size());
		CHECK(r.size() <= t.size(), "result of %s is longer: %s", show(t).c_str(), show(r).c_str());
		return;
	}
	std::string t, want; unsigned last = 0;
	while (s.more(8) && t.size() < 200)
	{
		unsigned cp;
		switch (s.weighted({ 3, 6, 3, 2, 2, 2, 1, 1 }))
		{
			case 0: cp = 'a' + s.below(26); break;
			case 1: cp = VIET[s.below(NVIET)].cp; break;
			case 2: cp = VIET[s.below(NVIET)].cp + s.range(-2, 2); break;
			case 3: cp = 0x2fe + s.below(0x75); break;
			case 4: cp = 0x80 + s.below(0x780); break;
			case 5: cp = 0x800 + s.below(0xf800); if (cp >= 0xd800 && cp < 0xe000) cp = 0xe000; break;
			case 6: cp = 0x10000 + s.below(0x100000); break;
			default: cp = s.below(128); break;
		}
		std::string m = mapcp(cp);
		if (m != u8(cp)) c.nontrivial();
		t += u8(cp); want += m; last = cp;
	}
	if (s.chance(4))
	{
		unsigned cp = s.below(2) ? 'x' : s.below(2) ? VIET[s.below(NVIET)].cp : 0x301; size_t n = stretch(s, "", u8(cp)).size() / u8(cp).size(); std::string a, b;
		while (n--) { a += u8(cp); b += mapcp(cp); }
		if (t.empty()) last = cp; t.insert(0, a); want.insert(0, b);
	}
	std::string cut;
	if (last > 0x7f && s.chance(60))
	{	// cut inside the last character
		std::string l = u8(last); size_t keep = 1 + s.below(l.size() - 1);
		want.resize(want.size() - mapcp(last).size()); want += l.substr(0, keep);
		t.resize(t.size() - l.size() + keep); c.label("cut inside the last character");
	}
	else c.label("whole characters");
	c.say("text %s", show(t).c_str());
	Exact in(t);
	std::string r = coda_remove_tones_utf8(in, in.size());
	CHECK(r == want, "tones removed from %s give %s, expected %s", show(t).c_str(), show(r).c_str(), show(want).c_str());
	std::string r2 = coda_remove_tones_utf8(r.data(), r.size());
	CHECK(r2 == r, "second removal changes %s to %s", show(r).c_str(), show(r2).c_str());
}
