// @pbt quick=250000 thorough=10000000 fuzz=8 tfuzz=200 maxlen=300
#include "pbt.h"
#include <coda/string.h>
#include <coda/string.hpp>

const char *prop_id = "C22";
const char *prop_rule = "decimal texts of values with interesting magnitudes (whole 64-bit range, powers of two and ten and their neighbours, both signs, leading zeros), the same with one foreign byte put at any position, cut from buffers with exact bounds; comma lists of numbers, empty pieces and words. A few pieces are 2-8 GB long (a mapping that costs nothing) with the foreign byte near the start. Values that do not fit are not generated; list pieces are numbers, empty or start with a letter. Non-trivial: more than one digit, a foreign byte, or a list of two or more pieces.";

void prop_init() {}
static std::string dec(unsigned __int128 v) { std::string r; do { r.insert(0, 1, (char) ('0' + (int) (v % 10))); v /= 10; } while (v); return r; }

void run_case(Src &s, Ctx &c)
{
	if (s.below(1000) == 999)
	{
		// a huge piece: digits, then a byte that is no digit
		size_t n = vast_len(s); bool sig = s.below(2);
		std::string t = sig && s.below(2) ? "-" : ""; t += s.from("123456789", 1 + s.below(60));
		Vast v(n);
		if (!v.data()) { c.label("huge length: no address space"); return; }
		v.at(0, t);
		c.say("%s over %zu bytes that start with %s and a zero byte", sig ? "coda_atoi" : "coda_atou", n, show(t).c_str());
		c.nontrivial(); c.label("huge length");
		if (sig) { int64_t r = coda_atoi(v.data(), n); CHECK(r == 0, "coda_atoi over %zu bytes that start with %s and a zero byte = %lld, expected 0", n, show(t).c_str(), (long long) r); }
		else { uint64_t r = coda_atou(v.data(), n); CHECK(r == 0, "coda_atou over %zu bytes that start with %s and a zero byte = %llu, expected 0", n, show(t).c_str(), (unsigned long long) r); }
		return;
	}
	switch (s.weighted({ 3, 3, 3 }))
	{
		case 0: case 1:
		{
			bool sig = s.below(2), neg = false;
			uint64_t v = s.big(); int64_t iv = 0;
			std::string t;
			if (sig)
			{
				neg = s.below(2);
				if (neg) { if (v > (1ull << 63)) v = 1ull << 63; if (s.chance(10)) v = 1ull << 63; iv = (int64_t) (0 - v); }
				else { v &= INT64_MAX; iv = v; }
			}
			t = dec(v);
			if (s.chance(40)) t.insert(0, s.len(30), '0');
			if (neg) t.insert(0, "-");
			bool bad = false, empty = false;
			if (s.chance(100))
			{
				char ch;
				switch (s.below(3)) { case 0: ch = s.oneof<char>({ ' ', '+', '-', '.', '/', ':', 'a', 'x', ',', '\n', '\0' }); break;
					case 1: ch = (char) (128 + s.below(128)); break;
					default: ch = (char) s.byte(); s.note((uint8_t) ch); if (ch >= '0' && ch <= '9') ch = '_'; }
				size_t at = s.below(t.size() + 1);
				if (ch == '-' && sig && at == 0) { if (neg) { t.insert(at, 1, ch); bad = true; } }   // "--5"
				else if (ch == '-' && at == 0 && !sig) { t.insert(at, 1, ch); bad = true; }
				else { if (s.below(2)) t.insert(at, 1, ch); else if (at < t.size() && !(neg && at == 0)) t[at] = ch; else t.insert(at, 1, ch); bad = true; }
				if (sig && t.size() && t[0] == '-' && !neg) { bad = false; return; }
			}
			if (s.chance(6)) { t = sig && s.below(2) ? "-" : ""; bad = false; empty = true; iv = 0; v = 0; }
			c.say("%s(%s)%s", sig ? "coda_atoi" : "coda_atou", show(t).c_str(), bad ? " (not a number)" : "");
			c.nontrivial(t.size() > 1); c.label(empty ? "no digits" : bad ? "not a number" : sig ? "signed" : "unsigned");
			Exact in(t);
			if (sig) { int64_t r = coda_atoi(in, in.size()); CHECK(r == (bad ? 0 : iv), "coda_atoi(%s) = %lld, expected %lld", show(t).c_str(), (long long) r, (long long) (bad ? 0 : iv)); }
			else { uint64_t r = coda_atou(in, in.size()); CHECK(r == (bad ? 0 : v), "coda_atou(%s) = %llu, expected %llu", show(t).c_str(), (unsigned long long) r, (unsigned long long) (bad ? 0 : v)); }
			break;
		}
		default:
		{
			std::set<uint64_t> want, got; std::string t; int n = 0;
			if (s.chance(60)) { want.insert(77); got.insert(77); }
			bool first = true;
			while (first ? !s.chance(6) : s.more(4))
			{
				if (!first) t += ',';
				first = false; ++n;
				switch (s.weighted({ 6, 2, 2 }))
				{
					case 0: { uint64_t v = s.big(); want.insert(v); t += dec(v); break; }
					case 1: break;
					default: t += s.oneof<const char *>({ "x", "abc", "z9", "_1", "q 5" }); break;
				}
			}
			std::string sh = "{"; for (auto v : want) sh += fmt("%llu ", (unsigned long long) v);
			c.say("coda_get_uint64set(%s) -> %s}", show(t).c_str(), sh.c_str());
			c.nontrivial(n >= 2); c.label(n ? "list" : "empty list");
			Exact in(std::string(t.c_str(), t.size() + 1));
			coda_get_uint64set(in, got);
			std::string g = "{"; for (auto v : got) g += fmt("%llu ", (unsigned long long) v);
			CHECK(got == want, "coda_get_uint64set(%s) gives %s}, expected %s}", show(t).c_str(), g.c_str(), sh.c_str());
		}
	}
}
