// @pbt quick=60000 thorough=2500000 fuzz=7 tfuzz=200 maxlen=200
#include "pbt.h"
#include <coda/string.hpp>

const char *prop_id = "C23";
const char *prop_rule = "formats of one to four conversions (%s with precision and width, %d %u %x %llu %c %% %.3f %p-free) with generated arguments, output lengths from 0 to 300000 and concentrated on 32766-32770, 65535-65537; a few of 1 to 60 million bytes; arguments that alias the destination or that cannot be formatted (an invalid wide character, before or after a long text); limits 0, around the output length, around 32768, and up to SIZE_MAX; positions inside, at and beyond the end; prior contents with zero bytes. Oracle: vsnprintf with a measured buffer. Non-trivial: output longer than 32000, truncated by the limit, or inserted in the middle.";

void prop_init() {}

struct Args { const char *sa; wchar_t wc[2]; std::string f; int i; unsigned long long u; std::string a, b; char ch; double d; int w, prec; };

static bool failed;
static std::string expect(const Args &x, int form)
{
	std::string r;
#define CALL(FN) \
	switch (form) { \
		case 0: FN("%s", x.sa); break; \
		case 1: FN("%s|%d", x.sa, x.i); break; \
		case 2: FN("%d %llu %x", x.i, x.u, (unsigned) x.i); break; \
		case 3: FN("%c%s%c", x.ch, x.sa, x.ch); break; \
		case 4: FN("%*d", x.w, x.i); break; \
		case 5: FN("%-*s<%.*s>%%", x.w, x.b.c_str(), x.prec, x.sa); break; \
		case 8: FN("%s%ls", x.sa, x.wc); break; \
		case 9: FN("%ls%s", x.wc, x.sa); break; \
		case 6: FN("%.3f %s", x.d, x.b.c_str()); break; \
		default: FN("%s", ""); break; \
	}
#define MEASURE(...) do { int n = snprintf(0, 0, __VA_ARGS__); failed = n < 0; if (n < 0) n = 0; std::vector<char> buf(n + 1); snprintf(buf.data(), n + 1, __VA_ARGS__); r.assign(buf.data(), n); } while (0)
	CALL(MEASURE)
	return r;
}

void run_case(Src &s, Ctx &c)
{
	Args x;
	int form = s.chance(15) ? 8 + (int) s.below(2) : (int) s.below(8);
	x.wc[0] = s.below(3) ? 0x2603 : 'w'; x.wc[1] = 0;
	auto longlen = [&]() -> size_t {
		switch (s.weighted({ 6, 3, 1, 1 })) { case 0: return s.len(100); case 1: return 32755 + s.below(30); case 2: return 65520 + s.below(30); default: return s.below(300000); } };
	x.i = (int) s.big() * (s.below(2) ? -1 : 1); x.u = s.big();
	size_t n = longlen();
	x.a = std::string(n, 'a' + s.below(26)); if (n > 3) { x.a[n / 2] = 'M'; x.a[n - 1] = 'Z'; x.a[0] = 'A'; }
	if (!pbt::guided && s.chance(1) && !s.below(20)) { n = 1000000 + s.below(60000000); x.a = std::string(n, 'v'); x.a[0] = 'V'; x.a[n - 1] = 'Z'; c.label("output of millions of bytes"); }
	x.b = std::string(s.len(20), 'b'); x.ch = s.chance(80) ? '\0' : (char) ('!' + s.below(90)); x.d = (double) (int64_t) s.below(1000000) / 64;
	x.w = form == 4 ? (int) longlen() : (int) s.below(40); x.prec = (int) (s.below(2) ? n : s.below(50));
	x.sa = x.a.c_str();
	std::string want = expect(x, form);
	size_t L = want.size();
	int op = s.below(4);
	std::string prior = s.blob(30), out = prior;
	size_t lim;
	switch (s.weighted({ 3, 3, 2, 1, 1 }))
	{
		case 0: lim = L + 3 - std::min<size_t>(L + 3, s.below(6)); break;
		case 1: lim = s.below(L + 10); break;
		case 2: lim = 32760 + s.below(16); break;
		case 3: lim = s.oneof<size_t>({ 0, 1, 1000000, (size_t) INT32_MAX, (size_t) INT32_MAX + 1, (size_t) UINT32_MAX, (size_t) UINT32_MAX + 1, SIZE_MAX - 1, SIZE_MAX }); break;
		default: lim = s.below(100000); break;
	}
	bool alias = op && s.chance(50);
	if (alias)
	{
		prior = out = x.a; if (s.below(2)) out.reserve(2 * n + 80000);
		x.sa = out.c_str(); c.label("the argument is the destination's own text");
	}
	std::string cut = want.substr(0, std::min(lim, L));
	static const char *nm[] = { "coda_strprintf", "coda_strappend", "coda_strnappend", "coda_strnprintf" };
	c.label(fmt("%s%s", nm[op], L > 32767 ? ", long" : "")); c.nontrivial(L > 32000 || (op >= 2 && lim < L));
	int ret = -2; std::string exp_out; int exp_ret;
	c.say("%s form %d, output of %zu bytes, limit %zu, prior %zu bytes", nm[op], form, L, lim, prior.size());
	if (op == 0)
	{
#define F0(...) out = coda_strprintf(__VA_ARGS__)
		CALL(F0)
		if (failed) { c.label("cannot be formatted"); want.clear(); L = 0; }
		CHECK(out == want, "coda_strprintf (form %d) gives %zu bytes %s, expected %zu bytes %s", form, out.size(), show(out.substr(0, 60)).c_str(), L, show(want.substr(0, 60)).c_str());
		return;
	}
	if (op == 1)
	{
#define F1(...) ret = coda_strappend(out, __VA_ARGS__)
		CALL(F1)
		exp_out = prior + want; exp_ret = L;
	}
	else if (op == 2)
	{
#define F2(...) ret = coda_strnappend(out, lim, __VA_ARGS__)
		CALL(F2)
		exp_out = prior + cut; exp_ret = cut.size();
	}
	else
	{
		size_t pos = s.chance(40) ? prior.size() + 1 + s.below(50) : s.below(prior.size() + 1);
		c.say("position %zu", pos); c.nontrivial(pos < prior.size());
#define F3(...) ret = coda_strnprintf(out, pos, lim, __VA_ARGS__)
		CALL(F3)
		if (pos > prior.size()) { exp_out = prior; exp_ret = -1; c.label("position beyond the end"); }
		else { exp_out = prior.substr(0, pos) + cut + prior.substr(pos); exp_ret = cut.size(); }
	}
	if (failed) { c.label("cannot be formatted"); exp_out = prior; exp_ret = -1; }
	CHECK(ret == exp_ret, "%s (form %d, output %zu bytes, limit %zu) returns %d, expected %d", nm[op], form, L, lim, ret, exp_ret);
	CHECK(out == exp_out, "%s (form %d, output %zu bytes, limit %zu): text has %zu bytes %s, expected %zu bytes %s", nm[op], form, L, lim, out.size(), show(out.substr(0, 80)).c_str(), exp_out.size(), show(exp_out.substr(0, 80)).c_str());
}
