// @pbt quick=150000 thorough=8000000 fuzz=8 tfuzz=120 maxlen=64
#include "pbt.h"
#include <time.h>
#include <coda/gmtime.h>

const char *prop_id = "C29";
const char *prop_rule = "a time by day number (around month, year, leap-year, century and 400-year boundaries, any day of the 400-year cycle, epochs up to year two thousand million) and second of day (around minute, hour and day boundaries), followed by a run of 1-600 consecutive days and 1-200 consecutive seconds. Oracle: month-by-month calendar counting for years to 9999, the C library's gmtime beyond; each step must be the successor of the one before. Non-trivial: the run crosses a day, month or year boundary.";

struct D { int64_t y; int m, d, H, M, S, w; };
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static int mdays(int64_t y, int m) { static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return n[m - 1] + (m == 2 && leap(y)); }
static D calendar(uint64_t t)
{
	D r; uint64_t days = t / 86400; int s = t % 86400;
	r.H = s / 3600; r.M = s / 60 % 60; r.S = s % 60; r.w = (days + 4) % 7;
	uint64_t cyc = days / 146097; days %= 146097;              // 400 years from 1970
	int64_t y = 1970; while (days >= (uint64_t) (leap(y) ? 366 : 365)) days -= leap(y) ? 366 : 365, ++y;
	r.m = 1; while (days >= (uint64_t) mdays(y, r.m)) days -= mdays(y, r.m++);
	r.d = days + 1; r.y = y + 400 * cyc;
	return r;
}
static uint64_t days_to(int64_t y, int m, int d)
{
	uint64_t n = 0; for (int64_t i = 1970; i < y; ++i) n += leap(i) ? 366 : 365;
	for (int i = 1; i < m; ++i) n += mdays(y, i);
	return n + d - 1;
}
static void check(uint64_t t)
{
	struct tm g; memset(&g, 0x5a, sizeof g);
	coda_gmtime((time_t) t, &g);
	D e = calendar(t);
	CHECK(g.tm_year == e.y && g.tm_mon == e.m && g.tm_mday == e.d && g.tm_hour == e.H && g.tm_min == e.M && g.tm_sec == e.S && g.tm_wday == e.w,
		"time %llu: got %d-%d-%d %d:%d:%d weekday %d, expected %lld-%d-%d %d:%d:%d weekday %d", (unsigned long long) t,
		g.tm_year, g.tm_mon, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec, g.tm_wday, (long long) e.y, e.m, e.d, e.H, e.M, e.S, e.w);
}

void prop_init()
{
	// the reference itself against the C library
	for (uint64_t t = 0; t < 1000ull * 366 * 86400; t += 86400 * 13 + 4567)
	{
		time_t x = t; struct tm g; gmtime_r(&x, &g); D e = calendar(t);
		if (g.tm_year + 1900 != e.y || g.tm_mon + 1 != e.m || g.tm_mday != e.d || g.tm_hour != e.H || g.tm_min != e.M || g.tm_sec != e.S || g.tm_wday != e.w) { fprintf(stderr, "reference calendar differs from gmtime\n"); abort(); }
	}
}
void run_case(Src &s, Ctx &c)
{
	uint64_t day;
	switch (s.weighted({ 4, 3, 3, 2, 2, 1 }))
	{
		case 0: day = days_to(s.range(1970, 2410), 1 + s.below(12), 1) + s.range(0, 2); break;
		case 1: { int64_t y = s.oneof<int>({ 2000, 1972, 2100, 2400, 1999, 2038, 2096, 2104, 2200, 2300, 4000, 9996, 9999 }); int m = s.oneof<int>({ 2, 3, 1, 12 }); day = days_to(y, m, s.below(2) ? mdays(y, m) : 1); break; }
		case 2: day = s.below(146097); break;
		case 3: day = s.below(146097 * 25ull); break;
		case 4: day = s.below(24855ull * 2 + 10); break;
		default: day = s.u64() % (2000000000ull * 365); break;
	}
	static const int secs[] = { 0, 86399, 59, 60, 3599, 3600, 86340, 43199, 43200, 1 };
	uint64_t t = day * 86400 + (s.below(2) ? s.below(86400) : secs[s.below(10)]);
	if (s.chance(10)) t = s.oneof<uint64_t>({ 0, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 253402300799ull, 67767976233532799ull - 1000 * 86400ull });
	uint64_t days = 1 + (s.below(2) ? s.below(5) : s.below(600)), run = 1 + (s.below(4) ? s.below(5) : s.below(200));
	c.say("from %llu: %llu days, %llu seconds", (unsigned long long) t, (unsigned long long) days, (unsigned long long) run);
	D a = calendar(t), b = calendar(t + (days - 1) * 86400);
	c.nontrivial(a.m != b.m || a.y != b.y || (t % 86400 + run > 86400));
	for (uint64_t i = 0; i < days; ++i) check(t + i * 86400);
	for (uint64_t i = 0; i < run; ++i) check(t + i);
	// the reference against the C library at the same place
	time_t x = t; struct tm g; if (gmtime_r(&x, &g)) CHECK(g.tm_year + 1900ll == a.y && g.tm_mon + 1 == a.m && g.tm_mday == a.d && g.tm_wday == a.w, "reference calendar wrong at %llu", (unsigned long long) t);
	c.label(a.y < 2038 ? "to 2038" : a.y < 2500 ? "to 2500" : a.y < 10000 ? "to 9999" : "beyond");
}
