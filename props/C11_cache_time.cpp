// @pbt quick=60000 thorough=4000000 fuzz=8 tfuzz=240 maxlen=900 wrap=time,gettimeofday,clock_gettime with=faketime.cpp
#include "cache_model.h"

const char *prop_id = "C11";
const char *prop_rule = "histories of 1-60 sets (with and without renewal), lookups (both forms), erases and clock steps of 0 .. several lifetimes (hitting exactly T and T+1 after a set often) under a clock the case sets; lifetimes 0, 1, 2, 60, a year and beyond 32 bits, 'practically for ever'; the clock sometimes set back. Oracle: age model. Non-trivial: at least one element found outdated and one still valid exactly at its last second, or a cache without lifetime.";

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	uint64_t life = s.weighted({ 8, 6, 6, 4, 2, 2, 1 });
	life = life == 0 ? 2 : life == 1 ? 1 : life == 2 ? 60 : life == 3 ? 0 : life == 4 ? 31536000 : life == 6 ? s.oneof<uint64_t>({ (1ull << 32) + 5, 1ull << 32, (1ull << 31) + 3, (1ull << 16) + 7, 255, 257, 100000, (1ull << 36) + 1 }) : s.oneof<uint64_t>({ 1ull << 40, 1ull << 63, ~0ull, ~0ull >> 1 });
	size_t lim = s.oneof<size_t>({ 1000000, 50 });
	coda_cache<int, Val> cache(lim, life); CacheModel<int> m(lim, life);
	int64_t start = s.oneof<int64_t>({ 1000000000, 0, 2147483640ll, 5000000000ll });
	FakeTime ft(start); m.now = start;
	int steps = 0; uint32_t id = 0; bool last = false;
	c.say("limit %zu, lifetime %llu, start %lld", lim, (unsigned long long) life, (long long) start);
	while ((steps < 3 || s.more(16)) && steps < 60)
	{
		++steps;
		int k = s.below(4);
		switch (s.weighted({ 4, 4, 3, 1, 5 }))
		{
			case 0:
			{
				Val v(++id, s.below(30)); bool renew = s.below(2);
				c.say("set %d%s", k, renew ? " renew" : "");
				m.set(k, v, renew); cache.set(k, v, renew); break;
			}
			case 1: case 2:
			{
				auto i = m.find(k); if (i != m.l.end() && life && (uint64_t) (m.now - i->t) == life) last = true;
				bool second = s.below(2);
				const Val *e = m.get(k);
				c.say("get %d -> %s", k, e ? "present" : "absent");
				if (second)
				{
					Val mark(777777, 3), g = mark; cache.get(k, g);
					CHECK(g == (e ? *e : mark), "at +%lld get(%d, value) leaves value %u, expected %u", (long long) (m.now - start), k, g.id, e ? e->id : mark.id);
				}
				else
				{
					const Val *g = cache.get(k);
					CHECK(!!g == !!e && (!e || *e == *g), "at +%lld get(%d) gives %s, expected %s (lifetime %llu)", (long long) (m.now - start), k, g ? fmt("value %u", g->id).c_str() : "nothing", e ? fmt("value %u", e->id).c_str() : "nothing", (unsigned long long) life);
				}
				break;
			}
			case 3: { bool e = m.erase(k), g = cache.erase(k); c.say("erase %d", k); CHECK(e == g, "erase(%d) reports %d, expected %d", k, (int) g, (int) e); break; }
			default:
			{
				int64_t unit = life && life < 100000000000 ? life : 1000000;
				auto i = m.find(k);
				switch (s.weighted({ 6, 8, 6, 4, 2, 1 }))
				{
					case 5: if (fake_sec > 1000) { fake_sec -= 1 + s.below(1000); c.label("clock set back"); } break;
					case 0: fake_sec += 1; break;
					case 1: if (i != m.l.end() && i->t + unit >= fake_sec) fake_sec = i->t + unit; else fake_sec += unit; break;        // last second of k
					case 2: if (i != m.l.end() && i->t + unit + 1 >= fake_sec) fake_sec = i->t + unit + 1; else fake_sec += unit + 1; break;
					case 3: fake_sec += s.below(unit + 1); break;
					default: fake_sec += unit * s.below(5); break;
				}
				m.now = fake_sec; c.say("time +%lld", (long long) (fake_sec - start));
			}
		}
		uintmax_t n, cur; cache_totals(cache, n, cur);
		CHECK(cur == m.sum() && n == m.l.size(), "after step %d the cache reports %ju elements, %ju bytes; expected %zu, %zu", steps, n, cur, m.l.size(), m.sum());
	}
	c.label(life ? m.expired ? "expired" : "none expired" : "no lifetime");
	c.nontrivial((m.expired && last) || !life);
}
