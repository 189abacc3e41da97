// @pbt quick=60000 thorough=4000000 fuzz=8 tfuzz=240 maxlen=900 wrap=time,gettimeofday,clock_gettime with=faketime.cpp
#include "cache_model.h"
#include <memory>

const char *prop_id = "C10";
const char *prop_rule = "histories of 1-60 operations (set new/held key with or without renewal, both lookups, erase of a present or missing key, time steps, copying and assigning the cache, with further operations on both) over up to 8 keys (sometimes 300), int and string keys, limits from 0 to a few elements and beyond 32 bits, element sizes from 0 to beyond the limit, some values given by reference into the cache itself; values returned by lookups watched until their key is set or leaves; totals checked after every operation, every key looked up at the end (and at random points on a no-expiry cache). Oracle: list model ordered by last set. Non-trivial: at least one eviction and one set of a held key.";

template <class K> static void history(Src &s, Ctx &c, bool &evict, bool &update)
{
	size_t lim = s.oneof<size_t>({ 100, 10, 40, 0, 1, 1000, 64, 100, 10, 40, 0, 1, 1000, 64, 200000, (1ull << 32) + 100, 3ull << 31, 1ull << 40, 1ull << 61, (1ull << 63) + 100, ~(size_t) 0 });
	int keys = !pbt::guided && s.chance(10) ? 8 + s.below(300) : 8, maxsteps = keys > 8 ? 500 : 60;
	uint64_t life = s.chance(60) ? 1 + s.below(20) : 0;
	typedef coda_cache<K, Val> Cache; std::unique_ptr<Cache> mine(new Cache(lim, life)); CacheModel<K> m(lim, life);
	FakeTime ft(1000000); m.now = fake_sec;
	int steps = 0; uint32_t id = 0; std::map<K, const Val *> held;
	c.say("limit %zu, lifetime %d", lim, (int) life);
	while ((steps < 2 || s.more(keys > 8 ? 300 : 14)) && steps < maxsteps)
	{
		++steps;
		Cache &cache = *mine;
		K k = key_of(K(), s.below(keys));
		switch (s.weighted({ 32, 12, 12, 8, 8, 3 }))
		{
			case 0:
			{
				size_t sz = s.weighted({ 5, 4, 1, 1, 1, 1 }); if (keys > 8 && sz < 3) sz = 5;
				sz = sz == 0 ? s.below(lim / 3 + 2) : sz == 1 ? s.below(lim + 2) : sz == 2 ? lim : sz == 3 ? lim + 1 : sz == 5 ? s.below(lim / keys * 3 + 2) : lim * 2 + s.below(50);
				if (lim >> 63) sz = lim + 1 == 0 ? sz % 1000 : std::min<size_t>(sz, (1ull << 63) - 200); // their sum has to be a number
				Val v(++id, sz); bool renew = s.below(2);
				if (m.find(k) != m.l.end()) update = true;
				c.say("set %s size %zu%s", key_show(k).c_str(), sz, renew ? " renew" : "");
				const Val *own = NULL; K from = k;
				if (s.chance(40)) { from = key_of(K(), s.below(keys)); const Val *e = m.get(from); own = cache.get(from); CHECK(!!e == !!own, "get(%s) finds %s", key_show(from).c_str(), own ? "an element" : "nothing"); if (e) v = *e; }
				if (own) { c.say("...with the value held under %s", key_show(from).c_str()); c.label("value given by reference into the cache"); }
				m.set(k, v, renew); cache.set(k, own ? *own : v, renew);
				held.erase(k);
				break;
			}
			case 1:
			{
				const Val *e = m.get(k); const Val *g = cache.get(k);
				c.say("get %s -> %s", key_show(k).c_str(), e ? "present" : "absent");
				CHECK(!!e == !!g, "get(%s) finds %s, expected %s", key_show(k).c_str(), g ? "an element" : "nothing", e ? "one" : "nothing");
				if (e) held[k] = g;
				if (e) CHECK(*e == *g, "get(%s) returns value %u of size %zu, last set was %u of size %zu", key_show(k).c_str(), g->id, g->sz, e->id, e->sz);
				break;
			}
			case 2:
			{
				Val mark(777777, 3), g = mark; const Val *e = m.get(k);
				cache.get(k, g);
				c.say("get2 %s -> %s", key_show(k).c_str(), e ? "present" : "absent");
				CHECK(g == (e ? *e : mark), "get(%s, value) leaves value %u, expected %u", key_show(k).c_str(), g.id, e ? e->id : mark.id);
				break;
			}
			case 3:
			{
				bool e = m.erase(k), g = cache.erase(k);
				c.say("erase %s", key_show(k).c_str());
				CHECK(e == g, "erase(%s) reports %d, expected %d", key_show(k).c_str(), (int) g, (int) e);
				break;
			}
			case 5:
			{	// a copy: both hold the same, and what happens to one does not touch the other
				std::unique_ptr<Cache> two; CacheModel<K> m2(m); int how = s.below(4);
				if (how == 3) { Cache &self = cache; cache = self; held.clear(); c.say("assigned to itself"); break; }
				if (how < 2) two.reset(new Cache(cache));
				else
				{
					two.reset(new Cache(lim / 2 + 5, life + 1));
					for (int n = s.below(6); n--;) two->set(key_of(K(), s.below(keys)), Val(++id, s.below(5)), false);
					*two = cache;
				}
				c.label("copied"); bool go = s.below(2);
				c.say("%s, %s goes on", how < 2 ? "copied" : "assigned to another", go ? "the copy" : "the original");
				if (go) { mine.swap(two); held.clear(); }
				for (int n = s.below(8); n--;)
				{
					K q = key_of(K(), s.below(keys));
					switch (s.below(3))
					{
						case 0: { Val v(++id, s.below(lim / 2 + 2)); c.say("...set %s size %zu in the other", key_show(q).c_str(), v.sz); m2.set(q, v, false); two->set(q, v, false); break; }
						case 1: { c.say("...erase %s in the other", key_show(q).c_str()); bool a = m2.erase(q), b = two->erase(q); CHECK(a == b, "erase(%s) reports %d, expected %d, in the %s", key_show(q).c_str(), (int) b, (int) a, go ? "original" : "copy"); break; }
						default: { const Val *e = m2.get(q), *g = two->get(q); CHECK(!!e == !!g && (!e || *e == *g), "after copying, key %s of the other: %s, expected %s", key_show(q).c_str(), g ? fmt("value %u", g->id).c_str() : "absent", e ? fmt("value %u", e->id).c_str() : "absent"); }
					}
				}
				uintmax_t n, cur; cache_totals(*two, n, cur);
				CHECK(cur == m2.sum() && n == m2.l.size(), "the %s reports %ju elements, %ju bytes; expected %zu, %zu", go ? "original" : "copy", n, cur, m2.l.size(), m2.sum());
				if (s.below(2)) { two.reset(); break; }
				for (int i = 0; i < keys; ++i)
				{
					K q = key_of(K(), i); const Val *e = m2.get(q), *g = two->get(q);
					CHECK(!!e == !!g && (!e || *e == *g), "key %s of the %s: %s, expected %s", key_show(q).c_str(), go ? "original" : "copy", g ? fmt("value %u", g->id).c_str() : "absent", e ? fmt("value %u", e->id).c_str() : "absent");
				}
				break;
			}
			default:
				if (life) { fake_sec += s.below(8); m.now = fake_sec; c.say("time %+d", (int) (fake_sec - 1000000)); }
				break;
		}
		// what a lookup returned stays where it is until that key is set, erased, evicted or found outdated
		for (auto h = held.begin(); h != held.end();)
		{
			auto e = m.find(h->first);
			if (e == m.l.end()) { held.erase(h++); continue; }
			CHECK(*h->second == e->v, "the value returned for %s changed", key_show(h->first).c_str()); ++h;
		}
		uintmax_t n, cur; cache_totals(*mine, n, cur);
		CHECK(cur <= lim, "after step %d the cache holds %ju bytes, limit %zu", steps, cur, lim);
		CHECK(cur == m.sum() && n == m.l.size(), "after step %d the cache reports %ju elements, %ju bytes; expected %zu, %zu", steps, n, cur, m.l.size(), m.sum());
		if (s.chance(40)) for (auto e : m.l) if (!m.old(e))
		{
			const Val *g = mine->get(e.k);
			CHECK(g && *g == e.v, "key %s is %s", key_show(e.k).c_str(), g ? "held with another value" : "gone too early");
		}
	}
	for (int i = 0; i < keys; ++i)
	{
		K k = key_of(K(), i); const Val *e = m.get(k), *g = mine->get(k);
		CHECK(!!e == !!g && (!e || *e == *g), "at the end key %s: %s, expected %s", key_show(k).c_str(), g ? fmt("value %u", g->id).c_str() : "absent", e ? fmt("value %u", e->id).c_str() : "absent");
	}
	evict = m.evicted > 0;
}

template <class T> static void totals_of(Src &s, Ctx &c)
{	// values whose size is known from their type
	coda_cache<int, T> cache(sizeof(T) * 3 + s.below(sizeof(T)), 0);
	std::list<int> order;
	int n = 1 + s.below(12);
	for (int i = 0; i < n; ++i)
	{
		int k = s.below(6); T v = (T) (k + 1); cache.set(k, v, false);
		order.remove(k); order.push_back(k); if (order.size() > 3) order.pop_front();
		uintmax_t a, b; cache_totals(cache, a, b);
		CHECK(a == order.size() && b == order.size() * sizeof(T), "cache of numbers reports %ju elements and %ju bytes, expected %zu of %zu", a, b, order.size(), sizeof(T));
	}
	for (int k = 0; k < 6; ++k) CHECK(!!cache.get(k) == (std::find(order.begin(), order.end(), k) != order.end()), "number cache: wrong key evicted (%d)", k);
	c.label("numbers");
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	bool ev = false, up = false;
	std::function<void()> f;
	switch (s.weighted({ 6, 5, 1, 1 }))
	{
		case 0: history<int>(s, c, ev, up); c.label("int keys"); break;
		case 1: history<std::string>(s, c, ev, up); c.label("string keys"); break;
		case 2: totals_of<int>(s, c); ev = up = true; break;
		default: totals_of<double>(s, c); ev = up = true; break;
	}
	c.nontrivial(ev && up);
}
