// Reference model of the cache: a list in order of the last set of each key.
#pragma once
#include "pbt.h"
#include "faketime.h"
#include <inttypes.h>
#include <list>
#include <coda/coda.h>
#include <coda/cache.hpp>

struct Val
{
	uint32_t id; size_t sz; std::string body;
	Val() : id(0), sz(0) {}
	Val(uint32_t i, size_t s) : id(i), sz(s), body(i % 40, 'v') {}
	size_t estimate_capacity() const { return sz; }
	bool operator==(const Val &o) const { return id == o.id && sz == o.sz && body == o.body; }
};

template <class K> struct CacheModel
{
	struct E { K k; Val v; int64_t t; };
	std::list<E> l; size_t lim; uint64_t life; int64_t now; size_t evicted, expired;
	CacheModel(size_t a, uint64_t b) : lim(a), life(b), now(0), evicted(0), expired(0) {}
	typename std::list<E>::iterator find(const K &k) { auto i = l.begin(); while (i != l.end() && !(i->k == k)) ++i; return i; }
	size_t sum() const { size_t s = 0; for (auto &e : l) s += e.v.sz; return s; }
	bool old(const E &e) const { return life && now > e.t && (uint64_t) (now - e.t) > life; }
	const Val *get(const K &k)
	{
		auto i = find(k);
		if (i == l.end()) return NULL;
		if (old(*i)) { l.erase(i); ++expired; return NULL; }
		return &i->v;
	}
	void set(const K &k, const Val &v, bool renew)
	{
		auto i = find(k); E e = { k, v, now };
		if (i != l.end()) { if (!renew) e.t = i->t; l.erase(i); }
		l.push_back(e);
		while (sum() > lim) { l.pop_front(); ++evicted; }
	}
	bool erase(const K &k) { auto i = find(k); if (i == l.end()) return false; l.erase(i); return true; }
};

template <class C> static inline void cache_totals(const C &cache, uintmax_t &n, uintmax_t &cur)
{
	std::string t; cache.dbg(t, 0);
	const char *a = strstr(t.c_str(), "nelt_cur="), *b = strstr(t.c_str(), "size_cur=");
	CHECK(a && b, "dbg() does not report nelt_cur and size_cur: %s", show(t).c_str());
	n = strtoumax(a + 9, NULL, 10); cur = strtoumax(b + 9, NULL, 10);
}

static inline int key_of(int, int i) { return i * 7 - 3; }
static inline std::string key_of(std::string, int i) { if (i > 7) return fmt("%d-key", i); static const char *k[] = { "", "a", "b", "ab", "key-that-is-longer-than-the-small-buffer", "c", "d", "e" }; return k[i & 7]; }
static inline std::string key_show(int k) { return fmt("%d", k); }
static inline std::string key_show(const std::string &k) { return show(k); }
