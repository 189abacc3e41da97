// @pbt quick=120000 thorough=6000000 fuzz=8 tfuzz=240 maxlen=900 wrap=malloc,calloc,realloc,strdup,XML_ParserCreate,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_unlock,ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=oom.cpp,simipc.cpp,fiber.cpp
#include "shm_common.h"
#include "txml_common.h"
#include "child.h"
#include "oom.h"
#include <dirent.h>
#include <fcntl.h>
#include <inttypes.h>
#include <pthread.h>
#include <sys/stat.h>
#include <coda/base58.h>
#include <coda/base64.h>
#include <coda/cache.hpp>
#include <coda/logger.h>
#include <coda/string.hpp>
#include <coda/stringstorage.h>
#include <coda/synque.hpp>
#include <coda/url.hpp>
#include <coda/url_parser.hpp>
#include <coda/vietnam.hpp>
extern "C" void *string_storage_find(string_storage *, const char *);

const char *prop_id = "C39";
const char *prop_rule = "every function that allocates (Base58 and Base64, string storage, cache, thread queue, formatting, splitting, percent coding, tone removal, random strings, parameter parsing, XML loading, URL objects, connecting to a shared queue, opening the log), in histories where the n-th allocation of a call fails, alone or with all later ones; element types whose copying throws; threads cancelled while they wait in the queue. Oracle: if nothing failed the result is the usual one; otherwise the documented report or std::bad_alloc, the object as before, nothing leaked, and everything works afterwards. Non-trivial: an allocation failed and something that existed before was used after it.";

// the lock count of the queue
static int held;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
static bool watch;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (watch && ++held > 1) { --held; oom::Rest r; pbt::fail("the queue is still locked"); } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (watch && !r) ++held; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (watch) --held; return __real_pthread_mutex_unlock(m); }
}

// libFuzzer's runtime brings its own instances of the standard containers, compiled without exceptions: they leak when something throws
static void leaks(const char *what, const std::function<void ()> &f) { if (pbt::guided) f(); else pbt::leakcheck(what, f); }
struct Plan { long k; bool all; };
static Plan plan(Src &s) { Plan p; p.k = s.weighted({ 5, 4, 1 }); p.k = p.k == 0 ? s.below(3) : p.k == 1 ? s.below(8) : s.below(60); p.all = s.below(2); return p; }
static std::string how(const Plan &p) { return p.k < 0 ? "" : fmt("allocation %ld%s fails: ", p.k, p.all ? " and all later ones" : ""); }
enum Out { DONE, NOMEM, THREW };
// one call with failing allocations: whether it ended, ran out of memory, or threw something else
template <class F> static Out attempt(const Plan &p, std::string &what, F f)
{
	try { oom::Arm a(p.k, p.all); f(); return DONE; }
	catch (const std::bad_alloc &) { return NOMEM; }
	catch (const pbt::Failure &) { throw; }
	catch (const std::exception &e) { what = e.what(); return THREW; }
}

// a copy of it may throw
struct Thrown : std::bad_alloc {};
struct Item
{
	uint64_t a; std::string s;
	Item() : a(0) {}
	explicit Item(uint64_t t) : a(t), s(t % 50, 'i') {}
	Item(const Item &o) : a(o.a), s(o.s) { if (oom::point()) throw Thrown(); }
	Item &operator=(const Item &o) { if (oom::point()) throw Thrown(); std::string t(o.s); s.swap(t); a = o.a; return *this; }
	bool operator==(const Item &o) const { return a == o.a && s == o.s; }
	size_t estimate_capacity() const { return s.size(); }
};

static void codecs(Src &s, Ctx &c)
{
	std::string d = s.blob(60); Exact in(d); size_t n = d.size(); Plan p = plan(s); std::string what;
	c.say("%s%s", how(p).c_str(), show(d).c_str());
	switch (s.below(6))
	{
		case 0: leakcheck("encode_alloc", [&] {
			char *o = (char *) 1; size_t r = 0; attempt(p, what, [&] { r = coda_base64_encode_alloc(in, n, &o); });
			if (oom::hit && !o) { c.nontrivial(); CHECK(r == CODA_BASE64_LENGTH(n) + 1, "coda_base64_encode_alloc without memory returns %zu, the block needed has %zu bytes", r, CODA_BASE64_LENGTH(n) + 1); return; }
			CHECK(o && o != (char *) 1 && r == CODA_BASE64_LENGTH(n) && strlen(o) == r, "coda_base64_encode_alloc returns %zu", r); free(o);
		}); break;
		case 1: leakcheck("decode_alloc", [&] {
			std::vector<char> t(CODA_BASE64_LENGTH(n) + 1); coda_base64_encode(in, n, t.data(), t.size()); Exact text(std::string(t.data(), t.size() - 1));
			char *o = (char *) 1; size_t len = 987654321; bool r = false, want_len = n % 5; attempt(p, what, [&] { r = coda_base64_decode_alloc(text, text.size(), &o, want_len ? &len : NULL); });
			CHECK(r, "coda_base64_decode_alloc of valid text returns false");
			if (oom::hit && !o) { c.nontrivial(); CHECK(!want_len || (len != 987654321 && len >= n && len <= n + 16), "coda_base64_decode_alloc without memory reports that %zu bytes are needed for %zu", len, n); return; }
			CHECK(o && o != (char *) 1 && (!want_len || len == n) && !memcmp(o, in, n), "coda_base64_decode_alloc gives something else"); free(o);
		}); break;
		case 2: leakcheck("base58 encode_alloc", [&] {
			char *o = (char *) 1; size_t r = 0; attempt(p, what, [&] { r = coda_base58_encode_alloc(in, n, &o); });
			CHECK(o != (char *) 1, "coda_base58_encode_alloc does not set its result");
			if (!o) { CHECK(oom::hit, "coda_base58_encode_alloc fails"); c.nontrivial(); CHECK(r > n && r <= n * 2 + 10, "coda_base58_encode_alloc without memory returns %zu, not the size of the block needed for %zu bytes", r, n); return; }
			std::string t(o); free(o); std::vector<char> b(n + t.size() + 9);
			CHECK(r == t.size() && coda_base58_decode(t.data(), t.size(), b.data()) == (ssize_t) n && !memcmp(b.data(), in, n), "coda_base58_encode_alloc(%s) gives %s%s", show(d).c_str(), show(t).c_str(), oom::hit ? " when an allocation fails" : "");
		}); break;
		case 3: leakcheck("base58 decode_alloc", [&] {
			char *e = NULL; size_t k = coda_base58_encode_alloc(in, n, &e); Exact text(std::string(e, k)); free(e);
			char *o = (char *) 1; ssize_t r = 0; attempt(p, what, [&] { r = coda_base58_decode_alloc(text, k, &o); });
			CHECK(o != (char *) 1, "coda_base58_decode_alloc does not set its result");
			if (!o) { CHECK(oom::hit, "coda_base58_decode_alloc fails"); c.nontrivial(); return; }
			bool same = r == (ssize_t) n && !memcmp(o, in, n); free(o);
			CHECK(same, "coda_base58_decode_alloc(%s) returns %zd and other bytes%s", show(text.str()).c_str(), r, oom::hit ? " when an allocation fails" : "");
		}); break;
		case 4: leakcheck("base58 encode", [&] {
			size_t k = s.below(1) + n * 138 / 100 + 3; Exact o(k, 0x5a); attempt(p, what, [&] { coda_base58_encode(in, n, o, k); });
			CHECK(memchr(o.data(), 0, k), "coda_base58_encode leaves its buffer without an end"); if (oom::hit) { c.nontrivial(); return; }
			std::vector<char> b(n + k + 9); CHECK(coda_base58_decode(o, strlen(o), b.data()) == (ssize_t) n && !memcmp(b.data(), in, n), "coda_base58_encode(%s) gives %s", show(d).c_str(), show(std::string(o.data())).c_str());
		}); break;
		default: leakcheck("base58 decode", [&] {
			char *e = NULL; size_t k = coda_base58_encode_alloc(in, n, &e); Exact text(std::string(e, k)); free(e);
			Exact o(k + 1, 0); ssize_t r = 0; attempt(p, what, [&] { r = coda_base58_decode(text, k, o); });
			if (oom::hit) { CHECK(r < 0 || (r == (ssize_t) n && !memcmp(o.data(), in, n)), "coda_base58_decode without memory returns %zd", r); c.nontrivial(); return; }
			CHECK(r == (ssize_t) n && !memcmp(o.data(), in, n), "coda_base58_decode returns %zd", r);
		});
	}
}

static void storage(Src &s, Ctx &c)
{
	size_t uds = s.oneof<size_t>({ 0, 4, 40, 1000 }); long before = pbt::live_blocks(); bool bad = false;
	{
		string_storage ss; string_storage_init(&ss, uds);
		struct G { string_storage *p; ~G() { string_storage_free(p); } } g = { &ss };
		std::map<std::string, std::pair<char *, std::string> > m; int steps = 0; std::string what, pre = s.below(3) ? "" : std::string(s.oneof<size_t>({ 9, 30, 300 }), 'p');
		while ((steps < 3 || s.more(24)) && steps < 120)
		{
			++steps; Plan p = plan(s); if (s.below(3)) p.k = -1;
			std::string t = pre + fmt("%llu", (unsigned long long) s.below(60)) + std::string(s.below(4) ? 0 : s.below(1500), 'x'); Exact z(t + std::string(1, '\0'));
			char *q = (char *) 1; attempt(p, what, [&] { q = (char *) string_storage_add(&ss, z); });
			bool hit = oom::hit; bool was = m.count(t);
			c.say("%sadd %s%s -> %s", how(p).c_str(), show(t.substr(0, 40)).c_str(), was ? " again" : "", q ? "a slot" : "nothing");
			if (was) CHECK(q == m[t].first, "adding a string again gives %s", q ? "another slot" : "nothing");
			else if (q)
			{
				CHECK(std::string(q, uds) == std::string(uds, '\0'), "the slot of a new string is not zero");
				std::string d(uds, (char) (steps | 0x80)); memcpy(q, d.data(), uds); m[t] = std::make_pair(q, d);
			}
			else CHECK(hit, "adding a string of %zu bytes fails", t.size());
			if (hit && !m.empty()) bad = true;
			CHECK((string_storage_find(&ss, z) != NULL) == (m.count(t) != 0), "a string whose addition %s is %s", q ? "succeeded" : "failed", q ? "not found" : "found");
			if (hit || s.chance(20)) for (auto &e : m)
			{
				char *f = (char *) string_storage_find(&ss, e.first.c_str());
				CHECK(f == e.second.first, "step %d: looking up %s gives %s", steps, show(e.first.substr(0, 60)).c_str(), f ? "another slot" : "nothing");
				CHECK(std::string(f, uds) == e.second.second, "step %d: the data of %s changed", steps, show(e.first.substr(0, 60)).c_str());
			}
		}
		std::map<std::string, int> seen;
		string_storage_enumerate(&ss, [](void *u, const char *k, void *) { ++(*(std::map<std::string, int> *) u)[k]; }, &seen);
		CHECK(seen.size() == m.size(), "enumeration reports %zu strings, %zu were added", seen.size(), m.size());
		for (auto &e : m) CHECK(seen[e.first] == 1, "enumeration reports %s %d times", show(e.first.substr(0, 60)).c_str(), seen[e.first]);
	}
	CHECK(pbt::live_blocks() <= before, "string storage: %ld block(s) not released", pbt::live_blocks() - before);
	c.nontrivial(bad);
}

template <class K, class V> static void cache(Src &s, Ctx &c, K (*key)(int), V (*val)(int), const char *name)
{
	long before = pbt::live_blocks(); bool bad = false, held_failed = false, new_failed = false;
	{
		size_t lim = s.oneof<size_t>({ 100, 200, 1000, 100000 }); coda_cache<K, V> q(lim, 0); std::vector<std::pair<K, V> > m; int steps = 0; std::string what;
		c.say("cache of %s, limit %zu", name, lim);
		auto find = [&](const K &k) { size_t i = 0; while (i < m.size() && !(m[i].first == k)) ++i; return i; };
		auto totals = [&](uintmax_t &n, uintmax_t &cur) { std::string t; q.dbg(t, 0); const char *a = strstr(t.c_str(), "nelt_cur="), *b = strstr(t.c_str(), "size_cur="); CHECK(a && b, "dbg() reports %s", show(t).c_str()); n = strtoumax(a + 9, 0, 10); cur = strtoumax(b + 9, 0, 10); };
		auto sum = [&] { size_t z = 0; for (auto &e : m) z += estimate_capacity(e.second); return z; };
		auto mset = [&](const K &k, const V &v) { size_t i = find(k); if (i < m.size()) m.erase(m.begin() + i); m.push_back(std::make_pair(k, v)); while (sum() > lim) m.erase(m.begin()); };
		while ((steps < 3 || s.more(12)) && steps < 60)
		{
			++steps; Plan p = plan(s); if (s.below(3) == 0) p.k = -1;
			K k = key(s.below(7)); Out r; bool hit;
			switch (s.weighted({ 5, 2, 1, 1 }))
			{
				case 0:
				{
					V v = val(s.below(200)); bool had = find(k) < m.size();
					r = attempt(p, what, [&] { q.set(k, v, true); }); hit = oom::hit;
					c.say("%sset -> %s", how(p).c_str(), r == DONE ? "done" : "threw");
					CHECK(r == DONE || hit, "set throws %s", what.c_str());
					if (r == DONE) { mset(k, v); break; }
					CHECK(r == NOMEM, "set throws %s when there is no memory", what.c_str()); if (!m.empty()) bad = true; (had ? held_failed : new_failed) = true;
					{ const V *g = q.get(k); size_t i = find(k); CHECK(!!g == had, "a key whose set failed is %s", g ? "present" : "gone"); if (g) CHECK(*g == m[i].second, "the value of a key whose set failed changed"); }
					uintmax_t n, cur; totals(n, cur); CHECK(n == m.size() && cur == sum(), "after a set that failed the cache reports %ju elements, %ju bytes; expected %zu, %zu", n, cur, m.size(), sum());
					// its place in the order: newest, one way or the other
					if (had) { if (s.below(2)) { V w = m[find(k)].second; q.set(k, w, true); mset(k, w); } else { CHECK(q.erase(k), "erasing a key whose set failed fails"); m.erase(m.begin() + find(k)); } }
					break;
				}
				case 1:
				{
					V g = val(3), mark = g; size_t i = find(k);
					r = attempt(p, what, [&] { q.get(k, g); }); hit = oom::hit;
					c.say("%sget -> %s", how(p).c_str(), r == DONE ? "done" : "threw");
					CHECK(r == DONE || hit, "get throws %s", what.c_str()); if (r != DONE && !m.empty()) bad = true;
					CHECK(g == (r == DONE && i < m.size() ? m[i].second : mark), "get gives something else");
					break;
				}
				case 2: { size_t i = find(k); bool e = false; r = attempt(p, what, [&] { e = q.erase(k); }); CHECK(r == DONE && e == (i < m.size()), "erase reports %d", (int) e); c.say("erase"); if (e) m.erase(m.begin() + i); break; }
				default:
				{
					std::unique_ptr<coda_cache<K, V> > t; r = attempt(p, what, [&] { t.reset(new coda_cache<K, V>(q)); }); hit = oom::hit;
					c.say("%scopy -> %s", how(p).c_str(), r == DONE ? "done" : "threw"); CHECK(r == DONE || hit, "copying a cache throws %s", what.c_str()); if (r != DONE && !m.empty()) bad = true;
					if (t) for (auto &e : m) { const V *g = t->get(e.first); CHECK(g && *g == e.second, "a copy of the cache has other elements"); }
					break;
				}
			}
			uintmax_t n, cur; totals(n, cur);
			CHECK(n == m.size() && cur == sum(), "step %d: the cache reports %ju elements, %ju bytes; expected %zu, %zu", steps, n, cur, m.size(), sum());
			for (int i = 0; i < 7; ++i) { K x = key(i); size_t j = find(x); const V *g = q.get(x); CHECK(!!g == (j < m.size()) && (!g || *g == m[j].second), "step %d: key %d is %s", steps, i, !g ? "missing" : j < m.size() ? "held with another value" : "present"); }
		}
	}
	CHECK(pbt::live_blocks() <= before, "cache: %ld block(s) not released", pbt::live_blocks() - before);
	if (held_failed) c.label("set of a held key failed"); if (new_failed) c.label("set of a new key failed");
	c.nontrivial(bad);
}
static int ikey(int i) { return i * 5; }
static std::string skey(int i) { return std::string(i * 8, 'k') + "x"; }
static Item ival(int i) { return Item(i); }
static std::vector<char> vval(int i) { return std::vector<char>(i, (char) i); }

static void queue(Src &s, Ctx &c)
{
	long before = pbt::live_blocks(); bool bad = false, cut = false;
	{
		coda::synque<Item> q; std::deque<uint64_t> m; uint64_t tag = 0; int steps = 0; std::string what;
		struct W { W() { held = 0; watch = true; } ~W() { watch = false; } } w;
		while ((steps < 3 || s.more(14)) && steps < 80)
		{
			++steps; Plan p = plan(s); if (s.below(3) == 0) p.k = -1; Out r;
			switch (s.weighted({ 5, 3, 3, 1 }))
			{
				case 0:
				{
					Item x(++tag); r = attempt(p, what, [&] { q.add(x); }); c.say("%sadd %llu -> %s", how(p).c_str(), (unsigned long long) tag, r == DONE ? "done" : "threw");
					CHECK(r == DONE || oom::hit, "add throws %s", what.c_str()); if (r == DONE) m.push_back(tag); else if (!m.empty()) bad = true;
					break;
				}
				case 1:
				{
					Item x; int k = 7, wait = !m.empty() && s.below(2); r = attempt(p, what, [&] { k = q.get(x, wait); }); c.say("%sget -> %s", how(p).c_str(), r == DONE ? fmt("%d", k).c_str() : "threw");
					CHECK(r == DONE || oom::hit, "get throws %s", what.c_str()); if (r != DONE) { bad = true; CHECK(x.a == 0, "a get that throws changes its argument"); break; }
					CHECK(k == (m.empty() ? -1 : 0), "get returns %d with %zu items", k, m.size()); if (k) break;
					CHECK(x == Item(m.front()), "get gives item %llu, expected %llu", (unsigned long long) x.a, (unsigned long long) m.front()); m.pop_front();
					break;
				}
				case 2:
				{
					std::deque<Item> out; int k = 7; long lim = s.oneof<long>({ 0, 1, 2, 5 }); r = attempt(p, what, [&] { k = q.get(out, lim, 0); }); c.say("%sbatch get of %ld -> %s, %zu items", how(p).c_str(), lim, r == DONE ? fmt("%d", k).c_str() : "threw", out.size());
					CHECK(r == DONE || oom::hit, "a batch get throws %s", what.c_str());
					size_t want = lim > 0 ? std::min<size_t>(lim, m.size()) : m.size();
					if (r != DONE) { bad = true; CHECK(out.size() <= want, "a batch get of %ld gives %zu items", lim, out.size()); cut = true; }
					else CHECK(k == (want ? 0 : -1) && out.size() == want, "a batch get of %ld with %zu items returns %d and %zu items", lim, m.size(), k, out.size());
					for (auto &x : out) { CHECK(x == Item(m.front()), "a batch get gives item %llu, expected %llu", (unsigned long long) x.a, (unsigned long long) m.front()); m.pop_front(); }
					break;
				}
				default: q.signal(); break;
			}
			CHECK(held == 0, "step %d leaves the queue locked", steps);
			size_t n = q.size(); CHECK(n == m.size(), "step %d: the queue holds %zu items, expected %zu", steps, n, m.size());
		}
		std::deque<Item> out; q.get(out, 0, 0); CHECK(out.size() == m.size(), "at the end %zu items are left, expected %zu", out.size(), m.size());
		for (auto &x : out) { CHECK(x == Item(m.front()), "at the end item %llu is left, expected %llu", (unsigned long long) x.a, (unsigned long long) m.front()); m.pop_front(); }
	}
	CHECK(pbt::live_blocks() <= before, "thread queue: %ld block(s) not released", pbt::live_blocks() - before);
	if (cut) c.label("batch get interrupted");
	c.nontrivial(bad);
}

// a thread that waits in the queue is cancelled: the others go on
struct Waiter { coda::synque<Item> *q; bool batch; volatile int r; std::deque<Item> out; Item x; };
static void *waiter(void *v) { Waiter *w = (Waiter *) v; w->r = w->batch ? w->q->get(w->out, 0, 1) : w->q->get(w->x, 1); return NULL; }
static void cancelled(Src &s, Ctx &c)
{
	int n = 1 + s.below(3); bool batch = s.below(2); unsigned mask = 1 + s.below((1 << n) - 1); size_t pause = s.below(4) * 300;
	c.say("%d threads wait in a %s, those of mask %u are cancelled", n, batch ? "batch get" : "get", mask); c.label("cancelled threads");
	in_child(c, [&](Ctx &k) {
		coda::synque<Item> *q = new coda::synque<Item>; std::vector<Waiter> w(n); std::vector<pthread_t> t(n);
		for (int i = 0; i < n; ++i) { w[i].q = q; w[i].batch = batch; w[i].r = 5; if (pthread_create(&t[i], NULL, waiter, &w[i])) throw pbt::Discard(); }
		usleep(400 + pause);
		for (int i = 0; i < n; ++i) if (mask >> i & 1) pthread_cancel(t[i]);
		for (int i = 0; i < n; ++i) if (mask >> i & 1) pthread_join(t[i], NULL);
		CHECK(q->size() == 0, "the queue is not empty");
		int left = 0; for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) ++left;
		for (int i = 0; i < left + 1; ++i) q->add(Item(i + 1));
		if (batch) { Item x; for (int j = 0; left && j < 2000 && q->size(); ++j) usleep(500); for (int j = 0; j < left; ++j) q->signal(); for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) { while (pthread_tryjoin_np(t[i], NULL)) { q->signal(); usleep(200); } } }
		else for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) pthread_join(t[i], NULL);
		size_t got = 0; for (auto &x : w) { if (x.r == 0) got += batch ? x.out.size() : 1; }
		std::deque<Item> rest; q->get(rest, 0, 0);
		CHECK(got + rest.size() == (size_t) left + 1, "%d items were added, %zu came out", left + 1, got + rest.size());
		k.nontrivial();
	}, 10);
}

static void strings(Src &s, Ctx &c)
{
	Plan p = plan(s); std::string what;
	std::string t = s.from("ab,=&:%5 \xe1\xba\xa1", s.len(80)); if (s.below(3) == 0) t += std::string(s.oneof<size_t>({ 20, 32760, 40000, 70000 }), 'z');
	std::string pre = s.below(2) ? std::string(s.below(60), 'o') : "", delim = s.oneof<const char *>({ ",", "&=", "", " :" }); size_t lim = s.oneof<size_t>({ 5, 1000, 32767, 32768, 50000, 1u << 30 });
	bool ign = s.below(2); int op = s.below(14);
	c.say("operation %d: %s%s", op, how(p).c_str(), show(t.substr(0, 100)).c_str()); c.label(fmt("string operation %d", op));
	leaks("string operation", [&] {
		Exact z(t + std::string(1, '\0')); std::string out = pre, want; int r = 0, wantr = 0; Out o;
		std::vector<std::string> v, wv; std::set<std::string> ss, ws; std::set<uint64_t> us, wu; coda_params_t m, wm;
		auto run = [&](bool really) {
			switch (op)
			{
				case 0: out = coda_strprintf("%s|", z.data()); break;
				case 1: r = coda_strappend(out, "%s|", z.data()); break;
				case 2: r = coda_strnappend(out, lim, "%s|", z.data()); break;
				case 3: r = coda_strnprintf(out, out.size() / 2, lim, "%s|", z.data()); break;
				case 4: v = coda_split_string(z.data(), delim.c_str(), ign); break;
				case 5: v = coda_split_string(z.data(), t.size(), delim.c_str(), ign); break;
				case 6: coda_get_stringset(z, ss); break;
				case 7: coda_get_uint64set(z, us); break;
				case 8: out = coda_urlenc(z.data(), t.size()); break;
				case 9: out = coda_urldec(z.data(), t.size()); break;
				case 10: out = coda_urlenc_noplus(z.data(), t.size()); break;
				case 11: out = coda_remove_tones_utf8(z.data(), t.size()); break;
				case 12: r = coda_get_params_buf(m, z, t.size()); break;
				default: r = coda_get_header_buf(m, z, t.size()); break;
			}
		};
		run(false); want.swap(out); wv.swap(v); ws.swap(ss); wu.swap(us); wm.swap(m); wantr = r; out = pre; r = 0;
		o = attempt(p, what, [&] { run(true); });
		CHECK(o != THREW, "operation %d throws %s", op, what.c_str());
		CHECK(o == DONE || oom::hit, "operation %d runs out of memory", op);
		if (o == DONE) CHECK(out == want && v == wv && ss == ws && us == wu && m == wm && r == wantr, "operation %d gives something else%s", op, oom::hit ? " when an allocation fails" : "");
		else
		{
			CHECK(out == pre, "operation %d throws and changes the text to %s", op, show(out.substr(0, 200)).c_str());
			for (auto &x : ss) CHECK(ws.count(x), "an interrupted parse of a set left %s", show(x).c_str());
			for (auto &x : us) CHECK(wu.count(x), "an interrupted parse of a set left %llu", (unsigned long long) x);
			for (auto &x : m) CHECK(wm.count(x.first), "an interrupted parse left the key %s", show(x.first).c_str());
			c.nontrivial();
		}
	});
}

static void xml(Src &s, Ctx &c)
{
	XDoc want; XGen g(s); g.doc(want); Plan p = plan(s); if (s.below(2)) p.k = s.below(200); std::string what; bool file = s.below(3) == 0;
	c.say("%s%s", how(p).c_str(), show(g.out.substr(0, 3000)).c_str()); c.label("xml");
	if (g.out.size() > 100000) return;
	static char path[64]; if (!path[0]) snprintf(path, sizeof path, "/tmp/c39-%d.xml", (int) getpid());
	struct Rm { bool on; ~Rm() { if (on) unlink(path); } } rm = { file };
	if (file) { FILE *f = fopen(path, "w"); if (!f) throw pbt::Discard(); fwrite(g.out.data(), 1, g.out.size(), f); fclose(f); }
	Exact buf(g.out); int fds = pbt::count_fds(); XDoc x;
	leaks("loading a document", [&] {
		XDoc y; Out o = attempt(p, what, [&] { if (file) y.load_from_file(path); else y.load_from_string(buf.data(), buf.size()); });
		CHECK(o == DONE || oom::hit, "a well-formed document is rejected: %s", what.c_str());
		if (o == DONE) { std::string d = diffdoc(want, y); CHECK(d.empty(), "%s%s", d.c_str(), oom::hit ? " when an allocation fails" : ""); } else c.nontrivial();
	});
	CHECK(pbt::count_fds() == fds, "loading a document without memory leaves a descriptor open");
	{ std::string d; try { x.load_from_string(buf.data(), buf.size()); d = diffdoc(want, x); } catch (const std::exception &e) { d = e.what(); } CHECK(d.empty(), "loading again: %s", d.c_str()); }
}

static void urls(Src &s, Ctx &c)
{
	long before = pbt::live_blocks(); bool bad = false;
	{
		enum { N = 4 }; std::unique_ptr<coda_url> o[N]; std::string m[N]; int steps = 0; std::string what; coda_url ref, scratch;
		for (int i = 0; i < N; ++i) o[i].reset(new coda_url);
		while ((steps < 3 || s.more(8)) && steps < 40)
		{
			++steps; Plan p = plan(s); p.k = s.below(3) - 1; int i = s.below(N), j = s.below(N); Out r; int k = 0;
			std::string t = s.oneof<const char *>({ "Host.example/a/../b", "http://x.y.z/q?r#s", "https://a.b/", "c//d", "/abs", "?k=v", "#x", "mailto:a" }) + std::string(s.below(3) ? 0 : s.below(200), 'w');
			switch (s.below(4))
			{
				case 0: case 1:
				{
					bool rel = s.below(2); Exact z(t); std::string w; bool ok;
					{ coda_url e; ok = (rel ? m[i].empty() && !m[j].empty() && i != j ? e.create_relative(z, t.size(), 0, *o[j]) : -1 : m[i].empty() ? e.create_absolute(z, t.size(), 0) : -1) == 0; w = e.get_url(); }
					if (rel && i == j) break;
					r = attempt(p, what, [&] { k = rel ? o[i]->create_relative(z, t.size(), 0, *o[j]) : o[i]->create_absolute(z, t.size(), 0); });
					c.say("%screate %s of %d -> %d", how(p).c_str(), rel ? "relative" : "absolute", i, k);
					if (r == NOMEM) k = -1; CHECK(r != THREW, "creating a URL throws %s", what.c_str());
					CHECK(k == (ok ? 0 : -1) || (k == -1 && oom::hit), "creating a URL returns %d", k);
					m[i] = k == 0 ? w : ""; if (oom::hit) bad = true;
					break;
				}
				case 2:
					r = attempt(p, what, [&] { *o[i] = *o[j]; }); c.say("%sassign %d to %d -> %s", how(p).c_str(), j, i, r == DONE ? "done" : "threw"); CHECK(r == DONE || oom::hit, "an assignment throws %s", what.c_str());
					if (r == DONE) m[i] = m[j]; else bad = true;
					break;
				default:
				{
					std::unique_ptr<coda_url> n; r = attempt(p, what, [&] { n.reset(new coda_url(*o[j])); }); c.say("%scopy of %d -> %s", how(p).c_str(), j, r == DONE ? "done" : "threw"); CHECK(r == DONE || oom::hit, "copying a URL throws %s", what.c_str());
					if (n) { o[i].swap(n); m[i] = m[j]; } else bad = true;
				}
			}
			for (int q = 0; q < N; ++q)
			{
				CHECK(o[q]->get_url() == m[q] && o[q]->get_url_len() == m[q].size() && o[q]->empty() == m[q].empty(), "step %d: URL %d is %s, expected %s", steps, q, show(std::string(o[q]->get_url())).c_str(), show(m[q]).c_str());
				CHECK(strlen(o[q]->get_domain()) == o[q]->get_domain_len(), "step %d: the domain of URL %d has another length", steps, q);
			}
		}
	}
	CHECK(pbt::live_blocks() <= before, "URL objects: %ld block(s) not released", pbt::live_blocks() - before);
	c.nontrivial(bad);
}

struct Msg : shm_queue::serializable
{
	uint32_t id; Msg(uint32_t i = 0) : id(i) {}
	bool serialize(void *p) const { memcpy(p, &id, 4); return true; }
	bool deserialize(const void *p) { memcpy(&id, p, 4); return id != 0; }
	size_t size() const { return 4; }
};
static void shared(Src &s, Ctx &c)
{
	ipc::reset(); struct R { ~R() { ipc::reset(); } } rr; std::string what; bool bad = false; int connected = 0;
	shm_queue::queue<Msg> other, reader; ipc::set_proc(0); other.connect("/key/a", 64, 4); ipc::set_proc(2); reader.connect("/key/a", 64, 4);
	{
		ipc::set_proc(1); shm_queue::queue<Msg> q; bool on = false; int steps = 0; uint32_t tag = 0;
		while ((steps < 3 || s.more(6)) && steps < 20)
		{
			++steps; Plan p = plan(s); p.k = s.below(3) - 1; ipc::set_proc(1);
			if (!on)
			{
				Out r = attempt(p, what, [&] { q.connect("/key/a", 64, 4); }); c.say("%sconnect -> %s", how(p).c_str(), r == DONE ? "done" : "threw");
				CHECK(r == DONE || oom::hit, "connect throws %s", what.c_str());
				CHECK(ipc::attachments(1) == (r == DONE), "a connect that %s leaves %d mappings", r == DONE ? "succeeded" : "failed", ipc::attachments(1));
				on = r == DONE; if (!on) bad = true; else ++connected;
			}
			else { q.disconnect(); on = false; c.say("disconnect"); CHECK(ipc::attachments(1) == 0, "a disconnect leaves %d mappings", ipc::attachments(1)); }
			ipc::set_proc(0); CHECK(other.put(Msg(++tag)), "put by the other process fails"); other.flush(); ipc::set_proc(2); CHECK(reader.unflush(IPC_NOWAIT), "a third process gets nothing"); Msg m; CHECK(reader.get(m) && m.id == tag, "a third process gets something else");
			if (on) { ipc::set_proc(1); CHECK(q.boxes_in_queue() == 0, "there are %d boxes", q.boxes_in_queue()); q.set_register(2, tag); ipc::set_proc(0); CHECK(other.get_register(2) == tag, "a register differs"); }
		}
		ipc::set_proc(1); if (on) q.disconnect(); CHECK(ipc::attachments(1) == 0, "mappings are left");
	}
	ipc::set_proc(0); other.disconnect(); ipc::set_proc(2); reader.disconnect(); c.label("shared queue");
	c.nontrivial(bad && connected);
}

static void logs(Src &s, Ctx &c)
{
	Plan p = plan(s); p.k = s.below(3) - 1; int depth = s.below(3); c.say("%slog_create", how(p).c_str()); c.label("log");
	in_child(c, [&](Ctx &k) {
		char dir[64]; snprintf(dir, sizeof dir, "/tmp/c39-log-%d", (int) getpid()); mkdir(dir, 0700);
		std::string path = dir; for (int i = 0; i < depth; ++i) path += "/d"; path += "/log"; int r = 9, keep = dup(2), fds = pbt::count_fds(); std::string what; Exact z(path + std::string(1, '\0'));
		Out o = attempt(p, what, [&] { r = log_create(z, LOG_info); }); bool hit = oom::hit;
		if (r == STDERR_FILENO) log_info("a line");
		struct stat a, b; bool open = stat(path.c_str(), &a) == 0 && fstat(2, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev; long sz = open ? (long) a.st_size : 0;
		std::string now; int n = pbt::count_fds(); dup2(keep, 2);
		unlink(path.c_str()); for (int i = depth; i >= 0; --i) { std::string d = dir; for (int j = 0; j < i; ++j) d += "/d"; rmdir(d.c_str()); }
		CHECK(o == DONE && (r == STDERR_FILENO || (r == -1 && hit)), "log_create returns %d", r);
		CHECK(open == (r == STDERR_FILENO), "log_create returns %d and the log is %sopen", r, open ? "" : "not ");
		if (open) CHECK(sz > 0, "nothing is in the log");
		CHECK(z.data() == path, "log_create changes its argument"); CHECK(n == fds, "log_create leaves descriptors open");
		k.nontrivial(hit);
	}, 10);
}

void prop_init()
{
	coda_random_string(3, "ab", 2);
}
void run_case(Src &s, Ctx &c)
{
	c.log.reserve(4096); // keeps its number of blocks
	switch (s.weighted({ 20, 10, 30, 12, 25, 8, 12, 8 }))
	{
		case 0: codecs(s, c); c.label("codecs"); break;
		case 1: storage(s, c); c.label("storage"); break;
		case 2: switch (s.below(3)) { case 0: cache<int, Item>(s, c, ikey, ival, "items that throw"); break; case 1: cache<std::string, Item>(s, c, skey, ival, "items under text keys"); break; default: cache<int, std::vector<char> >(s, c, ikey, vval, "vectors"); } c.label("cache"); break;
		case 3: queue(s, c); c.label("queue"); break;
		case 4: strings(s, c); break;
		case 5: xml(s, c); break;
		case 6: urls(s, c); c.label("urls"); break;
		default: { int k = pbt::guided ? 9 : s.below(40); if (k < 2) cancelled(s, c); else if (k < 5) logs(s, c); else shared(s, c); }
	}
}
