// @pbt quick=1500000 thorough=40000000 fuzz=0 tfuzz=0 maxlen=900 wrap=pthread_mutex_init,pthread_mutex_destroy,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_unlock,pthread_cond_init,pthread_cond_destroy,pthread_cond_wait,pthread_cond_timedwait,pthread_cond_signal,pthread_cond_broadcast with=fiber.cpp,simpthread.cpp inst=1 asan=0 cov=0
#include "pbt.h"
#include "fiber.h"
#include "simpthread.h"
#include <coda/synque.hpp>
#include <errno.h>
#include <memory>
#include <pthread.h>

const char *prop_id = "C12";
const char *prop_rule = "two to five threads (add, get with and without waiting, batch get with any limit, size, signal) on one queue under a scheduler that chooses at every access to shared memory and every mutex and condition call who runs next and which waiter a signal wakes, with spurious wakeups in half of the cases. Oracle: a FIFO must explain the history; a get that waited in vain needs a signal, an add or a spurious wakeup during it; once nothing can run any more, threads may be left waiting only with the queue empty and every signal sent while they waited having released somebody. Some cases put up to 70000 items through the queue from one thread. Non-trivial: at least two switches inside operations, a thread that waited or was switched away, and an item delivered.";

struct Elem { uint64_t a, b, c; Elem(uint64_t t = 0) : a(t), b(t * 3), c(t * 7) {} uint64_t tag() const { return b == a * 3 && c == a * 7 ? a : 9999; } };
enum Kind { ADD, GET, BATCH, SIZE, SIGNAL };
struct Rec : fib::LinOp { Kind k; int p; bool wait, open, spur; uint64_t slept; long lim; int r; std::vector<uint64_t> v; size_t n; };

// one thread, many items
static void large(Src &s, Ctx &c)
{
	simpth::reset(&s); fib::watch_clear();
	coda::synque<uint64_t> q; std::deque<uint64_t> m; uint64_t tag = 0; size_t got = 0;
	c.label("many items");
	for (int b = 0; b < 2 || (b < 7 && s.more(4)); ++b)
	{
		size_t n = s.oneof<size_t>({ 3, 40, 300, 1000, 70000 }) + s.below(60);
		c.say("%zu adds", n);
		for (size_t i = 0; i < n; ++i) { q.add(++tag); m.push_back(tag); }
		CHECK(q.size() == m.size(), "size is %zu, %zu items are in the queue", q.size(), m.size());
		switch (s.below(3))
		{
			case 0: { size_t k = s.below(n + 9); c.say("%zu gets", k); for (size_t i = 0; i < k; ++i) { uint64_t e = 0; int r = q.get(e, 0); CHECK(r == (m.empty() ? -1 : 0), "get returns %d with %zu items", r, m.size()); if (r) break; CHECK(e == m.front(), "get gives item %llu, expected %llu", (unsigned long long) e, (unsigned long long) m.front()); m.pop_front(); ++got; } break; }
			default:
			{
				long lim = s.oneof<long>({ 0, -1, 10, 255, 256, 257, 65535, 65536, 65537, 1000000, 1l << 32, (1l << 32) + 3 }); std::deque<uint64_t> out; size_t want = lim > 0 ? std::min<size_t>(lim, m.size()) : m.size();
				int r = q.get(out, lim, s.below(2) && !m.empty()); c.say("batch of %ld -> %zu", lim, out.size());
				CHECK(r == (want ? 0 : -1) && out.size() == want, "a batch get of %ld with %zu items returns %d and %zu items", lim, m.size(), r, out.size());
				for (uint64_t e : out) { CHECK(e == m.front(), "a batch get gives item %llu, expected %llu", (unsigned long long) e, (unsigned long long) m.front()); m.pop_front(); ++got; }
			}
		}
		CHECK(q.size() == m.size(), "size is %zu, %zu items are in the queue", q.size(), m.size());
	}
	c.nontrivial(got > 255);
}
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(20000) == 7777) { large(s, c); return; }
	simpth::reset(&s);
	fib::watch_clear(); fib::watch_all(true);
	std::unique_ptr<coda::synque<Elem>> q(new coda::synque<Elem>);
	int np = 2 + s.below(4); uint64_t tag = 0; std::string init;
	{ int k = s.below(3) ? 0 : s.below(4); while (k-- > 0) { q->add(Elem(++tag)); init += (char) tag; } }
	struct Step { Kind k; bool wait; long lim; };
	std::vector<std::vector<Step>> plan(np); int adds = 0;
	for (int i = 0; i < np; ++i)
	{
		bool consumer = i == 0 || (i > 1 && s.below(2)); int m = 1 + s.below(consumer ? 3 : 5);
		while (m-- > 0)
		{
			Step t; t.wait = false; t.lim = 0;
			t.k = consumer ? s.oneof<Kind>({ GET, GET, BATCH, SIZE }) : s.oneof<Kind>({ ADD, ADD, ADD, SIGNAL, SIZE, GET });
			if (t.k == GET || t.k == BATCH) t.wait = consumer && s.below(4);
			if (t.k == BATCH) t.lim = s.oneof<long>({ 1, 2, 3, 0, -1, 100 });
			adds += t.k == ADD; plan[i].push_back(t);
		}
	}
	fib::Options o; o.interrupts = s.below(2);
	if (o.interrupts) c.say("spurious wakeups");
	if (!init.empty()) c.say("%zu items at first", init.size());
	std::vector<Rec> h; h.reserve(80); bool waited = false;
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		for (auto &t : plan[i])
		{
			size_t at = h.size(); h.push_back(Rec()); { Rec &x = h[at]; x.k = t.k; x.p = i; x.wait = t.wait; x.open = true; x.spur = false; x.slept = 0; x.lim = t.lim; x.r = 0; x.n = 0; if (t.k == ADD) x.v.push_back(++tag); }
			Elem e(t.k == ADD ? tag : 0); std::deque<Elem> out; bool pre = t.k == BATCH && s.below(2); if (pre) out.push_back(Elem(7777));
			int r = 0; size_t n = 0; uint64_t end;
			simpth::waited_at[i] = 0; simpth::spurious[i] = false;
			{
				fib::Op op; h[at].inv = op.inv;
				switch (t.k)
				{
					case ADD: q->add(e); break;
					case GET: r = q->get(e, t.wait); break;
					case BATCH: r = q->get(out, t.lim, t.wait); break;
					case SIZE: n = q->size(); break;
					case SIGNAL: q->signal(); break;
				}
				end = op.end();
			}
			Rec &x = h[at]; x.ret = end; x.open = false; x.r = r; x.n = n; x.slept = simpth::waited_at[i]; x.spur = simpth::spurious[i]; waited |= x.slept != 0;
			simpth::waited_at[i] = 0;
			CHECK(r == 0 || r == -1, "get returns %d", r);
			CHECK(!x.slept || t.wait, "thread %d waits in an operation that must not wait", i);
			if (t.k == GET && r == 0) x.v.push_back(e.tag());
			if (t.k == GET && r != 0) CHECK(e.tag() == 0, "a get that fails changes its argument");
			if (t.k == BATCH)
			{
				if (pre) { CHECK(!out.empty() && out.front().tag() == 7777, "a batch get changes what the container held"); out.pop_front(); }
				for (auto &y : out) x.v.push_back(y.tag());
				CHECK(r == 0 ? !x.v.empty() : x.v.empty(), "a batch get returns %d with %zu items", r, x.v.size());
				CHECK(t.lim <= 0 || x.v.size() <= (size_t) t.lim, "a batch get of at most %ld items returns %zu", t.lim, x.v.size());
			}
		}
	});
	auto hist = [&] {
		static const char *kn[] = { "add", "get", "batch get", "size", "signal" };
		for (auto &x : h) { std::string l = fmt("%3llu-%3lld thread %d %s%s", (unsigned long long) x.inv, (long long) x.ret, x.p, x.wait ? "waiting " : "", kn[x.k]); if (x.k == BATCH) l += fmt(" of %ld", x.lim); if (x.open) l += " ..."; else { for (auto v : x.v) l += fmt(" %llu", (unsigned long long) v); if (x.k == SIZE) l += fmt(" %zu", x.n); if (x.r) l += fmt(" -> %d", x.r); } if (x.slept) l += fmt(" (slept at %llu%s)", (unsigned long long) x.slept, x.spur ? ", spurious wakeup" : ""); c.say("%s", l.c_str()); }
	};
	fib::Result r;
	try { r = fib::run(s, o, body); } catch (const pbt::Failure &) { hist(); q.release(); throw; }
	for (auto &x : h) if (x.open) x.slept = simpth::waited_at[x.p];
	hist();
	CHECK(!simpth::misuse, "%s", simpth::misuse_msg.c_str());
	// nothing can run any more
	size_t left = 0, taken = 0, added = init.size(); bool stuck = false;
	for (auto &x : h) if (!x.open) { if (x.k == ADD) ++added; else if (x.k == GET || x.k == BATCH) taken += x.v.size(); }
	left = added - taken;
	for (int i = 0; i < np; ++i) if (r.st[i] == fib::BLOCKED)
	{
		stuck = true;
		Rec *b = 0; for (auto &x : h) if (x.open && x.p == i) b = &x;
		if (!b) { q.release(); throw pbt::Discard(); }
		if (!b->slept) { q.release(); pbt::fail("thread %d waits for ever for a lock", i); }
		if (left) { q.release(); pbt::fail("thread %d stays blocked while %zu items are in the queue", i, left); }
		size_t sig = 0, rel = 0;
		for (auto &x : h) if (!x.open) { if (x.k == SIGNAL && x.inv > b->slept) ++sig; if (x.slept && x.ret > b->slept && !x.spur) ++rel; }
		if (sig > rel) { q.release(); pbt::fail("thread %d is still waiting although %zu signals were sent while it waited and only %zu waiting threads were released", i, sig, rel); }
	}
	std::vector<Rec> fin;
	for (auto &x : h) if (!x.open) fin.push_back(x);
	std::vector<fib::LinOp> ops(fin.begin(), fin.end());
	bool lin = fib::linearizable(ops, init, [&](const std::string &st, int i, uint64_t, std::vector<std::string> &out) {
		const Rec &x = fin[i];
		switch (x.k)
		{
			case ADD: out.push_back(st + (char) x.v[0]); break;
			case GET: if (x.r == 0) { if (!st.empty() && (uint8_t) st[0] == x.v[0]) out.push_back(st.substr(1)); } else if (st.empty()) out.push_back(st); break;
			case BATCH:
			{
				if (x.r) { if (st.empty()) out.push_back(st); break; }
				size_t want = x.lim > 0 ? std::min<size_t>(x.lim, st.size()) : st.size();
				if (x.v.size() != want) break;
				bool ok = true; for (size_t j = 0; j < want; ++j) ok &= (uint8_t) st[j] == x.v[j];
				if (ok) out.push_back(st.substr(want));
				break;
			}
			case SIZE: if (x.n == st.size()) out.push_back(st); break;
			case SIGNAL: out.push_back(st); break;
		}
	});
	if (stuck) q.release();
	CHECK(lin, "no order of the operations explains what the threads saw");
	for (auto &x : h) if (!x.open && x.wait && x.r == -1)
	{
		bool why = x.spur; for (auto &y : h) why |= (y.k == ADD || y.k == SIGNAL) && y.inv < x.ret && y.ret > x.inv;
		CHECK(why, "a waiting get of thread %d gives up without an item, a signal or an add", x.p);
	}
	if (stuck) c.label("left waiting"); if (r.interrupts) c.label("spurious wakeup"); c.label(fmt("%d threads", np));
	c.nontrivial(r.switches >= 2 && taken > 0 && waited);
}
