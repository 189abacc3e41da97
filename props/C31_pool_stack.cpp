// @pbt quick=80000 thorough=5000000 fuzz=8 tfuzz=240 maxlen=900
#include <stdint.h>
#include <sys/types.h>
#include "pbt.h"
#include <coda/shm_stack.hpp>
#include <coda/shm_pool.hpp>

const char *prop_id = "C31";
const char *prop_rule = "histories of 2-150 operations on a pool (allocate, free of any slot in use, count, clear, attach another handle, detach/re-attach, drain and refill) or a stack (push, pop when not empty, emptiness, fill, clear, handles), capacities 1-17 (rarely 300 and 66000) and element types of 1, 4, 8 and 40 bytes, the memory being exactly the declared sizes with guards on all sides. Oracle: set of slots in use with their user contents; vector. Non-trivial: exhaustion was reached and a freed slot was handed out again (pool); full and refilled (stack), through two handles.";

struct Big { char b[40]; };
static bool operator==(const Big &a, const Big &b) { return !memcmp(&a, &b, sizeof a); }
template <class T> static T mk(uint32_t v) { T t; for (size_t i = 0; i < sizeof t; ++i) ((char *) &t)[i] = (char) (v * 31 + i * 7 + (v >> 8)); return t; }

template <class T, int N> static void pool_case(Src &s, Ctx &c)
{
	const int most = N > 1000 ? 12 : 150;
	typedef shm::pool<T, N> P;
	P probe;
	CHECK(probe.data_size() == sizeof(T) * N, "data_size() is %zu for %d objects of %zu", probe.data_size(), N, sizeof(T));
	Exact head(probe.header_size(), 0), stack(probe.stack_size(), 0), data(probe.data_size(), 0);
	std::vector<P *> h; struct Free { std::vector<P *> &h; ~Free() { for (P *p : h) delete p; } } guard = { h };
	auto attach = [&] { P *p = new P; h.push_back(p); p->attach(head.data(), stack.data(), data.data()); };
	attach();
	std::map<uint32_t, uint32_t> used; uint32_t tag = 0; bool exhausted = false, reused = false; std::set<uint32_t> freed;
	T *slots = (T *) data.data();
	c.say("pool of %d x %zu", N, sizeof(T));
	auto alloc = [&](P *p) -> bool {
		uint32_t r = p->allocate();
		if (r == (uint32_t) -1) { CHECK(used.size() == N, "pool of %d reports exhaustion with %zu slots in use", N, used.size()); exhausted = true; return false; }
		CHECK(used.size() < N, "pool of %d hands out slot %u with all slots in use", N, r);
		CHECK(r < (uint32_t) N, "pool of %d hands out slot %u", N, r);
		CHECK(!used.count(r), "pool hands out slot %u, which is in use", r);
		if (freed.count(r)) reused = true;
		used[r] = ++tag; slots[r] = mk<T>(tag);
		return true;
	};
	int steps = 0;
	while ((steps < 3 || s.more(20)) && steps < most)
	{
		++steps;
		P *p = h[s.below(h.size())];
		switch (s.weighted({ 8, 5, 2, 1, 1, 2, 2, 1 }))
		{
			case 0: { bool ok = alloc(p); c.say("allocate -> %s", ok ? "slot" : "none"); break; }
			case 1:
				if (!used.empty())
				{
					auto i = used.begin(); std::advance(i, s.below(used.size()));
					c.say("free %u", i->first);
					bool r = p->free(i->first); CHECK(r, "free(%u) of a slot in use fails", i->first);
					freed.insert(i->first); used.erase(i);
				}
				break;
			case 2: break;
			case 3: c.say("clear"); p->clear(); used.clear(); freed.clear(); break;
			case 4: if (h.size() < 3) { attach(); c.say("attach"); } break;
			case 5: c.say("drain"); for (int i = 0; i <= N; ++i) if (!alloc(h[i % h.size()])) break; break;
			case 6:
			{
				c.say("free all but %zu", used.size() / 3);
				size_t keep = used.size() / 3; bool back = s.below(2);
				while (used.size() > keep) { auto i = back ? --used.end() : used.begin(); CHECK(p->free(i->first), "free(%u) fails", i->first); freed.insert(i->first); used.erase(i); }
				break;
			}
			default: c.say("detach, attach"); p->detach(); p->attach(head.data(), stack.data(), data.data()); break;
		}
		for (P *q : h) CHECK(q->allocated_objects() == used.size(), "a handle counts %zu slots in use, there are %zu", q->allocated_objects(), used.size());
		for (auto &u : used) { T e = mk<T>(u.second); CHECK(!memcmp(&slots[u.first], &e, sizeof e), "the contents of slot %u in use changed", u.first); }
	}
	c.nontrivial(exhausted && reused && h.size() > 1);
	c.label(fmt("pool of %d", N));
}

template <class T, int N> static void stack_case(Src &s, Ctx &c)
{
	const int most = N > 1000 ? 40 : 150;
	typedef shm::stack<T, N> S;
	S probe;
	Exact head(probe.header_size(), 0), data(probe.data_size(), 0);
	CHECK(probe.data_size() == sizeof(T) * N, "data_size() is %zu for %d objects of %zu", probe.data_size(), N, sizeof(T));
	std::vector<S *> h; struct Free { std::vector<S *> &h; ~Free() { for (S *p : h) delete p; } } guard = { h };
	auto attach = [&] { S *p = new S; h.push_back(p); p->attach(head.data(), data.data()); };
	attach();
	std::vector<T> m; uint32_t tag = 0; bool full = false, refill = false;
	int steps = 0;
	c.say("stack of %d x %zu", N, sizeof(T));
	auto push = [&](S *p) -> bool {
		T v = mk<T>(++tag); bool r = p->push(v);
		CHECK(r == (m.size() < N), "push with %zu of %d elements returns %d", m.size(), N, (int) r);
		if (r) m.push_back(v);
		if (m.size() == N) { if (full) refill = true; full = true; }
		return r;
	};
	while ((steps < 3 || s.more(20)) && steps < most)
	{
		++steps;
		S *p = h[s.below(h.size())];
		switch (s.weighted({ 7, 6, 1, 1, 2, 1 }))
		{
			case 0: { bool ok = push(p); c.say("push -> %d", (int) ok); break; }
			case 1:
				if (!m.empty()) { c.say("pop"); T v = p->pop(); CHECK(!memcmp(&v, &m.back(), sizeof v), "pop with %zu elements returns something else than the last one pushed", m.size()); m.pop_back(); }
				break;
			case 2: c.say("clear"); p->clear(); m.clear(); break;
			case 3: if (h.size() < 3) { attach(); c.say("attach"); } break;
			case 4: c.say("fill"); for (int i = 0; i <= N; ++i) if (!push(h[i % h.size()])) break; break;
			default: c.say("detach, attach"); p->detach(); p->attach(head.data(), data.data()); break;
		}
		for (S *q : h) CHECK(q->used() == m.size() && q->empty() == m.empty(), "a handle reports %zu elements (empty: %d), there are %zu", q->used(), (int) q->empty(), m.size());
	}
	while (!m.empty()) { T v = h[0]->pop(); CHECK(!memcmp(&v, &m.back(), sizeof v), "at the end pop with %zu elements returns something else than the last one pushed", m.size()); m.pop_back(); }
	CHECK(h[0]->empty(), "not empty after everything was popped");
	c.nontrivial(refill && h.size() > 1);
	c.label(fmt("stack of %d", N));
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(500) == 77) switch (s.below(4))
	{
		case 0: pool_case<uint32_t, 300>(s, c); return;
		case 1: stack_case<uint32_t, 300>(s, c); return;
		case 2: if (pbt::guided) break; pool_case<uint16_t, 66000>(s, c); return;
		default: if (pbt::guided) break; stack_case<uint16_t, 66000>(s, c); return;
	}
	switch (s.below(10))
	{
		case 0: pool_case<uint32_t, 4>(s, c); break;
		case 1: pool_case<char, 1>(s, c); break;
		case 2: pool_case<Big, 3>(s, c); break;
		case 3: pool_case<uint64_t, 17>(s, c); break;
		case 4: pool_case<Big, 8>(s, c); break;
		case 5: stack_case<uint32_t, 4>(s, c); break;
		case 6: stack_case<char, 1>(s, c); break;
		case 7: stack_case<Big, 3>(s, c); break;
		case 8: stack_case<uint64_t, 17>(s, c); break;
		default: stack_case<char, 8>(s, c); break;
	}
}
