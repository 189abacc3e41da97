// @pbt quick=800000 thorough=20000000 fuzz=0 tfuzz=0 maxlen=900 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp inst=1 asan=0 cov=0
#include "shm_common.h"
#include <memory>

const char *prop_id = "C17";
const char *prop_rule = "two to four processes (writers flushing boxes of up to three items, readers unflushing without waiting, with short or long waits, both using registers) under a scheduler that chooses at every access to the shared memory and every semaphore call who runs next, interrupts blocked calls, lets short waits time out and in a third of the cases lets one process die at a chosen step. Oracle: the history must be explained by some order of atomic operations on a ring of boxes; no process is left waiting; after a death everybody else completes and receives only intact items, once, in order. Non-trivial: at least two switches inside operations and a box received.";

struct Item : shm_queue::serializable
{
	uint32_t id, chk; Item(uint32_t i = 0) : id(i), chk(i * 2654435761u) {}
	bool serialize(void *p) const { uint32_t w[2] = { id, chk }; __builtin_memcpy(p, w, 8); return true; }
	bool deserialize(const void *p) { uint32_t w[2]; __builtin_memcpy(w, p, 8); id = w[0]; chk = w[1]; return id != 0; }
	size_t size() const { return 8; }
};
enum Kind { FLUSH, UNFLUSH, SET, GET };
struct Rec : fib::LinOp { Kind k; int p; std::vector<uint32_t> box; bool ok, intr; int r; uint32_t v; bool dead; };

static std::string boxes(const std::vector<uint32_t> &b) { std::string s = "["; for (auto x : b) s += fmt("%s%u", s.size() > 1 ? " " : "", x); return s + "]"; }

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	enum { BS = 24 };
	ipc::reset();
	int np = 2 + s.below(3); uint32_t n = 2 + s.below(3);
	struct G { std::unique_ptr<shm_queue::queue<Item>> q[6]; ~G() { for (int i = 0; i < 6; ++i) { ipc::set_proc(i); q[i].reset(); } ipc::reset(); } } g;
	for (int i = 0; i <= np; ++i) { ipc::set_proc(i == np ? 11 : i); g.q[i].reset(new shm_queue::queue<Item>); g.q[i]->connect("/key/q", BS, n); }
	// shift the ring's start
	std::vector<Rec> h; h.reserve(80);
	{ ipc::set_proc(11); int k = s.below(n); while (k-- > 0) { g.q[np]->flush(); CHECK(g.q[np]->unflush(IPC_NOWAIT), "no box after a flush"); } }
	struct Step { Kind k; int arg; uint32_t v; };
	std::vector<std::vector<Step>> plan(np);
	int total = 0; uint32_t id = 0;
	for (int i = 0; i < np; ++i)
	{
		bool writer = i == 0 || (i > 1 && s.below(2));
		int m = 1 + s.below(writer ? 5 : 4);
		for (int k = 0; k < m; ++k)
		{
			Step t; int w = s.weighted({ 10, 1, 1 });
			t.k = w == 0 ? writer ? FLUSH : UNFLUSH : w == 1 ? SET : GET; t.arg = w ? s.below(2) : writer ? 1 + s.below(3) : s.below(3); t.v = w == 1 ? 1 + total : 0;
			plan[i].push_back(t); ++total;
		}
		c.say("process %d: %s", i, writer ? "writer" : "reader");
	}
	fib::Options o; o.interrupts = s.below(2);
	if (s.below(3) == 0) { o.crash_proc = s.below(np); o.crash_at = 1 + s.below(s.below(2) ? 60 : 250); }
	o.on_crash = [&](int p) { ipc::die(p); };
	if (o.interrupts) c.say("blocked calls may be interrupted"); if (o.crash_proc >= 0) c.say("process %d dies at step %ld", o.crash_proc, o.crash_at);
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		shm_queue::queue<Item> &q = *g.q[i];
		for (auto &t : plan[i])
		{
			size_t at = h.size(); h.push_back(Rec()); h[at].k = t.k; h[at].p = i; h[at].ok = false; h[at].intr = false; h[at].r = t.arg; h[at].v = t.v; h[at].dead = true;
			std::vector<uint32_t> b; bool ok = true; uint32_t v = t.v;
			if (t.k == FLUSH) { for (int k = 0; k < t.arg; ++k) { Item it(++id); b.push_back(id); ok = q.put(it); } h[at].box = b; }
			uint64_t e; static const char *kn[] = { "flush", "unflush", "set", "get" };
			c.say("process %d starts %s %d", i, kn[t.k], t.arg);
			{
				fib::Op op; h[at].inv = op.inv; errno = 0;
				switch (t.k)
				{
					case FLUSH: q.flush(); break;
					case UNFLUSH: ok = t.arg == 0 ? q.unflush(IPC_NOWAIT) : t.arg == 1 ? q.unflush() : q.unflush(0, 5000000); break;
					case SET: q.set_register(t.arg, t.v); break;
					case GET: v = q.get_register(t.arg); break;
				}
				int err = errno;
				e = op.end();
				h[at].intr = !ok && err == EINTR;
			}
			h[at].ret = e; h[at].ok = ok; h[at].v = v; h[at].dead = false;
			if (t.k == UNFLUSH && ok)
			{
				Item it; while (q.get(it)) { CHECK(it.chk == it.id * 2654435761u, "process %d received a damaged item (%u)", i, it.id); b.push_back(it.id); }
				h[at].box = b;
			}
		}
	});
	fib::Result r = fib::run(s, o, body);
	bool crashed = r.crashed >= 0;
	auto show_history = [&] {
		for (auto &x : h) c.say("%3llu-%3lld process %d %s", (unsigned long long) x.inv, (long long) x.ret, x.p, x.dead ? "dies" : x.k == FLUSH ? ("flush " + boxes(x.box)).c_str() : x.k == UNFLUSH ? x.ok ? ("unflush " + boxes(x.box)).c_str() : x.intr ? "unflush: interrupted" : "unflush: nothing" : fmt("%s register %d: %u", x.k == SET ? "set" : "get", x.r, x.v).c_str());
	};
	for (int i = 0; i < np; ++i) if (r.st[i] == fib::BLOCKED) { show_history(); pbt::fail("process %d waits for ever%s", i, crashed ? " after another one died" : ""); }
	// what is left
	ipc::set_proc(11);
	for (int k = 0; k < 12; ++k)
	{
		Rec x; x.k = UNFLUSH; x.p = 99; x.inv = fib::tick(); x.intr = false; x.dead = false; x.ok = g.q[np]->unflush(IPC_NOWAIT); x.ret = fib::tick();
		if (x.ok) { Item it; while (g.q[np]->get(it)) { CHECK(it.chk == it.id * 2654435761u, "a damaged item (%u) was left in the queue", it.id); x.box.push_back(it.id); } }
		h.push_back(x);
		if (!x.ok) break;
	}
	// the ring works on: at most the box the dead process was busy with is between the markers and their reader
	bool late = false;
	if (!crashed || n > 2)
	{
		std::vector<uint32_t> in; int strange = 0;
		ipc::set_proc(12); shm_queue::queue<Item> &w = *(g.q[np + 1].reset(new shm_queue::queue<Item>), g.q[np + 1]); w.connect("/key/q", BS, n);
		for (uint32_t k = 1; k <= 4; ++k)
		{
			ipc::set_proc(12); Item m(1000 + k); CHECK(w.put(m), "no room for a marker"); w.flush(); ipc::set_proc(11);
			if (!g.q[np]->unflush(IPC_NOWAIT)) { show_history(); pbt::fail("afterwards: box [%u] is flushed but nothing can be received", 1000 + k); }
			std::vector<uint32_t> b; Item it; while (g.q[np]->get(it)) { CHECK(it.chk == it.id * 2654435761u, "afterwards: a damaged item (%u)", it.id); b.push_back(it.id); }
			if (b.size() == 1 && b[0] > 1000) in.push_back(b[0]); else { ++strange; if (k > 1) { show_history(); pbt::fail("afterwards: box %s is received in place of a marker", boxes(b).c_str()); } c.say("afterwards: box %s", boxes(b).c_str()); }
		}
		for (size_t k = 0; k < in.size(); ++k) if (in[k] != 1001 + k) { show_history(); pbt::fail("afterwards: the marker %u is received as number %zu", in[k], k + 1); }
		if (strange && !crashed) { show_history(); pbt::fail("a box stayed behind in the queue"); }
		late = strange;
	}
	if (late) c.label("a box late by a death");
	show_history();
	bool got = false; for (auto &x : h) got |= x.k == UNFLUSH && x.ok && x.p != 99;
	if (crashed)
	{
		c.label("death");
		// what the survivors received: items that were put, each once, in the order of the flushes as far as they do not overlap
		std::map<uint32_t, const Rec *> src; for (auto &x : h) if (x.k == FLUSH) for (auto v : x.box) src[v] = &x;
		std::set<uint32_t> seen; std::vector<const Rec *> rc;
		for (auto &x : h) if (x.k == UNFLUSH && x.ok) { for (auto v : x.box) { CHECK(src.count(v), "an item that nobody put (%u)", v); CHECK(seen.insert(v).second, "item %u received twice", v); CHECK(src[v] == src[x.box[0]], "items of two boxes in one"); } if (!x.box.empty()) rc.push_back(&x); }
		for (auto a : rc) for (auto b : rc) if (a->ret < b->inv) CHECK(!(src[b->box[0]]->ret < src[a->box[0]]->inv), "box %s received before box %s that was flushed first", boxes(a->box).c_str(), boxes(b->box).c_str());
		// a process that dies while it flushes leaves no box without items behind
		bool reader = false; for (auto &x : h) reader |= x.dead && x.k == UNFLUSH;
		if (!reader) for (auto &x : h) CHECK(!(x.k == UNFLUSH && x.ok && x.box.empty()), "process %d received a box that nobody flushed", x.p);
		// registers
		for (auto &x : h) if (x.k == GET && !x.dead && x.v) { bool f = false; for (auto &y : h) f |= y.k == SET && y.r == x.r && y.v == x.v; CHECK(f, "register %d reads %u, which nobody stored", x.r, x.v); }
	}
	else
	{
		std::vector<fib::LinOp> ops(h.begin(), h.end());
		// state: registers, then boxes waiting (index of the flush)
		bool lin = fib::linearizable(ops, std::string(2, 0), [&](const std::string &st, int i, uint64_t mask, std::vector<std::string> &out) {
			const Rec &x = h[i];
			switch (x.k)
			{
				case FLUSH: out.push_back(st.size() - 2 + 1 < n ? st + (char) i : st); break;
				case UNFLUSH:
					if (x.ok) { if (st.size() > 2 && h[(uint8_t) st[2]].box == x.box) out.push_back(st.substr(0, 2) + st.substr(3)); }
					else
					{
						size_t pend = 0; for (size_t j = 0; j < h.size(); ++j) pend += !(mask >> j & 1) && h[j].k == UNFLUSH && h[j].ok && h[j].inv < x.ret;
						if (x.intr || st.size() - 2 <= pend) out.push_back(st);
					}
					break;
				case SET: { std::string t = st; t[x.r] = (char) x.v; out.push_back(t); break; }
				case GET: if ((uint8_t) st[x.r] == x.v) out.push_back(st); break;
			}
		});
		CHECK(lin, "no order of the operations explains what the processes saw");
	}
	if (r.interrupts) c.label("interrupted"); if (r.timeouts) c.label("timed out"); c.label(fmt("%d processes", np));
	c.nontrivial(got && r.switches >= 2);
}
