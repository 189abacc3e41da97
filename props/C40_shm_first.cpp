// @pbt quick=1500000 thorough=40000000 fuzz=0 tfuzz=0 maxlen=900 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp inst=1 asan=0 cov=0
#include "shm_common.h"
#include <memory>
#include <algorithm>

const char *prop_id = "C40";
const char *prop_rule = "two to four processes that connect to the same map (or queue), which does not exist yet, was left empty by an earlier process or is in use, then store, look up and erase (flush and unflush) a few entries of their own, disconnect and connect again, under a scheduler that chooses at every access to the shared memory and every system call who runs next and in half of the cases lets one process die at a chosen step. Oracle: every surviving process connects, to the same memory; what each stored is there afterwards, for itself, the others and a process that connects last; nobody waits for ever; no two processes are inside the same operation's critical part. Non-trivial: two processes connecting at the same time.";

enum { CAP = 12 };
typedef Words<3> V;
typedef shm::hash_map<V, CAP, 5> M;
struct Item : shm_queue::serializable
{
	uint32_t id, chk; Item(uint32_t i = 0) : id(i), chk(i * 2654435761u) {}
	bool serialize(void *p) const { uint32_t w[2] = { id, chk }; __builtin_memcpy(p, w, 8); return true; }
	bool deserialize(const void *p) { uint32_t w[2]; __builtin_memcpy(w, p, 8); id = w[0]; chk = w[1]; return id != 0; }
	size_t size() const { return 8; }
};
typedef shm_queue::queue<Item> Q;

void prop_init() {}

struct Step { int k, key; int64_t tag; };
struct State_ { bool connecting = false, ever = false; };

static bool setup(Src &s, Ctx &c, fib::Options &o, int np)
{
	if (s.below(2)) { o.crash_proc = s.below(np); o.crash_at = 1 + s.below(s.below(2) ? 25 : 120); c.say("process %d dies at step %ld", o.crash_proc, o.crash_at); }
	o.on_crash = [](int p) { ipc::die(p); };
	return true;
}

static void maps(Src &s, Ctx &c, int np, int before)
{
	struct G { std::unique_ptr<M> m[7]; ~G() { for (int i = 0; i < 7; ++i) { ipc::set_proc(i); m[i].reset(); } ipc::reset(); } } g;
	for (int i = 0; i <= np; ++i) g.m[i].reset(new M);
	std::map<int, int64_t> old;
	if (before)
	{ // an earlier process, still there or gone
		ipc::set_proc(6); g.m[6].reset(new M); g.m[6]->connect("/key/m");
		if (before > 1) for (int k = s.below(3); k > 0; --k) { int x = 900 + k; CHECK(g.m[6]->insert(x, V::of(x)), "no room"); old[x] = x; }
		if (s.below(2)) { g.m[6].reset(); c.say("the earlier process is gone"); }
	}
	std::vector<std::vector<Step>> plan(np); int64_t tag = 0;
	for (int i = 0; i < np; ++i)
	{
		int m = s.below(5);
		plan[i].push_back({ 0, 0, 0 });
		while (m-- > 0) { int k = 1 + (int) s.weighted({ 5, 3, 2, 1, 1 }); plan[i].push_back({ k, 10 * (i + 1) + (int) s.below(2), ++tag }); if (k == 5) plan[i].push_back({ 0, 0, 0 }); }
	}
	fib::Options o; setup(s, c, o, np);
	static const char *kn[] = { "connect", "insert", "read", "erase", "size", "disconnect" };
	std::vector<std::map<int, int64_t>> mine(np); std::vector<int> unsure(np, -1), failed(np, 0); std::vector<int> in(np, 0); bool together = false; std::string why;
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		M &m = *g.m[i];
		for (auto &t : plan[i])
		{
			c.say("process %d: %s%s", i, kn[t.k], t.k >= 1 && t.k <= 3 ? fmt(" %d", t.key).c_str() : "");
			V v; V w = V::of(t.tag); bool r = true, threw = false; size_t n = 0; std::string what; if (t.k == 1 || t.k == 3) unsure[i] = t.key;
			if (t.k == 0) { for (int j = 0; j < np; ++j) together |= in[j] != 0; in[i] = 1; }
			{
				fib::Op op;
				try { switch (t.k) { case 0: m.connect("/key/m"); break; case 1: r = m.insert(t.key, w); break; case 2: r = m.read(t.key, v); break; case 3: r = m.erase(t.key); break; case 4: n = m.size(); break; case 5: m.disconnect(); break; } }
				catch (const std::exception &x) { threw = true; what = x.what(); }
				op.end();
			}
			in[i] = 0; unsure[i] = -1;
			CHECK(!threw, "process %d: %s raises %s", i, kn[t.k], what.c_str());
			bool has = mine[i].count(t.key);
			switch (t.k)
			{
				case 0: CHECK(m.is_connected(), "process %d is not connected", i); break;
				case 1: CHECK(r, "process %d: no room for entry %d", i, t.key); mine[i][t.key] = t.tag; break;
				case 2: CHECK(r == has && (!has || v.tag() == mine[i][t.key]), "process %d: its entry %d is %s", i, t.key, r ? v.tag() < 0 ? "damaged" : "not what it stored" : "gone"); break;
				case 3: CHECK(r == has, "process %d: erasing its entry %d gives %d", i, t.key, r); mine[i].erase(t.key); break;
				case 4: CHECK(n >= mine[i].size() && n <= CAP, "process %d: the map holds %zu entries, %zu of its own", i, n, mine[i].size()); break;
			}
		}
	});
	fib::Result r = fib::run(s, o, body);
	bool crashed = r.crashed >= 0;
	for (int i = 0; i < np; ++i) CHECK(r.st[i] != fib::BLOCKED, "process %d waits for ever%s", i, crashed ? " after another one died" : "");
	CHECK(ipc::nsegs() <= 1 && ipc::nsems() <= 1, "the processes use %d memory segments and %d semaphore sets", ipc::nsegs(), ipc::nsems());
	// one more process connects
	{
		std::vector<std::function<void()>> last; std::string what;
		std::map<int, int64_t> all(old); int unknown = -1; for (int i = 0; i < np; ++i) { for (auto &e : mine[i]) all[e.first] = e.second; if (crashed && r.crashed == i) unknown = unsure[i]; }
		for (int i = 0; i < np; ++i) last.push_back([] {});
		last.push_back([&] {
			M &m = *g.m[np]; fib::Op op;
			try
			{
				m.connect("/key/m"); size_t n = 0;
				for (auto &e : all) if (e.first != unknown) { V v; bool f = m.read(e.first, v); if (!f || v.tag() != e.second) { what = fmt("entry %d is %s", e.first, !f ? "gone" : v.tag() < 0 ? "damaged" : "not what was stored"); break; } ++n; }
				V v; bool f = unknown >= 0 && m.read(unknown, v); size_t z = m.size();
				if (what.empty() && (z < n + f || z > n + f + (unknown >= 0))) what = fmt("%zu entries where %zu are expected", z, n + f);
				for (int k = 0; what.empty() && k < 2; ++k) if (!m.insert(990 + k, V::of(5)) || !m.erase(990 + k)) what = "an entry cannot be stored and erased";
			}
			catch (const std::exception &x) { what = x.what(); }
			op.end();
		});
		fib::Options p; fib::Result q = fib::run(s, p, last);
		CHECK(q.st[np] == fib::DONE, "a process that connects afterwards waits for ever");
		CHECK(what.empty(), "a process that connects afterwards: %s", what.c_str());
	}
	if (crashed) c.label("death"); if (together) c.label("connecting together"); c.label(before == 0 ? "first users" : before == 1 ? "empty map" : "used map");
	c.nontrivial(together);
}

static void queues(Src &s, Ctx &c, int np, int before)
{
	enum { BS = 24, N = 24 };
	struct G { std::unique_ptr<Q> q[8]; ~G() { for (int i = 0; i < 8; ++i) { ipc::set_proc(i); q[i].reset(); } ipc::reset(); } } g;
	for (int i = 0; i <= np; ++i) g.q[i].reset(new Q);
	uint32_t id = 0; std::set<uint32_t> sent, got; int reg = 0;
	if (before)
	{
		ipc::set_proc(6); g.q[6].reset(new Q); g.q[6]->connect("/key/q", BS, N);
		if (before > 1) { for (int k = s.below(3); k > 0; --k) { Item it(++id); CHECK(g.q[6]->put(it), "no room"); g.q[6]->flush(); sent.insert(id); } g.q[6]->set_register(2, reg = 77); }
		if (s.below(2)) { g.q[6].reset(); c.say("the earlier process is gone"); }
	}
	std::vector<std::vector<Step>> plan(np);
	for (int i = 0; i < np; ++i)
	{
		int m = s.below(5);
		plan[i].push_back({ 0, 0, 0 });
		bool writer = s.below(3) > 0;
		while (m-- > 0) { int k = 1 + (int) s.weighted({ 8, 0, 1, 1, 1 }); if (k == 1 && !writer) k = 2; plan[i].push_back({ k, (int) s.below(2), 1 + (int64_t) s.below(1000) }); if (k == 5) plan[i].push_back({ 0, 0, 0 }); }
	}
	fib::Options o; setup(s, c, o, np);
	static const char *kn[] = { "connect", "flush", "unflush", "set register", "get register", "disconnect" };
	std::vector<int> busy(np, -1), in(np, 0), regs(16, 0); std::vector<uint32_t> doubtful; bool together = false, unset = false;
	o.on_crash = [&](int p) { unset = ipc::nsems() && !ipc::touched(0); ipc::die(p); };
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		Q &q = *g.q[i];
		for (auto &t : plan[i])
		{
			uint32_t mine = t.k == 1 ? ++id : 0;
			c.say("process %d: %s%s", i, kn[t.k], mine ? fmt(" %u", mine).c_str() : "");
			bool r = true, threw = false; std::string what; uint32_t v = 0; busy[i] = t.k; if (mine) doubtful.push_back(mine);
			if (t.k == 0) { for (int j = 0; j < np; ++j) together |= in[j] != 0; in[i] = 1; }
			int kind = t.k; Item it(mine); if (mine) CHECK(q.put(it), "no room in the box");
			{
				fib::Op op;
				try { switch (kind) { case 0: q.connect("/key/q", BS, N); break; case 1: q.flush(); break; case 2: r = q.unflush(IPC_NOWAIT); break; case 3: q.set_register(3 + i, (uint32_t) t.tag); break; case 4: v = q.get_register(t.key ? 2 : 3 + i); break; case 5: q.disconnect(); break; } }
				catch (const std::exception &x) { threw = true; what = x.what(); }
				op.end();
			}
			in[i] = 0; busy[i] = -1;
			CHECK(!threw, "process %d: %s raises %s", i, kn[kind], what.c_str());
			switch (kind)
			{
				case 1: doubtful.erase(std::find(doubtful.begin(), doubtful.end(), mine)); sent.insert(mine); break;
				case 2: if (r) { Item x; int n = 0; while (q.get(x)) { CHECK(x.chk == x.id * 2654435761u, "process %d receives a damaged item", i); CHECK(x.id <= id, "process %d receives item %u that nobody sent", i, x.id); CHECK(got.insert(x.id).second, "item %u is received twice", x.id); ++n; } if (o.crash_proc < 0) CHECK(n == 1, "process %d receives a box of %d items", i, n); } break;
				case 3: regs[3 + i] = (int) t.tag; break;
				case 4: if (t.key) CHECK(v == (uint32_t) reg, "process %d: register 2 is %u instead of %d", i, v, reg); else CHECK(v == (uint32_t) regs[3 + i], "process %d: its register is %u instead of %d", i, v, regs[3 + i]); break;
			}
		}
	});
	fib::Result r = fib::run(s, o, body);
	bool crashed = r.crashed >= 0;
	if (crashed && unset) { c.label("death of the creator before the lock is set (known)"); return; }
	for (int i = 0; i < np; ++i) CHECK(r.st[i] != fib::BLOCKED, "process %d waits for ever%s", i, crashed ? " after another one died" : "");
	CHECK(ipc::nsegs() <= 1 && ipc::nsems() <= 1, "the processes use %d memory segments and %d semaphore sets", ipc::nsegs(), ipc::nsems());
	std::string what; bool inside = crashed && (busy[r.crashed] == 1 || busy[r.crashed] == 2);
	{
		std::vector<std::function<void()>> last; for (int i = 0; i < np; ++i) last.push_back([] {});
		last.push_back([&] {
			Q &q = *g.q[np]; fib::Op op;
			try
			{
				q.connect("/key/q", BS, N);
				if (inside) { q.flush(); q.flush(); } // pushes a box out that the dead process left
				for (int k = 0; k < 40 && q.unflush(IPC_NOWAIT); ++k) { Item x; while (q.get(x)) { if (x.chk != x.id * 2654435761u) what = "a damaged item"; else if (x.id > id) what = fmt("item %u that nobody sent", x.id); else if (!got.insert(x.id).second) what = fmt("item %u is received twice", x.id); } }
				for (int i = 0; what.empty() && i < np; ++i) if (!(crashed && r.crashed == i)) { uint32_t v = q.get_register(3 + i); if (v != (uint32_t) regs[3 + i]) what = fmt("register %d is %u instead of %d", 3 + i, v, regs[3 + i]); }
				uint32_t v = q.get_register(2); if (what.empty() && v != (uint32_t) reg) what = fmt("register 2 is %u instead of %d", v, reg);
			}
			catch (const std::exception &x) { what = x.what(); }
			op.end();
		});
		fib::Options p; fib::Result z = fib::run(s, p, last);
		CHECK(z.st[np] == fib::DONE, "a process that connects afterwards waits for ever");
		CHECK(what.empty(), "a process that connects afterwards: %s", what.c_str());
	}
	size_t lost = 0; uint32_t one = 0; for (uint32_t x : sent) if (!got.count(x)) { ++lost; one = x; }
	CHECK(lost <= (size_t) (inside && busy[r.crashed] == 2), "box [%u] is lost", one);
	if (crashed) c.label("death"); if (together) c.label("connecting together"); c.label(before == 0 ? "first users" : before == 1 ? "empty queue" : "used queue");
	c.nontrivial(together);
}

void run_case(Src &s, Ctx &c)
{
	ipc::reset();
	int np = 2 + s.below(3), before = s.weighted({ 4, 1, 2 });
	bool map = s.below(2); c.say("%d processes connect to a %s %s", np, map ? "map" : "queue", before == 0 ? "that does not exist" : before == 1 ? "that was left empty" : "in use");
	if (map) maps(s, c, np, before); else queues(s, c, np, before);
}
