// @pbt quick=500000 thorough=15000000 fuzz=0 tfuzz=0 maxlen=900 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp inst=1 asan=0 cov=0
#include "shm_common.h"
#include <memory>

const char *prop_id = "C14";
const char *prop_rule = "two to four processes (insert, erase, read, size, clear, batch insert, batch erase, iteration, double reads under the read lock, read-modify-write under the write lock) on one map of four entries and three hash chains, values of three words, under a scheduler that chooses at every access to the shared memory and every semaphore call who runs next, interrupts blocked calls and in a third of the cases lets one process die at a chosen step. Oracle: some order of atomic operations explains everything observed (keys the dead process was changing excepted), values untorn, nobody waits for ever, readers overlap. Non-trivial: at least two switches inside operations and a key touched by two processes, one of them writing.";

enum { NK = 6, CAP = 4 };
typedef Words<3> V;
typedef shm::hash_map<V, CAP, 3> M;
enum Kind { INS, ERA, READ, SIZE, CLEAR, BINS, BERA, ITER, DREAD, RMW };
static const char *kn[] = { "insert", "erase", "read", "size", "clear", "batch insert", "batch erase", "iterate", "read twice", "read and insert" };
struct Rec : fib::LinOp
{
	Kind k; int p; std::vector<int> key; std::vector<int> tag; bool res, dead, threw; std::vector<int> got; size_t n; // got: tag, 0 if absent, -1 torn
	std::string str() const
	{
		std::string s = kn[k];
		for (size_t i = 0; i < key.size(); ++i) s += fmt(i < tag.size() ? " %d=%d" : " %d", key[i], i < tag.size() ? tag[i] : 0);
		if (dead) return s + " dies"; if (threw) return s + " interrupted";
		if (k == SIZE) return s + fmt(": %zu", n);
		s += fmt(": %d", res); if (!got.empty()) { s += " got"; for (int g : got) s += fmt(" %d", g); }
		return s;
	}
};
static int tag_of(const V &v) { return (int) v.tag(); }
static uint64_t keyval(int k) { return k < 3 ? k : 100 + k; }
static int keyidx(uint64_t v) { for (int k = 0; k < NK; ++k) if (keyval(k) == v) return k; return -1; }

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	ipc::reset();
	struct G { std::unique_ptr<M> m[5]; ~G() { for (int i = 0; i < 5; ++i) { ipc::set_proc(i); m[i].reset(); } ipc::reset(); } } g;
	bool overlap = s.chance(8);
	int np = overlap ? 2 + s.below(2) : 2 + s.below(3);
	for (int i = 0; i < np; ++i) { ipc::set_proc(i); g.m[i].reset(new M); g.m[i]->connect("/key/m"); }
	std::vector<Rec> h; h.reserve(80); int tag = 0;
	// state before: 0 absent, tag, -1 anything
	std::string init(NK + 1, 0);
	ipc::set_proc(0);
	{ int k = s.below(8); while (k-- > 0) { int x = s.below(NK); if (s.below(3)) { ++tag; if (g.m[0]->insert(keyval(x), V::of(tag))) init[x] = (char) tag; } else { g.m[0]->erase(keyval(x)); init[x] = 0; } } }
	if (overlap)
	{
		c.label("overlapping readers");
		int done = 0; fib::Options o; std::vector<std::function<void()>> body;
		body.push_back([&] { fib::Op op; g.m[0]->lock_read_rw(); fib::block([&] { return done == np - 1; }, 0); V v; g.m[0]->unprotected_read(keyval(1), v); g.m[0]->unlock_read_rw(); });
		for (int i = 1; i < np; ++i) body.push_back([&, i] { { fib::Op op; V v; switch (i + s.below(3)) { case 1: g.m[i]->read(keyval(1), v); break; case 2: g.m[i]->size(); break; default: g.m[i]->lock_read_rw(); g.m[i]->begin(); g.m[i]->unlock_read_rw(); } } ++done; });
		fib::Result r = fib::run(s, o, body);
		for (int i = 0; i < np; ++i) CHECK(r.st[i] == fib::DONE, "a reader waits for another reader");
		return;
	}
	struct Step { Kind k; std::vector<int> key, tag; };
	std::vector<std::vector<Step>> plan(np); int span = 1 + s.below(NK);
	auto key = [&] { return (int) s.below(s.below(3) ? span : NK); };
	std::map<int, std::pair<std::set<int>, bool>> touched;
	for (int i = 0; i < np; ++i)
	{
		int m = 1 + s.below(4);
		while (m-- > 0)
		{
			Step t; t.k = (Kind) s.weighted({ 8, 5, 6, 2, 1, 2, 1, 2, 2, 3 });
			int n = t.k == SIZE || t.k == CLEAR || t.k == ITER ? 0 : t.k == BINS || t.k == BERA ? 1 + s.below(3) : t.k == DREAD ? 2 : 1;
			while (n-- > 0) { t.key.push_back(key()); if (t.k == INS || t.k == BINS || t.k == RMW) t.tag.push_back(++tag); }
			for (int k : t.key) { touched[k].first.insert(i); if (t.k != READ && t.k != DREAD) touched[k].second = true; }
			plan[i].push_back(t);
		}
	}
	fib::Options o; o.interrupts = s.below(2);
	if (s.below(3) == 0) { o.crash_proc = s.below(np); o.crash_at = 1 + s.below(s.below(2) ? 40 : 200); }
	o.on_crash = [&](int p) { ipc::die(p); };
	if (o.interrupts) c.say("blocked calls may be interrupted"); if (o.crash_proc >= 0) c.say("process %d dies at step %ld", o.crash_proc, o.crash_at);
	for (int k = 0; k < NK; ++k) if (init[k]) c.say("before: %d=%d", k, init[k]);
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		M &m = *g.m[i];
		for (auto &t : plan[i])
		{
			size_t at = h.size(); h.push_back(Rec()); { Rec &x = h[at]; x.k = t.k; x.p = i; x.key = t.key; x.tag = t.tag; x.res = false; x.dead = true; x.threw = false; x.n = 0; }
			c.say("process %d starts %s", i, kn[t.k]);
			std::unique_ptr<M::pair[]> pr(new M::pair[4]); uint64_t ks[4]; V v[2]; bool f[2] = { false, false }, res = true, threw = false; size_t n = 0; uint64_t e;
			for (size_t j = 0; j < t.key.size(); ++j) { ks[j] = pr[j].key = keyval(t.key[j]); if (j < t.tag.size()) pr[j].value = V::of(t.tag[j]); }
			std::vector<std::pair<uint64_t, V>> all; all.reserve(64); std::string what;
			{
				fib::Op op; h[at].inv = op.inv;
				try
				{
					switch (t.k)
					{
						case INS: res = m.insert(ks[0], pr[0].value); break;
						case ERA: res = m.erase(ks[0]); break;
						case READ: f[0] = m.read(ks[0], v[0]); break;
						case SIZE: n = m.size(); break;
						case CLEAR: m.clear(); break;
						case BINS: res = m.insert(pr.get(), t.key.size()); break;
						case BERA: res = m.erase(ks, t.key.size()); break;
						case ITER: m.lock_read_rw(); for (M::const_iterator it = m.begin(); it != m.end() && all.size() < 60; ++it) { V w = it.value(); all.push_back(std::make_pair(it.key(), w)); } m.unlock_read_rw(); break;
						case DREAD: m.lock_read_rw(); for (int j = 0; j < 2; ++j) f[j] = m.unprotected_read(ks[j], v[j]); m.unlock_read_rw(); break;
						case RMW: m.lock_write_rw(); f[0] = m.unprotected_read(ks[0], v[0]); res = m.unprotected_insert(ks[0], pr[0].value); m.unlock_write_rw(); break;
					}
				}
				catch (const std::exception &x) { threw = true; what = x.what(); }
				e = op.end();
			}
			Rec &x = h[at]; x.ret = e; x.dead = false; x.res = res; x.n = n; x.threw = threw;
			if (threw) { CHECK(o.interrupts && what.find("nterrupted") != std::string::npos, "process %d: %s raises %s", i, kn[t.k], what.c_str()); continue; }
			if (t.k == READ || t.k == DREAD || t.k == RMW) for (size_t j = 0; j < t.key.size(); ++j) x.got.push_back(f[j] ? tag_of(v[j]) : 0);
			if (t.k == ITER)
			{
				x.got.assign(NK, 0);
				CHECK(all.size() < 60, "an iteration does not end");
				for (auto &p : all) { int k = keyidx(p.first); CHECK(k >= 0, "iteration shows key %llu that was never inserted", (unsigned long long) p.first); CHECK(!x.got[k], "iteration shows key %llu twice", (unsigned long long) p.first); x.got[k] = tag_of(p.second); }
			}
		}
	});
	fib::Result r = fib::run(s, o, body);
	bool crashed = r.crashed >= 0; int last = 0; while (last == r.crashed) ++last;
	auto hist = [&] { for (auto &x : h) c.say("%3llu-%3lld process %d %s", (unsigned long long) x.inv, (long long) x.ret, x.p, x.str().c_str()); };
	for (int i = 0; i < np; ++i) if (r.st[i] == fib::BLOCKED) { hist(); pbt::fail("process %d waits for ever%s", i, crashed ? " after another one died" : ""); }
	// what is there in the end, and that it can still be used
	ipc::set_proc(last); M &m = *g.m[last];
	auto rec = [&](Kind k, int key, int tg) { h.push_back(Rec()); Rec &x = h.back(); x.k = k; x.p = last; if (key >= 0) x.key.push_back(key); if (tg) x.tag.push_back(tg); x.dead = x.threw = false; x.res = true; x.n = 0; x.inv = fib::tick(); return h.size() - 1; };
	for (int k = 0; k < NK; ++k) { size_t at = rec(READ, k, 0); V v; bool f = m.read(keyval(k), v); h[at].got.push_back(f ? tag_of(v) : 0); h[at].ret = fib::tick(); }
	{ size_t at = rec(SIZE, -1, 0); h[at].n = m.size(); h[at].ret = fib::tick(); }
	if (s.below(2))
	{
		for (int k = 0; k < NK; ++k) { size_t at = rec(s.below(3) ? INS : ERA, k, 0); if (h[at].k == INS) { h[at].tag.push_back(++tag); h[at].res = m.insert(keyval(k), V::of(tag)); } else h[at].res = m.erase(keyval(k)); h[at].ret = fib::tick(); }
		for (int k = 0; k < NK; ++k) { size_t at = rec(READ, k, 0); V v; bool f = m.read(keyval(k), v); h[at].got.push_back(f ? tag_of(v) : 0); h[at].ret = fib::tick(); }
	}
	hist();
	for (size_t i = 0; i < h.size(); ++i) h[i].optional = h[i].dead;
	std::vector<Rec> all; for (auto &x : h) if (!x.threw) all.push_back(x);
	std::vector<fib::LinOp> ops(all.begin(), all.end());
	bool lin = fib::linearizable(ops, init, [&](const std::string &st, int i, uint64_t, std::vector<std::string> &out) {
		const Rec &x = all[i]; std::string t = st; bool loose = st[NK] != 0;
		size_t held = 0; for (int k = 0; k < NK; ++k) held += st[k] != 0;
		if (x.dead)
		{
			bool writes = x.k != READ && x.k != SIZE && x.k != ITER && x.k != DREAD;
			t[NK] = 1;
			if (x.k == CLEAR) for (int k = 0; k < NK; ++k) t[k] = (char) 255; else if (writes) for (int k : x.key) t[k] = (char) 255;
			out.push_back(t); return;
		}
		auto seen = [&](int k, int got) { return (uint8_t) t[k] == 255 || (uint8_t) t[k] == got; };
		// an insert: where it may lead, given its result is not known (res < 0) or known
		auto insert = [&](int k, int tg, int res) -> int // returns possible results: bit 0 refused, bit 1 done
		{
			(void) tg; (void) res;
			if ((uint8_t) t[k] == 255) return 3;
			if (t[k]) return 2;
			size_t n = 0; for (int q = 0; q < NK; ++q) n += t[q] != 0;
			return loose ? 3 : n < CAP ? 2 : 1;
		};
		switch (x.k)
		{
			case READ: if (seen(x.key[0], x.got[0])) out.push_back(t); break;
			case DREAD: if (seen(x.key[0], x.got[0]) && seen(x.key[1], x.got[1]) && (x.key[0] != x.key[1] || x.got[0] == x.got[1])) out.push_back(t); break;
			case ITER: { bool ok = true; for (int k = 0; k < NK; ++k) ok &= seen(k, x.got[k]); if (ok) out.push_back(t); break; }
			case SIZE: if (loose || x.n == held) out.push_back(t); break;
			case CLEAR: for (int k = 0; k < NK; ++k) t[k] = 0; out.push_back(t); break;
			case ERA: if ((uint8_t) t[x.key[0]] == 255 || (t[x.key[0]] != 0) == x.res) { t[x.key[0]] = 0; out.push_back(t); } break;
			case BERA: { int can = 3; bool all_yes = true, sure_no = false; for (int k : x.key) { if ((uint8_t) t[k] == 255) ; else if (!t[k]) sure_no = true; t[k] = 0; } (void) can; (void) all_yes; bool wild = false; for (int k : x.key) wild |= (uint8_t) st[k] == 255; if (sure_no ? !x.res : wild ? true : x.res) out.push_back(t); break; }
			case INS: { int r = insert(x.key[0], x.tag[0], x.res); if (x.res ? r & 2 : r & 1) { if (x.res) t[x.key[0]] = (char) x.tag[0]; out.push_back(t); } break; }
			case RMW: { if (!seen(x.key[0], x.got[0])) break; if ((uint8_t) t[x.key[0]] == 255) t[x.key[0]] = x.got[0] ? 1 : 0; int r = insert(x.key[0], x.tag[0], x.res); if (loose) r = x.got[0] ? 2 : 3; if (x.res ? r & 2 : r & 1) { t[x.key[0]] = x.res ? (char) x.tag[0] : 0; out.push_back(t); } break; }
			case BINS:
			{
				// several ways only where something is not known
				std::vector<std::pair<std::string, bool>> w(1, std::make_pair(t, true)), z;
				for (size_t j = 0; j < x.key.size(); ++j)
				{
					z.clear();
					for (auto &y : w) { t = y.first; int r = insert(x.key[j], x.tag[j], -1); if (r & 2) { std::string u = y.first; u[x.key[j]] = (char) x.tag[j]; z.push_back(std::make_pair(u, y.second)); } if (r & 1) z.push_back(std::make_pair(y.first, false)); }
					w = z;
				}
				for (auto &y : w) if (y.second == x.res) out.push_back(y.first);
				break;
			}
		}
	});
	CHECK(lin, "no order of the operations explains what the processes saw");
	bool shared = false; for (auto &t : touched) shared |= t.second.first.size() > 1 && t.second.second;
	if (r.interrupts) c.label("interrupted"); if (crashed) c.label("death"); c.label(fmt("%d processes", np));
	c.nontrivial(shared && r.switches >= 2);
}
