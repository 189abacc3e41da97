// @pbt quick=40000 thorough=3000000 fuzz=8 tfuzz=240 maxlen=900 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp
#include "shm_common.h"

const char *prop_id = "C13";
const char *prop_rule = "histories of 3-150 operations (insert new/held key, batch insert with repeated keys and beyond capacity, read, erase, batch erase, clear, size, iteration, explicit locking with unprotected operations, connect/disconnect/reconnect) by up to three handles in up to three simulated processes on one map; capacities 1-20 (rarely 300 and 68000), hash sizes 1-16 (rarely 300 and 67000), values of 1, 8 and 40 bytes; keys colliding in the hash, 0 and 2^64-1 included; simulated System V IPC, memory exactly the size requested. Oracle: bounded dictionary. Non-trivial: an insert was refused, an erased entry's space reused, and two handles took part.";

template <class T> static T mk(uint64_t t) { T v; memset(&v, 0, sizeof v); for (size_t i = 0; i < sizeof v; ++i) ((char *) &v)[i] = (char) (t * 31 + i * 5 + (t >> 8)); return v; }
template <class T> static bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof a); }

template <class T, int N, int H> static void history(Src &s, Ctx &c)
{
	typedef shm::hash_map<T, N, H> M;
	ipc::reset();
	struct Hs { M *h[3]; ~Hs() { for (int i = 0; i < 3; ++i) { ipc::set_proc(i); delete h[i]; } ipc::reset(); } } hs = { { 0, 0, 0 } };
	std::map<uint64_t, uint64_t> m; uint64_t tag = 0; bool refused = false, reused = false, erased = false; std::set<int> who;
	uint64_t base = s.oneof<uint64_t>({ 0, 1, ~0ull - 3, 1ull << 32, 123456789 });
	auto key = [&]() -> uint64_t {
		switch (s.weighted({ 5, 3, 1 })) { case 0: return base + s.below(N + 3); case 1: return base + (uint64_t) s.below(N + 2) * H; default: return s.oneof<uint64_t>({ 0, ~0ull, 1ull << 63, 0xffffffffull }); }
	};
	c.say("map of %d entries, hash %d, values of %zu bytes", N, H, sizeof(T));
	auto connect = [&](int i) { ipc::set_proc(i); if (!hs.h[i]) hs.h[i] = new M; hs.h[i]->connect("/key/file"); CHECK(hs.h[i]->is_connected(), "not connected after connect()"); };
	connect(0);
	CHECK(hs.h[0]->capacity() == N, "capacity() is %zu", hs.h[0]->capacity());
	auto ins = [&](uint64_t k, uint64_t t) -> bool { if (!m.count(k) && m.size() >= N) { refused = true; return false; } if (!m.count(k) && erased) reused = true; m[k] = t; return true; };
	int steps = 0; const int most = N > 1000 ? 14 : 150;
	while ((steps < 3 || s.more(20)) && steps < most)
	{
		++steps;
		int i = s.below(3);
		if (!hs.h[i] || !hs.h[i]->is_connected()) { if (s.chance(80)) { c.say("%d connects", i); connect(i); } else for (int k = 0; k < 3; ++k) if (hs.h[k] && hs.h[k]->is_connected()) { i = k; break; } }
		if (!hs.h[i] || !hs.h[i]->is_connected()) { c.say("%d connects", i); connect(i); }
		ipc::set_proc(i); M &h = *hs.h[i]; who.insert(i);
		switch (N > 1000 ? s.weighted({ 3, 6, 3, 3, 3, 1, 2, 2, 1, 2 }) : s.weighted({ 10, 2, 6, 5, 2, 1, 2, 2, 1, 2 }))
		{
			case 0: { uint64_t k = key(), t = ++tag; c.say("%d: insert %llu", i, (unsigned long long) k); bool e = ins(k, t), g = h.insert(k, mk<T>(t)); CHECK(e == g, "insert of key %llu with %zu of %d entries returns %d", (unsigned long long) k, m.size(), N, (int) g); break; }
			case 1:
			{
				size_t n = s.below(N + 3); std::unique_ptr<typename M::pair[]> p(new typename M::pair[n]); bool all = true;
				memset((void *) p.get(), 0, n * sizeof(typename M::pair));
				std::string l; for (size_t k = 0; k < n; ++k) { p[k].key = key(); uint64_t t = ++tag; p[k].value = mk<T>(t); all &= ins(p[k].key, t); l += fmt(" %llu", (unsigned long long) p[k].key); }
				c.say("%d: batch insert%s", i, l.c_str());
				bool g = h.insert(p.get(), n); CHECK(g == all, "batch insert of %zu reports %d, expected %d", n, (int) g, (int) all); break;
			}
			case 2: { uint64_t k = key(); T out = mk<T>(987654); bool g = h.read(k, out); c.say("%d: read %llu", i, (unsigned long long) k); CHECK(g == !!m.count(k), "read of key %llu returns %d, it is %s", (unsigned long long) k, (int) g, m.count(k) ? "held" : "not held"); if (g) CHECK(eq(out, mk<T>(m[k])), "read of key %llu returns another value than the last one inserted", (unsigned long long) k); break; }
			case 3: { uint64_t k = key(); bool e = m.erase(k), g = h.erase(k); if (e) erased = true; c.say("%d: erase %llu", i, (unsigned long long) k); CHECK(e == g, "erase of key %llu returns %d", (unsigned long long) k, (int) g); break; }
			case 4:
			{
				size_t n = s.below(N + 3); std::vector<uint64_t> k(n); bool all = true; std::string l;
				for (auto &x : k) { x = key(); bool e = m.erase(x); all &= e; if (e) erased = true; l += fmt(" %llu", (unsigned long long) x); }
				c.say("%d: batch erase%s", i, l.c_str());
				bool g = h.erase(k.data(), n); CHECK(g == all, "batch erase of %zu reports %d, expected %d", n, (int) g, (int) all); break;
			}
			case 5: c.say("%d: clear", i); h.clear(); m.clear(); erased = true; break;
			case 6: { size_t g = h.size(); CHECK(g == m.size(), "size() is %zu, %zu entries are held", g, m.size()); break; }
			case 7:
			{
				std::map<uint64_t, int> seen; size_t n = 0; c.say("%d: iterate", i);
				h.lock_read_rw();
				for (typename M::const_iterator it = h.begin(); it != h.end(); ++it)
				{
					if (++n > N + 1u) break;
					++seen[it.key()];
					if (!m.count(it.key()) || !eq(it.value(), mk<T>(m[it.key()]))) { h.unlock_read_rw(); pbt::fail("iteration reports key %llu %s", (unsigned long long) it.key(), m.count(it.key()) ? "with another value" : "which is not held"); }
				}
				h.unlock_read_rw();
				CHECK(n == m.size() && seen.size() == m.size(), "iteration visits %zu entries (%zu different), %zu are held", n, seen.size(), m.size());
				break;
			}
			case 8:
				c.say("%d: disconnect", i); h.disconnect(); CHECK(!h.is_connected(), "connected after disconnect()");
				if (s.below(2)) { delete hs.h[i]; hs.h[i] = 0; }
				break;
			default:
			{
				uint64_t a = key(), b = key(), t = ++tag; c.say("%d: locked: insert %llu, erase %llu, read", i, (unsigned long long) a, (unsigned long long) b);
				h.lock_write_rw();
				bool e1 = ins(a, t), g1 = h.unprotected_insert(a, mk<T>(t)); bool e2 = m.erase(b), g2 = h.unprotected_erase(b); if (e2) erased = true;
				T out; bool g3 = h.unprotected_read(a, out);
				h.unlock_write_rw();
				CHECK(e1 == g1 && e2 == g2 && g3 == !!m.count(a), "unprotected operations report %d %d %d, expected %d %d %d", g1, g2, g3, e1, e2, (int) m.count(a));
				break;
			}
		}
	}
	for (int i = 0; i < 3; ++i) if (hs.h[i] && hs.h[i]->is_connected())
	{
		ipc::set_proc(i);
		for (auto &e : m) { T out; CHECK(hs.h[i]->read(e.first, out) && eq(out, mk<T>(e.second)), "at the end handle %d does not read the last value of key %llu", i, (unsigned long long) e.first); }
		CHECK(hs.h[i]->size() == m.size(), "at the end size() is %zu, %zu entries are held", hs.h[i]->size(), m.size());
	}
	c.nontrivial(refused && reused && who.size() > 1);
	c.label(fmt("%d entries, hash %d", N, H));
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(300) == 77) switch (s.below(4))
	{
		case 0: history<uint64_t, 300, 200>(s, c); return;
		case 1: history<Bytes_<40>, 40, 300>(s, c); return;
		default: if (pbt::guided || s.below(3)) break; if (s.below(2)) history<char, 66000, 67000>(s, c); else history<uint32_t, 68000, 3001>(s, c); return;
	}
	switch (s.below(7))
	{
		case 0: history<uint64_t, 3, 4>(s, c); break;
		case 1: history<char, 8, 1>(s, c); break;
		case 2: history<Bytes_<40>, 5, 7>(s, c); break;
		case 3: history<uint64_t, 1, 1>(s, c); break;
		case 4: history<uint64_t, 20, 3>(s, c); break;
		case 5: history<Bytes_<40>, 4, 16>(s, c); break;
		default: history<char, 17, 2>(s, c); break;
	}
}
