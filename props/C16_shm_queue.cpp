// @pbt quick=60000 thorough=4000000 fuzz=8 tfuzz=240 maxlen=900 casesec=90 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp
#include "shm_common.h"
#include <deque>
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>

const char *prop_id = "C16";
const char *prop_rule = "histories of put, flush, unflush (no waiting, short, long and default waiting, whose limits are watched), get, register access, disconnect and reconnect by two writers and two readers of one queue, items of fixed (1, 3, 8, 13 bytes) and varying (2 to 40 bytes) size, boxes of 0 to 90 bytes, rings of 1 to 12; rarely boxes of 1024 to 300000 bytes and rings up to 1500, the default geometry included, in bursts of puts and reads, now and then a ring of more than 4 GB; oracle: a model of boxes of items (who holds what unflushed, FIFO of flushed boxes, registers). Non-trivial: a box dropped by a full ring or the ring indices having wrapped around, and items read.";

template <int N> struct Fix : shm_queue::serializable
{
	uint8_t b[N];
	Fix() { memset(b, 0, N); }
	void make(uint32_t id, uint32_t) { for (int i = 0; i < N; ++i) b[i] = (uint8_t) ((id >> (8 * (i & 3))) + i * 31); b[0] = (uint8_t) (1 + id % 255); }
	bool serialize(void *p) const { memcpy(p, b, N); return true; }
	bool deserialize(const void *p) { if (*(const uint8_t *) p == 0) return false; memcpy(b, p, N); return true; }
	size_t size() const { return N; }
	std::string str() const { return std::string((const char *) b, N); }
};
struct Var : shm_queue::serializable
{
	std::string v;
	Var() {}
	void make(uint32_t id, uint32_t len) { v.resize(len); for (uint32_t i = 0; i < len; ++i) v[i] = (char) ((id >> (8 * (i & 3))) + i * 7); }
	bool serialize(void *p) const { uint8_t *q = (uint8_t *) p; q[0] = 0xA5; q[1] = (uint8_t) v.size(); memcpy(q + 2, v.data(), v.size()); return true; }
	bool deserialize(const void *p) { const uint8_t *q = (const uint8_t *) p; if (q[0] == 0) return false; CHECK(q[0] == 0xA5, "an item starts with byte %02x instead of its header", q[0]); v.assign((const char *) q + 2, q[1]); return true; }
	size_t size() const { return 2 + v.size(); }
	std::string str() const { return v; }
};

typedef std::vector<std::string> Box;
template <class T> static void history(Src &s, Ctx &c, const char *name, uint32_t bs, uint32_t n)
{
	ipc::reset();
	struct G { std::unique_ptr<shm_queue::queue<T>> q[4]; ~G() { for (int i = 0; i < 4; ++i) { ipc::set_proc(i); q[i].reset(); } ipc::reset(); } } g;
	struct Side { bool on; Box box; size_t used, next; } me[4];
	for (int i = 0; i < 4; ++i) { me[i].on = false; me[i].used = me[i].next = 0; if (i < 2) g.q[i].reset(new shm_queue::writer<T>); else g.q[i].reset(new shm_queue::reader<T>); }
	std::deque<Box> ring; uint32_t reg[12] = { 0 }, id = 0, flushed = 0, steps = 0; bool dropped = false, got_item = false;
	c.say("%s, boxes of %u bytes, ring of %u", name, bs, n);
	auto flush = [&](int i) { if (!me[i].on) return; if (ring.size() + 1 < n) { ring.push_back(me[i].box); ++flushed; } else dropped = true; me[i].box.clear(); me[i].used = 0; };
	auto who = [](int i) { return fmt(i < 2 ? "writer %d" : "reader %d", i & 1); };
	auto connect = [&](int i) { ipc::set_proc(i); c.say("%s connects", who(i).c_str()); g.q[i]->connect("/key/q", bs, n); me[i].on = true; me[i].box.clear(); me[i].used = me[i].next = 0; };
	connect(0); connect(2);
	while ((steps < 5 || s.more(16)) && steps < 150)
	{
		++steps;
		int op = s.weighted({ 30, 14, 14, 24, 5, 5, 3, 3 });
		int i = op < 2 ? s.below(2) : op < 4 ? 2 + s.below(2) : s.below(4);
		if (!me[i].on && op != 6 && s.below(4)) i = i < 2 ? 0 : 2;
		shm_queue::queue<T> &q = *g.q[i]; ipc::set_proc(i); std::string w = who(i);
		bool on = me[i].on;
		switch (op)
		{
			case 0:
			{
				T it; it.make(++id, s.below(8) ? s.below(12) : s.below(39));
				std::string v = it.str(); size_t sz = it.size(); bool fits = me[i].used + sz <= bs, want = on && sz <= bs;
				if (on && !fits) flush(i);
				bool r = q.put(it);
				c.say("%s puts %zu bytes %s -> %d", w.c_str(), sz, show(v).c_str(), r);
				CHECK(r == want, "put of an item of %zu bytes %s (boxes of %u%s)", sz, r ? "succeeds" : "fails", bs, on ? "" : ", not connected");
				if (want) { me[i].box.push_back(v); me[i].used += sz; }
				break;
			}
			case 1: c.say("%s flushes", w.c_str()); q.flush(); flush(i); break;
			case 2:
			{
				bool r; long limit = -1; ipc::waited_us = -1;
				switch (s.below(4))
				{
					case 0: c.say("%s unflushes without waiting", w.c_str()); r = q.unflush(IPC_NOWAIT); break;
					case 1: c.say("%s unflushes", w.c_str()); limit = 100000; r = q.unflush(); break;
					default: { long us = s.oneof<long>({ 0, 1, 999999, 1000000, 2500000, 60000000 }); c.say("%s unflushes, waiting %ld us", w.c_str(), us); limit = us; r = q.unflush(0, us); }
				}
				bool want = on && !ring.empty();
				CHECK(r == want, "unflush returns %d with %zu boxes waiting%s", r, ring.size(), on ? "" : " (not connected)");
				if (on && ring.empty() && limit >= 0 && ipc::waited_us >= 0) CHECK(ipc::waited_us == limit, "asked to wait up to %ld us, the reader waits %lld", limit, (long long) ipc::waited_us);
				if (r) { me[i].box = ring.front(); ring.pop_front(); me[i].next = 0; }
				break;
			}
			case 3:
			{
				int k = 1 + s.below(4);
				while (k-- > 0)
				{
					T it; bool r = q.get(it);
					bool want = on && me[i].next < me[i].box.size();
					c.say("%s gets -> %s", w.c_str(), r ? show(it.str()).c_str() : "nothing");
					if (want) { CHECK(r, "get gives nothing although %zu items of the box are left, expected %s", me[i].box.size() - me[i].next, show(me[i].box[me[i].next]).c_str()); CHECK(it.str() == me[i].box[me[i].next], "get gives %s, put was %s", show(it.str()).c_str(), show(me[i].box[me[i].next]).c_str()); ++me[i].next; got_item = true; }
					else { CHECK(!r, "get gives %s where no item was put", show(it.str()).c_str()); break; }
				}
				break;
			}
			case 4: case 5:
			{
				if (!on) break;
				uint8_t k = s.below(5) ? s.below(12) : s.below(256); 
				if (op == 4) { uint32_t v = s.below(4) ? (uint32_t) s.u64() : s.below(3); c.say("register %u = %u", k, v); q.set_register(k, v); if (k < 12) reg[k] = v; }
				uint32_t v = q.get_register(k), want = k < 12 ? reg[k] : 0;
				CHECK(v == want, "register %u reads %u, expected %u", k, v, want);
				CHECK(q.registers_number() == 12, "%u registers", q.registers_number());
				break;
			}
			case 6:
				if (!on) { connect(i); break; }
				// fall through
			case 7:
				if (!on) break;
				c.say("%s disconnects", w.c_str());
				q.disconnect(); me[i].on = false; me[i].box.clear(); me[i].used = me[i].next = 0;
				break;
		}
		for (int k = 0; k < 4; ++k) if (me[k].on)
		{
			ipc::set_proc(k);
			CHECK(g.q[k]->boxes_in_queue() == (int) ring.size() && g.q[k]->pages_used() == ring.size(), "%d boxes reported in the queue (%u pages), there are %zu", g.q[k]->boxes_in_queue(), g.q[k]->pages_used(), ring.size());
		}
	}
	// everything that was handed over is there
	if (!me[3].on) connect(3);
	ipc::set_proc(3);
	while (!ring.empty())
	{
		CHECK(g.q[3]->unflush(IPC_NOWAIT), "%zu boxes are left, unflush finds none", ring.size());
		for (auto &v : ring.front()) { T it; CHECK(g.q[3]->get(it), "an item is missing from a box, expected %s", show(v).c_str()); CHECK(it.str() == v, "get gives %s, put was %s", show(it.str()).c_str(), show(v).c_str()); got_item = true; }
		T it; CHECK(!g.q[3]->get(it), "a box holds %s behind its last item", show(it.str()).c_str());
		ring.pop_front();
	}
	CHECK(!g.q[3]->unflush(IPC_NOWAIT), "a box more than were flushed");
	for (int k = 0; k < 12; ++k) CHECK(g.q[3]->get_register(k) == reg[k], "register %d reads %u at the end, expected %u", k, g.q[3]->get_register(k), reg[k]);
	if (dropped) c.label("full ring"); if (flushed >= n) c.label("wrapped");
	c.label(name);
	c.nontrivial((dropped || flushed >= n) && got_item);
}

// large geometries, the default one included, in bursts
static void large(Src &s, Ctx &c)
{
	ipc::reset();
	bool dflt = s.below(2); uint32_t bs = dflt ? 8192 : (uint32_t[]) { 1024, 4096, 65536, 300000 }[s.below(4)], n = dflt ? 1000 : 2 + s.below(bs > 60000 ? 60 : 1500);
	struct G { shm_queue::writer<Fix<600>> w; shm_queue::reader<Fix<600>> r; ~G() { ipc::set_proc(0); w.disconnect(); ipc::set_proc(1); r.disconnect(); ipc::reset(); } } g;
	c.say(dflt ? "default geometry" : "boxes of %u bytes, ring of %u", bs, n);
	auto wc = [&] { ipc::set_proc(0); if (dflt && s.below(2)) g.w.connect("/key/q"); else g.w.connect("/key/q", bs, n); };
	auto rc = [&] { ipc::set_proc(1); if (dflt && s.below(2)) g.r.connect("/key/q"); else g.r.connect("/key/q", bs, n); };
	if (s.below(2)) { wc(); rc(); } else { rc(); wc(); }
	std::deque<std::vector<uint32_t>> ring; uint32_t id = 0, flushed = 0; bool dropped = false; std::vector<uint32_t> box;
	auto hand = [&] { if (ring.size() + 1 < n) { ring.push_back(box); ++flushed; } else dropped = true; box.clear(); };
	for (int b = 0; b < 2 || (b < 8 && s.more(4)); ++b)
	{
		ipc::set_proc(0); uint32_t k = s.below(3) ? s.below(n / 3 + 2) : s.below(n + 20), per = 1 + s.below(5);
		c.say("%u boxes of %u items", k, per);
		for (uint32_t i = 0; i < k; ++i)
		{
			for (uint32_t j = 0; j < per; ++j) { Fix<600> it; it.make(++id, 0); if (600 * (box.size() + 1) > bs) hand(); CHECK(g.w.put(it), "put of 600 bytes fails (boxes of %u)", bs); box.push_back(id); }
			g.w.flush(); hand();
			CHECK(g.w.boxes_in_queue() == (int) ring.size(), "%d boxes reported, there are %zu (ring of %u)", g.w.boxes_in_queue(), ring.size(), n);
		}
		ipc::set_proc(1); k = s.below(3) ? s.below(n / 3 + 2) : s.below(n + 20); if (b && s.below(3) == 0) k = n;
		c.say("%u boxes read", k);
		for (uint32_t i = 0; i < k; ++i)
		{
			bool r = g.r.unflush(IPC_NOWAIT); CHECK(r == !ring.empty(), "unflush returns %d with %zu boxes waiting", r, ring.size()); if (!r) break;
			for (uint32_t want : ring.front()) { Fix<600> it, w; w.make(want, 0); CHECK(g.r.get(it), "an item is missing"); CHECK(it.str() == w.str(), "item %u comes out changed", want); }
			if (600 * (ring.front().size() + 1) <= bs) { Fix<600> it; CHECK(!g.r.get(it), "a box holds more than its %zu items", ring.front().size()); }
			ring.pop_front();
		}
		CHECK(g.r.boxes_in_queue() == (int) ring.size() && g.r.pages_used() == ring.size(), "%d boxes reported, there are %zu", g.r.boxes_in_queue(), ring.size());
	}
	c.label(dflt ? "default geometry" : "large geometry"); c.nontrivial(dropped || flushed >= n);
}

// a ring of more than 4 GB: every box keeps its own place. One process at a time
static void vast(Src &s, Ctx &c)
{
	if (pbt::guided) return;
	std::string lock = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + "/ring-lock"; int fd = open(lock.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666);
	struct Close { int fd; ~Close() { if (fd >= 0) close(fd); } } cl = { fd };
	if (fd < 0 || flock(fd, LOCK_EX)) return;
	ipc::reset(); ipc::shm_limit = 6ull << 30;
	uint32_t bs = (uint32_t[]) { 128u << 20, 70u << 20, 200000011u }[s.below(3)], n = (uint32_t) ((1ull << 32) / bs) + 3, id = 0;
	struct G { shm_queue::writer<Fix<600>> w; shm_queue::reader<Fix<600>> r; ~G() { ipc::set_proc(0); w.disconnect(); ipc::set_proc(1); r.disconnect(); ipc::reset(); } } g;
	c.say("boxes of %u bytes, ring of %u", bs, n); c.label("ring of more than 4 GB"); c.nontrivial();
	ipc::set_proc(0); g.w.connect("/key/q", bs, n); ipc::set_proc(1); g.r.connect("/key/q", bs, n);
	auto put = [&] { ipc::set_proc(0); Fix<600> it; it.make(++id, 0); CHECK(g.w.put(it), "put fails"); g.w.flush(); };
	auto get = [&](uint32_t want) { ipc::set_proc(1); CHECK(g.r.unflush(IPC_NOWAIT), "box %u is missing", want); Fix<600> it, w; w.make(want, 0); CHECK(g.r.get(it), "box %u is empty", want); CHECK(it.str() == w.str(), "box %u comes out changed", want); CHECK(!g.r.get(it), "box %u holds more than its item", want); };
	uint32_t k = 1 + s.below(3), got = 0;
	for (uint32_t i = 0; i < n - 1; ++i) put();
	for (uint32_t i = 0; i < k; ++i) get(++got);
	for (uint32_t i = 0; i < k; ++i) put();
	CHECK(g.w.boxes_in_queue() == (int) n - 1, "%d boxes reported, there are %u", g.w.boxes_in_queue(), n - 1);
	while (got < id) get(++got);
	CHECK(!g.r.unflush(IPC_NOWAIT), "a box more than were flushed");
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(1000000) == 999999) return vast(s, c);
	if (s.below(700) == 99) { large(s, c); return; }
	uint32_t bs = s.below(12) ? s.below(91) : 90 + s.below(300), n = 1 + s.weighted({ 1, 5, 5, 4, 3, 1, 1, 1, 1, 1, 1, 1 });
	switch (s.below(6))
	{
		case 0: history<Fix<1>>(s, c, "items of 1 byte", bs % 12, n); break;
		case 1: history<Fix<3>>(s, c, "items of 3 bytes", bs, n); break;
		case 2: history<Fix<8>>(s, c, "items of 8 bytes", bs, n); break;
		case 3: history<Fix<13>>(s, c, "items of 13 bytes", bs, n); break;
		default: history<Var>(s, c, "items of varying size", bs, n);
	}
}
