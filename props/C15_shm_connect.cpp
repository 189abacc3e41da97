// @pbt quick=40000 thorough=3000000 fuzz=8 tfuzz=240 maxlen=600 wrap=ftok,semget,semop,semtimedop,semctl,shmget,shmat,shmdt,shmctl with=simipc.cpp,fiber.cpp
#include "shm_common.h"

const char *prop_id = "C15";
const char *prop_rule = "histories of connects, failed connects, use, disconnects and destructions by objects of three simulated processes on shared maps (one good and five other layouts) and queues (nine geometries incl. a product over 32 bits), with key files that are missing and with the n-th system call of a chosen kind failing; pools and stacks attached to memory laid out for another size or count. Oracle: error exactly when layouts differ, the key file is unusable or a call failed; bytes of the segments before and after; mappings counted; everybody else goes on, the same object connects later. Non-trivial: at least one refused connect to memory in use, followed by use.";

struct Item : shm_queue::serializable
{
	uint32_t id; Item(uint32_t i = 0) : id(i) {}
	bool serialize(void *p) const { memcpy(p, &id, 4); memset((char *) p + 4, 7, 4); return true; }
	bool deserialize(const void *p) { memcpy(&id, p, 4); return id != 0; }
	size_t size() const { return 8; }
};

// one object under test, whatever it is
struct Obj
{
	virtual ~Obj() {}
	virtual void connect(const char *f) = 0; virtual void disconnect() = 0;
	virtual void use(uint32_t tag) = 0;               // complete operations whose results are known
	virtual int layout() = 0;
	virtual std::string content() = 0;
};
template <class M, int L> struct MapObj : Obj
{
	M m;
	void connect(const char *f) { m.connect(f); }
	void disconnect() { m.disconnect(); }
	void use(uint32_t tag)
	{
		decltype(M::pair::value) v, o; memset((void *) &v, (int) tag, sizeof v);
		bool a = m.insert(999, v);
		if (!a) { m.erase(1); a = m.insert(999, v); }
		CHECK(a && m.read(999, o) && !memcmp(&o, &v, sizeof v), "an insert and read after connecting give something else");
		CHECK(m.erase(999), "an erase after connecting fails"); m.size();
	}
	int layout() { return L; }
	std::string content() { return ""; }
};
struct QObj : Obj
{
	shm_queue::queue<Item> q; uint32_t bs, n; int l;
	QObj(uint32_t b, uint32_t k, int i) : bs(b), n(k), l(i) {}
	void connect(const char *f) { q.connect(f, bs, n); }
	void disconnect() { q.disconnect(); }
	void use(uint32_t tag)
	{
		q.set_register(3, tag); CHECK(q.get_register(3) == tag, "a register read after connecting gives something else");
		if (bs < 8 || n < 2 || q.boxes_in_queue() >= (int) n - 1) return;
		Item it(tag | 1); int before = q.boxes_in_queue();
		CHECK(q.put(it), "put after connecting fails"); q.flush();
		CHECK(q.boxes_in_queue() == before + 1, "a flush after connecting does not hand over its box (%d boxes)", q.boxes_in_queue());
		CHECK(q.unflush(IPC_NOWAIT), "no box after a flush");
	}
	int layout() { return 100 + l; }
	std::string content() { return ""; }
};
static const struct { uint32_t b, n; } geo[] = { { 64, 4 }, { 32, 4 }, { 64, 8 }, { 32, 8 }, { 128, 2 }, { 64, 3 }, { 8192, 10 }, { 65536, 65536 }, { 0x80000001u, 2 } };
enum { NGEO = 9 };
static Obj *make(bool map, int l)
{
	if (!map) return new QObj(geo[l].b, geo[l].n, l);
	switch (l)
	{
		case 0: return new MapObj<shm::hash_map<uint64_t, 8, 5>, 0>;
		case 1: return new MapObj<shm::hash_map<Bytes_<40>, 8, 5>, 1>;
		case 2: return new MapObj<shm::hash_map<uint64_t, 4, 5>, 2>;
		case 3: return new MapObj<shm::hash_map<uint64_t, 8, 3>, 3>;
		case 4: return new MapObj<shm::hash_map<uint64_t, 16, 5>, 4>;
		default: return new MapObj<shm::hash_map<char, 8, 5>, 5>;
	}
}

static void ipc_history(Src &s, Ctx &c)
{
	ipc::reset();
	struct G { Obj *o[4]; bool on[4]; ~G() { ipc::fail_nth(-1, 0, 0); for (int i = 0; i < 4; ++i) { ipc::set_proc(i); delete o[i]; } ipc::reset(); } } g; memset(&g, 0, sizeof g);
	bool map = s.below(2); static const char *files[] = { "/key/a", "/key/b", "/missing/c" };
	// orphan: layout of memory that was created but never attached
	int lay[2] = { -1, -1 }, orphan[2] = { -1, -1 }; int at[4] = { -1, -1, -1, -1 };
	bool refused = false; int steps = 0; uint32_t tag = 0;
	c.say(map ? "maps" : "queues");
	std::string snap[2];
	while ((steps < 4 || s.more(12)) && steps < 60)
	{
		++steps;
		int i = s.below(4); ipc::set_proc(i);
		switch (s.weighted({ 6, 3, 2, 1 }))
		{
			case 0:
			{
				if (g.on[i]) break;
				int kf = s.weighted({ 6, 2, 1 });
				if (g.o[i] == 0 || s.below(3)) { int l = s.below(2) && kf < 2 && lay[kf] >= 0 ? lay[kf] : s.below(map ? 6 : NGEO); if (g.o[i] == 0) g.o[i] = make(map, l); }
				Obj &o = *g.o[i]; int l = o.layout() % 100;
				bool fault = s.chance(90); int call = s.oneof<int>({ ipc::C_FTOK, ipc::C_SEMGET, ipc::C_SEMCTL, ipc::C_SEMOP, ipc::C_SHMGET, ipc::C_SHMAT }), nth = 1 + s.below(3), err = s.oneof<int>({ EACCES, ENOMEM, ENOSPC, EINVAL, EINTR });
				if (!map && s.chance(60)) { QObj *q = (QObj *) g.o[i]; int nl = kf < 2 && lay[kf] >= 0 && s.below(2) ? lay[kf] : s.below(NGEO); q->bs = geo[nl].b; q->n = geo[nl].n; q->l = nl; l = nl; }
				std::string before[2]; int seg[2];
				for (int k = 0; k < 2; ++k) { seg[k] = lay[k] >= 0 ? ipc::seg_by_key(ftok(files[k], 1)) : -1; if (seg[k] >= 0) before[k] = ipc::segment(seg[k]); }
				if (fault) ipc::fail_nth(call, nth, err); else ipc::fail_nth(-1, 0, 0);
				bool ok = true; std::string what;
				try { o.connect(files[kf]); } catch (const std::exception &e) { ok = false; what = e.what(); }
				bool hit = fault && ipc::fault_hit(); ipc::fail_nth(-1, 0, 0);
				bool huge = !map && (uint64_t) geo[l].b * geo[l].n > ipc::shm_limit;
				bool must_fail = kf == 2 || (lay[kf] >= 0 && lay[kf] != l) || huge;
				std::string id = fmt("object %d (layout %d) connecting to %s", i, l, files[kf]);
				c.say("%s%s -> %s", id.c_str(), hit ? fmt(" with %s number %d failing (%s)", ipc::call_name[call], nth, strerror(err)).c_str() : "", ok ? "connected" : what.c_str());
				if (must_fail) CHECK(!ok, "%s succeeds although %s", id.c_str(), kf == 2 ? "there is no key file" : huge ? "the geometry cannot be mapped" : "the memory has another layout");
				else if (!hit && !(lay[kf] < 0 && orphan[kf] >= 0 && orphan[kf] != l)) CHECK(ok, "%s fails: %s", id.c_str(), what.c_str());
				if (!ok && kf < 2 && lay[kf] < 0 && orphan[kf] < 0 && ipc::seg_by_key(ftok(files[kf], 1)) >= 0) orphan[kf] = l;
				if (!ok)
				{
					CHECK(ipc::attachments(i) == 0, "%s failed (%s) and left %d mapping(s)", id.c_str(), what.c_str(), ipc::attachments(i));
					for (int k = 0; k < 2; ++k) if (seg[k] >= 0) CHECK(ipc::segment(seg[k]) == before[k], "%s failed (%s) and changed the contents", id.c_str(), what.c_str());
					if (kf < 2 && lay[kf] >= 0) for (int k = 0; k < 4; ++k) if (g.on[k] && at[k] == kf) refused = true;
					c.label(hit ? fmt("failing %s", ipc::call_name[call]) : kf == 2 ? "no key file" : huge ? "too large" : "other layout");
				}
				else
				{
					g.on[i] = true; at[i] = kf; lay[kf] = l;
					CHECK(ipc::attachments(i) == 1, "%s left %d mappings", id.c_str(), ipc::attachments(i));
					if (seg[kf] >= 0) CHECK(ipc::segment(seg[kf]) == before[kf], "%s changed the contents", id.c_str());
				}
				// everybody goes on
				for (int k = 0; k < 4; ++k) if (g.on[k]) { ipc::set_proc(k); g.o[k]->use(++tag * 16 + k); }
				// what was refused connects once nothing is in the way
				ipc::set_proc(i);
				if (!ok && s.below(2))
				{
					int k2 = -1; for (int k = 2; k-- > 0;) if (lay[k] == l || (lay[k] < 0 && (orphan[k] < 0 || orphan[k] == l))) k2 = k;
					if (k2 >= 0 && !huge)
					{
						c.say("object %d connects to %s", i, files[k2]);
						try { o.connect(files[k2]); } catch (const std::exception &e) { pbt::fail("%s failed (%s); now connecting it to %s fails: %s", id.c_str(), what.c_str(), files[k2], e.what()); }
						g.on[i] = true; at[i] = k2; lay[k2] = l;
						for (int k = 0; k < 4; ++k) if (g.on[k]) { ipc::set_proc(k); g.o[k]->use(++tag * 16 + k); }
					}
				}
				break;
			}
			case 1:
				if (!g.on[i]) break;
				c.say("object %d used", i); g.o[i]->use(++tag * 16 + i); break;
			case 2: case 3:
			{
				if (!g.o[i]) break;
				int seg = g.on[i] ? ipc::seg_by_key(ftok(files[at[i]], 1)) : -1; std::string before = seg >= 0 ? ipc::segment(seg) : "";
				bool del = s.below(2);
				c.say("object %d %s", i, del ? "destroyed" : "disconnected");
				if (del) { delete g.o[i]; g.o[i] = 0; } else g.o[i]->disconnect();
				CHECK(ipc::attachments(i) == 0, "%s object %d left %d mapping(s)", del ? "destroying" : "disconnecting", i, ipc::attachments(i));
				if (seg >= 0) CHECK(ipc::segment(seg) == before, "%s an object changed the contents", del ? "destroying" : "disconnecting");
				g.on[i] = false; at[i] = -1;
				break;
			}
		}
	}
	c.nontrivial(refused);
}

template <class A, class B, class R> static void other_layout(Src &s, Ctx &c, R regions, const char *what)
{
	// memory used through A, then attached as B
	auto mem = regions(); A a; a.at(mem);
	uint32_t n = 1 + s.below(3); for (uint32_t i = 0; i < n; ++i) a.fill(i);
	std::string before = mem->bytes();
	B b; bool threw = false; std::string msg;
	try { b.at(mem); } catch (const std::exception &e) { threw = true; msg = e.what(); }
	c.say("%s", what);
	CHECK(threw, "%s: attaching succeeds", what);
	CHECK(mem->bytes() == before, "%s: attaching fails (%s) but changes the contents", what, msg.c_str());
	a.fill(n); a.check(n + 1, what);
	auto mem2 = regions(); b.at(mem2); b.fill(0); b.check(1, "attaching to other memory after a failure");
	c.nontrivial();
}
struct Mem { Exact h, s, d; Mem() : h(256, 0), s(1024, 0), d(4096, 0) {} std::string bytes() { return h.str() + s.str() + d.str(); } };
template <class T, int N> struct PoolU { shm::pool<T, N> p; void at(std::shared_ptr<Mem> &m) { p.attach(m->h.data(), m->s.data(), m->d.data()); } void fill(uint32_t) { p.allocate(); } void check(uint32_t n, const char *w) { CHECK(p.allocated_objects() == n, "%s: the user counts %zu slots, expected %u", w, p.allocated_objects(), n); } };
template <class T, int N> struct StackU { shm::stack<T, N> p; void at(std::shared_ptr<Mem> &m) { p.attach(m->h.data(), m->d.data()); } void fill(uint32_t) { T t; memset(&t, 1, sizeof t); p.push(t); } void check(uint32_t n, const char *w) { CHECK(p.used() == n, "%s: the user counts %zu elements, expected %u", w, p.used(), n); } };

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	auto mk = [] { return std::make_shared<Mem>(); };
	switch (s.weighted({ 14, 1, 1 }))
	{
		case 0: ipc_history(s, c); break;
		case 1:
			c.label("pool");
			switch (s.below(3)) { case 0: other_layout<PoolU<uint32_t, 8>, PoolU<uint32_t, 4>>(s, c, mk, "pool of 8 attached as pool of 4"); break; case 1: other_layout<PoolU<uint32_t, 8>, PoolU<uint64_t, 8>>(s, c, mk, "pool of 4-byte objects attached as pool of 8-byte objects"); break; default: other_layout<PoolU<char, 5>, PoolU<char, 9>>(s, c, mk, "pool of 5 attached as pool of 9"); }
			break;
		default:
			c.label("stack");
			switch (s.below(3)) { case 0: other_layout<StackU<uint32_t, 8>, StackU<uint32_t, 4>>(s, c, mk, "stack of 8 attached as stack of 4"); break; case 1: other_layout<StackU<uint32_t, 8>, StackU<uint64_t, 8>>(s, c, mk, "stack of 4-byte objects attached as stack of 8-byte objects"); break; default: other_layout<StackU<char, 5>, StackU<char, 9>>(s, c, mk, "stack of 5 attached as stack of 9"); }
	}
}
