#include "simipc.h"
#include "fiber.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" {
int __real_semget(key_t, int, int); int __real_semop(int, struct sembuf *, size_t); int __real_shmget(key_t, size_t, int); void *__real_shmat(int, const void *, int); int __real_shmdt(const void *);
}
namespace ipc {

struct Sem { key_t key; bool dead, touched; std::vector<int> v; std::map<int, std::vector<long>> adj; };
struct Map { int proc, seg; char *base; size_t len; char *p; };
struct Seg { key_t key; bool dead; size_t size; int fd; size_t pages; };
static std::vector<Sem> sems; static std::vector<Seg> segs; static std::vector<Map> maps;
static int proc; static int fcall, fnth, ferr; static bool fhit;
size_t shm_limit = 64 << 20; int64_t waited_us = -1;
const char *call_name[] = { "ftok", "semget", "semctl", "semop", "shmget", "shmat", "shmdt", "shmctl" };

static int me() { return fib::self() >= 0 ? fib::self() : proc; }
void set_proc(int p) { proc = p; }
void reset()
{
	for (auto &m : maps) munmap(m.base, m.len);
	for (auto &s : segs) if (s.fd >= 0) close(s.fd);
	maps.clear(); segs.clear(); sems.clear(); proc = 0; fcall = -1; fhit = false; fib::watch_clear(); shm_limit = 64 << 20;
}
void die(int p)
{
	for (auto &s : sems) { auto i = s.adj.find(p); if (i != s.adj.end()) { for (size_t k = 0; k < s.v.size(); ++k) { s.v[k] += i->second[k]; if (s.v[k] < 0) s.v[k] = 0; } s.adj.erase(i); } }
	// mappings stay mapped here (the dead process cannot use them any more), but do not count
	for (auto &m : maps) if (m.proc == p) m.proc = -1 - p;
}
int attachments() { int n = 0; for (auto &m : maps) n += m.proc >= 0; return n; }
int attachments(int p) { int n = 0; for (auto &m : maps) n += m.proc == p; return n; }
int nsegs() { int n = 0; for (auto &s : segs) n += !s.dead; return n; }
int nsems() { int n = 0; for (auto &s : sems) n += !s.dead; return n; }
int semval(int id, int n) { return id >= 0 && id < (int) sems.size() ? sems[id].v[n] : -1; }
bool touched(int id) { return sems[id].touched; }
long undo(int p, int id, int n) { auto i = sems[id].adj.find(p); return i == sems[id].adj.end() ? 0 : i->second[n]; }
size_t segsize(int id) { return segs[id].size; }
int seg_by_key(key_t k) { for (size_t i = 0; i < segs.size(); ++i) if (!segs[i].dead && segs[i].key == k) return i; return -1; }
std::string segment(int id) { std::string r(segs[id].size, 0); ssize_t n = pread(segs[id].fd, &r[0], r.size(), segs[id].pages - ((r.size() + 15) & ~15ul)); (void) n; return r; }
void *mapping(int p, int id) { for (auto &m : maps) if (m.proc == p && m.seg == id) return m.p; return 0; }
bool all_sem_idle(int a, int b) { for (auto &s : sems) if (!s.dead && (s.v[0] != a || s.v[1] != b)) return false; return true; }
void fail_nth(int c, int n, int e) { fcall = c; fnth = n; ferr = e; fhit = false; }
bool fault_hit() { return fhit; }
static bool faulty(int c) { fib::point(); if (c == fcall && fnth > 0 && --fnth == 0) { fhit = true; errno = ferr; fcall = -1; return true; } return false; }

static bool possible(Sem &s, struct sembuf *o, size_t n, bool &would_wait)
{
	std::vector<int> v = s.v; would_wait = false;
	for (size_t i = 0; i < n; ++i)
	{
		int &x = v[o[i].sem_num];
		if (o[i].sem_op == 0) { if (x != 0) { would_wait = !(o[i].sem_flg & IPC_NOWAIT); return false; } }
		else if (x + o[i].sem_op < 0) { would_wait = !(o[i].sem_flg & IPC_NOWAIT); return false; }
		else x += o[i].sem_op;
	}
	return true;
}
static int do_semop(int id, struct sembuf *o, size_t n, int timed)
{
	// giving a lock back does not fail, only taking one does
	bool holds = false;
	if (id >= 0 && id < (int) sems.size()) { auto a = sems[id].adj.find(me()); if (a != sems[id].adj.end()) for (long x : a->second) holds |= x != 0; }
	if (holds) fib::point(); else if (faulty(C_SEMOP)) return -1;
	if (id < 0 || id >= (int) sems.size() || sems[id].dead || n == 0) { errno = EINVAL; return -1; }
	for (size_t i = 0; i < n; ++i) if (o[i].sem_num >= sems[id].v.size()) { errno = EFBIG; return -1; }
	bool wait;
	for (size_t i = 0; i < n; ++i) if (o[i].sem_op > 0 && sems[id].v[o[i].sem_num] + o[i].sem_op > 32767) { errno = ERANGE; return -1; }
	if (!possible(sems[id], o, n, wait))
	{
		if (!wait) { errno = EAGAIN; return -1; }
		std::vector<struct sembuf> ops(o, o + n);
		fib::Wake w = fib::block([=]() mutable { bool x; return sems[id].dead || possible(sems[id], ops.data(), n, x) || !x; }, timed | fib::INTERRUPTIBLE);
		if (w == fib::TIMEOUT) { errno = EAGAIN; return -1; }
		if (w == fib::INTR) { errno = EINTR; return -1; }
		if (sems[id].dead) { errno = EIDRM; return -1; }
		if (!possible(sems[id], o, n, wait)) { errno = EAGAIN; return -1; }
	}
	sems[id].touched = true;
	for (size_t i = 0; i < n; ++i)
	{
		sems[id].v[o[i].sem_num] += o[i].sem_op;
		if (o[i].sem_flg & SEM_UNDO) { auto &a = sems[id].adj[me()]; a.resize(sems[id].v.size()); a[o[i].sem_num] -= o[i].sem_op; }
	}
	return 0;
}
} // namespace ipc
using namespace ipc;

extern "C" {
key_t __wrap_ftok(const char *p, int id)
{ fib::Hush hush;
	if (faulty(C_FTOK)) return -1;
	if (!p || strstr(p, "missing")) { errno = ENOENT; return -1; }
	uint32_t h = 2166136261u; for (; *p; ++p) h = (h ^ (uint8_t) *p) * 16777619u;
	return (key_t) ((h & 0xffffff) | (id & 0x7f) << 24);
}
int __wrap_semget(key_t k, int n, int fl)
{ fib::Hush hush;
	if (faulty(C_SEMGET)) return -1;
	for (size_t i = 0; i < sems.size(); ++i) if (k != IPC_PRIVATE && !sems[i].dead && sems[i].key == k)
	{
		if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
		if (n > (int) sems[i].v.size()) { errno = EINVAL; return -1; }
		return i;
	}
	if (k != IPC_PRIVATE && !(fl & IPC_CREAT)) { errno = ENOENT; return -1; }
	if (n <= 0) { errno = EINVAL; return -1; }
	Sem s; s.key = k; s.dead = s.touched = false; s.v.assign(n, 0); sems.push_back(s);
	return sems.size() - 1;
}
int __wrap_semop(int id, struct sembuf *o, size_t n) { fib::Hush hush; return do_semop(id, o, n, 0); }
int __wrap_semtimedop(int id, struct sembuf *o, size_t n, const struct timespec *t)
{ fib::Hush hush;
	if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L || t->tv_sec < 0)) { errno = EINVAL; return -1; }
	if (t) waited_us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
	return do_semop(id, o, n, !t ? 0 : t->tv_sec ? fib::TIMED_LONG : fib::TIMED_SHORT);
}
int __wrap_semctl(int id, int n, int cmd, ...)
{ fib::Hush hush;
	va_list ap; va_start(ap, cmd); void *arg = (cmd == SETVAL || cmd == SETALL || cmd == GETALL || cmd == IPC_STAT) ? va_arg(ap, void *) : 0; va_end(ap);
	if (faulty(C_SEMCTL)) return -1;
	if (id < 0 || id >= (int) sems.size() || sems[id].dead) { errno = EINVAL; return -1; }
	Sem &s = sems[id];
	switch (cmd)
	{
		case IPC_RMID: s.dead = true; return 0;
		case GETALL: for (size_t i = 0; i < s.v.size(); ++i) ((unsigned short *) arg)[i] = s.v[i]; return 0;
		case SETALL: for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = ((unsigned short *) arg)[i]; s.adj.clear(); s.touched = true; return 0;
		case IPC_STAT: { struct semid_ds *d = (struct semid_ds *) arg; memset(d, 0, sizeof *d); d->sem_nsems = s.v.size(); d->sem_otime = 1; return 0; }
	}
	if (n < 0 || n >= (int) s.v.size()) { errno = EINVAL; return -1; }
	switch (cmd)
	{
		case GETVAL: return s.v[n];
		case SETVAL:
		{
			int v = (int) (intptr_t) arg;
			if (v < 0 || v > 32767) { errno = ERANGE; return -1; }
			s.v[n] = v; s.touched |= !n; for (auto &a : s.adj) a.second[n] = 0;
			return 0;
		}
		case GETPID: case GETNCNT: case GETZCNT: return 0;
	}
	errno = EINVAL; return -1;
}
int __wrap_shmget(key_t k, size_t n, int fl)
{ fib::Hush hush;
	if (faulty(C_SHMGET)) return -1;
	for (size_t i = 0; i < segs.size(); ++i) if (k != IPC_PRIVATE && !segs[i].dead && segs[i].key == k)
	{
		if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
		if (n > segs[i].size) { errno = EINVAL; return -1; }
		return i;
	}
	if (k != IPC_PRIVATE && !(fl & IPC_CREAT)) { errno = ENOENT; return -1; }
	if (n < 1 || n > shm_limit) { errno = EINVAL; return -1; }
	Seg s; s.key = k; s.dead = false; s.size = n; s.pages = (n + 4095) & ~4095ul;
	s.fd = memfd_create("seg", MFD_CLOEXEC); if (s.fd < 0 || ftruncate(s.fd, s.pages)) throw pbt::Discard();
	segs.push_back(s);
	return segs.size() - 1;
}
void *__wrap_shmat(int id, const void *, int)
{ fib::Hush hush;
	if (faulty(C_SHMAT)) return (void *) -1;
	if (id < 0 || id >= (int) segs.size() || segs[id].dead) { errno = EINVAL; return (void *) -1; }
	Seg &s = segs[id]; Map m;
	// the mapping ends where the segment ends (16 bytes of slack at most), a guard page on either side
	m.len = s.pages + 8192;
	m.base = (char *) mmap(0, m.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m.base == MAP_FAILED || mmap(m.base + 4096, s.pages, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, s.fd, 0) == MAP_FAILED) throw pbt::Discard();
	m.p = m.base + 4096 + s.pages - ((s.size + 15) & ~15ul);
	m.proc = me(); m.seg = id;
	maps.push_back(m); fib::watch(m.p, s.size);
	return m.p;
}
int __wrap_shmdt(const void *p)
{ fib::Hush hush;
	if (faulty(C_SHMDT)) return -1;
	for (size_t i = 0; i < maps.size(); ++i) if (maps[i].p == p && maps[i].proc == me())
	{
		fib::unwatch(p); munmap(maps[i].base, maps[i].len); maps.erase(maps.begin() + i);
		return 0;
	}
	errno = EINVAL; return -1;
}
int __wrap_shmctl(int id, int cmd, struct shmid_ds *d)
{ fib::Hush hush;
	if (faulty(C_SHMCTL)) return -1;
	if (id < 0 || id >= (int) segs.size() || segs[id].dead) { errno = EINVAL; return -1; }
	if (cmd == IPC_RMID) { segs[id].dead = true; return 0; }
	if (cmd == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_segsz = segs[id].size; for (auto &m : maps) if (m.seg == id && m.proc >= 0) ++d->shm_nattch; return 0; }
	errno = EINVAL; return -1;
}
}
