// @pbt quick=300000 thorough=3000000 fuzz=0 tfuzz=0 maxlen=600 wrap=open,open64,openat,openat64,creat,flock,lockf,lockf64,fcntl,fcntl64,fstat,fstat64,stat,stat64,lstat,lstat64,write,pwrite,pwrite64,read,ftruncate,ftruncate64,close,unlink,rename,link,getpid,access with=fiber.cpp asan=0 cov=0
#include "pbt.h"
#include "fiber.h"
#include <coda/coda.h>
#include <coda/system.h>
#include <coda/daemon.h>
#include <coda/logger.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

const char *prop_id = "C28";
const char *prop_rule = "two to five processes starting (coda_mkpidf) and stopping (coda_daemon_stop) on one pid file that is absent, empty, or holds something before, under a scheduler that chooses at every file operation who runs next; in a fifth of the cases one file operation of a chosen kind fails, in another fifth a process dies at a chosen operation; then one more start after everything. Oracle: at most one owner at any time, the file holds the owner's id and a newline, every failed start has a reason (an owner, a foreign file, a fault or an overlapping operation), somebody succeeds if nothing was there, contents of a non-empty file never change, no descriptor stays open after a failure, no attempt waits for a lock another process holds. Non-trivial: at least two overlapping operations and at least three switches.";

static const char *cn[] = { "open", "flock", "fstat", "write", "close", "unlink" };
enum { F_OPEN, F_FLOCK, F_FSTAT, F_WRITE, F_CLOSE, F_UNLINK, F_N };
static int fk, fn, fe; static bool fhit, waited; static std::map<int, int> fd_of; static int pid_of[8];
static bool in() { return fib::self() >= 0 && fib::active(); }
static bool faulty(int k) { fib::point(); if (fn > 0 && k == fk && --fn == 0) { fhit = true; errno = fe; return true; } return false; }
static int got(int fd) { if (fd >= 0) fd_of[fd] = fib::self(); return fd; }
extern "C" {
int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_flock(int, int); int __real_fstat(int, struct stat *); int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *);
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t); ssize_t __real_read(int, void *, size_t); int __real_ftruncate(int, off_t);
int __real_close(int); int __real_unlink(const char *); int __real_rename(const char *, const char *); int __real_link(const char *, const char *); pid_t __real_getpid(void); int __real_fcntl(int, int, ...); int __real_access(const char *, int); int __real_lockf(int, int, off_t);
static int op(const char *p, int f, int m) { if (!in()) return __real_open(p, f, m); if (faulty(F_OPEN)) return -1; return got(__real_open(p, f | O_CLOEXEC, m)); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return op(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return op(p, f, m); }
static int opat(int d, const char *p, int f, int m) { if (!in()) return __real_openat(d, p, f, m); if (faulty(F_OPEN)) return -1; return got(__real_openat(d, p, f | O_CLOEXEC, m)); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return opat(d, p, f, m); }
int __wrap_openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return opat(d, p, f, m); }
int __wrap_creat(const char *p, mode_t m) { return op(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// a blocking lock waits until it can be had
static int lk(int fd, int how)
{
	if (!in()) return __real_flock(fd, how);
	if (faulty(F_FLOCK)) return -1;
	if ((how & LOCK_NB) || (how & LOCK_UN)) return __real_flock(fd, how);
	if (__real_flock(fd, how | LOCK_NB) == 0) return 0;
	waited = true; fib::block([fd, how] { return __real_flock(fd, how | LOCK_NB) == 0; }, 0);
	return 0;
}
int __wrap_flock(int fd, int how) { return lk(fd, how); }
// record locks do not exclude "processes" that are fibers of one: open-file-description locks stand in for them
static int rec(int fd, int cmd, struct flock *l)
{
	if (faulty(F_FLOCK)) return -1;
	l->l_pid = 0; int c = cmd == F_SETLKW ? F_OFD_SETLK : cmd == F_SETLK ? F_OFD_SETLK : F_OFD_GETLK;
	if (cmd != F_SETLKW) return __real_fcntl(fd, c, l);
	if (__real_fcntl(fd, c, l) == 0) return 0;
	waited = true; struct flock k = *l; fib::block([fd, k]() mutable { struct flock q = k; return __real_fcntl(fd, F_OFD_SETLK, &q) == 0; }, 0);
	return 0;
}
static int fc(int fd, int cmd, void *arg) { if (in() && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)) return rec(fd, cmd, (struct flock *) arg); int r = __real_fcntl(fd, cmd, arg); if (in() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) got(r); return r; }
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return fc(fd, cmd, p); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return fc(fd, cmd, p); }
static int lf(int fd, int cmd, off_t n) { if (!in()) return __real_lockf(fd, cmd, n); struct flock l; memset(&l, 0, sizeof l); l.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK; l.l_whence = SEEK_CUR; l.l_len = n; return rec(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &l); }
int __wrap_lockf(int fd, int cmd, off_t n) { return lf(fd, cmd, n); }
int __wrap_lockf64(int fd, int cmd, off_t n) { return lf(fd, cmd, n); }
int __wrap_fstat(int fd, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_fstat(fd, s); }
int __wrap_stat(const char *p, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_stat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_lstat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { if (in() && faulty(F_FSTAT)) return -1; return __real_lstat(p, s); }
int __wrap_access(const char *p, int m) { if (in()) fib::point(); return __real_access(p, m); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (in() && faulty(F_WRITE)) return -1; return __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { if (in() && faulty(F_WRITE)) return -1; return __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { if (in() && faulty(F_WRITE)) return -1; return __real_pwrite(fd, b, n, o); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (in()) fib::point(); return __real_read(fd, b, n); }
int __wrap_ftruncate(int fd, off_t n) { if (in()) fib::point(); return __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { if (in()) fib::point(); return __real_ftruncate(fd, n); }
int __wrap_close(int fd)
{
	if (!in()) return __real_close(fd);
	bool bad = faulty(F_CLOSE); int e = errno; // a close that fails has closed all the same
	fd_of.erase(fd); int r = __real_close(fd); fib::point();
	if (bad) { errno = e; return -1; }
	return r;
}
int __wrap_unlink(const char *p) { if (in() && faulty(F_UNLINK)) return -1; return __real_unlink(p); }
int __wrap_rename(const char *p, const char *q) { if (in()) fib::point(); return __real_rename(p, q); }
int __wrap_link(const char *p, const char *q) { if (in()) fib::point(); return __real_link(p, q); }
pid_t __wrap_getpid(void) { return fib::self() >= 0 ? pid_of[fib::self()] : __real_getpid(); }
}

static std::string slurp(const std::string &f, bool &there)
{
	int fd = __real_open(f.c_str(), O_RDONLY); there = fd >= 0; if (fd < 0) return "";
	char b[256]; ssize_t n = __real_read(fd, b, sizeof b); __real_close(fd); return std::string(b, n > 0 ? n : 0);
}
static void spit(const std::string &f, const std::string &d) { int fd = __real_open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0 || __real_write(fd, d.data(), d.size()) < 0) throw pbt::Discard(); __real_close(fd); }

struct Rec : fib::LinOp { bool start, dead; int p, rc; };
static std::string dir;
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	static pid_t owner_pid; if (owner_pid != __real_getpid()) { owner_pid = __real_getpid(); dir = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + fmt("/p%d", (int) owner_pid); mkdir(dir.c_str(), 0755); }
	log_level = -1; fib::watch_clear();
	std::string file = dir + "/x.pid";
	static int keep0 = -2; if (keep0 == -2) keep0 = __real_fcntl(0, F_DUPFD_CLOEXEC, 60);
	mode_t um = s.below(4) ? 022 : s.oneof<mode_t>({ 0, 027, 077, 002 }); umask(um);
	struct Zero { ~Zero() { umask(022); if (keep0 >= 0) dup2(keep0, 0); } } zero; // descriptor 0 may be free
	if (keep0 >= 0 && s.below(8) == 0) { __real_close(0); c.say("descriptor 0 is free"); }
	__real_unlink(file.c_str()); fd_of.clear(); fn = 0; fhit = waited = false;
	int np = 2 + s.below(4);
	for (int i = 0; i < np; ++i) pid_of[i] = s.oneof<int>({ 12, 345, 98765, 4194303, 7 }) + i;
	int prior = s.weighted({ 5, 3, 2 }); std::string foreign;
	if (prior == 1) spit(file, "");
	if (prior == 2) { foreign = s.oneof<const char *>({ "4711\n", "x", "\n", " ", "12" }); if (foreign == "x" && s.below(3) == 0) foreign = std::string(3, 0); spit(file, foreign); }
	c.say("%d processes, the file %s", np, prior == 0 ? "is absent" : prior == 1 ? "is empty" : ("holds " + show(foreign)).c_str());
	std::vector<std::vector<int>> plan(np); // 0: start, 1: stop if owner
	for (int i = 0; i < np; ++i) { int k = 1 + s.below(3); while (k-- > 0) { plan[i].push_back(0); if (s.below(3)) plan[i].push_back(1); } }
	fib::Options o; bool fault = false;
	switch (s.below(5)) { case 3: fault = true; fk = s.below(F_N); fn = 1 + s.below(4); fe = s.oneof<int>({ EIO, ENOSPC, EINTR, ENOLCK, EMFILE }); c.say("%s number %d fails (%s)", cn[fk], fn, strerror(fe)); break; case 4: o.crash_proc = s.below(np); o.crash_at = 1 + s.below(16); c.say("process %d dies at step %ld", o.crash_proc, o.crash_at); }
	o.on_crash = [&](int p) { for (auto i = fd_of.begin(); i != fd_of.end();) if (i->second == p) { __real_close(i->first); fd_of.erase(i++); } else ++i; };
	std::vector<Rec> h; h.reserve(60); int owner = -1, dead_owner = -1; int won = 0, tries = 0; bool contested_dead = false;
	auto owns = [&](int i, const char *when) { bool there; std::string d = slurp(file, there); CHECK(there && d == fmt("%d\n", pid_of[i]), "%s process %d (id %d), the owner: the file %s", when, i, pid_of[i], there ? ("holds " + show(d)).c_str() : "is gone"); };
	std::vector<std::function<void()>> body;
	for (int i = 0; i < np; ++i) body.push_back([&, i] {
		bool mine = false;
		for (int what : plan[i])
		{
			if ((what == 0) == mine) continue;
			size_t at = h.size(); h.push_back(Rec()); h[at].start = what == 0; h[at].p = i; h[at].dead = true; h[at].rc = 0;
			if (what == 1) { owns(i, "before the stop of"); owner = -1; }
			int rc; uint64_t e; coda_getopt_t opt; memset(&opt, 0, sizeof opt); opt.pid = file.c_str();
			c.say("process %d %s", i, what == 0 ? "starts" : "stops");
			{ fib::Op op; h[at].inv = op.inv; rc = what == 0 ? coda_mkpidf(file.c_str()) : coda_daemon_stop(&opt); e = op.end(); }
			h[at].ret = e; h[at].rc = rc; h[at].dead = false;
			c.say("process %d %s", i, rc == 0 ? what == 0 ? "has started" : "has stopped" : "failed");
			CHECK(rc == 0 || rc == -1, "%d returned", rc);
			for (auto &x : fd_of) CHECK(x.second != i, "process %d: %s %s and leaves a descriptor open", i, what == 0 ? "the start" : "the stop", rc ? "fails" : "succeeds");
			if (what == 0)
			{
				++tries;
				if (rc == 0) { ++won; CHECK(owner < 0, "process %d starts successfully while process %d owns the file", i, owner); CHECK(prior != 2, "process %d takes over a file that was not empty", i); owner = i; mine = true; owns(i, "after the start of"); }
				else if (owner >= 0) owns(owner, "after a failed start of another process,");
			}
			else { if (rc == 0) mine = false; else { CHECK(fault, "a stop fails"); owner = i; bool t; slurp(file, t); if (!t) { owner = -1; mine = false; } } }
		}
	});
	fib::Result r = fib::run(s, o, body);
	for (int i = 0; i < np; ++i) CHECK(r.st[i] != fib::BLOCKED, "process %d waits for ever", i);
	CHECK(!waited, "a start or a stop waits for another process instead of failing");
	bool crashed = r.crashed >= 0; (void) dead_owner; (void) contested_dead;
	bool there; std::string now = slurp(file, there);
	if (prior == 2) CHECK(there && now == foreign, "the file %s, it held %s before and nobody succeeded", there ? ("holds " + show(now)).c_str() : "is gone", show(foreign).c_str());
	if (owner >= 0) owns(owner, "in the end, with");
	if (!crashed && !fhit)
	{
		if (prior != 2 && tries) CHECK(won > 0, "%d starts on a file that %s, none succeeded", tries, prior == 0 ? "was absent" : "was empty");
		// every failure has a reason
		std::vector<fib::LinOp> ops(h.begin(), h.end());
		bool lin = fib::linearizable(ops, std::string(1, prior == 2 ? 'X' : 'F'), [&](const std::string &st, int i, uint64_t, std::vector<std::string> &out) {
			const Rec &x = h[i];
			if (!x.start) { if (st[0] == 'a' + x.p) out.push_back("F"); return; }
			if (x.rc == 0) { if (st[0] == 'F') out.push_back(std::string(1, 'a' + x.p)); return; }
			bool over = st[0] != 'F'; for (size_t j = 0; j < h.size(); ++j) over |= (int) j != i && h[j].inv < x.ret && x.inv < h[j].ret;
			if (over) out.push_back(st);
		});
		CHECK(lin, "a start failed although nobody owned the file and nobody else was starting or stopping");
	}
	// one more
	fn = 0;
	int rc = coda_mkpidf(file.c_str());
	bool there2; std::string then = slurp(file, there2);
	if (there && !now.empty()) { CHECK(rc == -1, "a start succeeds on a file that holds %s", show(now).c_str()); CHECK(there2 && then == now, "a failed start changes the file from %s to %s", show(now).c_str(), show(then).c_str()); }
	else { CHECK(rc == 0, "a start fails on a file that %s%s", there ? "is empty" : "is absent", crashed ? " after a process died" : ""); CHECK(there2 && then == fmt("%d\n", (int) __real_getpid()), "after a start the file holds %s", show(then).c_str()); struct stat st; if (!there) CHECK(!__real_stat(file.c_str(), &st) && (st.st_mode & 07777) == (0644 & ~um), "the file is made with mode %o (umask %o)", (unsigned) st.st_mode & 07777, (unsigned) um); }
	if (crashed) c.label("death"); if (fhit) c.label(fmt("failing %s", cn[fk])); c.label(prior == 0 ? "absent" : prior == 1 ? "empty" : "foreign");
	bool over = false; for (auto &a : h) for (auto &b : h) over |= &a != &b && a.inv < b.ret && b.inv < a.ret;
	c.nontrivial(over && r.switches >= 3);
}
