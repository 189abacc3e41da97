// @pbt quick=30000 thorough=2000000 maxlen=700 cov=0 maxsec=40 wrap=open,open64,openat,openat64,creat,dup2,dup3,close,mkdir,mkdirat,mmap,mmap64,ftruncate,ftruncate64,fstat,fstat64
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <coda/coda.h>
#include <coda/system.h>

const char *prop_id = "C32";
const char *prop_rule = "2-14 steps on a scratch directory tree: coda_mkpath on relative and absolute paths of 0-7 components (repeated and trailing slashes, '.', '..', existing directories, symbolic links, files in the way, names of up to 300 bytes, empty paths) in an exact-size buffer, coda_fdmove and coda_fdopen onto free, open, equal, negative and impossible numbers with several flags, coda_mmap of files of 0-70000 bytes (with and without a requested size, shared and private, reading and writing) of sparse files of 2-8 GB and of anonymous memory; in a third of the steps the n-th call of one system function fails, or a directory is made by somebody else at that moment. Oracle: a model of the directory tree, of every descriptor number (which file it refers to) and of the files' contents. Non-trivial: two steps of different kinds succeed.";

enum { K_OPEN, K_DUP2, K_CLOSE, K_MKDIR, K_MMAP, K_FTRUNCATE, K_FSTAT, K_N };
static const char *kn[] = { "open", "dup2", "close", "mkdir", "mmap", "ftruncate", "fstat" };
static bool hook, hit; static int fk = -1, fn, fe;
static bool bad(int k) { if (!hook || k != fk || --fn) return false; fk = -1; hit = true; if (fe == 0) return false; errno = fe; return true; }
extern "C" {
int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_dup2(int, int); int __real_dup3(int, int, int); int __real_close(int); int __real_mkdir(const char *, mode_t); int __real_mkdirat(int, const char *, mode_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_ftruncate(int, off_t); int __real_fstat(int, struct stat *);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_open(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_openat(d, p, f, m); }
int __wrap_openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_openat(d, p, f, m); }
int __wrap_creat(const char *p, mode_t m) { return bad(K_OPEN) ? -1 : __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_dup2(int a, int b) { return bad(K_DUP2) ? -1 : __real_dup2(a, b); }
int __wrap_dup3(int a, int b, int c) { return bad(K_DUP2) ? -1 : __real_dup3(a, b, c); }
int __wrap_close(int f) { bool b = bad(K_CLOSE); int e = errno, r = __real_close(f); if (b) { errno = e; return -1; } return r; } // a failing close has closed
// fe 0: somebody else makes the directory first
int __wrap_mkdir(const char *p, mode_t m) { bool was = hit; if (bad(K_MKDIR)) return -1; if (hook && hit && !was) { struct stat st; if (lstat(p, &st)) __real_mkdir(p, m); } return __real_mkdir(p, m); }
int __wrap_mkdirat(int d, const char *p, mode_t m) { bool was = hit; if (bad(K_MKDIR)) return -1; if (hook && hit && !was) __real_mkdirat(d, p, m); return __real_mkdirat(d, p, m); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { return bad(K_MMAP) ? MAP_FAILED : __real_mmap(a, n, p, f, d, o); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int d, off_t o) { return bad(K_MMAP) ? MAP_FAILED : __real_mmap(a, n, p, f, d, o); }
int __wrap_ftruncate(int f, off_t n) { return bad(K_FTRUNCATE) ? -1 : __real_ftruncate(f, n); }
int __wrap_ftruncate64(int f, off_t n) { return bad(K_FTRUNCATE) ? -1 : __real_ftruncate(f, n); }
int __wrap_fstat(int f, struct stat *s) { return bad(K_FSTAT) ? -1 : __real_fstat(f, s); }
int __wrap_fstat64(int f, struct stat *s) { return bad(K_FSTAT) ? -1 : __real_fstat(f, s); }
}
struct Hook { Hook() { hook = true; hit = false; } ~Hook() { hook = false; fk = -1; } };

// what every descriptor number refers to
typedef std::map<int, std::string> Fds;
static Fds descriptors()
{
	Fds r; DIR *d = opendir("/proc/self/fd"); if (!d) abort(); int self = dirfd(d);
	while (struct dirent *e = readdir(d)) { int fd = atoi(e->d_name); struct stat st; if (e->d_name[0] == '.' || fd == self || __real_fstat(fd, &st)) continue; r[fd] = fmt("%lx:%lx", (long) st.st_dev, (long) st.st_ino); }
	closedir(d); return r;
}
static void same(const Fds &want, const char *what)
{
	Fds got = descriptors();
	for (auto &x : got) { CHECK(want.count(x.first), "%s: descriptor %d is left open", what, x.first); CHECK(want.at(x.first) == x.second, "%s: descriptor %d refers to another file than it should", what, x.first); }
	for (auto &x : want) CHECK(got.count(x.first), "%s: descriptor %d is closed", what, x.first);
}
// the tree: path -> 'd', 'l' or 'f' and contents
typedef std::map<std::string, std::string> Tree;
static void walk(const std::string &dir, const std::string &pre, Tree &t)
{
	DIR *d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> ns; while (struct dirent *e = readdir(d)) ns.push_back(e->d_name); closedir(d);
	for (auto &n : ns) { if (n == "." || n == "..") continue; struct stat st; std::string p = dir + "/" + n; if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { t[pre + n] = "d"; walk(p, pre + n + "/", t); } else if (S_ISLNK(st.st_mode)) t[pre + n] = "l"; else t[pre + n] = fmt("f%ld", (long) st.st_size); }
}
static void wipe(const std::string &dir, bool self)
{
	DIR *d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> ns; while (struct dirent *e = readdir(d)) ns.push_back(e->d_name); closedir(d);
	for (auto &n : ns) { if (n == "." || n == "..") continue; std::string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) wipe(p, true); else unlink(p.c_str()); }
	if (self) rmdir(dir.c_str());
}
static std::string slurp(const std::string &p) { int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; std::string r; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); __real_close(fd); return r; }
static void spit(const std::string &p, const std::string &d) { int fd = __real_open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) throw pbt::Discard(); if (write(fd, d.data(), d.size()) < 0) {} __real_close(fd); }
static std::string ident(const std::string &p) { struct stat st; if (stat(p.c_str(), &st)) return ""; return fmt("%lx:%lx", (long) st.st_dev, (long) st.st_ino); }

static std::string base; static mode_t um; static int keep0 = -2;
static void step_mkpath(Src &s, Ctx &c, unsigned &kinds)
{
	std::string p; bool abs = s.below(3) == 0; if (abs) p = base + (s.below(4) ? "/" : "//");
	int k = s.weighted({ 1, 2, 4, 5, 4, 2, 1, 1 }), depth = 0; std::vector<std::string> comp;
	for (int i = 0; i < k; ++i)
	{
		std::string n = s.oneof<const char *>({ "a", "b", "c", "dir", "x y", "file", "link", ".", "..", "\xd1\x8f", "l2" });
		if (s.chance(4)) n = std::string(s.below(2) ? 255 : 256, 'n');
		if (n == "..") { if (depth == 0) n = "a"; else --depth; }
		if (n == "link" && s.below(2)) n = "a";
		if (n != "." && n != "..") ++depth;
		p += n; p += i + 1 < k ? (s.below(6) ? "/" : s.oneof<const char *>({ "//", "///" })) : s.below(4) ? "" : "/";
	}
	// the model, on the real state before the call
	Tree before, want; walk(base, "", before); want = before; bool impossible = false, open_case = false; std::string at = base, rel; size_t last = p.rfind('/'); std::vector<std::string> made;
	if (last != std::string::npos)
	{
		std::string par = p.substr(0, last); if (abs) par = par.size() > base.size() ? par.substr(base.size()) : "";
		std::vector<std::string> stack; size_t b = 0; bool infile = false;
		while (b <= par.size())
		{
			size_t e = par.find('/', b); if (e == std::string::npos) e = par.size(); std::string n = par.substr(b, e - b); b = e + 1;
			if (n.empty()) continue;
			if (infile) { impossible = true; break; }
			if (n == ".") continue;
			if (n == "..") { if (stack.empty()) throw pbt::Discard(); stack.pop_back(); continue; }
			std::string full; for (auto &x : stack) full += x + "/"; full += n;
			if (n.size() > 255) { impossible = true; break; }
			struct stat st; std::string real = base + "/" + full; bool there = want.count(full);
			if (!there && before.find(full) == before.end()) { if (!stat(real.c_str(), &st)) throw pbt::Discard(); want[full] = "d"; made.push_back(full); stack.push_back(n); continue; }
			if (want[full] == "d") { stack.push_back(n); continue; }
			if (want[full] == "l") throw pbt::Discard(); // links are only used as whole prefixes below
			infile = true; stack.push_back(n);
		}
		if (infile && !impossible) open_case = true;
	}
	// through a link to a directory
	bool racing = false; int mk = made.size();
	if (s.below(4) == 0) { fk = K_MKDIR; fn = 1 + s.below(4); fe = s.oneof<int>({ 0, EACCES, ENOSPC, EROFS, EMLINK, EIO, ENOENT, ENOTDIR, EPERM, ENOMEM }); racing = fe == 0; c.say("mkdir number %d %s", fn, racing ? "is overtaken" : "fails"); }
	c.say("coda_mkpath(%s)", show(p.size() > 100 ? "..." + p.substr(p.size() - 80) : p).c_str());
	Fds fds = descriptors(); int rc; Exact e(p + std::string(1, 0));
	{ Hook h; rc = coda_mkpath(e); }
	CHECK(e.str() == p + std::string(1, 0), "the path was changed to %s", show(e.str()).c_str());
	same(fds, "coda_mkpath");
	CHECK(rc == 0 || rc == -1, "coda_mkpath returned %d", rc);
	Tree now; walk(base, "", now); bool failed = hit && !racing;
	for (auto &x : now) CHECK(want.count(x.first) && want[x.first] == x.second, "%s appeared or changed", show(x.first).c_str());
	for (auto &x : before) CHECK(now.count(x.first), "%s disappeared", show(x.first).c_str());
	if (impossible) CHECK(rc == -1, "a parent cannot be made, but coda_mkpath returned %d", rc);
	else if (failed) { int m = 0; for (auto &x : made) m += now.count(x); CHECK(rc == -1 || m == mk, "making a parent failed, coda_mkpath returned %d and %d of %d are there", rc, m, mk); }
	else if (!open_case) { CHECK(rc == 0, "coda_mkpath failed: %s", strerror(errno)); for (auto &x : made) CHECK(now.count(x), "%s is missing", show(x).c_str()); if (!racing) for (auto &x : made) { struct stat st; if (!lstat((base + "/" + x).c_str(), &st)) CHECK((st.st_mode & 07777) == (0755 & ~um), "%s is made with mode %o (umask %o)", show(x).c_str(), (unsigned) st.st_mode & 07777, (unsigned) um); } }
	if (rc == 0 && mk) kinds |= 1;
	c.label(impossible ? "mkpath: impossible" : failed ? "mkpath: failing mkdir" : racing && hit ? "mkpath: overtaken" : open_case ? "mkpath: a file as the last parent" : mk ? "mkpath: directories made" : "mkpath: nothing to make");
}
static void fault(Src &s, Ctx &c, std::initializer_list<int> ks)
{
	if (s.below(3)) return;
	fk = *(ks.begin() + s.below(ks.size())); fn = 1; fe = s.oneof<int>({ EIO, ENOSPC, EMFILE, EINTR, EBADF, ENOMEM, EINVAL }); c.say("%s fails with %s", kn[fk], strerror(fe));
}
static void step_fd(Src &s, Ctx &c, unsigned &kinds, std::vector<int> &mine)
{
	bool op = s.below(2); int k = 0; std::string name = s.oneof<const char *>({ "f1", "f2", "file" });
	{ struct stat st; if (!stat(name.c_str(), &st) && !S_ISREG(st.st_mode)) name = "f1"; }
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
	if (ident(name).empty()) spit(name, "some contents");
	int src = -1; if (!op) { src = __real_open(name.c_str(), O_RDWR | O_CREAT, 0644); if (src < 0) throw pbt::Discard(); mine.push_back(src); }
	int target;
	switch (s.weighted({ 5, 4, 2, 2, 2, 1 })) { case 5: target = keep0 < 0 ? 100 : 0; break; case 0: target = 100 + s.below(20); break; case 1: target = mine.size() ? mine[s.below(mine.size())] : 100; break; case 2: target = s.below(2) ? -1 : -(int) s.below(1000) - 1; break; case 3: target = s.oneof<int>({ 0x7fffffff, 1 << 30, (int) std::min<rlim_t>(rl.rlim_cur, 0x7fffffff), (int) std::min<rlim_t>(rl.rlim_cur, 1 << 30) + 5 }); break; default: target = op ? 100 : src; }
	bool gone = !op && s.below(12) == 0; if (gone) { __real_close(src); mine.pop_back(); if (target == src) target = 100; }
	int flags = s.oneof<int>({ O_RDONLY, O_RDWR, O_CREAT | O_APPEND | O_WRONLY, O_RDWR | O_CREAT | O_TRUNC, O_WRONLY }); bool missing = op && s.below(6) == 0; if (missing) { name = "missing"; unlink("missing"); flags = O_RDONLY; }
	bool fresh = op && !missing && (flags & O_CREAT) && s.below(3) == 0;
	fault(s, c, { K_OPEN, K_DUP2, K_CLOSE });
	if (fresh) { unlink(name.c_str()); fresh = ident(name).empty(); } // may have been opened before: a new file all the same
	Fds before = descriptors(), want; std::string id = missing ? "" : ident(name);
	c.say(op ? "coda_fdopen(%d, %s)" : "coda_fdmove(%d, %s)", op ? target : src, op ? name.c_str() : fmt("%d", target).c_str()); (void) k;
	errno = 0; int rc; { Hook h; rc = op ? coda_fdopen(target, name.c_str(), flags) : coda_fdmove(src, target); }
	int e = errno; if (fresh) id = ident(name); const char *w = op ? "coda_fdopen" : "coda_fdmove";
	bool big = target >= 0 && (rlim_t) target >= rl.rlim_cur;
	bool plain = target < 0 || (!op && target == src);         // nothing to move
	if (!op && plain && target < 0) { CHECK(rc == src, "moving onto %d returned %d instead of %d", target, rc, src); same(before, w); return; }
	if (!op && plain) { CHECK(rc == src, "moving %d onto itself returned %d", src, rc); same(before, w); return; }
	if (missing || gone || (big && !plain) || (hit && rc == -1))
	{
		CHECK(rc == -1, "%s returned %d although it cannot work", w, rc);
		Fds now = descriptors(); want = before;
		// a failing close happens last: the number already refers to the file then
		if (hit && target >= 0 && now.count(target) && now[target] == id) { want[target] = id; if (!op && !now.count(src)) want.erase(src); }
		same(want, fmt("a failed %s (%s)", w, strerror(e)).c_str());
		if (now.count(target) && !before.count(target)) mine.push_back(target);
		if (!op && !now.count(src)) { mine.erase(std::remove(mine.begin(), mine.end(), src), mine.end()); }
		c.label(fmt("%s fails", w)); return;
	}
	CHECK(rc >= 0, "%s failed: %s", w, strerror(e));
	want = before;
	if (op && plain) { CHECK(!before.count(rc), "opening without a number returned %d, which was open", rc); want[rc] = id.empty() ? ident(name) : id; mine.push_back(rc); same(want, w); c.label("fdopen: any number"); }
	else
	{
		CHECK(rc == target, "%s returned %d instead of %d", w, rc, target);
		if (!op) { want.erase(src); mine.erase(std::remove(mine.begin(), mine.end(), src), mine.end()); }
		want[target] = id.empty() ? ident(name) : id; if (std::find(mine.begin(), mine.end(), target) == mine.end()) mine.push_back(target);
		same(want, w); c.label(fmt("%s onto %s number", w, before.count(target) ? "an open" : "a free"));
	}
	if (fresh) { struct stat st; CHECK(!lstat(name.c_str(), &st) && S_ISREG(st.st_mode) && (st.st_mode & 07777) == (0644 & ~um), "%s is created with mode %o (umask %o)", name.c_str(), (unsigned) st.st_mode & 07777, (unsigned) um); c.label("fdopen: a new file"); }
	if (op && (flags & O_APPEND)) { std::string was = slurp(name); if (write(rc, "tail", 4) != 4) fail("cannot write to %d: %s", rc, strerror(errno)); CHECK(slurp(name) == was + "tail", "what is written to %d does not appear at the end of the file", rc); }
	if (op && (flags & O_TRUNC)) CHECK(slurp(name).empty(), "the file was not truncated");
	kinds |= 2;
}
// a sparse file of more than 4 GB, or one made that long by the mapping
static void step_huge(Src &s, Ctx &c, unsigned &kinds)
{
	Fds before = descriptors(); coda_strt a; memset(&a, 0x5A, sizeof a);
	size_t n = vast_len(s) + 8, m = 4 + s.below(4000); bool given = s.below(2); std::string head = s.bytes(4), tail = s.bytes(4), name = "huge";
	spit(name, head); struct Rm { ~Rm() { unlink("huge"); } } rm;
	if (!given || s.below(2))
	{
		int fd = open(name.c_str(), O_RDWR); bool ok = fd >= 0 && !__real_ftruncate(fd, n) && pwrite(fd, tail.data(), 4, n - 4) == 4; if (fd >= 0) __real_close(fd);
		if (!ok) return;
		if (given && s.below(2)) n = m;          // cut down instead
	}
	else tail = std::string(4, 0);
	bool w = given || s.below(2); a.size = given ? n : 0;
	c.say("a file mapped with %zu bytes, size %s", n, given ? "given" : "not given");
	int rc = coda_mmap(&a, w ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED, name.c_str());
	same(before, "coda_mmap");
	if (rc < 0 && (errno == ENOMEM || errno == EFBIG || errno == ENOSPC)) return;
	CHECK(rc == 0, "mapping %zu bytes failed: %s", n, strerror(errno));
	CHECK(a.size == n, "the size is %zu instead of %zu", a.size, n);
	struct stat st; stat(name.c_str(), &st); CHECK((size_t) st.st_size == n, "the file has %ld bytes instead of %zu", (long) st.st_size, n);
	CHECK(!memcmp(a.data, head.data(), 4), "the memory shows other bytes than the file");
	if (n != m) CHECK(!memcmp(a.data + n - 4, tail.data(), 4), "the end of the memory shows other bytes than the file");
	CHECK(coda_umap(&a) == 0, "unmapping failed");
	same(before, "coda_umap"); kinds |= 8; c.label("more than 2 GB");
}
static void step_mmap(Src &s, Ctx &c, unsigned &kinds)
{
	if (s.below(500) == 499) return step_huge(s, c, kinds);
	Fds before = descriptors(); coda_strt a; memset(&a, 0x5A, sizeof a); int rc, prot, flags; size_t size;
	if (s.below(4) == 0)
	{
		size = s.below(10) ? s.oneof<size_t>({ 1, 4095, 4096, 4097, (size_t) s.below(300000) }) : 0; prot = s.below(3) ? PROT_READ | PROT_WRITE : PROT_READ; flags = s.below(2) ? MAP_PRIVATE : MAP_SHARED;
		fault(s, c, { K_MMAP }); a.size = size; c.say("anonymous memory of %zu bytes", size);
		{ Hook h; rc = coda_mmap(&a, prot, flags, 0); }
		same(before, "coda_mmap");
		if (hit || size == 0) { CHECK(rc == -1, "mapping %zu bytes returned %d", size, rc); return; }
		CHECK(rc == 0, "mapping %zu bytes failed: %s", size, strerror(errno)); CHECK(a.size == size, "the size became %zu", a.size);
		for (size_t i = 0; i < size; ++i) CHECK(a.data[i] == 0, "byte %zu of anonymous memory is %d", i, a.data[i]);
		if (prot & PROT_WRITE) memset(a.data, 7, size);
		CHECK(coda_umap(&a) == 0, "unmapping failed"); kinds |= 4; c.label("anonymous memory"); return;
	}
	std::string name = s.oneof<const char *>({ "m1", "m2" }), d;
	switch (s.weighted({ 1, 3, 3, 2 })) { case 0: break; case 1: d = s.bytes(1 + s.below(200)); break; case 2: { size_t n = s.oneof<size_t>({ 4095, 4096, 4097, 8192 }); d = std::string(n, 'x'); for (size_t i = 0; i < n; i += 13) d[i] = (char) (i * 7); break; } default: { size_t n = s.below(70000); d = std::string(n, 'y'); for (size_t i = 0; i < n; i += 31) d[i] = (char) (i >> 4); } }
	spit(name, d); bool missing = s.below(12) == 0; if (missing) unlink(name.c_str());
	bool easy = s.below(3) == 0; size = easy || s.below(2) ? 0 : s.below(3) ? 1 + s.below(d.size() + 1) : 1 + s.below(100000);
	prot = easy ? PROT_READ : s.below(2) ? PROT_READ | PROT_WRITE : PROT_READ; flags = easy || s.below(2) ? MAP_PRIVATE : MAP_SHARED;
	fault(s, c, { K_OPEN, K_FTRUNCATE, K_FSTAT, K_MMAP, K_CLOSE });
	c.say("%s of %s (%zu bytes%s), size %zu, %s, %s", easy ? "coda_mmap_file" : "coda_mmap", name.c_str(), d.size(), missing ? ", missing" : "", size, prot & PROT_WRITE ? "writing" : "reading", flags == MAP_SHARED ? "shared" : "private");
	a.size = size;
	{ Hook h; rc = easy ? coda_mmap_file(&a, name.c_str()) : coda_mmap(&a, prot, flags, name.c_str()); }
	int e = errno;
	same(before, rc < 0 ? "a failed coda_mmap" : "coda_mmap");
	bool cannot = missing || (size && !(prot & PROT_WRITE)) || (!size && d.empty());
	if (cannot || (hit && rc == -1)) { CHECK(rc == -1, "mapping returned %d although it cannot work", rc); if (!missing && !size) CHECK(slurp(name) == d, "a failed mapping changed the file"); if (cannot && !missing && size) CHECK(slurp(name) == d, "a failed mapping changed the file"); c.label("mapping fails"); return; }
	CHECK(rc == 0, "mapping failed: %s", strerror(e));
	std::string want = d; if (size) want.resize(size);
	CHECK(a.size == want.size(), "the size is %zu instead of %zu", a.size, want.size());
	CHECK(std::string(a.data, a.size) == want, "the memory shows other bytes than the file");
	{ struct stat st; stat(name.c_str(), &st); CHECK((size_t) st.st_size == want.size(), "the file has %ld bytes instead of %zu", (long) st.st_size, want.size()); }
	if (prot & PROT_WRITE)
	{
		size_t at = s.below(a.size); a.data[at] ^= 0x55; std::string f = slurp(name); if (flags == MAP_SHARED) want[at] ^= 0x55;
		CHECK(f == want, "a byte written %s in the file", flags == MAP_SHARED ? "does not appear" : "appears");
	}
	CHECK(coda_umap(&a) == 0, "unmapping failed"); CHECK(slurp(name) == want, "the file changed with unmapping");
	same(before, "coda_umap"); kinds |= 8; c.label(size ? "mapped with a size" : "mapped whole");
}
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	static pid_t me; if (me != getpid()) { me = getpid(); char t[4000]; std::string d = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + fmt("/s%d", (int) me); mkdir(d.c_str(), 0755); if (chdir(d.c_str()) || !getcwd(t, sizeof t)) abort(); base = t; }
	fk = -1; hook = false; wipe(base, false); um = s.below(4) ? 022 : s.oneof<mode_t>({ 0, 027, 077, 02 }); umask(um);
	if (keep0 == -2) keep0 = fcntl(0, F_DUPFD_CLOEXEC, 60); // descriptor 0 takes part
	struct Zero { bool use; ~Zero() { umask(022); if (use) __real_dup2(keep0, 0); } } zero = { keep0 >= 0 }; if (zero.use && s.below(8) == 0) { __real_close(0); c.say("descriptor 0 is free"); }
	if (s.below(2)) { mkdir("a", 0755); if (s.below(2)) mkdir("a/b", 0755); } if (s.below(3) == 0) spit("file", "xyz"); if (s.below(3) == 0) { mkdir("dir", 0755); spit("dir/file", ""); }
	unsigned kinds = 0; std::vector<int> mine; struct Close { std::vector<int> &v; ~Close() { for (int f : v) __real_close(f); } } cl = { mine };
	int n = 2 + s.below(8) + (s.chance(40) ? s.below(5) : 0);
	while (n-- > 0) switch (s.weighted({ 4, 4, 4 })) { case 0: step_mkpath(s, c, kinds); break; case 1: step_fd(s, c, kinds, mine); break; default: step_mmap(s, c, kinds); }
	c.nontrivial(kinds & (kinds - 1));
}
