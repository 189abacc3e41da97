// @pbt quick=300000 thorough=2000000 maxlen=500 cov=0 maxsec=40 asan=0 wrap=fork,setsid,open,open64,dup2
#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <getopt.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <coda/coda.h>
#include <coda/daemon.h>
#include <coda/logger.h>

const char *prop_id = "C33";
const char *prop_rule = "argument vectors of 0-12 words built from every option in every spelling (short, short with attached or separate argument, clusters, long, long with = or separate argument), other words in between, '--', unknown options, missing and superfluous arguments, empty arguments, words that look like options as arguments; parsed over garbage left in the configuration; oracle: a parser of its own. The usage text for program names of any bytes, searched for the name and every option. Starts: with and without the detach setting, pid file absent, empty, owned, impossible or not asked for, standard descriptors open or closed beforehand, fork, setsid, open or dup2 failing in a sixth of the cases; then a second start while the first lives, a stop, and a start again. Oracle: process, session and group ids, exit status of the original process, what every descriptor refers to, the pid file, delivered signals. Non-trivial: at least two options, or a start.";

enum { K_FORK, K_SETSID, K_OPEN, K_DUP2, K_N };
static const char *kn[] = { "fork", "setsid", "open", "dup2" };
static bool hook; static int fk = -1, fn; static const int fe = EAGAIN;
static bool bad(int k) { if (!hook || k != fk || --fn) return false; errno = fe; return true; }
extern "C" {
pid_t __real_fork(); pid_t __real_setsid(); int __real_open(const char *, int, ...); int __real_dup2(int, int);
pid_t __wrap_fork() { return bad(K_FORK) ? -1 : __real_fork(); }
pid_t __wrap_setsid() { return bad(K_SETSID) ? -1 : __real_setsid(); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); return bad(K_OPEN) ? -1 : __real_open(p, f, m); }
int __wrap_dup2(int a, int b) { return bad(K_DUP2) ? -1 : __real_dup2(a, b); }
}

static void options(Src &s, Ctx &c)
{
	std::vector<std::string> w; int n = s.below(5) + (s.below(4) == 0 ? s.below(8) : 0);
	auto word = [&]() -> std::string { switch (s.below(6)) { case 0: return ""; case 1: return s.oneof<const char *>({ "-", "--", "-d", "-D", "--daemon", "--no-daemon", "-c", "--pid=x", "=", "-x" }); case 2: { std::string t = s.bytes(s.below(20)); for (char &ch : t) if (!ch) ch = 'z'; return t; } default: return s.oneof<const char *>({ "/etc/x.conf", "a", "b.pid", "x y", "/var/run/t.pid", "conf=1" }); } };
	w.push_back("prog");
	for (int i = 0; i < n; ++i) switch (s.weighted({ 4, 3, 4, 3, 4, 3, 2, 2, 1, 2 }))
	{
		case 0: w.push_back(s.below(2) ? "-d" : "-D"); break;
		case 1: w.push_back(s.below(2) ? "--daemon" : "--no-daemon"); break;
		case 2: w.push_back(s.below(2) ? "-c" : "-p"); if (i + 1 < n || s.below(6)) w.push_back(word()); break;
		case 3: w.push_back((s.below(2) ? "-c" : "-p") + word()); break;
		case 4: w.push_back(s.below(2) ? "--config" : "--pid"); if (i + 1 < n || s.below(6)) w.push_back(word()); break;
		case 5: w.push_back((s.below(2) ? "--config=" : "--pid=") + word()); break;
		case 6: { std::string t = "-"; int k = 1 + s.below(4); while (k--) t += s.below(2) ? 'd' : 'D'; if (s.below(2)) { t += s.below(2) ? 'c' : 'p'; if (s.below(2)) t += word(); else { w.push_back(t); t = word(); } } w.push_back(t); break; }
		case 7: { std::string t = word(); w.push_back(t.size() && t[0] == '-' ? "arg" : t); break; }
		case 8: w.push_back("--"); break;
		default: if (s.below(3)) break; w.push_back(s.oneof<const char *>({ "-x", "--unknown", "-dx", "--daemon=1", "--no-daemon=", "-?", "-:", "--configs", "-h", "---d", "-W" })); break;
	}
	// the reference
	bool err = false, end = false, open = false; const char *config = 0, *pid = 0; std::string cs, ps; bool daemon = false; int opts = 0;
	for (size_t i = 1; i < w.size() && !err && !end; ++i)
	{
		const std::string &a = w[i];
		if (a.size() < 2 || a[0] != '-') continue;
		if (a == "--") { end = true; continue; }
		auto set = [&](bool cfg, const std::string &v) { (cfg ? cs : ps) = v; (cfg ? config : pid) = ""; ++opts; };
		if (a[1] == '-')
		{
			size_t q = a.find('='); std::string name = a.substr(2, q == std::string::npos ? q : q - 2);
			if (name == "config" || name == "pid") { if (q != std::string::npos) set(name == "config", a.substr(q + 1)); else if (i + 1 < w.size()) set(name == "config", w[++i]); else err = true; }
			else if (name == "daemon" || name == "no-daemon") { if (q != std::string::npos) err = true; else { daemon = name == "daemon"; ++opts; } }
			else { for (const char *l : { "config", "pid", "daemon", "no-daemon" }) if (name.size() && !strncmp(l, name.c_str(), name.size())) open = true; err = true; } // abbreviations are left open
			continue;
		}
		for (size_t k = 1; k < a.size() && !err; ++k)
		{
			if (a[k] == 'd') { daemon = true; ++opts; } else if (a[k] == 'D') { daemon = false; ++opts; }
			else if (a[k] == 'c' || a[k] == 'p') { if (k + 1 < a.size()) set(a[k] == 'c', a.substr(k + 1)); else if (i + 1 < w.size()) set(a[k] == 'c', w[++i]); else err = true; break; }
			else err = true;
		}
	}
	if (open) throw pbt::Discard();
	std::vector<std::string> store = w; std::vector<char *> av; std::string sh; for (auto &x : store) { av.push_back(&x[0]); sh += " " + show(x); } av.push_back(0);
	c.say("%s", sh.c_str());
	coda_getopt_t o; memset(&o, s.byte(), sizeof o);
	optind = 0; opterr = 0;
	int rc = coda_getopt_parse((int) w.size(), av.data(), &o);
	if (err) { CHECK(rc == -1, "a wrong option is not reported (%d)", rc); c.label("options: error"); }
	else
	{
		CHECK(rc == 0, "the options are refused (%d)", rc);
		CHECK(!config == !o.config && (!config || cs == o.config), "config is %s, expected %s", o.config ? show(o.config).c_str() : "null", config ? show(cs).c_str() : "null");
		CHECK(!pid == !o.pid && (!pid || ps == o.pid), "pid is %s, expected %s", o.pid ? show(o.pid).c_str() : "null", pid ? show(ps).c_str() : "null");
		CHECK(o.daemon == daemon, "daemon is %d, expected %d", (int) o.daemon, daemon); c.label("options: right");
	}
	c.nontrivial(opts >= 2);
}

static void usage(Src &s, Ctx &c)
{
	static int fd = -1; static pid_t me; if (me != getpid()) { me = getpid(); fd = memfd_create("usage", 0); if (fd < 0) throw pbt::Discard(); }
	std::string name = s.below(3) ? s.oneof<const char *>({ "prog", "/usr/bin/prog", "%s", "100%", "%n%d", "a b", "./x" }) : s.bytes(s.len(300)); for (char &ch : name) if (!ch || ch == '\n') ch = '%';
	std::vector<char *> av; std::string other = "--daemon"; av.push_back(&name[0]); if (s.below(2)) av.push_back(&other[0]); int n = av.size(); av.push_back(0);
	if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) throw pbt::Discard();
	fflush(stderr); int keep = dup(2); if (keep < 0) throw pbt::Discard();
	__real_dup2(fd, 2); int rc = coda_getopt_usage(n, av.data()); fflush(stderr); __real_dup2(keep, 2); close(keep);
	std::string t(lseek(fd, 0, SEEK_END), 0); if (pread(fd, &t[0], t.size(), 0) != (ssize_t) t.size()) throw pbt::Discard();
	c.say("usage of %s: %d, %s", show(name).c_str(), rc, show(t).c_str()); c.label("usage"); c.nontrivial(name.find('%') != std::string::npos);
	CHECK(t.find(name) != std::string::npos, "the usage does not name the program %s: %s", show(name).c_str(), show(t).c_str());
	if (t.size() > name.size()) t.erase(t.find(name), name.size());
	for (const char *o : { "-c", "-p", "-d", "-D", "--config", "--pid", "--daemon", "--no-daemon" })
	{
		bool found = false; size_t l = strlen(o);
		for (size_t p = 0; (p = t.find(o, p)) != std::string::npos && !found; ++p) found = (p == 0 || !strchr("-abcdefghijklmnopqrstuvwxyz", t[p - 1])) && (p + l == t.size() || !(isalnum((uint8_t) t[p + l]) || t[p + l] == '-'));
		CHECK(found, "the usage does not name the option %s: %s", o, show(t).c_str());
	}
}

struct Box { volatile int entered, state; volatile pid_t pid; char msg[3000]; };
static Box *box;
typedef std::map<int, std::string> Fds;
static std::string ident(int fd) { struct stat st; if (fstat(fd, &st)) return ""; return fmt("%lx:%lx:%lx", (long) st.st_dev, (long) st.st_ino, (long) st.st_rdev); }
static Fds descriptors() { Fds r; DIR *d = opendir("/proc/self/fd"); if (!d) abort(); while (struct dirent *e = readdir(d)) { int fd = atoi(e->d_name); if (e->d_name[0] != '.' && fd != dirfd(d)) r[fd] = ident(fd); } closedir(d); return r; }
static std::string slurp(const std::string &p) { int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return "(none)"; char b[300]; ssize_t n = read(fd, b, sizeof b); close(fd); return std::string(b, n > 0 ? n : 0); }
static int wait_for(pid_t p, double limit) { int st; struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); for (int i = 0;; ++i) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) return st; if (r < 0 && errno != EINTR) return -1; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -2; } usleep(i < 20 ? 40 : 300); } }

static void start(Src &s, Ctx &c)
{
	static pid_t me; static std::string dir;
	if (me != getpid()) { me = getpid(); dir = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + fmt("/d%d", (int) me); mkdir(dir.c_str(), 0755); prctl(PR_SET_CHILD_SUBREAPER, 1); box = (Box *) mmap(0, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (chdir(dir.c_str())) abort(); }
	bool detach = s.below(3) > 0; int pf = s.weighted({ 4, 2, 2, 2, 1 }); bool rel = s.below(2); // absent, empty, owned, none, impossible
	std::string file = (rel ? "" : dir + "/") + (pf == 4 ? "no/such/x.pid" : "x.pid"); unlink("x.pid"); unlink("err");
	std::string owner = "1\n"; if (pf == 1 || pf == 2) { int fd = __real_open("x.pid", O_CREAT | O_WRONLY, 0644); if (pf == 2 && write(fd, owner.data(), owner.size()) < 0) {} close(fd); }
	int closed = s.weighted({ 6, 1, 1, 1, 1 }); // none, 0, 1, 0 and 1, 2
	int fault = s.below(6) == 0 ? (int) s.below(detach ? K_N : 1) : -1; if (!detach && fault >= 0) fault = -1;
	int when = fault == K_OPEN || fault == K_DUP2 ? 1 + s.below(fault == K_DUP2 ? 2 : 1) : 1;
	bool again = s.below(2);
	c.say("%s, pid file %s%s, closed: %s%s", detach ? "detach" : "do not detach", pf == 0 ? "absent" : pf == 1 ? "empty" : pf == 2 ? "owned" : pf == 3 ? "not asked for" : "impossible", rel ? " (relative)" : "", closed == 0 ? "none" : closed == 1 ? "0" : closed == 2 ? "1" : closed == 3 ? "0 and 1" : "2", fault >= 0 ? fmt(", %s number %d fails", kn[fault], when).c_str() : "");
	c.label(fault >= 0 ? fmt("start: failing %s", kn[fault]) : detach ? "start: detached" : "start: same process"); c.nontrivial();
	box->entered = box->state = 0; box->msg[0] = 0; box->pid = 0;
	pid_t sid0 = getsid(0);
	fflush(stdout); fflush(stderr);
	pid_t p = __real_fork(); if (p < 0) throw pbt::Discard();
	if (p == 0)
	{
		int in = __real_open("/dev/zero", O_RDWR), out = __real_open("out", O_CREAT | O_RDWR, 0644), er = __real_open("err", O_CREAT | O_RDWR | O_APPEND, 0644);
		__real_dup2(in, 0); __real_dup2(out, 1); __real_dup2(er, 2); close(in); close(out); close(er);
		if (closed == 1 || closed == 3) close(0); if (closed == 2 || closed == 3) close(1); if (closed == 4) close(2);
		log_level = -1; pid_t self = getpid(); Fds before = descriptors(); char cwd[4000]; if (!getcwd(cwd, sizeof cwd)) _exit(7);
		coda_getopt_t o; memset(&o, 0, sizeof o); o.daemon = detach; if (pf != 3) o.pid = file.c_str();
		mode_t um = rel ? 022 : 077; umask(um);
		fk = fault; fn = when; hook = true; int rc = coda_daemon_load(&o); int e = errno; hook = false; fk = -1;
		// whoever is here goes on
		__sync_fetch_and_add(&box->entered, 1); box->pid = getpid();
		int st = 1;
		try
		{
			if (fault >= 0)
			{
				CHECK(rc == -1, "the start returned %d although %s failed", rc, kn[fault]);
				if (fault == K_FORK) CHECK(getpid() == self, "fork failed, another process goes on");
				CHECK(pf == 2 || slurp("x.pid") == (pf == 1 ? "" : "(none)"), "a failed start leaves a pid file: %s", show(slurp("x.pid")).c_str());
			}
			else
			{
				bool ok = pf != 2 && pf != 4;
				CHECK(rc == (ok ? 0 : -1), "the start returned %d (%s), pid file %s", rc, strerror(e), pf == 2 ? "owned" : pf == 4 ? "impossible" : "free");
				Fds now = descriptors(), want = before; mode_t m = umask(0); umask(m); CHECK(m == (detach ? 0 : um), "the file mode mask is %o, before it was %o", (unsigned) m, (unsigned) um);
				if (ok && pf == 0) { struct stat st; CHECK(!stat("x.pid", &st) && (st.st_mode & 07777) == (0644 & ~m), "the pid file is made with mode %o (mask %o)", (unsigned) st.st_mode & 07777, (unsigned) m); }
				if (detach)
				{
					CHECK(getpid() != self, "the process that goes on is the original one");
					CHECK(getsid(0) == getpid() && getsid(0) != sid0, "no new session: process %d, session %d, before %d", (int) getpid(), (int) getsid(0), (int) sid0);
					CHECK(getpgrp() == getpid(), "no process group of its own");
					int nul = __real_open("/dev/null", O_RDWR); std::string id = ident(nul); close(nul);
					want[0] = want[1] = id;
					if (closed == 4) { CHECK(!now.count(2) || now[2] == id, "descriptor 2, closed before, refers to some file"); want.erase(2); now.erase(2); }
					for (int fd : { 0, 1 }) { CHECK(now.count(fd) && now[fd] == id, "descriptor %d does not refer to the null device", fd); int fl = fcntl(fd, F_GETFL) & O_ACCMODE; CHECK(fd == 0 ? fl != O_WRONLY : fl != O_RDONLY, "descriptor %d is opened the wrong way", fd); }
				}
				else { CHECK(getpid() == self, "another process goes on"); CHECK(getsid(0) == sid0, "a new session without detaching"); }
				for (auto &x : now) CHECK(want.count(x.first), "descriptor %d is left open", x.first);
				for (auto &x : want) CHECK(now.count(x.first) && now[x.first] == x.second, "descriptor %d is %s", x.first, now.count(x.first) ? "another file" : "closed");
				if (closed != 4) { CHECK(write(2, "hello\n", 6) == 6, "standard error cannot be written"); std::string t = slurp("err"); CHECK(t == "hello\n", "standard error: %s", show(t).c_str()); }
				// signals are taken
				int want_sig[] = { SIGTERM, SIGHUP, SIGUSR1, SIGUSR2, SIGPIPE, SIGINT, SIGTSTP }; for (int g : want_sig) raise(g);
				CHECK(coda_terminate && coda_changecfg && coda_rotatelog && coda_changebin, "signals are not taken");
				if (pf == 2) { std::string t = slurp("x.pid"); CHECK(t == owner, "the owned pid file was changed to %s", show(t).c_str()); }
				if (ok && pf != 3) { std::string t = slurp("x.pid"); CHECK(t == fmt("%d\n", (int) getpid()), "the pid file holds %s, the process is %d", show(t).c_str(), (int) getpid()); }
				if (pf == 3 || pf == 4) { std::string t = slurp("x.pid"); CHECK(t == "(none)", "a pid file appeared: %s", show(t).c_str()); }
				auto other = [&](int want, const char *when) {
					pid_t q = __real_fork(); if (q == 0) { int r = coda_daemon_load(&o); _exit(r == 0 ? slurp("x.pid") == fmt("%d\n", (int) getpid()) ? 10 : 12 : r == -1 ? 11 : 13); }
					int w = wait_for(q, 10); CHECK(WIFEXITED(w), "another start %s did not end properly", when); CHECK(WEXITSTATUS(w) == want, "another start %s %s", when, WEXITSTATUS(w) == 10 ? "succeeds" : WEXITSTATUS(w) == 11 ? "fails" : "goes wrong");
				};
				if (ok)
				{
					o.daemon = 0;
					if (again && pf != 3) other(11, "while the first lives");
					if (pf != 3) { std::string t = slurp("x.pid"); CHECK(t == fmt("%d\n", (int) getpid()), "the owner's pid file holds %s", show(t).c_str()); }
					int r = coda_daemon_stop(&o); CHECK(r == 0, "the stop returned %d (%s)", r, strerror(errno));
					CHECK(slurp("x.pid") == "(none)", "the stop leaves the pid file");
					if (again && pf != 3) { other(10, "after the stop"); CHECK(coda_daemon_stop(&o) == 0 && slurp("x.pid") == "(none)", "the pid file cannot be removed"); CHECK(coda_daemon_stop(&o) == -1, "a stop without a pid file succeeds"); }
				}
			}
		}
		catch (const pbt::Failure &f) { st = 2; snprintf(box->msg, sizeof box->msg, "%s", f.msg.c_str()); }
		__sync_synchronize(); box->state = st; _exit(42);
	}
	int w = wait_for(p, 15);
	auto finish = [&] { int st; pid_t q = box->pid; if (q && q != p) kill(q, SIGKILL); while (waitpid(-1, &st, WNOHANG) > 0) ; };
	bool gone = detach && fault != K_FORK;
	if (gone) { for (int i = 0; i < 40000 && !box->state; ++i) { usleep(i < 50 ? 30 : 300); } }
	std::string bad;
	if (w < 0) bad = "the original process does not end";
	else if (gone && !(WIFEXITED(w) && WEXITSTATUS(w) == 0)) bad = fmt("the original process ends with status %x instead of success", w);
	else if (!gone && !(WIFEXITED(w) && WEXITSTATUS(w) == 42)) bad = fmt("the process ends with status %x", w);
	else if (box->state == 0) bad = "nobody goes on";
	else if (box->state == 2) bad = box->msg;
	if (box->state == 2 && !gone) bad = box->msg;
	if (gone && box->pid) { int st; for (int i = 0; i < 3000; ++i) { if (waitpid(box->pid, &st, WNOHANG)) break; usleep(100); } }
	if (bad.empty() && box->entered != 1) bad = fmt("%d processes go on", (int) box->entered);
	finish();
	CHECK(bad.empty(), "%s", bad.c_str());
}
void prop_init() {}
void run_case(Src &s, Ctx &c) { switch (s.weighted({ 60, 10, 1 })) { case 0: return options(s, c); case 1: return start(s, c); default: return usage(s, c); } }
