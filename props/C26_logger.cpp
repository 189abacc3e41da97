// @pbt quick=5000 thorough=100000 maxlen=700 cov=0 maxsec=45 wrap=time,gettimeofday,clock_gettime with=faketime.cpp probe=C26.cpp
#include "pbt.h"
#include "child.h"
#include "faketime.h"
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <sys/stat.h>
#include <coda/coda.h>
#include <coda/error.h>
#include <coda/logger.h>

#include <sys/wait.h>
// log_die ends the process: without the handlers of this one
static void leave(int rc) { _exit(rc); }
#define exit leave

const char *prop_id = "C26";
const char *prop_rule = "in a fresh process per case, under a set clock and one of several time zones: 3-24 steps out of messages of every level (through every log macro, log_ret and log_die included, with several argument shapes, texts of 0-20000 arbitrary bytes other than zero and newline, from the main thread or from a new thread with or without a name), threshold changes, log_create / log_create_from_str / log_rotate on paths of every shape (missing, existing and impossible parents, path in read-only memory), renaming, unlinking, truncating and foreign appending of log files, other writes to standard error, and phases of 2-5 threads logging at the same time with or without rotations meanwhile, with a stream that lets others run after every write. Oracle: a model of the contents of every file; for concurrent phases every line is one of the expected lines, each exactly once, in the order of its thread. Level names: every spelling against the table. Non-trivial: at least two enabled messages and one opening or concurrent phase.";

static const char *names[] = { "access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug" };
static bool yielding; static unsigned yield_us;
// after the chosen number of writes, the rotating thread gets its chance before the writing one goes on
static int writes, rotate_at[8], rotations, rotated; static sem_t go, done;
static ssize_t cookie_write(void *, const char *b, size_t n)
{
	ssize_t r = write(2, b, n);
	if (yielding && rotated < rotations && ++writes >= rotate_at[rotated])
	{
		++rotated; sem_post(&go);
		for (int i = 0; i < 20 && sem_trywait(&done); ++i) usleep(100);
		return r;
	}
	if (yielding) { if (yield_us) usleep(yield_us); else sched_yield(); }
	return r;
}

struct Msg { int level, shape, num; std::string text; };
#ifdef PROBE_FAILED
#define LOCALS n & 7, t, 9, n
#else
#define LOCALS tv & 7, tname, tmloc, tv
#endif
static void emit(const Msg &m)
{
	const char *t = m.text.c_str(), *tname = t; int n = m.num, tv = n, tmloc = 9; // names a macro may use itself
	errno = n & 63;
	switch (m.level * 4 + m.shape)
	{
#define L(lv, k) case k * 4: log_##lv("%s", t); break; case k * 4 + 1: log_##lv("fixed text, 100%%"); break; case k * 4 + 2: log_##lv("%s %d|%c|%08x|%s|%.2f%%", "%d", n, 'x', n, t, n / 4.0); break; case k * 4 + 3: log_##lv("%.*s%*d", LOCALS); break;
	L(access, 0) L(emerg, 1) L(alert, 2) L(crit, 3) L(error, 4) L(warn, 5) L(notice, 6) L(info, 7) L(debug, 8)
	case 36: log_err(n & 63, "%s", t); break;
	case 37: log_err(errno, "%s", t); break;
#if !PROBE_FAILED
	case 38: { int r = log_ret(n & 63, "%s", t); CHECK(r == (n & 63), "log_ret(%d) gives %d", n & 63, r); break; }
	case 39: { int r = log_ret(errno, "%s", t); CHECK(r == (n & 63), "log_ret(errno) gives %d, errno was %d", r, n & 63); break; }
#endif
	}
}
#ifndef PROBE_FAILED
static void die(const std::string &t, int num) { if (t.empty()) log_die(errno, ""); else log_die(num, "%s", t.c_str()); }
#else
static void die(const std::string &, int) {}
#endif
static std::string body(const Msg &m)
{
	const char *t = m.text.c_str(); int n = m.num; char b[64];
	if (m.level == 9) return m.text + fmt(" (%d: %s)", n & 63, strerror_r(n & 63, b, sizeof b));
	switch (m.shape)
	{
		case 0: return m.text;
		case 1: return "fixed text, 100%";
		case 2: return fmt("%%d %d|x|%08x|%s|%.2f%%", n, n, t, n / 4.0);
		default: return m.text.substr(0, n & 7) + fmt("%9d", n);
	}
}
static int rank(const Msg &m) { return m.level == 9 ? LOG_error : m.level; }
static std::string line(const Msg &m, const char *tname, pthread_t id)
{
	struct tm tm; time_t t = fake_sec; char b[100]; localtime_r(&t, &tm); strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
	return std::string(b) + fmt(".%03d ", fake_usec / 1000) + names[rank(m)] + " " + (tname ? std::string(tname) : fmt("%lu", (unsigned long) id)) + " " + body(m) + "\n";
}
static std::string text(Src &s, size_t max)
{
	std::string t = s.blob(s.below(6) ? std::min<size_t>(max, 60) : max);
	for (char &ch : t) if (!ch || ch == '\n') ch = '%';
	return t;
}
static Msg message(Src &s, size_t max)
{
	Msg m; m.level = s.below(10); m.shape = s.below(4); m.num = (int) s.below(100000) - 100; if (m.shape == 3 && m.num < 0) m.num = -m.num; if (m.level == 9 && m.num < 0) m.num = 2;
	m.text = text(s, max); return m;
}

struct Obj { int fd; std::string want; };
static std::string slurp(int fd) { std::string r; char b[65536]; ssize_t n; off_t o = 0; while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } return r; }

struct Worker { std::vector<Msg> ms; const char *name; bool set; pthread_t id; };
static pthread_barrier_t gate; static std::atomic<int> running;
static void *worker(void *p) { Worker &w = *(Worker *) p; w.id = pthread_self(); if (w.set) log_thread_name_set(w.name); pthread_barrier_wait(&gate); for (auto &m : w.ms) emit(m); if (--running == 0) sem_post(&go); return 0; }
static void *lone(void *p) { Worker &w = *(Worker *) p; w.id = pthread_self(); if (w.set) log_thread_name_set(w.name); for (auto &m : w.ms) emit(m); return 0; }

// a path in memory nobody may write to
struct RoPath
{
	char *page, *p; size_t n; std::string is; bool ro;
	RoPath(const std::string &s, bool r) : n((s.size() + 1 + 4095) / 4096 * 4096), is(s), ro(r)
	{ page = (char *) mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + n, 4096, PROT_NONE); p = page + n - s.size() - 1; memcpy(p, s.c_str(), s.size() + 1); if (ro) mprotect(page, n, PROT_READ); }
	~RoPath() { munmap(page, n + 4096); }
	void same() { CHECK(!memcmp(p, is.c_str(), is.size() + 1), "the path given was changed from %s to %s", show(is).c_str(), show(p, is.size()).c_str()); }
};

static void a_case(Src &s, Ctx &c)
{
	static const char *tz[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-1030>10:30", "<+14>-14" };
	int z = s.below(7); setenv("TZ", tz[z], 1); if (s.below(2)) tzset();
	FakeTime ft(s.weighted({ 6, 1, 1 }) == 0 ? 1000000000 + s.below(1000000000) : s.range(-2000000000, 4000000000ll)); fake_usec = s.below(1000000);
	c.say("zone %s", tz[z]);
	std::vector<Obj> objs; std::vector<std::string> known; size_t sink = 0;
	auto obj_of = [&](const std::string &p, bool make) -> size_t {
		struct stat a, b;
		CHECK(stat(p.c_str(), &a) == 0, "%s does not exist", p.c_str());
		for (size_t i = 0; i < objs.size(); ++i) { fstat(objs[i].fd, &b); if (a.st_dev == b.st_dev && a.st_ino == b.st_ino) return i; }
		CHECK(make, "%s is not the file it should be", p.c_str());
		int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC); objs.push_back({ fd, "" }); return objs.size() - 1;
	};
	{ int fd = open("first", O_CREAT | O_RDWR | O_APPEND, 0644); if (fd < 0 || dup2(fd, 2) < 0) throw pbt::Discard(); close(fd); sink = obj_of("first", true); }
	bool cookie = s.below(3) > 0; yielding = false; yield_us = s.below(3) * 40;
	if (cookie) { cookie_io_functions_t io = { 0, cookie_write, 0, 0 }; FILE *f = fopencookie(0, "w", io); setvbuf(f, 0, _IONBF, 0); stderr = f; }
	int level = log_level; CHECK(level == LOG_info, "the level starts at %d", level);
	std::string mainname; bool named = false; std::vector<std::string *> keep;
	int fds = pbt::count_fds() - (int) objs.size();
	unsigned enabled = 0, opened = 0; int fresh = 0;
	auto verify = [&](size_t i, const char *after) {
		std::string got = slurp(objs[i].fd); const std::string &w = objs[i].want;
		if (got == w) return;
		size_t d = 0; while (d < got.size() && d < w.size() && got[d] == w[d]) ++d;
		size_t b = d < 60 ? 0 : d - 60;
		fail("%s: file %zu%s differs at %zu (of %zu, expected %zu): ...%s, expected ...%s", after, i, i == sink ? " (the current one)" : "", d, got.size(), w.size(), show(got.substr(b, 200)).c_str(), show(w.substr(b, 200)).c_str());
	};
	auto a_path = [&]() -> std::string {
		if (known.size() && s.below(3)) return known[s.below(known.size())];
		std::string p; int d = s.below(4); if (s.below(2)) { char cwd[500]; p = getcwd(cwd, sizeof cwd); p += s.below(4) ? "/" : "//"; }
		while (d-- > 0) { p += s.oneof<const char *>({ "a", "b", "lo gs", "x.d", "l.log", ".", "first" }); p += s.below(5) ? "/" : "//"; }
		if (s.below(12) == 0) return p + "a";
		if (s.below(16) == 0) return p;
		return p + s.oneof<const char *>({ "l.log", "m.log", "n", "o.log" });
	};
	auto possible = [&](const std::string &p) -> bool {
		struct stat st;
		if (p.empty() || p[p.size() - 1] == '/') return false;
		for (size_t i = 1; i < p.size(); ++i) if (p[i] == '/') { if (stat(p.substr(0, i).c_str(), &st)) { if (errno != ENOENT) return false; break; } if (!S_ISDIR(st.st_mode)) return false; }
		if (!stat(p.c_str(), &st)) return S_ISREG(st.st_mode);
		return true;
	};
	auto level_name = [&](int &lv) -> std::string {
		std::string n;
		if (s.below(4) == 0) { n = s.oneof<const char *>({ "", "x", "zzz", "a", "e", "ab", "exit", "0", "7", " info", "?", "b", "A", "E", "h", "log" }); lv = LOG_info; }
		else { lv = s.below(9); n = names[lv]; if (s.below(2)) n = n.substr(0, s.range(lv == LOG_access || lv == LOG_alert || lv == LOG_emerg || lv == LOG_error ? 2 : 1, n.size())); }
		for (char &ch : n) if (s.below(3) == 0) ch = toupper(ch);
		return n;
	};
	auto open_log = [&](const std::string &p, int how) {
		int lv = level, rc; std::string nm; bool ok = possible(p), ro = s.below(2);
		RoPath rp(p, ro);
		if (how == 0) lv = s.range(-1, 9);
		if (how == 1) nm = level_name(lv);
		c.say("%s(%s%s%s)%s", how == 0 ? "log_create" : how == 1 ? "log_create_from_str" : "log_rotate", show(p).c_str(), how == 1 ? ", " : "", how == 1 ? show(nm).c_str() : how == 0 ? fmt(", %d", lv).c_str() : "", ro ? ", the path in read-only memory" : "");
		if (ok && s.chance(16)) { close(2); c.say("descriptor 2 is free"); c.label("no standard error"); }
		errno = 0;
		rc = how == 0 ? log_create(rp.p, lv) : how == 1 ? log_create_from_str(rp.p, nm.c_str()) : log_rotate(rp.p);
		rp.same();
		if (ok)
		{
			CHECK(rc >= 0, "opening %s failed (%s)", show(p).c_str(), strerror(errno));
			level = lv; size_t before = objs.size(); sink = obj_of(p, true);
			if (std::find(known.begin(), known.end(), p) == known.end()) known.push_back(p);
			++opened; (void) before;
			CHECK(log_level == level, "the level is %d instead of %d after opening", log_level, level);
		}
		else { CHECK(rc == -1, "opening %s succeeded (%d)", show(p).c_str(), rc); CHECK(log_level == level, "a failed opening changed the level from %d to %d", level, log_level); }
		int now = pbt::count_fds() - (int) objs.size();
		CHECK(now == fds, "%s opening left %d descriptors more: %s", ok ? "an" : "a failed", now - fds, pbt::list_fds().c_str());
	};
	int steps = 3 + s.below(8) + (s.chance(64) ? s.below(14) : 0);
	for (int i = 0; i < steps; ++i)
	{
		if (s.below(3)) { fake_usec += s.below(3000); if (s.below(4) == 0) { fake_sec += s.below(100000); fake_usec = s.below(1000000); } if (fake_usec >= 1000000) { fake_sec++; fake_usec -= 1000000; } }
		const char *what = "";
		switch (s.weighted({ 10, 4, 2, 5, 2, 2, 2, 2, 2, 2, 3, 3, 1 }))
		{
			case 0: { Msg m = message(s, 20000); c.say("message, level %d shape %d, %zu bytes", m.level, m.shape, m.text.size()); what = "after a message"; emit(m); if (rank(m) <= level) { objs[sink].want += line(m, named ? mainname.c_str() : 0, pthread_self()); ++enabled; } break; }
			case 1: { // from another thread
				Worker w; w.set = s.below(3) > 0; std::string nm = text(s, 30); w.name = s.below(6) ? nm.c_str() : 0; int k = 1 + s.below(3); while (k-- > 0) w.ms.push_back(message(s, 2000));
				c.say("%zu messages from a thread %s", w.ms.size(), !w.set ? "without name" : w.name ? ("named " + show(nm)).c_str() : "with a null name");
				pthread_t t; if (pthread_create(&t, 0, lone, &w)) throw pbt::Discard(); pthread_join(t, 0);
				for (auto &m : w.ms) if (rank(m) <= level) { objs[sink].want += line(m, w.set ? w.name : 0, w.id); ++enabled; }
				what = "after messages of another thread"; break; }
			case 2: level = s.range(-1, 9); log_level = level; c.say("level %d", level); break;
			case 3: open_log(a_path(), s.below(2)); what = "after opening"; break;
			case 4: { if (known.empty()) break; std::string p = known[s.below(known.size())]; int how = s.below(3); std::string q = fmt("%s.%d", p.c_str(), ++fresh);
				c.say("%s is %s, then log_rotate", p.c_str(), how == 0 ? "left" : how == 1 ? "renamed" : "removed");
				if (how == 1) rename(p.c_str(), q.c_str()); if (how == 2) unlink(p.c_str());
				open_log(p, 2); what = "after rotating"; break; }
			case 5: { std::string p = known.size() ? known[s.below(known.size())] : "l.log"; if (s.below(2)) { unlink(p.c_str()); c.say("%s is removed", p.c_str()); } else { rename(p.c_str(), fmt("%s.%d", p.c_str(), ++fresh).c_str()); c.say("%s is renamed", p.c_str()); } break; }
			case 6: { // somebody else writes to the end of a file, or empties it
				size_t o = s.below(objs.size()); std::string t = text(s, 100) + "\n"; bool trunc = s.below(3) == 0;
				int fd = open(fmt("/proc/self/fd/%d", objs[o].fd).c_str(), O_WRONLY | O_APPEND); if (fd < 0) break;
				c.say("file %zu is %s", o, trunc ? "truncated" : "appended to");
				if (trunc) { if (ftruncate(fd, 0)) break; objs[o].want = ""; } else { if (write(fd, t.data(), t.size()) < 0) break; objs[o].want += t; }
				close(fd); break; }
			case 12: {
				Msg m; m.level = LOG_emerg; m.shape = 0; m.num = s.below(64); m.text = text(s, 100); char b[64]; std::string t = m.text; m.text += fmt(" (%d: %s)", m.num, strerror_r(m.num, b, sizeof b));
				c.say("log_die in a child process"); if (rank(m) <= level) { objs[sink].want += line(m, named ? mainname.c_str() : 0, pthread_self()); ++enabled; }
				pid_t p = fork(); if (p < 0) throw pbt::Discard();
				if (!p) { errno = m.num; die(t, m.num); _exit(77); }
				int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
				CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "log_die ends the process with status %x", st); what = "after log_die"; break; }
			case 7: { std::string t = text(s, 200); c.say("other output, %zu bytes", t.size()); if (s.below(2)) fprintf(stderr, "%s\n", t.c_str()); else dprintf(2, "%s\n", t.c_str()); objs[sink].want += t + "\n"; what = "after other output"; break; }
			case 8: { named = s.below(4) > 0; keep.push_back(new std::string(text(s, 30))); mainname = *keep.back(); c.say("thread name %s", named ? show(mainname).c_str() : "null"); CHECK(log_thread_name_set(named ? keep.back()->c_str() : 0) == 0, "log_thread_name_set failed"); const char *g = log_thread_name_get(); CHECK(named ? g && mainname == g : !g, "the thread name is %s", g ? g : "null"); break; }
			case 9: { int lv; std::string n = level_name(lv); Exact e(n + std::string(1, 0)); int r = log_levels(e); CHECK(r == lv, "log_levels(%s) is %d, expected %d", show(n).c_str(), r, lv); break; }
			case 10: { // a file that is there already
				std::string p = s.oneof<const char *>({ "old.log", "m.log", "n" }), t; if (s.below(3)) t = text(s, 200) + (s.below(4) ? "\n" : "");
				struct stat st; if (!lstat(p.c_str(), &st)) break;
				int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0644); if (fd < 0) break; if (write(fd, t.data(), t.size()) < 0) break; close(fd);
				size_t o = obj_of(p, true); objs[o].want = t; known.push_back(p); c.say("%s holds %zu bytes", p.c_str(), t.size()); break; }
			case 11: {
				int n = 2 + s.below(4), rot = s.below(2) ? 1 + s.below(4) : 0; std::vector<Worker> ws(n); static const char *tn[] = { "one", "two", "three", "four", "five" };
				std::map<std::string, std::pair<int, int>> expect; std::vector<std::vector<int>> need(n);
				int per = 4 + s.below(20); int lv0 = s.below(2) ? 8 : level; log_level = level = lv0;
				for (int t = 0; t < n; ++t) { ws[t].set = s.below(4) > 0; ws[t].name = tn[t]; for (int k = 0; k < per; ++k) { Msg m; m.level = s.below(9); m.shape = 0; m.num = 0; m.text = fmt("t%d m%d ", t, k) + std::string(s.below(200), 'a' + t); ws[t].ms.push_back(m); } }
				c.say("%d threads log %d messages each at level %d with %d rotations meanwhile%s", n, per, level, rot, cookie ? fmt(", yielding %u us", yield_us).c_str() : "");
				std::vector<size_t> chain(1, sink); std::vector<size_t> from(1, objs[sink].want.size());
				pthread_barrier_init(&gate, 0, n + 1); running = n; writes = rotated = 0; rotations = cookie ? rot : 0; sem_init(&go, 0, 0); sem_init(&done, 0, 0); { int at = 0; for (int r = 0; r < rot; ++r) rotate_at[r] = at += 1 + s.below(12); } yielding = true;
				std::vector<pthread_t> th(n); for (int t = 0; t < n; ++t) if (pthread_create(&th[t], 0, worker, &ws[t])) abort();
				pthread_barrier_wait(&gate);
				std::string bad;
				for (int r = 0; r < rot; ++r) { int us = s.below(4) * 60; if (!cookie) usleep(us); else while (running && sem_trywait(&go)) usleep(20); std::string p = fmt("rot%d.log", ++fresh); RoPath rp(p, false); if (log_rotate(rp.p) < 0) { bad = "rotating to " + p + " failed"; break; } size_t o = obj_of(p, true); objs[o].want = ""; chain.push_back(o); from.push_back(0); sink = o; sem_post(&done); }
				rotations = 0;
				for (int t = 0; t < n; ++t) pthread_join(th[t], 0);
				yielding = false; pthread_barrier_destroy(&gate);
				CHECK(bad.empty(), "%s", bad.c_str());
				for (int t = 0; t < n; ++t) for (int k = 0; k < per; ++k) { Msg &m = ws[t].ms[k]; if (rank(m) > level) { expect[line(m, ws[t].set ? ws[t].name : 0, ws[t].id)] = { t, -1 }; continue; } expect[line(m, ws[t].set ? ws[t].name : 0, ws[t].id)] = { t, (int) need[t].size() }; need[t].push_back(k); ++enabled; }
				std::vector<int> next(n, 0);
				for (size_t x = 0; x < chain.size(); ++x)
				{
					Obj &o = objs[chain[x]]; std::string got = slurp(o.fd);
					CHECK(got.compare(0, from[x], o.want) == 0, "earlier lines of file %zu changed", chain[x]);
					for (size_t at = from[x]; at < got.size();)
					{
						size_t e = got.find('\n', at); e = e == std::string::npos ? got.size() : e + 1;
						std::string l = got.substr(at, e - at); at = e;
						auto it = expect.find(l);
						CHECK(it != expect.end(), "a line nobody wrote: %s", show(l).c_str());
						CHECK(it->second.second >= 0, "a line below the level: %s", show(l).c_str());
						int t = it->second.first;
						CHECK(it->second.second == next[t], "thread %d: message %d appears when message %d is due", t, it->second.second, next[t]);
						++next[t];
					}
					o.want = got;
				}
				for (int t = 0; t < n; ++t) CHECK(next[t] == (int) need[t].size(), "thread %d: %d of %zu messages appear", t, next[t], need[t].size());
				++opened; c.label(rot ? "threads and rotation" : "threads"); what = "after threads"; break; }
		}
		verify(sink, what);
	}
	Msg m = message(s, 100); if (rank(m) <= level) { objs[sink].want += line(m, named ? mainname.c_str() : 0, pthread_self()); ++enabled; } emit(m);
	for (size_t i = 0; i < objs.size(); ++i) verify(i, "in the end");
	c.nontrivial(enabled >= 2 && opened);
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
#ifdef PROBE_FAILED
	pbt::fail("a program that uses log_ret as an expression and log_die as a statement does not compile (props/probe/C26.cpp)");
#endif
	std::string dir = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + fmt("/l%d", (int) getpid());
	std::string rm = "rm -rf '" + dir + "'";
	mkdir(dir.c_str(), 0755);
	struct Clean { std::string d; ~Clean() { pid_t p = fork(); if (!p) { execlp("rm", "rm", "-rf", d.c_str(), (char *) 0); _exit(1); } int st; waitpid(p, &st, 0); } } clean = { dir };
	Src *sp = &s;
	in_child(c, [&](Ctx &k) { if (chdir(dir.c_str())) throw pbt::Discard(); a_case(*sp, k); }, 20, &s);
}
