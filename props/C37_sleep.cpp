// @pbt quick=300000 thorough=5000000 maxlen=200 cov=0 maxsec=20 wrap=nanosleep,clock_nanosleep,usleep,sleep,poll,ppoll,select,pselect,clock_gettime,gettimeofday,time
#include "pbt.h"
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/select.h>
#include <sys/time.h>
#include <coda/gmtime.h>

const char *prop_id = "C37";
const char *prop_rule = "1-8 sleeps of 0 to 2147483647 milliseconds (around whole seconds, 8, 15, 16, 31 bit limits) and of negative ones, with signals arriving 0-3 times at chosen points of the sleep, over stand-ins of every sleeping system call that keep a clock of their own and refuse what the system refuses; a few real sleeps, undisturbed and with a real signal. Oracle: the clock of the stand-ins; 0 is returned only after the whole time and never much later, an interrupted sleep may return -1 with EINTR, at once after the signal. Non-trivial: a sleep longer than a second that is not a whole number of seconds, or an interrupted sleep.";

typedef long long ns_t;
static bool hook; static ns_t now, base_;          // the stand-in's clock
static std::vector<ns_t> signals;                  // when signals arrive
static int calls;
// sleep until `end`, or until a signal
static bool doze(ns_t end, ns_t &left)
{
	if (++calls > 100000) pbt::fail("a sleep goes on for ever");
	for (size_t i = 0; i < signals.size(); ++i) if (signals[i] >= now && signals[i] < end)
	{
		now = signals[i]; left = end - now; signals.erase(signals.begin() + i); errno = EINTR; return false;
	}
	if (end > now) now = end;
	left = 0; return true;
}
static const ns_t G = 1000000000ll;
static bool valid(const struct timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < G; }
static ns_t ns(const struct timespec *t) { return t->tv_sec > (time_t) 9000000000ll ? LLONG_MAX / 4 : t->tv_sec * G + t->tv_nsec; }
extern "C" {
int __real_nanosleep(const struct timespec *, struct timespec *); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t); unsigned __real_sleep(unsigned); int __real_poll(struct pollfd *, nfds_t, int); int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *); time_t __real_time(time_t *);

int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	if (!hook) return __real_nanosleep(t, rem);
	if (!valid(t)) { errno = EINVAL; return -1; }
	ns_t left; if (doze(now + ns(t), left)) return 0;
	if (rem) { rem->tv_sec = left / G; rem->tv_nsec = left % G; }
	return -1;
}
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *rem)
{
	if (!hook) return __real_clock_nanosleep(k, fl, t, rem);
	if (!valid(t)) return EINVAL;
	ns_t left, end = fl & TIMER_ABSTIME ? ns(t) - base_ : now + ns(t); int e = errno;
	if (doze(end, left)) return 0;
	errno = e; if (rem && !(fl & TIMER_ABSTIME)) { rem->tv_sec = left / G; rem->tv_nsec = left % G; }
	return EINTR;
}
int __wrap_usleep(useconds_t u) { if (!hook) return __real_usleep(u); ns_t left; return doze(now + (ns_t) u * 1000, left) ? 0 : -1; }
unsigned __wrap_sleep(unsigned u) { if (!hook) return __real_sleep(u); ns_t left; return doze(now + (ns_t) u * G, left) ? 0 : (unsigned) ((left + G / 2) / G); }
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { if (!hook || n) return __real_poll(f, n, ms); if (ms < 0) pbt::fail("a sleep without an end"); ns_t left; return doze(now + (ns_t) ms * 1000000, left) ? 0 : -1; }
int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m) { if (!hook || n) return __real_ppoll(f, n, t, m); if (!t) pbt::fail("a sleep without an end"); if (!valid(t)) { errno = EINVAL; return -1; } ns_t left; return doze(now + ns(t), left) ? 0 : -1; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t)
{
	if (!hook || n) return __real_select(n, r, w, x, t);
	if (!t) pbt::fail("a sleep without an end");
	if (t->tv_sec < 0 || t->tv_usec < 0) { errno = EINVAL; return -1; }
	ns_t left; bool ok = doze(now + t->tv_sec * G + t->tv_usec * 1000ll, left); t->tv_sec = left / G; t->tv_usec = left % G / 1000;
	return ok ? 0 : -1;
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *m) { if (!hook || n) return __real_pselect(n, r, w, x, t, m); if (!t) pbt::fail("a sleep without an end"); if (!valid(t)) { errno = EINVAL; return -1; } ns_t left; return doze(now + ns(t), left) ? 0 : -1; }
int __wrap_clock_gettime(clockid_t k, struct timespec *t) { if (!hook) return __real_clock_gettime(k, t); ns_t x = base_ + now; t->tv_sec = x / G; t->tv_nsec = x % G; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!hook) return __real_gettimeofday(t, z); ns_t x = base_ + now; t->tv_sec = x / G; t->tv_usec = x % G / 1000; return 0; }
time_t __wrap_time(time_t *t) { if (!hook) return __real_time(t); time_t x = (base_ + now) / G; if (t) *t = x; return x; }
}
struct Hook { Hook() { hook = true; } ~Hook() { hook = false; } };

static void on_alarm(int) {}
static void real(Src &s, Ctx &c)
{
	int ms = s.below(30); bool sig = s.below(3) == 0; c.label("a real sleep");
	struct itimerval off = { { 0, 0 }, { 0, 0 } }, on = { { 0, 0 }, { 0, 1000 + 1000 * (int) s.below(5) } };
	if (sig) { ms += 2000; struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_alarm; sigaction(SIGALRM, &a, 0); setitimer(ITIMER_REAL, &on, 0); }
	struct timespec a, b; __real_clock_gettime(CLOCK_MONOTONIC, &a); errno = 0;
	int rc = coda_msleep(ms), e = errno;
	__real_clock_gettime(CLOCK_MONOTONIC, &b); setitimer(ITIMER_REAL, &off, 0);
	ns_t took = (b.tv_sec - a.tv_sec) * G + b.tv_nsec - a.tv_nsec;
	c.say("really sleep %d ms%s: %d after %lld us", ms, sig ? ", a signal comes" : "", rc, took / 1000);
	if (!sig) CHECK(rc == 0, "a sleep of %d ms returns %d (%s)", ms, rc, strerror(e));
	if (rc == 0) CHECK(took >= ms * 1000000ll, "a sleep of %d ms ends after %lld us", ms, took / 1000);
	else CHECK(rc == -1 && e == EINTR, "an interrupted sleep returns %d (%s)", rc, strerror(e));
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(3000) == 2999) return real(s, c);
	now = 0; base_ = 1700000000ll * G + (ns_t) s.below(1000000000); int n = 1 + s.below(3) + (s.chance(40) ? s.below(6) : 0);
	while (n-- > 0)
	{
		int ms;
		switch (s.weighted({ 3, 4, 4, 3, 3, 2 }))
		{
			case 0: ms = s.below(1001); break;
			case 1: ms = (int) s.range(-3, 3) + 1000 * (int) s.oneof<int>({ 1, 2, 3, 60, 3600, 86400, 2147483, 65, 4, 5 }); break;
			case 2: { int64_t p = 1ll << s.below(32); p += s.range(-2, 2); ms = (int) std::min<int64_t>(p, INT_MAX); break; }
			case 3: ms = s.below(100000); break;
			case 4: ms = (int) s.below(1u << 31); break;
			default: ms = s.below(3) ? -(int) (1 + s.below(5000)) : s.oneof<int>({ INT_MIN, -1000, -2000, -1, -999, -1001, INT_MIN + 1 });
		}
		signals.clear(); now = 0; calls = 0; ns_t want = (ns_t) ms * 1000000, first = -1;
		if (ms > 0 && s.below(3) == 0) for (int k = 1 + s.below(3); k > 0; --k) { ns_t at = s.below(4) ? (ns_t) (s.u64() % (uint64_t) want) : s.oneof<ns_t>({ 0, want - 1, want / 2, want + 5 }); signals.push_back(at); if (at < want && (first < 0 || at < first)) first = at; }
		std::sort(signals.begin(), signals.end());
		int rc, e; { Hook h; errno = 0; rc = coda_msleep(ms); e = errno; }
		c.say("sleep %d ms%s: %d after %lld ns %s", ms, first >= 0 ? fmt(", a signal after %lld ns", first).c_str() : "", rc, now, rc ? strerror(e) : "");
		if (ms < 0)
		{
			c.label("negative");
			CHECK(now == 0, "a sleep of %d ms lasts %lld ns", ms, now);
			CHECK(rc == 0 || rc == -1, "a sleep of %d ms returns %d", ms, rc);
			continue;
		}
		CHECK(rc == 0 || rc == -1, "a sleep of %d ms returns %d", ms, rc);
		if (rc == 0)
		{
			CHECK(now >= want, "a sleep of %d ms returns after %lld ns", ms, now);
			CHECK(now <= want + 1000000, "a sleep of %d ms lasts %lld ns", ms, now);
		}
		else
		{
			CHECK(first >= 0, "an undisturbed sleep of %d ms fails: %s", ms, strerror(e));
			CHECK(e == EINTR, "an interrupted sleep of %d ms fails with %s", ms, strerror(e));
			CHECK(now < want, "a sleep of %d ms reports an interruption after %lld ns", ms, now);
		}
		if (first >= 0) c.label("interrupted");
		c.nontrivial(first >= 0 || (ms > 1000 && ms % 1000));
	}
}
