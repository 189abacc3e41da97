// @pbt quick=60000 thorough=900000 maxlen=500 cov=0 maxsec=45 asan=0
#include "pbt.h"
#include "child.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <coda/coda.h>
#include <coda/daemon.h>
#include <coda/logger.h>

const char *prop_id = "C27";
const char *prop_rule = "in a fresh process per case, with generated earlier dispositions (default or ignored), signal mask and flag values: initialisation in either mode, then 2-30 steps out of sending one of the handled signals (to the process or thread, one or several times, from the same or another process), masking with any of the three ways (or an invalid one) and 32 generated bits, resetting flags, initialising again in either mode, and a blocking read or receive while another thread sends a signal. Oracle: a model of flags, blocked set and pending set; the process lives on; the real signal mask equals the model's; a blocking read is interrupted in the no-restart mode and goes on in the other. Non-trivial: at least two signals sent and one masked.";

static const struct { int sig; int flag; const char *name; } H[] = {
	{ SIGHUP, 1, "HUP" }, { SIGINT, 0, "INT" }, { SIGTERM, 0, "TERM" }, { SIGUSR1, 2, "USR1" }, { SIGUSR2, 3, "USR2" }, { SIGALRM, -1, "ALRM" }, { SIGQUIT, -1, "QUIT" },
	{ SIGPIPE, -1, "PIPE" }, { SIGCHLD, -1, "CHLD" }, { SIGCONT, -1, "CONT" }, { SIGTSTP, -1, "TSTP" }, { SIGTTIN, -1, "TTIN" }, { SIGTTOU, -1, "TTOU" }, { SIGPROF, -1, "PROF" },
	{ SIGSYS, -1, "SYS" }, { SIGTRAP, -1, "TRAP" }, { SIGURG, -1, "URG" }, { SIGVTALRM, -1, "VTALRM" }, { SIGXCPU, -1, "XCPU" }, { SIGXFSZ, -1, "XFSZ" }, { SIGWINCH, -1, "WINCH" } };
enum { NH = sizeof H / sizeof *H };
static volatile int *F[4] = { &coda_terminate, &coda_changecfg, &coda_rotatelog, &coda_changebin };
static const char *fname[4] = { "terminate", "changecfg", "rotatelog", "changebin" };

struct Sender { int sig, fd, tries; bool finish; std::atomic<bool> back; pthread_t to; std::atomic<int> sent; };
static char state_of(pid_t pid)
{
	char b[512]; int fd = open(fmt("/proc/self/task/%d/stat", (int) pid).c_str(), O_RDONLY); if (fd < 0) return '?';
	ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return '?'; b[n] = 0; char *p = strrchr(b, ')'); return p ? p[2] : '?';
}
static void *sender(void *p)
{
	Sender &x = *(Sender *) p; pid_t main_tid = getpid();
	for (int i = 0; i < 2000 && state_of(main_tid) != 'S' && !x.back; ++i) usleep(20);
	for (int i = 0; i < x.tries && !x.back; ++i) { kill(getpid(), x.sig); ++x.sent; for (int k = 0; k < 10 && !x.back; ++k) usleep(x.finish ? 10 : 200); }
	if (!x.back && write(x.fd, "x", 1) < 0) _exit(3);
	return 0;
}

// The handler logs, which cannot be done safely when the signal interrupts the logging code (known finding):
// while signals may arrive at any moment, logging is off.
struct Quiet { int was; Quiet() : was(log_level) { log_level = -1; } ~Quiet() { log_level = was; } };

static void a_case(Src &s, Ctx &c)
{
	int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
	log_level = s.below(3) ? LOG_info : -1;
	sigset_t all, none; sigfillset(&all); sigemptyset(&none);
	std::set<int> blocked; uint32_t pending = 0; int want[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < NH; ++i) { int d = s.weighted({ 5, 1 }); signal(H[i].sig, d ? SIG_IGN : SIG_DFL); }
	{ sigset_t m; sigemptyset(&m); if (s.below(3) == 0) { int n = 1 + s.below(4); while (n--) { int g = s.oneof<int>({ SIGIO, SIGPWR, SIGSTKFLT, SIGRTMIN + 3, SIGHUP, SIGTERM, SIGUSR1, SIGCHLD }); sigaddset(&m, g); blocked.insert(g); } } pthread_sigmask(SIG_SETMASK, &m, 0); }
	for (int i = 0; i < 4; ++i) { CHECK(*F[i] == 0, "flag %s starts at %d", fname[i], *F[i]); }
	bool restart = s.below(2);
	auto init = [&] { int rc = restart ? coda_signal_init() : coda_signal_init_norestart(); c.say("%s", restart ? "coda_signal_init" : "coda_signal_init_norestart"); CHECK(rc == 0, "the initialisation returned %d", rc); };
	init();
	unsigned sent = 0, masked = 0;
	auto idx = [&](int sig) { for (int i = 0; i < NH; ++i) if (H[i].sig == sig) return i; return -1; };
	auto deliver = [&] { for (int i = 0; i < NH; ++i) if ((pending >> i & 1) && !blocked.count(H[i].sig)) { pending &= ~(1u << i); if (H[i].flag >= 0) want[H[i].flag] = 1; } };
	auto check = [&](const char *after) {
		for (int i = 0; i < 4; ++i) CHECK(!!*F[i] == want[i], "%s: flag %s is %s", after, fname[i], want[i] ? "not set" : "set");
		sigset_t m; pthread_sigmask(SIG_BLOCK, 0, &m);
		for (int g = 1; g < 65; ++g) { if (g == 32 || g == 33) continue; CHECK(sigismember(&m, g) == (int) blocked.count(g), "%s: signal %d is %s", after, g, blocked.count(g) ? "not blocked" : "blocked"); }
	};
	int steps = 2 + s.below(10) + (s.chance(64) ? s.below(20) : 0);
	for (int st = 0; st < steps; ++st) switch (s.weighted({ 10, 7, 2, 1, 2, 1 }))
	{
		case 0: { int i = s.below(NH), n = 1 + s.below(3), how = s.below(8); c.say("SIG%s %d times%s", H[i].name, n, how == 7 ? " from another process" : how == 6 ? " to the thread" : "");
			if (how == 7) { Quiet q; pid_t me = getpid(), p = fork(); if (!p) { while (n-- > 0) kill(me, H[i].sig); _exit(0); } int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR) ; getppid(); pending |= 1u << idx(SIGCHLD);
				// delivered by now: the kernel does it on the way out of waitpid
			}
			else while (n-- > 0) if (how == 6) raise(H[i].sig); else kill(getpid(), H[i].sig);
			pending |= 1u << i; ++sent; deliver(); check(fmt("after SIG%s", H[i].name).c_str()); break; }
		case 1: { int how = s.weighted({ 4, 4, 4, 1 }); unsigned mask = 0;
			switch (s.below(4)) { case 0: mask = s.u64(); break; case 1: mask = ~0u; break; default: { int n = s.below(4); while (n--) mask |= 1u << H[s.below(NH)].sig; if (s.below(3) == 0) mask |= 1u << s.below(32); } }
			static const int hows[] = { SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK, 77 }; c.say("mask %s %08x", how == 0 ? "block" : how == 1 ? "unblock" : how == 2 ? "set" : "invalid", mask);
			errno = 0; int rc = coda_signal_mask(hows[how], mask);
			if (how == 3) { CHECK(rc == -1, "masking in an unknown way returned %d", rc); check("after masking in an unknown way"); break; }
			CHECK(rc == 0, "masking returned %d", rc);
			if (how == 2) blocked.clear();
			for (int i = 0; i < NH; ++i) if (mask >> H[i].sig & 1) { if (how == 1) blocked.erase(H[i].sig); else blocked.insert(H[i].sig); ++masked; }
			deliver(); check("after masking"); break; }
		case 2: { int i = s.below(4); c.say("flag %s is reset", fname[i]); *F[i] = 0; want[i] = 0; break; }
		case 3: restart = s.below(2); init(); deliver(); check("after initialising again"); break;
		case 4: { // a blocking call
			std::vector<int> can; for (int i = 0; i < NH; ++i) if (!blocked.count(H[i].sig)) can.push_back(i);
			if (can.empty()) break;
			Quiet q;
			int i = can[s.below(can.size())], kind = s.below(2), fd[2]; char b;
			if (kind ? socketpair(AF_UNIX, SOCK_STREAM, 0, fd) : pipe(fd)) throw pbt::Discard();
			Sender x; x.sig = H[i].sig; x.fd = fd[1]; x.finish = restart; x.tries = restart ? 2 : 500; x.back = false; x.sent = 0;
			c.say("SIG%s during a blocking %s", H[i].name, kind ? "recv" : "read");
			sigset_t old; pthread_sigmask(SIG_SETMASK, &all, &old); pthread_t t; if (pthread_create(&t, 0, sender, &x)) abort(); pthread_sigmask(SIG_SETMASK, &old, 0);
			ssize_t r = kind ? recv(fd[0], &b, 1, 0) : read(fd[0], &b, 1); int e = errno;
			x.back = true; pthread_join(t, 0); close(fd[0]); close(fd[1]);
			if (restart) CHECK(r == 1, "SIG%s interrupted a blocking call in the restarting mode (%zd, %s)", H[i].name, r, strerror(e));
			else CHECK(r == -1 && e == EINTR, "SIG%s did not interrupt a blocking call in the no-restart mode (%zd, %d signals sent)", H[i].name, r, (int) x.sent);
			if (x.sent) { pending |= 1u << i; ++sent; }
			deliver(); check("after a blocking call"); c.label(restart ? "blocking call goes on" : "blocking call interrupted"); break; }
		case 5: { // what the ignored ones are for
			c.say("writing to a closed pipe"); int fd[2]; if (pipe(fd)) throw pbt::Discard(); close(fd[0]); errno = 0; ssize_t r = write(fd[1], "x", 1); CHECK(r == -1 && errno == EPIPE, "write returned %zd", r); close(fd[1]); pending |= 1u << idx(SIGPIPE); deliver(); check("after a broken pipe"); break; }
	}
	c.say("everything is unblocked"); { sigset_t z; sigemptyset(&z); pthread_sigmask(SIG_SETMASK, &z, 0); } blocked.clear(); deliver(); check("in the end");
	c.nontrivial(sent >= 2 && masked); c.label(restart ? "restarting" : "no-restart");
}
void prop_init() {}
void run_case(Src &s, Ctx &c) { Src *sp = &s; in_child(c, [sp](Ctx &k) { a_case(*sp, k); }, 8, &s); }
