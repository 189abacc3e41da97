// Random driver: forked workers over case numbers, crash capture, shrinking,
// confirmation, replay.
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unordered_set>

using namespace pbt;
typedef std::vector<uint8_t> Bytes;

enum { CAP = 1 << 18, MSG = 8192 };
enum { R_RUN = 0, R_PASS = 1, R_FAIL = 2, R_DISC = 3 };

struct Slot {
	volatile uint32_t reclen;
	volatile int state;
	volatile uint64_t idx, done, nontriv, disc;
	volatile int finished;
	char msg[MSG];
	uint8_t rec[CAP];
};

static double now()
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9;
}
static double cpu_of(pid_t p)
{
	clockid_t c; struct timespec t;
	if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1;
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static Slot *slots;
static std::string tmpdir = "/tmp";
static double case_cpu = 20, case_wall = 60;

static int guarded(Src &s, Ctx &c, char *msg)
{
	int r = R_PASS;
	try { run_case(s, c); }
	catch (const Discard &) { r = R_DISC; }
	catch (const Failure &f) { r = R_FAIL; snprintf(msg, MSG, "%s", f.msg.c_str()); }
	catch (const std::exception &e) { r = R_FAIL; snprintf(msg, MSG, "uncaught exception: %s", e.what()); }
	if (c.cleanup) { try { c.cleanup(c); } catch (...) {} }
	return r;
}

static void redirect_err(const std::string &f)
{
	int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string slurp(const std::string &f)
{
	std::string r; FILE *i = fopen(f.c_str(), "r"); if (!i) return r;
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) r.append(b, n);
	fclose(i); return r;
}

// what happened when a stream was run in a process of its own
struct Outcome { bool bad; std::string msg; uint32_t used; };

static std::string crash_text(int st, const std::string &errfile)
{
	std::string e = slurp(errfile), r;
	size_t p = e.find("ERROR: AddressSanitizer");
	if (p != std::string::npos) r = e.substr(p, 1500);
	else r = e.substr(0, 800);
	std::string h = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exited with status %d", WEXITSTATUS(st));
	return "the code under test crashed (" + h + ")\n" + r;
}

static std::vector<Outcome> run_batch(const std::vector<Bytes> &v, double cpu, double wall, bool verbose = false)
{
	static Slot *bs = (Slot *) mmap(0, sizeof(Slot) * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<Outcome> out(v.size());
	for (size_t base = 0; base < v.size(); base += 8)
	{
		size_t k = std::min<size_t>(8, v.size() - base);
		pid_t pid[8]; bool alive[8]; std::string ef[8];
		for (size_t i = 0; i < k; ++i)
		{
			bs[i].state = R_RUN; bs[i].msg[0] = 0; bs[i].reclen = 0;
			ef[i] = fmt("%s/err.%d.%zu", tmpdir.c_str(), (int) getpid(), i);
			fflush(stdout);
			pid[i] = fork();
			if (pid[i] == 0)
			{
				setpgid(0, 0);
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				redirect_err(ef[i]);
				const Bytes &b = v[base + i];
				Src s(b.data(), b.size()); Ctx c; c.verbose = verbose ? 2 : 0;
				int r = guarded(s, c, bs[i].msg);
				bs[i].reclen = std::min(s.consumed(), b.size());
				bs[i].state = r;
				_exit(0);
			}
			alive[i] = true;
		}
		double t0 = now(); size_t left = k;
		while (left)
		{
			for (size_t i = 0; i < k; ++i)
			{
				if (!alive[i]) continue;
				int st; pid_t w = waitpid(pid[i], &st, WNOHANG);
				Outcome &o = out[base + i];
				if (w == pid[i])
				{
					kill(-pid[i], SIGKILL);
					alive[i] = false; --left; o.used = bs[i].reclen;
					if (bs[i].state == R_RUN) { o.bad = true; o.msg = crash_text(st, ef[i]); o.used = v[base + i].size(); }
					else { o.bad = bs[i].state == R_FAIL; o.msg = bs[i].msg; }
				}
				else if (cpu_of(pid[i]) > cpu || now() - t0 > wall)
				{
					bool c = cpu_of(pid[i]) > cpu;
					kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
					alive[i] = false; --left;
					o.bad = true; o.used = v[base + i].size();
					o.msg = c ? fmt("no end after %.0f s of CPU", cpu) : fmt("no end after %.0f s", wall);
				}
			}
			if (left) usleep(200);
		}
		for (size_t i = 0; i < k; ++i) unlink(ef[i].c_str());
	}
	return out;
}

static Bytes shrink(Bytes b, std::string &msg, double budget)
{
	double end = now() + budget;
	bool hang = msg.compare(0, 6, "no end") == 0;
	if (hang) return b;
	double cpu = 5, wall = 20;
	auto attempt = [&](std::vector<Bytes> &c) -> bool {
		for (size_t i = 0; i < c.size(); i += 8)
		{
			if (now() > end) return false;
			std::vector<Bytes> part(c.begin() + i, c.begin() + std::min(c.size(), i + 8));
			auto o = run_batch(part, cpu, wall);
			for (size_t k = 0; k < o.size(); ++k)
				if (o[k].bad && o[k].msg.compare(0, 6, "no end"))
				{
					b = part[k]; msg = o[k].msg;
					if (o[k].used < b.size()) b.resize(o[k].used);
					return true;
				}
		}
		return false;
	};
	bool progress = true;
	while (progress && now() < end)
	{
		progress = false;
		// shorter prefixes
		for (;;)
		{
			std::vector<Bytes> c; std::set<size_t> L;
			for (size_t d = 1; d <= 64 && b.size(); d *= 2) { L.insert(b.size() - std::max<size_t>(1, b.size() / d)); }
			for (size_t l : L) c.push_back(Bytes(b.begin(), b.begin() + l));
			if (c.empty() || !attempt(c)) break;
			progress = true;
		}
		// drop chunks
		for (size_t w = std::max<size_t>(1, b.size() / 2); w >= 1 && now() < end; w /= 2)
		{
			size_t at = 0;
			while (at < b.size() && now() < end)
			{
				std::vector<Bytes> c; std::vector<size_t> pos;
				for (size_t k = 0; k < 8 && at + k * w < b.size(); ++k)
				{
					Bytes x = b; size_t p = at + k * w;
					x.erase(x.begin() + p, x.begin() + std::min(x.size(), p + w));
					c.push_back(x); pos.push_back(p);
				}
				if (attempt(c)) progress = true; else at += 8 * w;
			}
			if (w == 1) break;
		}
		// zero chunks
		for (size_t w = std::max<size_t>(1, b.size() / 4); w >= 1 && now() < end; w /= 2)
		{
			size_t at = 0;
			while (at < b.size() && now() < end)
			{
				std::vector<Bytes> c;
				for (size_t k = 0; k < 8 && at + k * w < b.size(); ++k)
				{
					Bytes x = b; bool any = false;
					for (size_t p = at + k * w; p < std::min(b.size(), at + (k + 1) * w); ++p) { any |= x[p] != 0; x[p] = 0; }
					if (any) c.push_back(x);
				}
				if (!c.empty() && attempt(c)) progress = true; else at += 8 * w;
			}
			if (w == 1) break;
		}
		// smaller bytes
		for (size_t p = 0; p < b.size() && now() < end; ++p)
		{
			for (int guard = 0; guard < 16; ++guard)
			{
				if (p >= b.size() || !b[p]) break;
				std::vector<Bytes> c;
				for (int d = 2; d <= 8; d *= 2) { Bytes x = b; x[p] = b[p] - b[p] / d - (b[p] < d); if (x[p] < b[p]) c.push_back(x); }
				Bytes x = b; x[p] = b[p] - 1; c.push_back(x);
				if (!attempt(c)) break;
				progress = true;
			}
		}
	}
	return b;
}

static void write_file(const std::string &f, const Bytes &b)
{
	FILE *o = fopen(f.c_str(), "wb");
	if (!o) { perror(f.c_str()); return; }
	fwrite(b.data(), 1, b.size(), o); fclose(o);
}
static Bytes read_file(const std::string &f)
{
	std::string s = slurp(f); return Bytes(s.begin(), s.end());
}

static int confirm_and_report(Bytes b, std::string msg, const std::string &outf, double shrink_s)
{
	// three more failures in fresh processes, before and after shrinking
	auto three = [&](const Bytes &x, std::string &m) {
		std::vector<Bytes> v(3, x);
		auto o = run_batch(v, case_cpu, case_wall);
		for (auto &k : o) if (!k.bad) return false;
		m = o[0].msg; return true;
	};
	std::string m = msg;
	if (!three(b, m)) { printf("UNCONFIRMED %s\n", msg.c_str()); write_file(outf + ".unconfirmed", b); return 3; }
	std::string ms = m;
	Bytes sb = shrink(b, ms, shrink_s);
	if (sb != b && three(sb, ms)) { b = sb; m = ms; }
	write_file(outf, b);
	printf("FAIL %s\n", m.c_str());
	printf("--- minimal case (%zu choice bytes)\n", b.size());
	fflush(stdout);
	run_batch(std::vector<Bytes>(1, b), case_cpu, case_wall, true);
	printf("---\n");
	fflush(stdout);
	return 1;
}

static void worker(int w, int nw, uint64_t seed, uint64_t cases, double maxsec, const std::string &stats, const std::string &corpus)
{
	Slot &sl = slots[w];
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	redirect_err(fmt("%s/werr.%d", tmpdir.c_str(), w));
	std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> seen;
	double t0 = now(); uint64_t kept = 0; std::vector<Bytes> samples; uint64_t maxuse = 0;
	uint64_t i = sl.idx;
	for (; i < cases; i += nw)
	{
		if (now() - t0 > maxsec) break;
		sl.idx = i; sl.state = R_RUN;
		Src s(mix64(mix64(seed) ^ (i * 0x2545F4914F6CDD1Dull)), sl.rec, CAP, &sl.reclen);
		Ctx c; c.labels = &labels;
		int r = guarded(s, c, sl.msg);
		sl.state = r;
		sl.done = sl.done + 1;
		if (r == R_FAIL) { sl.finished = 1; _exit(0); }
		if (r == R_DISC) { sl.disc = sl.disc + 1; continue; }
		maxuse = std::max<uint64_t>(maxuse, sl.reclen);
		if (c.nontriv)
		{
			sl.nontriv = sl.nontriv + 1;
			bool fresh = seen.insert(s.hash()).second;
			if (fresh && sl.reclen < 1500 && samples.size() < 3 && i > 20) samples.push_back(Bytes(sl.rec, sl.rec + sl.reclen));
			if (fresh && !corpus.empty() && kept < 60 && sl.reclen < 4000)
				write_file(fmt("%s/p%d_%llu", corpus.c_str(), w, (unsigned long long) kept++), Bytes(sl.rec, sl.rec + sl.reclen));
		}
	}
	if (!stats.empty())
	{
		FILE *o = fopen(fmt("%s.%d", stats.c_str(), w).c_str(), "a");
		fprintf(o, "done %llu\nnontriv %llu\ndisc %llu\nmaxuse %llu\ncomplete %d\n", (unsigned long long) sl.done, (unsigned long long) sl.nontriv, (unsigned long long) sl.disc, (unsigned long long) maxuse, i >= cases);
		for (auto &l : labels) fprintf(o, "label %llu %s\n", (unsigned long long) l.second, l.first.c_str());
		if (w < 3) for (auto &b : samples)
		{
			Src s(b.data(), b.size()); Ctx c; c.verbose = 1; char m[MSG];
			guarded(s, c, m);
			for (auto &ch : c.log) if (ch == '\n') ch = '\x1f';
			fprintf(o, "sample %s\n", c.log.substr(0, 1500).c_str());
		}
		for (uint64_t h : seen) fprintf(o, "h %llx\n", (unsigned long long) h);
		fclose(o);
	}
	sl.finished = 2;
	_exit(0);
}

int main(int argc, char **argv)
{
	uint64_t seed = 1, cases = 1000; int nw = 8; double maxsec = 60, shrink_s = 20;
	std::string outf = "fail.bin", stats, corpus, replay, shrinkf; bool verbose = false;
	std::vector<std::string> regress;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
		if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(v().c_str(), 0, 10);
		else if (a == "--workers") nw = atoi(v().c_str());
		else if (a == "--maxsec") maxsec = atof(v().c_str());
		else if (a == "--out") outf = v();
		else if (a == "--stats") stats = v();
		else if (a == "--corpus") corpus = v();
		else if (a == "--tmp") tmpdir = v();
		else if (a == "--replay") replay = v();
		else if (a == "--regress") { while (i + 1 < argc) regress.push_back(v()); }
		else if (a == "--confirm") shrinkf = v();
		else if (a == "--case-s") { case_cpu = atof(v().c_str()); case_wall = 3 * case_cpu; }
		else if (a == "--shrink-s") shrink_s = atof(v().c_str());
		else if (a == "--verbose") verbose = true;
		else if (a == "--rule") { puts(prop_rule); return 0; }
		else if (a == "--direct") { Bytes b = read_file(v()); Src s(b.data(), b.size()); Ctx c; c.verbose = 1; prop_init(); try { run_case(s, c); } catch (const Failure &f) { fputs(c.log.c_str(), stdout); printf("FAIL %s\n", f.msg.c_str()); return 1; } fputs(c.log.c_str(), stdout); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	setvbuf(stdout, 0, _IOFBF, 65536);
	signal(SIGPIPE, SIG_IGN);
	prop_init();
	if (!replay.empty())
	{
		auto o = run_batch(std::vector<Bytes>(1, read_file(replay)), case_cpu, case_wall, verbose);
		printf("%s %s\n", o[0].bad ? "FAIL" : "PASS", o[0].msg.c_str());
		return o[0].bad ? 1 : 0;
	}
	if (!regress.empty())
	{
		std::vector<Bytes> v; for (auto &f : regress) v.push_back(read_file(f));
		auto o = run_batch(v, case_cpu, case_wall);
		for (size_t i = 0; i < v.size(); ++i) if (o[i].bad)
		{
			printf("REGRESS %s\n", regress[i].c_str());
			int r = confirm_and_report(v[i], o[i].msg, outf, shrink_s);
			if (r == 1) return 1;
		}
		printf("REGRESSIONS %zu\n", v.size());
		return 0;
	}
	if (!shrinkf.empty()) return confirm_and_report(read_file(shrinkf), "fuzzer artifact", outf, shrink_s);

	slots = (Slot *) mmap(0, sizeof(Slot) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	std::vector<pid_t> pid(nw); std::vector<double> cpu0(nw), t0(nw); std::vector<uint64_t> last(nw);
	auto start = [&](int w) {
		slots[w].finished = 0;
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) { setpgid(0, 0); worker(w, nw, seed, cases, maxsec, stats, corpus); }
		pid[w] = p; cpu0[w] = 0; t0[w] = now(); last[w] = (uint64_t) -1;
	};
	for (int w = 0; w < nw; ++w) { slots[w].idx = w; start(w); }
	int left = nw, rc = 0, unconf = 0;
	auto killall = [&]() { for (int w = 0; w < nw; ++w) if (pid[w] > 0) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); pid[w] = -1; } };
	while (left && !rc)
	{
		for (int w = 0; w < nw && !rc; ++w)
		{
			if (pid[w] <= 0) continue;
			Slot &s = slots[w];
			int st; std::string why;
			if (waitpid(pid[w], &st, WNOHANG) == pid[w])
			{
				pid_t old = pid[w]; pid[w] = -1;
				if (s.finished == 2) { --left; continue; }
				kill(-old, SIGKILL);
				why = s.finished == 1 ? std::string(s.msg) : crash_text(st, fmt("%s/werr.%d", tmpdir.c_str(), w));
			}
			else
			{
				double c = cpu_of(pid[w]);
				if (s.idx != last[w]) { last[w] = s.idx; cpu0[w] = c; t0[w] = now(); continue; }
				if (c - cpu0[w] < case_cpu && now() - t0[w] < case_wall) continue;
				why = "no end";
				kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); pid[w] = -1;
			}
			Bytes b(s.rec, s.rec + s.reclen);
			std::vector<Bytes> v(3, b);
			killall();
			rc = confirm_and_report(b, why, outf, shrink_s);
			if (rc == 3 && ++unconf < 3)
			{	// state carried over or a one-off: note it and go on
				rc = 0; left = 0;
				for (int k = 0; k < nw; ++k)
				{
					if (slots[k].finished == 2) continue;
					slots[k].idx = slots[k].idx + nw; start(k); ++left;
				}
			}
		}
		usleep(2000);
	}
	killall();
	uint64_t done = 0; for (int w = 0; w < nw; ++w) done += slots[w].done;
	printf("DONE %llu cases\n", (unsigned long long) done);
	return rc == 1 ? 1 : 0;
}
