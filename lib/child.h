// Run part of a case in a process of its own and carry its verdict back.
#pragma once
#include "pbt.h"
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>

struct ChildBox { volatile int state; char msg[6000]; char log[60000]; volatile size_t loglen; uint64_t hash; char labels[4000]; };

// f runs in a child (src: the choice stream, if f goes on drawing from it); a Failure there fails the case here, a crash there crashes here
static inline void in_child(Ctx &c, const std::function<void(Ctx &)> &f, double limit = 20, Src *src = 0)
{
	static ChildBox *box;
	if (!box) box = (ChildBox *) mmap(0, sizeof(ChildBox), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	box->state = 0; box->msg[0] = 0; box->loglen = 0; box->hash = 0; box->labels[0] = 0;
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) throw pbt::Discard();
	if (p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		Ctx k; k.verbose = c.verbose; std::map<std::string, uint64_t> lab; k.labels = &lab;
		int st = 1;
		try { f(k); }
		catch (const pbt::Failure &e) { st = 2; snprintf(box->msg, sizeof box->msg, "%s", e.msg.c_str()); }
		catch (const pbt::Discard &) { st = 3; }
		catch (const std::exception &e) { st = 2; snprintf(box->msg, sizeof box->msg, "uncaught exception: %s", e.what()); }
		if (k.cleanup) { try { k.cleanup(k); } catch (...) {} }
		size_t n = std::min(k.log.size(), sizeof box->log); memcpy(box->log, k.log.data(), n); box->loglen = n;
		std::string ls; for (auto &l : lab) ls += l.first + "\n"; snprintf(box->labels, sizeof box->labels, "%s", ls.c_str());
		if (src) box->hash = src->hash();
		fflush(stdout);
		box->state = st | (k.nontriv ? 16 : 0);
		_exit(0);
	}
	int st = 0; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned spin = 0;
	for (;;)
	{
		pid_t w = waitpid(p, &st, limit > 0 ? WNOHANG : 0);
		if (w == p) break;
		struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
		if (t.tv_sec - t0.tv_sec > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); pbt::fail("no end after %.0f s", limit); }
		if (++spin < 20) usleep(50); else usleep(300);
	}
	c.log.append(box->log, box->loglen);
	if (src) src->note(box->hash);
	for (char *l = strtok(box->labels, "\n"); l; l = strtok(0, "\n")) c.label(l);
	int s = box->state & 15;
	if (box->state & 16) c.nontriv = true;
	if (s == 0)
	{
		fprintf(stderr, "ERROR in a child process: %s %d\n", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		abort();
	}
	if (s == 2) pbt::fail("%s", box->msg);
	if (s == 3) throw pbt::Discard();
}
