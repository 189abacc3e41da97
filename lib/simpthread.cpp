#include "simpthread.h"
#include "fiber.h"
#include <errno.h>
#include <pthread.h>
namespace simpth { bool misuse; std::string misuse_msg; uint64_t waited_at[16]; bool spurious[16]; }
using namespace simpth;
// ---- mutexes and condition variables of the case ----
struct Mx { int owner; bool live; };
struct Cv { std::vector<int> waiting; bool live; };
static std::map<void *, Mx> mxs; static std::map<void *, Cv> cvs; static Src *src; 
static int me() { return fib::self() < 0 ? 100 : fib::self(); }
static void bad(const char *m) { if (!misuse) { misuse = true; misuse_msg = m; } }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { fib::Hush hush; Mx x = { -1, true }; mxs[m] = x; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { fib::Hush hush; mxs.erase(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { fib::Hush hush; fib::point(); if (!mxs.count(m)) { bad("a mutex used that was not initialized"); return EINVAL; } if (mxs[m].owner >= 0) return EBUSY; mxs[m].owner = me(); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{ fib::Hush hush;
	if (!mxs.count(m)) return __real_pthread_mutex_lock(m);
	Mx *x = &mxs[m];
	fib::block([x] { return x->owner < 0; }, 0);
	x->owner = me();
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{ fib::Hush hush;
	if (!mxs.count(m)) return __real_pthread_mutex_unlock(m);
	if (mxs[m].owner != me()) bad("a mutex unlocked by a thread that does not hold it");
	mxs[m].owner = -1; fib::point();
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { fib::Hush hush; Cv x; x.live = true; cvs[c] = x; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { fib::Hush hush; cvs.erase(c); return 0; }
static int wait(pthread_cond_t *c, pthread_mutex_t *m, int flags)
{ fib::Hush hush;
	fib::point();
	if (!cvs.count(c) || !mxs.count(m)) { bad("a condition used that was not initialized"); return EINVAL; }
	if (mxs[m].owner != me()) bad("waiting without holding the mutex");
	Cv *v = &cvs[c]; Mx *x = &mxs[m]; int self = me();
	x->owner = -1; v->waiting.push_back(self); if (self < 16 && !waited_at[self]) waited_at[self] = fib::tick();
	auto in = [v, self] { return std::find(v->waiting.begin(), v->waiting.end(), self) != v->waiting.end(); };
	fib::Wake w = fib::block([in] { return !in(); }, flags | fib::INTERRUPTIBLE);
	if (in()) { v->waiting.erase(std::find(v->waiting.begin(), v->waiting.end(), self)); if (w == fib::INTR && self < 16) spurious[self] = true; }
	fib::block([x] { return x->owner < 0; }, 0);
	x->owner = self;
	return w == fib::TIMEOUT ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { fib::Hush hush; return wait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { fib::Hush hush; return wait(c, m, fib::TIMED_LONG); }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{ fib::Hush hush;
	fib::point();
	if (!cvs.count(c)) { bad("a condition used that was not initialized"); return EINVAL; }
	Cv &v = cvs[c];
	if (!v.waiting.empty()) v.waiting.erase(v.waiting.begin() + (v.waiting.size() > 1 ? src->below(v.waiting.size()) : 0));
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { fib::Hush hush; fib::point(); if (cvs.count(c)) cvs[c].waiting.clear(); return 0; }
}


void simpth::reset(Src *s) { mxs.clear(); cvs.clear(); src = s; misuse = false; memset(waited_at, 0, sizeof waited_at); memset(spurious, 0, sizeof spurious); }
