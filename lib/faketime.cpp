// --wrap=time,gettimeofday,clock_gettime: a clock the case sets
#include "faketime.h"
#include <errno.h>
#include <sys/time.h>
bool fake_time_on; int64_t fake_sec; int32_t fake_usec;
extern "C" time_t __real_time(time_t *); extern "C" int __real_gettimeofday(struct timeval *, void *); extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" time_t __wrap_time(time_t *t)
{
	if (!fake_time_on) return __real_time(t);
	if (t) *t = fake_sec;
	return fake_sec;
}
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	if (!fake_time_on) return __real_gettimeofday(tv, z);
	tv->tv_sec = fake_sec; tv->tv_usec = fake_usec; return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!fake_time_on || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return __real_clock_gettime(c, ts);
	ts->tv_sec = fake_sec; ts->tv_nsec = fake_usec * 1000L; return 0;
}
