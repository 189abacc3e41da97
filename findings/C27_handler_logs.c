/* Known finding, property C27: a handled signal that arrives while the process logs can stop it for ever,
   because the handler itself logs (localtime_r and stdio are not safe in a handler).
   cc -I/repo C27_handler_logs.c -o w /repo/coda/{daemon,logger,system}.c && ./w   (prints "hangs" after some milliseconds) */
#define _GNU_SOURCE
#include <coda/coda.h>
#include <coda/daemon.h>
#include <coda/logger.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
	pid_t p = fork(), me; int i, st;
	if (!p)
	{
		me = getpid();
		dup2(open("/dev/null", O_WRONLY), 2);
		coda_signal_init();
		if (!fork()) { while (!kill(me, SIGUSR1)) usleep(50); _exit(0); }
		for (i = 0; i < 300000; ++i) log_info("message %d", i);
		_exit(0);
	}
	for (i = 0; i < 100; ++i) { if (waitpid(p, &st, WNOHANG) == p) { puts("goes on"); return 0; } usleep(100000); }
	puts("hangs"); kill(p, SIGKILL); return 1;
}
