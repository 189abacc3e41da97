// programs that use log_ret and log_die as documented: does this compile?
#include <stdlib.h>
#include <errno.h>
#include <coda/error.h>
#include <coda/logger.h>
static int a(int n) { return log_ret(n, "text %d", n); }
static int b() { int r = log_ret(errno, "text"); return r; }
static int c(int n) { if (n) log_die(n, "%s", "text"); else n = 3; return n; }
static void d(int tv, int tmloc, const char *tname) { log_info("%d %d %s", tv & 7, tmloc & 7, tname); }
int main() { d(1, 2, ""); return a(1) + b() + c(0); }
