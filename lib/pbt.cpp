#include "pbt.h"
#include <dirent.h>
#include <sys/mman.h>
#include <unistd.h>
#if PBT_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a,n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a,n) ((void)0)
#endif
#include <atomic>

namespace pbt {

bool guided;
std::string stretch(Src &s, std::string t, const std::string &unit)
{
	size_t goal = s.oneof<size_t>({ 256, 512, 128, 1024, 4096, 32768, 65536, 131072, 65536 }), n = goal + s.below(24) - 8, at = s.below(t.size() + 1);
	if (pbt::guided && n > 5000) n = 256 + n % 32;
	if (n <= t.size() || unit.empty()) return t;
	std::string f; f.reserve(n); while (f.size() < n - t.size()) f += unit;
	f.resize(n - t.size()); t.insert(at, f);
	return t;
}

std::string vfmt(const char *f, va_list ap)
{
	va_list b; va_copy(b, ap);
	int n = vsnprintf(0, 0, f, b); va_end(b);
	std::string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap);
	s.resize(n);
	return s;
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
void fail(const char *f, ...) { va_list ap; va_start(ap, f); Failure x; x.msg = vfmt(f, ap); va_end(ap); throw x; }
void Ctx::say(const char *f, ...)
{
	if (!verbose) return;
	va_list ap; va_start(ap, f); std::string t = vfmt(f, ap) + '\n'; va_end(ap);
	if (verbose == 2) { ssize_t k = write(1, t.data(), t.size()); (void) k; } else log += t;
}
std::string show(const void *p, size_t n)
{
	const unsigned char *s = (const unsigned char *) p;
	std::string r = "\"";
	for (size_t i = 0; i < n; ++i)
	{
		if (i == 600) { r += fmt("...(%zu bytes)", n); break; }
		if (s[i] == '"' || s[i] == '\\') { r += '\\'; r += s[i]; }
		else if (s[i] >= 32 && s[i] < 127) r += s[i];
		else r += fmt("\\x%02x", s[i]);
	}
	return r + "\"";
}

void Exact::init(size_t n)
{
	n_ = n;
	if (n) { base_ = p_ = (char *) malloc(n); return; }
	base_ = (char *) malloc(32); p_ = base_ + 16;
	ASAN_POISON_MEMORY_REGION(base_, 32);
}
Exact::~Exact() { if (!n_) ASAN_UNPOISON_MEMORY_REGION(base_, 32); free(base_); }

Vast::Vast(size_t n) : map_(0), p_(0), n_(n), mapped_(0)
{
	size_t r = (n + 4095) / 4096 * 4096;
	void *m = mmap(0, r + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) return;
	map_ = (char *) m; mapped_ = r + 4096;
	mprotect(map_ + r, 4096, PROT_NONE);
	madvise(map_, r, MADV_NOHUGEPAGE);
	p_ = map_ + (r - n);
}
Vast::~Vast() { if (map_) munmap(map_, mapped_); }

static std::atomic<long> g_live(0);
static void on_malloc(const volatile void *, size_t) { g_live.fetch_add(1, std::memory_order_relaxed); }
static void on_free(const volatile void *p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }
#if PBT_ASAN
static int g_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif

long live_blocks() { return g_live.load(std::memory_order_relaxed); }

void leakcheck(const char *what, const std::function<void()> &f)
{
	long a = live_blocks();
	f();
	long b = live_blocks();
	if (b <= a) return;
	// the first call may have filled caches of the C library
	a = live_blocks();
	f();
	b = live_blocks();
	if (b > a) fail("%s: %ld block(s) allocated and not released", what, b - a);
}

std::string list_fds()
{
	std::string r;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return r;
	int self = dirfd(d);
	while (struct dirent *e = readdir(d))
	{
		if (e->d_name[0] == '.' || atoi(e->d_name) == self) continue;
		char l[512]; std::string p = std::string("/proc/self/fd/") + e->d_name;
		ssize_t n = readlink(p.c_str(), l, sizeof(l) - 1);
		if (n < 0) continue;
		l[n] = 0;
		r += std::string(e->d_name) + "=" + l + " ";
	}
	closedir(d);
	return r;
}
int count_fds()
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') ++n;
	closedir(d);
	return n - 1;
}

} // namespace pbt
