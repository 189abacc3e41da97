#include "fiber.h"
#include <cxxabi.h>
#include <exception>
#include <sys/mman.h>
#include <unordered_set>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

extern "C" void fib_switch(void **save, void *to);
asm(".text\n.globl fib_switch\n.type fib_switch,@function\nfib_switch:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size fib_switch,.-fib_switch\n");

namespace fib {

enum { STK = 256 << 10, MAXF = 12 };
struct F {
	void *sp; char *stk; State st; std::function<void()> body; std::function<bool()> ready; int flags;
	Wake wake; bool quiet; bool armed; long pts; struct { void *caught; unsigned n; } eh; bool failed; std::string msg; bool disc; int hush;
};
static F f[MAXF]; static int nf, cur = -1; static void *main_sp; static long quantum, points; static const Options *opt; static uint64_t clk;
struct R { uintptr_t a, b; }; static std::vector<R> ranges; static bool all;
static struct { void *caught; unsigned n; } main_eh;

int self() { return cur; }
bool active() { return cur >= 0 && f[cur].armed; }
uint64_t tick() { return ++clk; }
bool quiescent_timeout() { return cur >= 0 && f[cur].quiet; }
State state(int i) { return f[i].st; }
void watch_clear() { ranges.clear(); all = false; clk = 0; }
void watch(const void *p, size_t n) { R r = { (uintptr_t) p, (uintptr_t) p + n }; ranges.push_back(r); }
void unwatch(const void *p) { for (size_t i = 0; i < ranges.size(); ++i) if (ranges[i].a == (uintptr_t) p) { ranges.erase(ranges.begin() + i); return; } }
void watch_all(bool on) { all = on; }

int hushed;
Hush::Hush() : who(cur) { ++hushed; if (who >= 0) ++f[who].hush; }
Hush::~Hush() { --hushed; if (who >= 0) --f[who].hush; }
static void to_main()
{
	F &me = f[cur]; void *eh = __cxxabiv1::__cxa_get_globals();
	memcpy(&me.eh, eh, sizeof me.eh); memcpy(eh, &main_eh, sizeof main_eh);
	fib_switch(&me.sp, main_sp);
}
static void to_fiber(int i)
{
	cur = i; void *eh = __cxxabiv1::__cxa_get_globals();
	memcpy(&main_eh, eh, sizeof main_eh); memcpy(eh, &f[i].eh, sizeof main_eh);
	fib_switch(&main_sp, f[i].sp);
	cur = -1;
}
static void entry()
{
	F &me = f[cur];
	try { me.body(); }
	catch (const pbt::Failure &e) { me.failed = true; me.msg = e.msg; }
	catch (const pbt::Discard &) { me.disc = true; }
	catch (const std::exception &e) { me.failed = true; me.msg = std::string("uncaught exception: ") + e.what(); }
	me.armed = false; me.st = DONE;
	to_main();
	abort();
}
void point()
{
	if (cur < 0 || !f[cur].armed) return;
	F &me = f[cur];
	++points; ++me.pts;
	if (cur == opt->crash_proc && me.pts == opt->crash_at) { me.st = CRASHED; to_main(); }
	if (points > opt->max_points || --quantum <= 0) to_main();
}
Wake block(const std::function<bool()> &ready, int flags)
{
	if (cur < 0) { if (ready()) return OK; if (flags & (TIMED_SHORT | TIMED_LONG)) return TIMEOUT; fprintf(stderr, "an operation blocks for ever although nothing else is running\n"); pbt::fail("an operation blocks for ever although nothing else is running"); }
	point();
	if (ready()) return OK;
	F &me = f[cur]; Hush hush;
	me.ready = ready; me.flags = flags; me.st = BLOCKED; me.wake = OK; me.quiet = false;
	++me.pts; if (cur == opt->crash_proc && me.pts == opt->crash_at) me.st = CRASHED;
	to_main();
	return me.wake;
}
Op::Op() : inv(tick()), open(true) { if (cur >= 0) f[cur].armed = true; }
uint64_t Op::end() { if (open) { open = false; if (cur >= 0) f[cur].armed = false; } return tick(); }
Op::~Op() { if (open) end(); }

Result run(Src &s, const Options &o, const std::vector<std::function<void()>> &body)
{
	Result r; r.timeouts = r.interrupts = r.switches = 0; r.crashed = -1;
	nf = body.size(); opt = &o; points = 0;
	if (nf > MAXF) abort();
	for (int i = 0; i < nf; ++i)
	{
		F &x = f[i];
		if (!x.stk)
		{
			x.stk = (char *) mmap(0, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(x.stk, 4096, PROT_NONE);
		}
		x.st = READY; x.body = body[i]; x.armed = false; x.pts = 0; x.eh.caught = 0; x.eh.n = 0; x.failed = x.disc = false; x.quiet = false; x.wake = OK; x.ready = nullptr; x.hush = 0;
		void **sp = (void **) (x.stk + STK);
		*--sp = 0; *--sp = (void *) entry;          // rsp is 8 mod 16 at entry
		for (int k = 0; k < 6; ++k) *--sp = 0;
		x.sp = sp;
	}
	std::string bad; bool disc = false;
	for (;;)
	{
		int go[MAXF], n = 0, idle[MAXF], m = 0, done = 0;
		for (int i = 0; i < nf; ++i)
		{
			F &x = f[i];
			if (x.st == READY || (x.st == BLOCKED && x.ready())) go[n++] = i;
			else if (x.st == BLOCKED) idle[m++] = i;
			else ++done;
		}
		if (points > o.max_points) { bad = fmt("no end after %ld steps", points); break; }
		int who; bool quiet = false; Wake wake = OK;
		int intr[MAXF], k = 0;
		for (int i = 0; i < m; ++i) if (((f[idle[i]].flags & INTERRUPTIBLE) && o.interrupts) || (f[idle[i]].flags & TIMED_SHORT)) intr[k++] = idle[i];
		if (n && k && s.chance(20))
		{
			who = intr[s.below(k)];
			bool can_i = (f[who].flags & INTERRUPTIBLE) && o.interrupts, can_t = f[who].flags & TIMED_SHORT;
			wake = can_i && can_t ? s.below(2) ? TIMEOUT : INTR : can_i ? INTR : TIMEOUT;
		}
		else if (n) who = go[n > 1 ? s.below(n) : 0];
		else
		{
			int t[MAXF], q = 0;
			for (int i = 0; i < m; ++i) if (f[idle[i]].flags & (TIMED_SHORT | TIMED_LONG)) t[q++] = idle[i];
			if (!q) break;
			who = t[q > 1 ? s.below(q) : 0]; wake = TIMEOUT; quiet = true;
		}
		if (wake == TIMEOUT) ++r.timeouts;
		if (wake == INTR) ++r.interrupts;
		F &x = f[who]; x.st = READY; x.wake = wake; x.quiet = quiet;
		if (nf - done > 1) { uint8_t b = s.byte(); quantum = b < 90 ? 1L << 40 : b < 180 ? 1 + s.below(8) : 1 + s.below(150); }
		else quantum = 1L << 40;
		++r.switches;
		to_fiber(who);
		if (x.st == CRASHED && r.crashed < 0) { r.crashed = who; x.armed = false; if (o.on_crash) o.on_crash(who); }
		if (x.failed) { bad = x.msg; break; }
		if (x.disc) { disc = true; break; }
	}
	r.points = points;
	for (int i = 0; i < nf; ++i) { r.st.push_back(f[i].st); r.pts.push_back(f[i].pts); f[i].ready = nullptr; if (f[i].st == DONE) f[i].body = nullptr; f[i].armed = false; }
	if (disc) throw pbt::Discard();
	if (!bad.empty()) pbt::fail("%s", bad.c_str());
	return r;
}

bool linearizable(const std::vector<LinOp> &ops, const std::string &init, const std::function<void(const std::string &, int, uint64_t, std::vector<std::string> &)> &next)
{
	size_t n = ops.size();
	if (n > 60) abort();
	std::unordered_set<std::string> seen;
	uint64_t need = 0; for (size_t i = 0; i < n; ++i) if (!ops[i].optional) need |= 1ull << i;
	long steps = 0;
	std::function<bool(uint64_t, const std::string &)> go = [&](uint64_t mask, const std::string &st) -> bool {
		if ((mask & need) == need) return true;
		if (++steps > 3000000) throw pbt::Discard();
		std::string key((char *) &mask, sizeof mask); key += st;
		if (!seen.insert(key).second) return false;
		uint64_t lim = ~0ull;
		for (size_t i = 0; i < n; ++i) if (!(mask >> i & 1)) lim = std::min(lim, ops[i].ret);
		std::vector<std::string> out;
		for (size_t i = 0; i < n; ++i)
		{
			if (mask >> i & 1 || ops[i].inv > lim) continue;
			out.clear(); next(st, i, mask, out);
			for (auto &o : out) if (go(mask | 1ull << i, o)) return true;
		}
		return false;
	};
	return go(0, init);
}

} // namespace fib

// ---- what code compiled with -fsanitize=thread calls at every access ----
static inline void touch(const void *p)
{
	using namespace fib;
	if (cur < 0 || !f[cur].armed || f[cur].hush || opt->sync_only) return;
	uintptr_t a = (uintptr_t) p;
	if (all) { if (a >= (uintptr_t) f[cur].stk && a < (uintptr_t) f[cur].stk + STK + 8192) return; point(); return; }
	for (auto &r : ranges) if (a >= r.a && a < r.b) { point(); return; }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(sz) \
	void __tsan_read##sz(void *p) { touch(p); } void __tsan_write##sz(void *p) { touch(p); } \
	void __tsan_unaligned_read##sz(void *p) { touch(p); } void __tsan_unaligned_write##sz(void *p) { touch(p); } \
	void __tsan_volatile_read##sz(void *p) { touch(p); } void __tsan_volatile_write##sz(void *p) { touch(p); } \
	void __tsan_unaligned_volatile_read##sz(void *p) { touch(p); } void __tsan_unaligned_volatile_write##sz(void *p) { touch(p); } \
	void __tsan_read_write##sz(void *p) { touch(p); } void __tsan_unaligned_read_write##sz(void *p) { touch(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t) { touch(p); }
void __tsan_write_range(void *p, size_t) { touch(p); }
// block operations in pieces, as other processes may see them
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	if (!fib::active()) return memcpy(d, s, n);
	for (size_t i = 0; i < n; i += 8) { touch((const char *) s + i); touch((char *) d + i); memcpy((char *) d + i, (const char *) s + i, n - i < 8 ? n - i : 8); }
	return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) { if (!fib::active()) return memmove(d, s, n); touch(s); touch(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n)
{
	if (!fib::active()) return memset(d, v, n);
	for (size_t i = 0; i < n; i += 8) { touch((char *) d + i); memset((char *) d + i, v, n - i < 8 ? n - i : 8); }
	return d;
}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int) { touch((const void *) p); return __atomic_load_n(p, 5); } \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int) { touch((const void *) p); __atomic_store_n(p, v, 5); } \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { touch((const void *) p); return __atomic_exchange_n(p, v, 5); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { touch((const void *) p); return __atomic_fetch_add(p, v, 5); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { touch((const void *) p); return __atomic_fetch_sub(p, v, 5); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { touch((const void *) p); return __atomic_fetch_and(p, v, 5); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { touch((const void *) p); return __atomic_fetch_or(p, v, 5); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { touch((const void *) p); return __atomic_fetch_xor(p, v, 5); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { touch((const void *) p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { touch((const void *) p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { touch((const void *) p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
