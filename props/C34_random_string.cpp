// @pbt quick=6000 thorough=100000 maxlen=300 cov=0 maxsec=40 wrap=open,open64,read,srandom,getrandom,close
#include "pbt.h"
#include "child.h"
#include <fcntl.h>
#include <math.h>
#include <stdarg.h>
#include <coda/string.hpp>
#include <coda/random.h>

const char *prop_id = "C34";
const char *prop_rule = "in a fresh process per case: 1-12 random strings of lengths 0-300000 over alphabets of 1-300 arbitrary bytes (zero, repeated and high bytes included), some of up to 131072, in an exact-size buffer, the seed being generated (reads of /dev/urandom are answered by the case), optionally with the first open or read of the device failing, some processes without standard input. Oracle: length, membership, chi-square and occurrence of every character for long strings, difference of consecutive strings, counts of device opens and seedings, descriptors, difference of the strings of two processes whose seeds differ in one bit. Non-trivial: at least two strings over two or more characters.";

static uint32_t seed; static int opens, seeds, devfd = -1, fail_open, fail_read; static bool hook;
static const char *DEV = "/dev/urandom";
extern "C" {
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); void __real_srandom(unsigned); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_close(int);
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	if (!hook || (strcmp(p, DEV) && strcmp(p, "/dev/random"))) return __real_open(p, fl, mode);
	++opens;
	if (fail_open > 0) { --fail_open; errno = EMFILE; return -1; }
	devfd = __real_open("/dev/zero", fl, mode); return devfd;
}
int __wrap_open64(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	return __wrap_open(p, fl, mode);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!hook || fd != devfd) return __real_read(fd, b, n);
	if (fail_read > 0) { --fail_read; errno = EIO; return -1; }
	for (size_t i = 0; i < n; ++i) ((uint8_t *) b)[i] = (uint8_t) (seed >> (8 * (i & 3)));
	return n;
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((uint8_t *) b)[i] = (uint8_t) (seed >> (8 * (i & 3))); return n; }
int __wrap_close(int fd) { if (fd == devfd) devfd = -1; return __real_close(fd); }
void __wrap_srandom(unsigned v) { if (hook) ++seeds; __real_srandom(v); }
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	seed = s.below(0x100000000ull);
	std::string alpha;
	switch (s.weighted({ 6, 6, 4, 4, 1 }))
	{
		case 4: { size_t n = s.oneof<size_t>({ 30000, 65537, 70000, 1 << 17, 100000 }), k = n / 2 + s.below(n / 4); alpha = std::string(k, 'a'); for (size_t i = k; i < n; ++i) alpha += (char) ('b' + i % 3); break; }
		case 0: alpha = std::string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789").substr(0, 1 + s.below(62)); break;
		case 1: { size_t n = 1 + s.below(8); for (size_t i = 0; i < n; ++i) alpha += (char) s.byte(); break; }
		case 2: { size_t n = 1 + s.below(256); uint8_t b = s.byte(); for (size_t i = 0; i < n; ++i) alpha += (char) (b + i); break; }
		default: alpha = s.bytes(1 + s.below(300)); break;
	}
	fail_open = s.chance(20) ? 1 + s.below(2) : 0; fail_read = s.chance(20) ? 1 + s.below(2) : 0;
	std::vector<size_t> lens; size_t n = 1 + s.below(4) + (s.chance(40) ? s.below(9) : 0);
	for (size_t i = 0; i < n; ++i) switch (s.weighted({ 5, 3, 2 })) { case 0: lens.push_back(s.below(40)); break; case 1: lens.push_back(s.len(2000)); break; default: lens.push_back(20000 + s.below(280000)); break; }
	int presets = s.below(3); bool nostdin = s.chance(30);
	std::set<char> distinct(alpha.begin(), alpha.end());
	c.say("seed %08x, alphabet of %zu bytes (%zu distinct) %s, %d failing opens, %d failing reads", seed, alpha.size(), distinct.size(), show(alpha.substr(0, 40)).c_str(), fail_open, fail_read);
	c.nontrivial(n > 1 && distinct.size() > 1);
	c.label(fail_open ? "device does not open" : fail_read ? "device does not read" : "normal");
	in_child(c, [&](Ctx &c) {
		opens = seeds = 0; int faults = fail_open + fail_read;
		if (nostdin) { close(0); c.say("standard input is closed"); }
		int fds = pbt::count_fds();
		hook = true;
		for (int i = 0; i < presets; ++i)
		{
			int o = fail_open, q = fail_read, rc = coda_random_init(); bool failed = o != fail_open || q != fail_read;
			CHECK((rc == 0) == !failed, "coda_random_init returns %d although the device %s", rc, failed ? "failed" : "did not fail");
		}
		std::string prev; bool have = false;
		std::map<char, size_t> weight; for (char ch : alpha) ++weight[ch];
		for (size_t i = 0; i < n; ++i)
		{
			Exact a(alpha);
			std::string r = coda_random_string(lens[i], a, a.size());
			c.say("string %zu of %zu bytes", i, lens[i]);
			CHECK(r.size() == lens[i], "asked for %zu characters, got %zu", lens[i], r.size());
			std::map<char, size_t> cnt;
			for (size_t j = 0; j < r.size(); ++j) { CHECK(distinct.count(r[j]), "character %s at %zu is not in the alphabet", show(&r[j], 1).c_str(), j); ++cnt[r[j]]; }
			size_t k = distinct.size();
			if (r.size() >= (alpha.size() > 300 ? 400 : 60 * alpha.size()) && k > 1)
			{
				double chi = 0;
				for (auto &w : weight)
				{
					double e = (double) r.size() * w.second / alpha.size(), d = cnt[w.first] - e;
					CHECK(cnt[w.first], "character %s never occurs in %zu characters over an alphabet of %zu", show(&w.first, 1).c_str(), r.size(), alpha.size());
					chi += d * d / e;
				}
				double lim = (k - 1) + 9 * sqrt(2.0 * (k - 1)) + 40;
				CHECK(chi < lim, "the %zu characters are unevenly spread over %zu (chi-square %.1f)", r.size(), k, chi);
			}
			// both long enough to differ
			size_t m = std::min(r.size(), prev.size());
			double maxw = 0; for (auto &w : weight) maxw = std::max(maxw, (double) w.second / alpha.size());
			if (have && maxw < 1 && m * -log2(maxw) > 80) CHECK(r.substr(0, m) != prev.substr(0, m), "two consecutive strings are the same: %s", show(r.substr(0, 60)).c_str());
			prev = r; have = true;
			CHECK(seeds <= 1, "seeded %d times", seeds);
			CHECK(opens <= 1 + faults, "device opened %d times with %d failures", opens, faults);
		}
		hook = false;
		CHECK(pbt::count_fds() == fds, "a descriptor was left open: %s", pbt::list_fds().c_str());
	});
	// a process that drew another seed makes other strings
	double top = 0; { std::map<char, size_t> w; for (char ch : alpha) top = std::max(top, (double) ++w[ch] / alpha.size()); }
	uint32_t other = seed ^ (1u << s.below(32));
	if (!fail_open && !fail_read && top < 0.9 && seed > 1 && other > 1 && s.below(2))
	{
		static char (*box)[600]; if (!box) box = (char (*)[600]) mmap(0, 1200, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		uint32_t keep = seed; c.say("a process with seed %08x and one with %08x", seed, other); c.label("two processes");
		for (int k = 0; k < 2; ++k)
		{
			seed = k ? other : keep;
			in_child(c, [&](Ctx &) { hook = true; std::string r = coda_random_string(600, alpha.data(), alpha.size()); hook = false; memcpy(box[k], r.data(), std::min<size_t>(600, r.size())); });
		}
		seed = keep;
		CHECK(memcmp(box[0], box[1], 600), "processes that were seeded with %08x and %08x make the same string %s", keep, other, show(box[0], 60).c_str());
	}
}
