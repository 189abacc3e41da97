// Property-based testing core: choice streams, generators, checks.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <initializer_list>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

std::string vfmt(const char *f, va_list ap);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string show(const void *p, size_t n);            // printable, quoted
inline std::string show(const std::string &s) { return show(s.data(), s.size()); }

#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

static inline uint64_t mix64(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

// Where every decision of a case comes from. Replaying: bytes from a buffer,
// zeros once it is used up. Generating: bytes from a PRNG, appended to `rec`.
class Src {
	const uint8_t *in_; size_t n_, pos_;
	uint8_t *rec_; size_t reccap_; volatile uint32_t *reclen_;
	uint64_t st_;
	uint64_t hash_;
	bool gen_;
public:
	Src(const uint8_t *d, size_t n) : in_(d), n_(n), pos_(0), rec_(0), reccap_(0), reclen_(0), st_(0), hash_(0), gen_(false) {}
	Src(uint64_t seed, uint8_t *rec, size_t cap, volatile uint32_t *len)
		: in_(0), n_(0), pos_(0), rec_(rec), reccap_(cap), reclen_(len), st_(seed), hash_(0), gen_(true) { *reclen_ = 0; }

	uint8_t byte()
	{
		if (!gen_) return pos_ < n_ ? in_[pos_++] : (++pos_, 0);
		if (*reclen_ >= reccap_) { ++pos_; return 0; }
		st_ += 0x9e3779b97f4a7c15ull;
		uint8_t b = (uint8_t) (mix64(st_) >> 24);
		rec_[*reclen_] = b; *reclen_ = *reclen_ + 1; ++pos_;
		return b;
	}
	bool exhausted() const { return gen_ ? *reclen_ >= reccap_ : pos_ >= n_; }
	size_t consumed() const { return pos_; }
	void note(uint64_t v) { hash_ = mix64(hash_ ^ (v + 0x1234567)); }
	uint64_t hash() const { return hash_; }

	uint64_t raw(int bytes) { uint64_t v = 0; while (bytes--) v = v << 8 | byte(); return v; }
	// uniform-ish in [0, n), n >= 1; 0 is the simplest
	uint64_t below(uint64_t n)
	{
		uint64_t v;
		if (n <= 1) return 0;
		if (n <= 0x100) v = byte() % n;
		else if (n <= 0x10000) v = raw(2) % n;
		else if (n <= 0x100000000ull) v = raw(4) % n;
		else v = raw(8) % n;
		note(v);
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
	uint64_t u64() { uint64_t v = raw(8); note(v); return v; }
	// true with probability p/256; false is the simplest
	bool chance(int p) { bool v = byte() >= 256 - p; note(v); return v; }
	// "one more element?" with the given mean length; the simplest answer is no
	bool more(int mean) { bool v = byte() >= 256 / (mean + 1); note(v); return v; }
	size_t weighted(std::initializer_list<int> w)
	{
		int sum = 0; for (int x : w) sum += x;
		int r = sum <= 256 ? (int) (byte() % sum) : (int) (raw(2) % sum);
		size_t i = 0;
		for (int x : w) { if (r < x) break; r -= x; ++i; }
		note(i);
		return i;
	}
	template <class C> auto pick(const C &c) -> decltype(c[0]) { return c[below(c.size())]; }
	template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

	// a length 0..max, mostly small, sometimes anywhere up to max
	size_t len(size_t max)
	{
		size_t v;
		switch (weighted({ 5, 6, 4, 2 }))
		{
			case 0: v = below(std::min<size_t>(max, 4) + 1); break;
			case 1: v = below(std::min<size_t>(max, 16) + 1); break;
			case 2: v = below(std::min<size_t>(max, 80) + 1); break;
			default: v = below(max + 1); break;
		}
		return v;
	}
	// an integer with interesting magnitudes
	uint64_t big()
	{
		switch (weighted({ 4, 3, 3, 3, 2 }))
		{
			case 0: return below(16);
			case 1: return below(1000);
			case 2: { uint64_t p = 1ull << below(64); return p + below(3) - 1; }
			case 3: { // powers of ten and neighbours
				uint64_t p = 1; size_t k = below(20); while (k--) p *= 10; return p + below(3) - 1; }
			default: { uint64_t v = u64(); return v >> below(64); }
		}
	}
	std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) { s[i] = (char) byte(); note((uint8_t) s[i]); } return s; }
	std::string from(const std::string &alpha, size_t n)
	{ std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = alpha[below(alpha.size())]; return s; }
	// bytes of mixed classes
	std::string blob(size_t max)
	{
		size_t n = len(max);
		switch (weighted({ 3, 2, 2, 2 }))
		{
			case 0: return bytes(n);
			case 1: return std::string(n, (char) byte());
			case 2: { std::string s(n, 0); for (auto &c : s) { int k = below(4); c = k == 0 ? 0 : k == 1 ? (char) 0xff : (char) byte(); note((uint8_t) c); } return s; }
			default: { std::string s(n, 0); for (auto &c : s) { c = (char) (' ' + byte() % 95); note((uint8_t) c); } return s; }
		}
	}
};

struct Ctx {
	int verbose;                           // 1: collect, 2: print at once
	bool nontriv;
	std::string log;                       // what the case did (verbose only)
	std::map<std::string, uint64_t> *labels;
	std::function<void(Ctx &)> cleanup;
	Ctx() : verbose(0), nontriv(false), labels(0) {}
	void say(const char *f, ...) __attribute__((format(printf, 2, 3)));
	void nontrivial(bool b = true) { if (b) nontriv = true; }
	void label(const char *l) { if (labels) ++(*labels)[l]; }
	void label(const std::string &l) { if (labels) ++(*labels)[l]; }
};

// a block of exactly n bytes, with both neighbours off limits under ASan
class Exact {
	char *base_, *p_; size_t n_;
	Exact(const Exact &); void operator=(const Exact &);
	void init(size_t n);
public:
	explicit Exact(size_t n, int fill = 0xA5) { init(n); memset(p_, fill, n); }
	explicit Exact(const std::string &s) { init(s.size()); memcpy(p_, s.data(), s.size()); }
	~Exact();
	char *data() { return p_; }
	operator char *() { return p_; }
	size_t size() const { return n_; }
	std::string str() const { return std::string(p_, n_); }
};

// a mapping of exactly n bytes (n may exceed 4 GB: untouched pages are zero and
// cost nothing), followed by a page that is off limits; data() is NULL when the
// system will not give that much address space
class Vast {
	char *map_, *p_; size_t n_, mapped_;
	Vast(const Vast &); void operator=(const Vast &);
public:
	explicit Vast(size_t n);
	~Vast();
	char *data() { return p_; }
	size_t size() const { return n_; }
	void at(size_t pos, const std::string &t) { memcpy(p_ + pos, t.data(), t.size()); }
};
// `t` made longer by repetitions of `unit` somewhere, up to a length near one where a narrower counter would wrap
std::string stretch(Src &s, std::string t, const std::string &unit);
// lengths whose low 16, 31 or 32 bits are misleadingly small
inline size_t vast_len(Src &s) { size_t k = s.below(24); return s.oneof<size_t>({ 1ull << 32, 1ull << 32, 1ull << 31, 3ull << 31, 1ull << 33 }) + k; }

extern bool guided;                        // running under libFuzzer: leave out the slowest cases

// blocks allocated and not yet freed by this process
long live_blocks();
// run f (twice if needed) and complain if it leaves blocks behind
void leakcheck(const char *what, const std::function<void()> &f);

int count_fds();                           // open descriptors of this process
std::string list_fds();

} // namespace pbt

using pbt::Src; using pbt::Ctx; using pbt::Exact; using pbt::Vast; using pbt::stretch; using pbt::vast_len; using pbt::show; using pbt::fmt; using pbt::leakcheck; using pbt::fail;

// what a property harness defines
extern const char *prop_id;
extern const char *prop_rule;
void prop_init();
void run_case(Src &s, Ctx &c);
