// @pbt quick=100000 thorough=3000000 maxlen=400 cov=0 maxsec=20 with=memory_c.c
#include "pbt.h"
#include <sys/mman.h>
#include <unistd.h>
#include <coda/coda.h>
#include <coda/string.h>

const char *prop_id = "C38";
const char *prop_rule = "one to six operations on exact-size buffers of 0-6000 bytes filled with a pattern (rarely on 2-8 GB): clearing an object of 1 to 4099 bytes, an array of them and a number of bytes, and copying, at generated offsets, the sizes also given as sums, conditionals and shifts, destinations as pointer sums and through side effects, from C and C++; chains of 1-12 copied pieces. Oracle: a string changed by hand; the value of each expression. Non-trivial: more than one byte cleared or copied.";

template <int N> struct Obj { char b[N]; };
extern "C" { char *c_chain(char *, const char **, const size_t *, int); void c_clear(void *, int, size_t); size_t c_copy(char *, const char *, size_t, int); }

template <int N> static void clear_obj(Src &s, Ctx &c, const std::string &)
{
	typedef Obj<N> T;
	size_t n = 1 + s.below(std::max(1, 6000 / N / 4)), at = s.below(n), k = s.below(n - at + 1); int how = s.below(4);
	std::string want(n * N, 0); for (size_t i = 0; i < want.size(); ++i) want[i] = (char) (i * 7 + 1) | 1;
	Exact e(want); T *v = (T *) e.data(), *p = v + at;
	c.say("clear %s of %d bytes at %zu of %zu (%zu)", how == 0 ? "an object" : "an array", N, at, n, k);
	switch (how)
	{
		case 0: coda_clrptr(p); k = 1; break;
		case 1: coda_clrptr(v + at); k = 1; break;
		case 2: coda_clrvec(p, k); break;
		default: { size_t h = k / 2; coda_clrvec(v + at, h + (k - h)); }
	}
	memset(&want[0] + at * N, 0, k * N);
	CHECK(e.str() == want, "clearing %zu objects of %d bytes changes other bytes, or not all: %s", k, N, show(e.str().substr(0, 200)).c_str());
	c.nontrivial(k * N > 1);
}
static void clear_mem(Src &s, Ctx &c)
{
	std::string want = s.blob(s.chance(10) ? 6000 : 100); for (char &ch : want) if (!ch) ch = 'x';
	size_t at = s.below(want.size() + 1), k = s.below(want.size() - at + 1); int how = s.below(4);
	Exact e(want); char *p = e.data() + at;
	c.say("clear %zu bytes at %zu of %zu", k, at, want.size());
	switch (how)
	{
		case 0: coda_clrmem(p, k); break;
		case 1: coda_clrmem(e.data() + at, k ? k : 0); break;
		case 2: { size_t h = k / 3; coda_clrmem((int *) p, h + (k - h)); break; }
		default: c_clear(p, s.below(4), k);
	}
	memset(&want[0] + at, 0, k);
	CHECK(e.str() == want, "clearing %zu bytes at %zu changes other bytes, or not all: %s", k, at, show(e.str().substr(0, 200)).c_str());
	c.nontrivial(k > 1);
}
static void copy(Src &s, Ctx &c)
{
	std::string src = s.blob(s.chance(10) ? 6000 : 100), want(src.size() + s.below(20), 'd');
	size_t at = s.below(want.size() + 1), from = s.below(src.size() + 1), k = s.below(std::min(want.size() - at, src.size() - from) + 1), h = k / 2;
	Exact d(want), e(src); char *p = d.data() + at; const char *q = e.data() + from; const int how = s.below(7);
	c.say("copy %zu bytes at %zu of %zu to %zu of %zu, form %d", k, from, src.size(), at, want.size(), how);
	switch (how)
	{
		case 0: { void *r = coda_memcpy(p, q, k); CHECK(r == p, "coda_memcpy gives %p, the destination is %p", r, (void *) p); break; }
		case 1: { size_t r = coda_cpymsz(p, q, k); CHECK(r == k, "coda_cpymsz of %zu bytes gives %zu", k, r); break; }
		case 2: { char *r = coda_cpymem(p, q, k); CHECK(r == p + k, "coda_cpymem of %zu bytes gives the destination and %zd", k, (ssize_t) (r - p)); break; }
		case 3: { size_t r = 1 + coda_cpymsz(d.data() + at, e.data() + from, h + (k - h)) * 2; CHECK(r == 1 + k * 2, "coda_cpymsz of a sum of %zu gives %zu", k, r); break; }
		case 4: { char *r = coda_cpymem(d.data() + at, e.data() + from, h + (k - h)); CHECK(r == p + k, "coda_cpymem of a sum of %zu bytes gives the destination and %zd", k, (ssize_t) (r - p)); break; }
		case 5: { char *z = p; const char *y = q; char *r = coda_cpymem(z++, y++, k > 0 ? k : (size_t) 0); CHECK(r == p + k && z == p + 1 && y == q + 1, "coda_cpymem evaluates its pointers more than once"); break; }
		default: { int f = s.below(4); size_t r = c_copy(p, q, k, f); CHECK(r == k, "in C, form %d of %zu bytes gives %zu", f, k, r); }
	}
	want.replace(at, k, src, from, k);
	CHECK(d.str() == want, "copying %zu bytes gives %s", k, show(d.str().substr(0, 200)).c_str());
	CHECK(e.str() == src, "copying changes the source");
	c.nontrivial(k > 1);
}
static void chain(Src &s, Ctx &c)
{
	std::vector<std::string> v; std::string want; int n = 1 + s.below(12); while (n--) { v.push_back(s.blob(s.chance(4) ? 3000 : 30)); want += v.back(); }
	Exact d(want.size(), 'd'); char *p = d.data();
	if (s.below(2)) { for (auto &x : v) p = coda_cpymem(p, x.data(), x.size()); }
	else { std::vector<const char *> a; std::vector<size_t> l; for (auto &x : v) a.push_back(x.data()), l.push_back(x.size()); p = c_chain(p, a.data(), l.data(), a.size()); }
	c.say("chain %zu pieces, %zu bytes", v.size(), want.size());
	CHECK(p == d.data() + want.size(), "a chain of %zu bytes ends at %zd", want.size(), (ssize_t) (p - d.data()));
	CHECK(d.str() == want, "a chain of copies gives %s, expected %s", show(d.str().substr(0, 200)).c_str(), show(want.substr(0, 200)).c_str());
	c.nontrivial(want.size() > 1);
}
// gigabytes: the destination is a mapping, the source its untouched zeros
static void vast(Src &s, Ctx &c)
{
	size_t n = s.oneof<size_t>({ 1ull << 32, 1ull << 31 }) + s.below(5000), k = n - s.below(100); if (n > (1ull << 31) + 5000 && s.below(2)) k = (1ull << 32) - s.below(3);
	Vast v(n + 4096); if (!v.data()) { c.label("huge: no address space"); return; }
	// most of it is one piece of memory, mapped again and again; the ends are ordinary
	const size_t M = 64 << 20; int fd = memfd_create("piece", 0); if (fd < 0 || ftruncate(fd, M)) return;
	char *q = (char *) (((uintptr_t) v.data() + 65535) & ~(uintptr_t) 4095), *e = v.data() + n - 65536;
	for (; q + M <= e; q += M) if (mmap(q, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); return; }
	close(fd);
	int how = s.below(4); if (how && s.below(2)) k = n >= 1ull << 32 ? 1ull << 32 : 1ull << 31;
	c.label("huge"); c.nontrivial(); c.say("%s %zu of %zu bytes", how ? "copy" : "clear", k, n);
	std::string mark(64, 'm'); v.at(k - 32, mark); v.at(0, mark); v.at(k / 2, mark); v.at(4096, mark);
	char *d = v.data();
	if (how)
	{
		Vast from(k); if (!from.data()) return; // zeros
		if (how == 1) { void *r = coda_memcpy(d, from.data(), k); CHECK(r == d, "coda_memcpy of %zu bytes gives another address", k); }
		else if (how == 2) { size_t r = coda_cpymsz(d, from.data(), k); CHECK(r == k, "coda_cpymsz of %zu bytes gives %zu", k, r); }
		else { char *r = coda_cpymem(d, from.data(), k); CHECK(r == d + k, "coda_cpymem of %zu bytes gives the destination and %zd", k, (ssize_t) (r - d)); }
	}
	else coda_clrmem(d, k);
	for (size_t at : { (size_t) 0, k / 2, (size_t) 4096 }) for (size_t i = 0; i < 64; ++i) CHECK(!v.data()[at + i], "clearing or copying %zu bytes leaves byte %zu", k, at + i);
	size_t lim = std::min<size_t>(n, k + 32);
	for (size_t i = k - 32; i < lim; ++i) CHECK(v.data()[i] == (i < k ? 0 : 'm'), "clearing or copying %zu bytes leaves byte %zu as %d", k, i, v.data()[i]);
}
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(8000) == 7999) return vast(s, c);
	int n = 1 + s.below(6);
	while (n--) switch (s.weighted({ 3, 3, 5, 3 }))
	{
		case 0: switch (s.below(9)) { case 0: clear_obj<1>(s, c, ""); break; case 1: clear_obj<2>(s, c, ""); break; case 2: clear_obj<3>(s, c, ""); break; case 3: clear_obj<4>(s, c, ""); break; case 4: clear_obj<8>(s, c, ""); break; case 5: clear_obj<16>(s, c, ""); break; case 6: clear_obj<100>(s, c, ""); break; case 7: clear_obj<257>(s, c, ""); break; default: clear_obj<4099>(s, c, ""); } break;
		case 1: clear_mem(s, c); break;
		case 2: copy(s, c); break;
		default: chain(s, c);
	}
}
