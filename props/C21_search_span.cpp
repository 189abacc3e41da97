// @pbt quick=300000 thorough=12000000 fuzz=8 tfuzz=240 maxlen=300 casesec=240
#include "pbt.h"
#include <coda/string.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

const char *prop_id = "C21";
const char *prop_rule = "for each of the 21 functions: buffers of 0-70 bytes over small alphabets (letters of both cases, separators, zero, bytes 0x80-0xff, characters next to the letters), exact length with guarded ends, characters/needles/alphabets drawn from the same small sets, needles often cut out of the buffer and re-cased, or running over its end. Oracle: naive scans with an ASCII-only case fold. An empty needle in an empty text may give either the text or nothing. A few cases give a length of 2-8 GB (a mapping that costs nothing) whose answer lies near the end where the scan starts, but beyond the low bits of the length, and one runs one to three functions over more than 4 GB with the answer at the far end. Non-trivial: buffer not empty and the character, needle or an alphabet character occurs in it.";

static unsigned char lo(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eq(unsigned char a, unsigned char b, bool x) { return x ? lo(a) == lo(b) : a == b; }
static std::string pal(Src &s)
{
	switch (s.below(6))
	{
		case 0: return "ab";
		case 1: return "aAbB";
		case 2: return std::string("a.\0/", 4);
		case 3: return "aA\x80\xe1\xc1\xff";
		case 4: return "@[`{azAZ";
		default: { std::string r; for (int i = 1; i < 256; ++i) r += (char) i; return r; }
	}
}
static const char *NAME[] = { "strnchr", "strxchr", "revnchr", "revxchr", "strnchp", "strxchp", "stristr", "strnstr", "strxstr",
	"strispn", "strnspn", "strxspn", "revnspn", "revxspn", "strispc", "strnspc", "strxspc", "revnspc", "revxspc" };

// the text fills the side of a huge buffer where the scan begins; the rest is zeros
static void vast_case(Src &s, Ctx &c)
{
	int f = s.below(19);
	while (f == 6 || f == 9 || f == 14) f = (f + 1) % 19;
	size_t n = vast_len(s), pre = s.below(60);
	bool rev = f == 2 || f == 3 || f == 12 || f == 13 || f == 17 || f == 18, x = f % 2 && f < 6;
	if (f >= 8) x = f == 8 || f == 11 || f == 13 || f == 16 || f == 18;
	std::string t(pre, 'b'), nd = "a";
	if (f < 6) t += x && s.below(2) ? 'A' : 'a';
	else if (f < 9) { nd = s.below(2) ? "a" : "ac"; t += f == 8 && s.below(2) ? "AC" : "ac"; }
	else if (f < 14) { nd = "cb"; t += 'a'; }              // the span of b's ends at the a
	else { nd = "za"; t += x && s.below(2) ? 'A' : 'a'; }
	if (rev) t = std::string(t.rbegin(), t.rend());
	Vast v(n);
	if (!v.data()) { c.label("huge length: no address space"); return; }
	v.at(rev ? n - t.size() : 0, t);
	c.say("coda_%s over %zu bytes, %s %s", NAME[f], n, rev ? "the last ones" : "the first ones", show(t).c_str());
	c.nontrivial(); c.label("huge length");
	const char *p = v.data(), *a = nd.c_str();
	size_t got = 0, want = f < 4 ? (rev ? n - 1 - pre : pre) : pre;
	char *r = 0; bool ptr = true;
	switch (f)
	{
		case 0: r = coda_strnchr(p, 'a', n); break;
		case 1: r = coda_strxchr(p, 'a', n); break;
		case 2: r = coda_revnchr(p, 'a', n); break;
		case 3: r = coda_revxchr(p, 'a', n); break;
		case 7: r = coda_strnstr(p, a, n); break;
		case 8: r = coda_strxstr(p, a, n); break;
		default: ptr = false;
		switch (f)
		{
			case 4: got = coda_strnchp(p, 'a', n); break;
			case 5: got = coda_strxchp(p, 'a', n); break;
			case 10: got = coda_strnspn(p, a, n); break;
			case 11: got = coda_strxspn(p, a, n); break;
			case 12: got = coda_revnspn(p, a, n); break;
			case 13: got = coda_revxspn(p, a, n); break;
			case 15: got = coda_strnspc(p, a, n); break;
			case 16: got = coda_strxspc(p, a, n); break;
			case 17: got = coda_revnspc(p, a, n); break;
			default: got = coda_revxspc(p, a, n); break;
		}
	}
	if (ptr) { CHECK(r, "coda_%s finds nothing in %zu bytes that %s %s", NAME[f], n, rev ? "end with" : "start with", show(t).c_str()); got = r - p; }
	CHECK(got == want, "coda_%s over %zu bytes that %s %s gives %zu, expected %zu", NAME[f], n, rev ? "end with" : "start with", show(t).c_str(), got, want);
}

// more than 4 GB of b's whose answer lies at the far end: a 'c' near the start (for scans from the end), an 'a' near the end
static void far_case(Src &s, Ctx &c)
{
	const size_t unit = 64u << 20; int first = s.below(21), count = 1 + s.below(3); size_t n = (1ull << 32) + s.below(1000), hi = n - 1 - s.below(20), lo = s.below(20), len = n + s.below(8);
	int fd = memfd_create("b", MFD_CLOEXEC); std::string blk(unit, 'b');
	if (fd < 0 || write(fd, blk.data(), unit) != (ssize_t) unit) { if (fd >= 0) close(fd); c.label("far end: no memory"); return; }
	size_t k = len / unit + 1; char *m = (char *) mmap(0, k * unit + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	bool ok = m != MAP_FAILED;
	for (size_t i = 0; ok && i < k; ++i) ok = mmap(m + i * unit, unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) != MAP_FAILED;
	close(fd);
	char *p = m + k * unit - len - 1;
	if (ok)
	{
		p[lo] = 'c'; p[lo + 1] = 'e'; p[hi] = 'a'; p[len] = 0;
		c.say("%zu bytes b, ce at %zu, a at %zu; coda_%s and the %d after it", len, lo, hi, first < 19 ? NAME[first] : NAME[first - 12], count - 1); c.nontrivial(); c.label("far end");
		size_t got[19]; long got_t[2]; const char *A = p;
		auto pos = [&](char *r) { return r ? (size_t) (r - A) : (size_t) -1; };
		std::vector<std::thread> t; auto on = [&](int f) { return (f + 21 - first) % 21 < count; };
		for (int j = first; j < first + count; ++j) t.emplace_back([&, j] { int f = j % 21; switch (f)
		{
			case 0: got[f] = pos(coda_strnchr(A, 'a', len)); break;
			case 1: got[f] = pos(coda_strxchr(A, 'A', len)); break;
			case 2: got[f] = pos(coda_revnchr(A, 'c', len)); break;
			case 3: got[f] = pos(coda_revxchr(A, 'C', len)); break;
			case 4: got[f] = coda_strnchp(A, 'a', len); break;
			case 5: got[f] = coda_strxchp(A, 'A', len); break;
			case 6: got[f] = pos(coda_stristr(A, "A")); break;
			case 7: got[f] = pos(coda_strnstr(A, "a", len)); break;
			case 8: got[f] = pos(coda_strxstr(A, "A", len)); break;
			case 9: got[f] = coda_strispn(A, "BCE"); break;
			case 10: got[f] = coda_strnspn(A, "bce", len); break;
			case 11: got[f] = coda_strxspn(A, "BCE", len); break;
			case 12: got[f] = coda_revnspn(A, "bae", len); break;
			case 13: got[f] = coda_revxspn(A, "BAE", len); break;
			case 14: got[f] = coda_strispc(A, "A"); break;
			case 15: got[f] = coda_strnspc(A, "a", len); break;
			case 16: got[f] = coda_strxspc(A, "A", len); break;
			case 17: got[f] = coda_revnspc(A, "c", len); break;
			case 18: got[f] = coda_revxspc(A, "C", len); break;
			// a needle longer than the text, whose length looks small
			case 19: got_t[0] = coda_strnstr(A + lo + 2, A + lo + 2, 2000) ? 1 : 0; break;
			case 20: got_t[1] = coda_strxstr(A + lo + 2, A + lo + 2, 2000) ? 1 : 0; break;
		} });
		for (auto &x : t) x.join();
		for (int f = 0; f < 19; ++f)
		{
			if (!on(f)) continue;
			bool rev = f == 2 || f == 3 || f == 12 || f == 13 || f == 17 || f == 18;
			size_t want = !rev ? hi : f < 4 ? lo : len - 1 - lo;
			CHECK(got[f] == want, "coda_%s over %zu bytes gives %zu, expected %zu", NAME[f], len, got[f], want);
		}
		for (int f = 0; f < 2; ++f) if (on(19 + f)) CHECK(!got_t[f], "coda_%s finds a needle of %zu bytes in a text of 2000", NAME[7 + f], len - lo - 2);
	}
	else c.label("far end: no address space");
	if (m != MAP_FAILED) munmap(m, k * unit + 4096);
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	int rare = s.below(1000);
	if (rare == 999) return vast_case(s, c);
	if (rare == 998 && !pbt::guided && s.below(600) == 0) return far_case(s, c);
	int f = s.below(19);
	std::string P = pal(s);
	std::string t = s.from(P, s.len(s.chance(128) ? 8 : 70));
	if (s.chance(4)) t = stretch(s, t, s.oneof<const char *>({ "a", "b", "aB", "#" }));
	bool z = f == 6 || f == 9 || f == 14;    // zero-terminated
	if (z) t = std::string(t.c_str());
	Exact in(z ? std::string(t.c_str(), t.size() + 1) : t);
	const char *p = in.data();
	size_t n = t.size();
	std::string call;
	if (f < 6)
	{
		char ch = n && s.chance(128) ? t[s.below(n)] : s.pick(P);
		if (s.chance(64)) ch = (char) (ch ^ 0x20);
		bool x = f == 1 || f == 3 || f == 5, rev = f == 2 || f == 3;
		long want = -1;
		for (size_t i = 0; i < n; ++i) { size_t k = rev ? n - 1 - i : i; if (eq(t[k], ch, x)) { want = k; break; } }
		c.say("coda_%s(%s, 0x%02x, %zu) -> %ld", NAME[f], show(t).c_str(), (unsigned char) ch, n, want);
		c.nontrivial(want >= 0); c.label(fmt("%s %s", NAME[f], want >= 0 ? "found" : "not found"));
		long got;
		if (f >= 4) { size_t r = f == 4 ? coda_strnchp(p, ch, n) : coda_strxchp(p, ch, n); got = r; if (want < 0) want = n; }
		else
		{
			char *r = f == 0 ? coda_strnchr(p, ch, n) : f == 1 ? coda_strxchr(p, ch, n) : f == 2 ? coda_revnchr(p, ch, n) : coda_revxchr(p, ch, n);
			got = r ? r - p : -1;
		}
		CHECK(got == want, "coda_%s(%s, 0x%02x, %zu) gives position %ld, expected %ld", NAME[f], show(t).c_str(), (unsigned char) ch, n, got, want);
		return;
	}
	if (f < 9)
	{
		bool x = f != 7;
		std::string nd;
		if (n && s.chance(180)) { size_t b = s.below(n); nd = t.substr(b, s.below(std::min<size_t>(n - b, 6) + 1)); }
		else nd = s.from(P, s.below(5));
		if (s.chance(60)) nd += s.pick(P);
		if (s.chance(60)) for (auto &ch : nd) if (((ch | 32) >= 'a') && ((ch | 32) <= 'z') && s.below(2)) ch ^= 32;
		nd = std::string(nd.c_str());
		Exact zn(std::string(nd.c_str(), nd.size() + 1));
		long want = -1;
		for (size_t i = 0; i + nd.size() <= n; ++i)
		{
			size_t k = 0; while (k < nd.size() && eq(t[i + k], nd[k], x)) ++k;
			if (k == nd.size()) { want = i; break; }
		}
		c.say("coda_%s(%s, %s, %zu) -> %ld", NAME[f], show(t).c_str(), show(nd).c_str(), n, want);
		c.nontrivial(want >= 0 && n); c.label(fmt("%s %s", NAME[f], want >= 0 ? "found" : "not found"));
		if (s.chance(4)) // an absent text holds nothing, an absent needle is an empty one
		{
			char *q = f == 6 ? coda_stristr(0, zn) : f == 7 ? coda_strnstr(0, zn, n) : coda_strxstr(0, zn, n);
			CHECK(!q, "coda_%s finds something in no text", NAME[f]);
			q = f == 6 ? coda_stristr(p, 0) : f == 7 ? coda_strnstr(p, 0, n) : coda_strxstr(p, 0, n);
			CHECK(q == p || (!n && !q), "coda_%s of no needle gives position %ld", NAME[f], q ? (long) (q - p) : -1L);
		}
		char *r = f == 6 ? coda_stristr(p, zn) : f == 7 ? coda_strnstr(p, zn, n) : coda_strxstr(p, zn, n);
		long got = r ? r - p : -1;
		if (!n && nd.empty()) CHECK(got == 0 || got == -1, "coda_%s of empty in empty gives %ld", NAME[f], got);
		else CHECK(got == want, "coda_%s(%s, %s, %zu) gives position %ld, expected %ld", NAME[f], show(t).c_str(), show(nd).c_str(), n, got, want);
		return;
	}
	{
		bool x = f == 9 || f == 11 || f == 13 || f == 14 || f == 16 || f == 18, rev = f == 12 || f == 13 || f == 17 || f == 18, span = f < 14;
		std::string al = s.from(P, s.below(4));
		if (s.chance(40)) for (auto &ch : al) ch ^= 32;
		al = std::string(al.c_str());
		size_t want = 0;
		for (; want < n; ++want)
		{
			unsigned char ch = rev ? t[n - 1 - want] : t[want];
			bool in_al = false; for (char a : al) in_al |= eq(ch, a, x);
			if (in_al != span) break;
		}
		c.say("coda_%s(%s, %s, %zu) -> %zu", NAME[f], show(t).c_str(), show(al).c_str(), n, want);
		c.nontrivial(n && want && want < n); c.label(fmt("%s %s", NAME[f], !want ? "none" : want == n ? "all" : "part"));
		Exact za(std::string(al.c_str(), al.size() + 1)); const char *a = za.data();
		size_t got = 0;
		switch (f)
		{
			case 9: got = coda_strispn(p, a); break;
			case 10: got = coda_strnspn(p, a, n); break;
			case 11: got = coda_strxspn(p, a, n); break;
			case 12: got = coda_revnspn(p, a, n); break;
			case 13: got = coda_revxspn(p, a, n); break;
			case 14: got = coda_strispc(p, a); break;
			case 15: got = coda_strnspc(p, a, n); break;
			case 16: got = coda_strxspc(p, a, n); break;
			case 17: got = coda_revnspc(p, a, n); break;
			default: got = coda_revxspc(p, a, n); break;
		}
		CHECK(got == want, "coda_%s(%s, %s, %zu) gives %zu, expected %zu", NAME[f], show(t).c_str(), show(al).c_str(), n, got, want);
	}
}
