// @pbt quick=30000 thorough=2000000 fuzz=8 tfuzz=240 maxlen=2500 casesec=90 wrap=fopen
#include "txml_common.h"
#include <expat.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>

const char *prop_id = "C20";
const char *prop_rule = "well-formed documents (padded to fall around multiples of the usual read sizes, sometimes of 16 MB), the same truncated, with bytes removed, changed, inserted or parts swapped or repeated, and arbitrary bytes; each loaded from a string with length, from a zero-terminated string (if without zero bytes) and from a file; missing and unreadable files, directories, reads that fail at a chosen point or return little at a time. Oracle: expat given the whole document at once decides what is well-formed; the three ways must agree in values and rejection; descriptors are counted. Some objects throw from determine() at a chosen call: that very exception has to arrive, nothing is leaked or asked afterwards; some documents are fed to a txml_parser in pieces. A few texts are 2-8 GB long (mappings that cost little): a document followed by zeros, which is malformed, or by blanks, which is not. Non-trivial: a malformed document of at least 40 bytes, a file of at least 4096 bytes, or a failed file operation.";

// ---- files whose reads fail or are short ----
static int fail_at = -1; static size_t chunk; static bool fault_hit; static int cookies;
struct Ck { int fd; size_t pos; };
static ssize_t ck_read(void *p, char *b, size_t n)
{
	Ck *k = (Ck *) p;
	if (fail_at >= 0 && k->pos >= (size_t) fail_at) { fault_hit = true; errno = EIO; return -1; }
	if (chunk && n > chunk) n = chunk;
	if (fail_at >= 0 && k->pos + n > (size_t) fail_at) n = fail_at - k->pos;
	ssize_t r = read(k->fd, b, n); if (r > 0) k->pos += r; return r;
}
static int ck_close(void *p) { Ck *k = (Ck *) p; close(k->fd); delete k; --cookies; return 0; }
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *f, const char *m)
{
	if ((fail_at < 0 && !chunk) || m[0] != 'r') return __real_fopen(f, m);
	int fd = open(f, O_RDONLY); if (fd < 0) return 0;
	Ck *k = new Ck; k->fd = fd; k->pos = 0; ++cookies;
	cookie_io_functions_t io = { ck_read, 0, 0, ck_close };
	FILE *r = fopencookie(k, m, io); if (!r) ck_close(k);
	return r;
}

static std::string dir;
static void mkdir_() { static int pid; if (pid == getpid()) return; pid = getpid(); dir = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + fmt("/x%d", pid); mkdir(dir.c_str(), 0755); }
void prop_init() {}

static bool wellformed(const std::string &d)
{
	XML_Parser p = XML_ParserCreate("UTF-8"); bool ok = XML_Parse(p, d.data(), (int) d.size(), 1) == XML_STATUS_OK; XML_ParserFree(p); return ok;
}
// where a document goes wrong, as the parser counts it (given in pieces it may count otherwise for an error where two pieces meet)
static bool where(const std::string &d, long &line, long &col)
{
	XML_Parser p = XML_ParserCreate("UTF-8"); bool bad = XML_Parse(p, d.data(), (int) d.size(), 1) != XML_STATUS_OK; line = XML_GetCurrentLineNumber(p); col = XML_GetCurrentColumnNumber(p); XML_ParserFree(p); return bad;
}
static bool says(const std::string &m, long n)
{
	std::string t = std::to_string(n);
	for (size_t p = 0; (p = m.find(t, p)) != std::string::npos; ++p) if ((p == 0 || !isdigit((uint8_t) m[p - 1])) && (p + t.size() == m.size() || !isdigit((uint8_t) m[p + t.size()]))) return true;
	return false;
}
static std::string load(XDoc &x, const std::function<void(XDoc &)> &f)
{
	try { f(x); } catch (const std::exception &e) { return *e.what() ? e.what() : "(an error without a text)"; }
	return "";
}
// a text of 2-8 GB: a document and then only zeros (malformed) or only blanks
static void vast_case(Src &s, Ctx &c)
{
	bool blanks = s.below(64) == 63; if (blanks && pbt::guided) return;
	size_t n = blanks ? (1ull << 31) + s.below(100) : vast_len(s);
	XDoc want; XGen g(s); g.doc(want);
	Vast v(n + g.out.size());
	if (!v.data()) { c.label("huge text: no address space"); return; }
	if (blanks)
	{
		const size_t M = 64 << 20; int fd = memfd_create("blanks", 0); if (fd < 0) return;
		{ std::string b(1 << 20, ' '); for (size_t i = 0; i < M; i += b.size()) if (write(fd, b.data(), b.size()) != (ssize_t) b.size()) { close(fd); return; } }
		char *p = (char *) (((uintptr_t) v.data() + 4095) & ~(uintptr_t) 4095), *e = v.data() + v.size(), *q = p;
		for (; q + M <= e; q += M) if (mmap(q, M, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); return; }
		memset(v.data(), ' ', p - v.data()); memset(q, ' ', e - q); close(fd);
	}
	v.at(0, g.out);
	c.say("%zu bytes: a document and %s: %s", v.size(), blanks ? "blanks" : "zeros", show(g.out).c_str());
	c.nontrivial(); c.label(blanks ? "huge well-formed text" : "huge malformed text");
	if (!wellformed(g.out)) return;
	XDoc x; std::string r = load(x, [&](XDoc &y) { y.load_from_string(v.data(), v.size()); });
	CHECK(r.empty() == blanks, "a text of %zu bytes, a document and %s, is %s: %s", v.size(), blanks ? "blanks" : "zeros", r.empty() ? "accepted" : "rejected", r.c_str());
	if (blanks) { std::string e = diffdoc(want, x); CHECK(e.empty(), "a text of %zu bytes: %s", v.size(), e.c_str()); }
}
// an object whose determine() throws in the middle
struct Mine { int n; };
struct Throwing : XDoc
{
	long left, calls, after;
	Throwing(long l) : left(l), calls(0), after(0) {}
	void determine(coda::txml_parser *p) { if (left >= 0 && calls > left) ++after; if (calls++ == left) throw Mine{ 77 }; XDoc::determine(p); }
};
static void throwing(Src &s, Ctx &c, const std::string &d, const std::string &file, bool ok)
{
	Throwing count(-1); load(count, [&](XDoc &y) { y.load_from_string(d.data(), d.size()); });
	if (!count.calls) return;
	long at = s.below(count.calls); bool from_file = s.below(2);
	c.say("determine() throws when it is called for the %ld-th time, loading from a %s", at + 1, from_file ? "file" : "string"); c.label("determine() throws"); c.nontrivial();
	Exact buf(d); int n = 0; long after = 0; std::string other;
	auto run = [&] {
		Throwing x(at);
		try { if (from_file) x.load_from_file(file.c_str()); else x.load_from_string(buf.data(), buf.size()); } catch (const Mine &m) { n = m.n; } catch (...) { n = -1; }
		after = x.after;
	};
	leakcheck("loading into an object that throws", run);
	CHECK(n == 77, n == 0 ? "what determine() throws is lost" : "what determine() throws arrives as something else");
	CHECK(after == 0, "determine() is called %ld times after it has thrown", after);
	XDoc again, whole; std::string r = load(again, [&](XDoc &y) { y.load_from_string(buf.data(), buf.size()); });
	CHECK(r.empty() == ok, "after an object that threw, the document is %s", ok ? "rejected" : "accepted");
}
// a parser fed piece by piece
static void pieces(Src &s, Ctx &c, const std::string &d, bool ok, XDoc &want)
{
	std::vector<size_t> cut; for (size_t n = s.below(6); n--;) cut.push_back(s.below(d.size() + 1)); std::sort(cut.begin(), cut.end());
	bool end = s.below(4) != 0; // the end is told with the last piece or separately
	c.say("fed in %zu pieces", cut.size() + 1 + !end); c.label("fed in pieces");
	XDoc x; std::string r;
	leakcheck("feeding a parser", [&] {
		XDoc y;
		r = load(y, [&](XDoc &z) {
			coda::txml_parser p(&z); size_t at = 0;
			for (size_t i = 0; i <= cut.size(); ++i) { size_t e = i < cut.size() ? cut[i] : d.size(); Exact piece(d.substr(at, e - at)); p.parse(piece.data(), piece.size(), end && i == cut.size()); at = e; }
			if (!end) p.parse("", 0, true);
		});
		if (r.empty()) std::swap(x, y);
	});
	CHECK(r.empty() == ok, "fed in pieces the document is %s: %s", r.empty() ? "accepted, whole it is not" : "rejected, whole it is not", r.c_str());
	if (ok) { std::string e = diffdoc(want, x); CHECK(e.empty(), "fed in pieces the document loads otherwise than whole: %s", e.c_str()); }
}
void run_case(Src &s, Ctx &c)
{
	if (s.below(700) == 699) return vast_case(s, c);
	fail_at = -1; chunk = 0; fault_hit = false; cookies = 0; mkdir_();
	std::string file = dir + "/f.xml", d; XDoc want; bool made = true;
	XGen g(s);
	switch (s.weighted({ 6, 10, 2 }))
	{
		case 0: g.doc(want); d = g.out; break;
		case 1:
		{
			g.doc(want); d = g.out; made = false;
			int k = 1 + s.below(2);
			while (k-- > 0 && !d.empty()) switch (s.below(8))
			{
				case 0: d.resize(s.below(d.size())); break;
				case 1: d.erase(s.below(d.size()), 1 + s.below(4)); break;
				case 2: d[s.below(d.size())] = s.oneof<char>({ '<', '>', '&', '"', '/', 0, (char) 0xff, 'a', ']', '\'', ' ', ';', (char) 0xC3, 1 }); break;
				case 3: { static const char *w[] = { "<", ">", "&", "&x;", "</s>", "<s>", "<!--", "-->", "]]>", "<![CDATA[", "<?", "?>", "&#0;", "&#xD800;", "<!DOCTYPE r [", "<a b=1/>", "\xEF\xBB\xBF", "<?xml version='1.0'?>", " x=\"1\" x=\"2\"" }; d.insert(s.below(d.size() + 1), w[s.below(19)]); break; }
				case 4: { size_t a = s.below(d.size()), n = s.below(30); d.insert(s.below(d.size() + 1), d.substr(a, n)); break; }
				case 5: d += s.oneof<const char *>({ "x", "<a/>", "&lt;", "\0", "</root>" }); break;
				case 6: d.erase(0, s.below(std::min<size_t>(d.size(), 20))); break;
				default: { size_t p = d.rfind("</"); if (p != std::string::npos) d[std::min(p + 2, d.size() - 1)] ^= 1; }
			}
			break;
		}
		default: made = false; d = s.below(3) ? s.from("<>/ab \"='&;!-[]?", s.len(60)) : s.blob(200); if (s.below(3) == 0) d.clear();
	}
	// put interesting places on read boundaries
	if (s.chance(50))
	{
		size_t b = s.oneof<size_t>({ 4096, 8192, 1024, 512, 65536, 16384 });
		if (s.chance(2) && !pbt::guided) { b = (size_t) (1 + s.below(2)) << 24; c.label("text of 16 MB and more"); }
		size_t want_at = b + s.range(-2, 2);
		size_t p = s.below(3) ? d.size() : s.below(d.size() + 1); // this place is to fall there
		if (want_at > p + 8)
		{
			size_t n = want_at - p; std::string pad = n >= 8 ? "<!--" + std::string(n - 7, 'p') + "-->" : std::string(n, ' ');
			size_t in = d.find('>'); in = in == std::string::npos || d.compare(0, 5, "<?xml") ? 0 : in + 1;
			if (d.compare(0, 3, "\xEF\xBB\xBF") == 0) in = 3;
			if (in <= p && d.compare(in, 5, "<?xml")) d.insert(in, pad);
		}
	}
	bool ok = wellformed(d);
	if (made && !ok) { c.say("%s", show(d).c_str()); throw pbt::Discard(); }
	c.say("%zu bytes, %s: %s", d.size(), ok ? "well-formed" : "malformed", show(d.size() > 1500 ? d.substr(0, 700) + "...." + d.substr(d.size() - 700) : d).c_str());
	int fds = pbt::count_fds();
	std::string r1, r2, r3; XDoc a, b, f;
	Exact buf(d);
	leakcheck("loading from a string", [&] { XDoc x; r1 = load(x, [&](XDoc &y) { y.load_from_string(buf.data(), buf.size()); }); });
	load(a, [&](XDoc &y) { y.load_from_string(buf.data(), buf.size()); });
	CHECK(r1.empty() == ok, ok ? "a well-formed document is rejected: %s" : "a malformed document is accepted%s", r1.c_str());
	if (made) { std::string e = diffdoc(want, a); CHECK(e.empty(), "%s", e.c_str()); }
	long line = 0, col = 0; if (!ok) { where(d, line, col); if (d.size() < 1000000) CHECK(says(r1, line) && says(r1, col), "the error does not say that it is at line %ld, column %ld: %s", line, col, r1.c_str()); }
	if (d.find('\0') == std::string::npos)
	{
		Exact z(d + std::string(1, 0));
		r2 = load(b, [&](XDoc &y) { y.load_from_string(z.data()); });
		CHECK(r2.empty() == ok, "a zero-terminated string is %s: %s", r2.empty() ? "accepted, the same bytes with a length are not" : "rejected, the same bytes with a length are not", r2.c_str());
		if (ok) { std::string e = diffdoc(a, b); CHECK(e.empty(), "a zero-terminated string loads otherwise than with a length: %s", e.c_str()); }
	}
	// the file
	{
		FILE *o = __real_fopen(file.c_str(), "w"); if (!o) throw pbt::Discard(); fwrite(d.data(), 1, d.size(), o); fclose(o);
		int how = s.weighted({ 10, 3, 2, 1, 1 }); bool broken = false; std::string name = file;
		if (how == 1) chunk = 1 + s.below(5000);
		if (how == 2) { fail_at = s.below(d.size() + 1); if (s.below(2)) chunk = 1 + s.below(5000); }
		if (how == 3) { name = dir; broken = true; }
		if (how == 4) { name = dir + "/nothing"; broken = true; }
		std::string desc = how == 0 ? "a file" : how == 1 ? fmt("a file read %zu bytes at a time", chunk) : how == 2 ? fmt("a file with a read failing after %d bytes", fail_at) : how == 3 ? "a directory" : "a missing file";
		leakcheck("loading from a file", [&] { XDoc x; r3 = load(x, [&](XDoc &y) { y.load_from_file(name.c_str()); }); });
		fault_hit = false;
		r3 = load(f, [&](XDoc &y) { y.load_from_file(name.c_str()); });
		if (fault_hit) broken = true;
		chunk = 0; fail_at = -1;
		c.say("%s: %s", desc.c_str(), r3.empty() ? "loaded" : r3.c_str());
		if (!r3.empty()) CHECK(r3.find(name) != std::string::npos, "the error does not name the file %s: %s", name.c_str(), r3.c_str());
		if (!r3.empty() && !broken && how == 0 && d.size() < 512) CHECK(says(r3, line) && says(r3, col), "loading %s: the error does not say that it is at line %ld, column %ld: %s", desc.c_str(), line, col, r3.c_str());
		if (broken) CHECK(!r3.empty(), "%s is loaded without an error", desc.c_str());
		else
		{
			CHECK(r3.empty() == ok, "%s is %s: %s", desc.c_str(), r3.empty() ? "accepted, the same bytes as a string are not" : "rejected, the same bytes as a string are not", r3.c_str());
			if (ok) { std::string e = diffdoc(a, f); CHECK(e.empty(), "%s loads otherwise than a string: %s", desc.c_str(), e.c_str()); }
		}
		CHECK(cookies == 0, "loading %s leaves the file open", desc.c_str());
		CHECK(pbt::count_fds() == fds, "loading %s leaves descriptors open: %s", desc.c_str(), pbt::list_fds().c_str());
		if (broken) c.label("failing file");
		c.nontrivial((!ok && d.size() >= 40) || d.size() >= 4096 || broken);
	}
	if (s.below(5) == 0 && d.size() < 60000) throwing(s, c, d, file, ok);
	if (s.below(5) == 0 && d.size() < 60000) pieces(s, c, d, ok, a);
	CHECK(pbt::count_fds() == fds, "descriptors are left open: %s", pbt::list_fds().c_str());
	if (!ok) c.label("malformed"); if (g.many) c.label("very many elements, attributes or levels");
	if (d.size() % 4096 == 0 && !d.empty()) c.label("multiple of 4096");
}
