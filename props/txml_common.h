#pragma once
#include "pbt.h"
#include <coda/txml.hpp>
#include <list>
#include <vector>
#include <strings.h>

struct Leaf : coda::txml_determination_object
{
	std::string s, text; int32_t i; uint32_t u; int64_t I; uint64_t U; uint8_t b; bool f; float x; double d; long double l;
	std::vector<std::string> w; std::list<Leaf> kid;
	bool open;          // model only: the text is not determined
	Leaf() : i(0), u(0), I(0), U(0), b(0), f(false), x(0), d(0), l(0), open(false) {}
	void determine(coda::txml_parser *p)
	{
		txml_member(p, s); txml_member(p, i); txml_member(p, u); txml_member(p, I); txml_member(p, U); txml_member(p, b);
		txml_member(p, f); txml_member(p, x); txml_member(p, d); txml_member(p, l); txml_member(p, w); txml_member(p, kid);
		p->determineMember("", text);
	}
};
struct Root : coda::txml_determination_object
{
	std::string s; int32_t i; uint32_t u; int64_t I; uint64_t U; uint8_t b; bool f; float x; double d; long double l;
	std::list<std::string> ls; std::vector<int64_t> vi; std::list<double> ld; std::list<bool> lb; std::vector<uint8_t> vb; std::list<uint64_t> lu; std::vector<std::string> vs;
	std::list<Leaf> lo; std::vector<Leaf> vo; Leaf one, two;
	Root() : i(0), u(0), I(0), U(0), b(0), f(false), x(0), d(0), l(0) {}
	void determine(coda::txml_parser *p)
	{
		txml_member(p, s); txml_member(p, i); txml_member(p, u); txml_member(p, I); txml_member(p, U); txml_member(p, b);
		txml_member(p, f); txml_member(p, x); txml_member(p, d); txml_member(p, l); txml_member(p, ls); txml_member(p, vi);
		txml_member(p, ld); txml_member(p, lb); txml_member(p, vb); txml_member(p, lu); txml_member(p, vs);
		txml_member(p, lo); txml_member(p, vo); txml_member(p, one); txml_member(p, two);
	}
};
struct XDoc : coda::txml_determination_object
{
	Root root; std::string note;
	void determine(coda::txml_parser *p) { txml_member(p, root); p->determineMember("note", note); }
};

// ---- comparison: empty, or where the two differ ----
template <class T> static std::string num(T v) { return std::to_string(v); }
static std::string num(const std::string &v) { return show(v); }
static std::string num(float v) { return fmt("%a", v); }
static std::string num(double v) { return fmt("%a", v); }
static std::string num(long double v) { return fmt("%La", v); }
template <class T> static std::string diff1(const std::string &at, const T &want, const T &got) { return num(want) == num(got) ? "" : at + " is " + num(got) + ", the document says " + num(want); }
static std::string diff1(const std::string &at, const Leaf &a, const Leaf &b);
template <class C> static std::string diffl(const std::string &at, const C &want, const C &got)
{
	if (want.size() != got.size()) return fmt("%s has %zu items, the document %zu", at.c_str(), got.size(), want.size());
	auto a = want.begin(); auto b = got.begin(); std::string r;
	for (size_t k = 0; a != want.end(); ++a, ++b, ++k) if (!(r = diff1(fmt("%s[%zu]", at.c_str(), k), *a, *b)).empty()) return r;
	return "";
}
#define D(m) if (!(r = diff1(at + "." #m, a.m, b.m)).empty()) return r
#define DL(m) if (!(r = diffl(at + "." #m, a.m, b.m)).empty()) return r
static std::string diff1(const std::string &at, const Leaf &a, const Leaf &b)
{
	std::string r; D(s); D(i); D(u); D(I); D(U); D(b); D(f); D(x); D(d); D(l); DL(w); DL(kid);
	if (!a.open && !b.open) { if (!(r = diff1(at + " text", a.text, b.text)).empty()) return r; }
	return "";
}
static std::string diff1(const std::string &at, const Root &a, const Root &b)
{
	std::string r; D(s); D(i); D(u); D(I); D(U); D(b); D(f); D(x); D(d); D(l); DL(ls); DL(vi); DL(ld); DL(lb); DL(vb); DL(lu); DL(vs); DL(lo); DL(vo); D(one); D(two);
	return "";
}
static std::string diffdoc(const XDoc &a, const XDoc &b) { std::string r = diff1("root", a.root, b.root); if (r.empty()) r = diff1("note", a.note, b.note); return r; }

// ---- documents ----
struct XGen
{
	Src &s; std::string out; int budget; bool entities, big; size_t pad, many;
	explicit XGen(Src &s_) : s(s_), budget(40), entities(false), big(false), pad(0), many(0) {}

	static void utf8(std::string &o, uint32_t c)
	{
		if (c < 0x80) o += (char) c;
		else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
		else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
	}
	uint32_t cp()
	{
		switch (s.weighted({ 10, 4, 2, 2, 1 }))
		{
			case 0: return 'a' + s.below(26);
			case 1: return s.oneof<uint32_t>({ '<', '>', '&', '"', '\'', ' ', '\n', '\t', '\r', ']', '0', '/' });
			case 2: return 0x80 + s.below(0x780);
			case 3: { uint32_t c = 0x800 + s.below(0xF7FE); return c >= 0xD800 && c < 0xE000 ? 0x20AC : c > 0xFFFD ? 0xFFFD : c; }
			default: return 0x10000 + s.below(0xFFFFE);
		}
	}
	// a text lengthened in the middle of a character is put right
	static void utf8fix(std::string &r)
	{
		for (size_t i = 0; i < r.size();)
		{
			unsigned char c = r[i]; size_t n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; bool ok = n && i + n <= r.size();
			for (size_t k = 1; ok && k < n; ++k) ok = ((unsigned char) r[i + k] & 0xC0) == 0x80;
			if (ok) i += n; else r[i++] = '?';
		}
	}
	// very many of something
	void bulk(Root &r)
	{
		size_t n = s.oneof<size_t>({ 65, 130, 257, 300, 1030, 5000, 300, 257 }); if (s.chance(24)) n = s.oneof<size_t>({ 33000, 65540, 70000 });
		many += n;
		switch (s.below(5))
		{
			case 0: { r.lo.push_back(Leaf()); Leaf &m = r.lo.back(); m.open = true; open("lo"); n = std::min<size_t>(n, 20000); for (size_t i = 0; i < n; ++i) { out += fmt(" z%zu='%zu'", i, i); if (i == n / 2) { attr("w", "v"); m.w.push_back("v"); } } std::set<std::string> u; at(u, "s", m.s); at(u, "I", m.I); out += ">"; elem("i", m.i); close("lo"); break; }
			case 1: for (size_t i = 0; i < n; ++i) { if (i & 1) { out += fmt("<ls>%zu</ls>", i); r.ls.push_back(std::to_string(i)); } else { out += fmt("<vi>%zu</vi>", i); r.vi.push_back(i); } } break;
			case 2: n = std::min<size_t>(n, 6000); for (size_t i = 0; i < n; ++i) { out += fmt("<lo i='%zu'>", i); r.lo.push_back(Leaf()); Leaf &m = r.lo.back(); m.i = i; m.open = true; for (size_t k = 0; k < i % 3; ++k) { out += fmt("<w>%zu</w><kid><u>%zu</u></kid>", k, i); m.w.push_back(std::to_string(k)); m.kid.push_back(Leaf()); m.kid.back().u = i; m.kid.back().open = true; } out += "</lo>"; } break;
			case 3: n = std::min<size_t>(n, 6000); for (size_t i = 0; i < n; ++i) out += i % 2 ? "<zz>" : "<one>"; { size_t k = n; out += "<s>no</s>"; while (k-- > 0) out += k % 2 ? "</zz>" : "</one>"; } r.one.open = true; break;
			default: { n = std::min<size_t>(n, 400); r.lo.push_back(Leaf()); Leaf *m = &r.lo.back(); m->open = true; out += "<lo>"; for (size_t i = 0; i < n; ++i) { out += "<kid>"; m->kid.push_back(Leaf()); m = &m->kid.back(); m->open = true; } elem("s", m->s); elem("U", m->U); for (size_t i = 0; i < n; ++i) out += "</kid>"; out += "</lo>"; break; }
		}
	}
	std::string text() // UTF-8
	{
		std::string r; size_t n = s.len(30);
		while (n--) utf8(r, cp());
		if (s.chance(6)) { size_t k = 1 + s.below(9000); std::string one; utf8(one, cp()); if (r.empty() || s.below(2)) one = "a"; std::string x; while (x.size() < k) x += one; r += x; pad += k; }
		if (big && s.chance(40)) { r = stretch(s, r, s.oneof<const char *>({ "a", "ab ", "0123456789" })); pad += r.size(); utf8fix(r); }
		return r;
	}
	// write text so that it is read as it is
	void spell(const std::string &t, bool attr, char quote = '"')
	{
		size_t i = 0;
		if (!attr && !t.empty() && s.chance(20))
		{
			size_t a = s.below(t.size() + 1), n = t.size() - a; // a CDATA section for the rest of it, if it can be one
			while (a < t.size() && ((unsigned char) t[a] & 0xC0) == 0x80) ++a;
			n = t.size() - a;
			std::string body = t.substr(a, n);
			if (body.find("]]>") == std::string::npos && body.find('\r') == std::string::npos) { spell_plain(t.substr(0, a), attr, quote); out += "<![CDATA[" + body + "]]>"; return; }
		}
		(void) i; spell_plain(t, attr, quote);
	}
	void spell_plain(const std::string &t, bool attr, char quote)
	{
		bool rich = t.size() < 400;
		for (size_t i = 0; i < t.size();)
		{
			unsigned char c = t[i]; size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
			uint32_t cp = n == 1 ? c : c & (0x7F >> n); for (size_t k = 1; k < n; ++k) cp = cp << 6 | (t[i + k] & 63);
			bool must = c == '<' || c == '&' || c == '\r' || (attr && (c == quote || c == '\n' || c == '\t')) || (c == '>' && i && t[i - 1] == ']');
			if (must || (rich && s.chance(12)))
			{
				static const char *named[] = { "&lt;", "&amp;", "&gt;", "&quot;", "&apos;" }; static const char nc[] = "<&>\"'";
				const char *p = strchr(nc, c);
				if (c && p && s.below(2)) out += named[p - nc];
				else if (s.below(2)) out += fmt("&#%u;", cp);
				else out += fmt(s.below(2) ? "&#x%x;" : "&#x%X;", cp);
			}
			else out += t.substr(i, n);
			i += n;
			if (!attr && rich && s.chance(4)) { out += s.below(2) ? "<!-- c -->" : "<?pi x?>"; }
		}
		if (entities && s.chance(0)) {}
	}
	// values
	std::string val(std::string &v) { std::string t = text(); v = t; return t; }
	// blanks around, a sign, leading zeros
	std::string dress(std::string t)
	{
		if (!s.chance(30)) return t;
		bool neg = t[0] == '-'; if (neg) t.erase(0, 1);
		if (s.below(3) == 0) t = std::string(s.below(4) ? 1 + s.below(3) : 1 + s.below(60), '0') + t;
		t = (neg ? "-" : s.below(3) ? "" : "+") + t;
		if (s.below(2)) t = s.oneof<const char *>({ " ", "\n", "\t ", "  ", "\r\n" }) + t;
		if (s.below(2)) t += s.oneof<const char *>({ " ", "\n", "\t ", "  ", "\r\n" });
		return t;
	}
	template <class T> std::string integer(T &v, uint64_t raw) { v = (T) raw; return dress(std::to_string(v)); }
	uint64_t raw64() { switch (s.below(4)) { case 0: return s.below(20); case 1: return (uint64_t) 0 - s.below(20); case 2: { uint64_t p = 1ull << s.below(64); return p - s.below(2); } default: return s.u64(); } }
	std::string val(int32_t &v) { return integer(v, raw64()); }
	std::string val(uint32_t &v) { return integer(v, raw64()); }
	std::string val(int64_t &v) { return integer(v, raw64()); }
	std::string val(uint64_t &v) { return integer(v, raw64()); }
	std::string val(uint8_t &v) { return integer(v, raw64()); }
	std::string val(bool &v)
	{
		static const char *w[] = { "1", "0", "true", "false", "on", "off", "yes", "no" };
		if (s.chance(30)) { int64_t n = (int64_t) raw64(); v = n != 0; return n == 0 && s.below(2) ? "00" : std::to_string(n); }
		int k = s.below(8); v = !(k & 1); std::string t = w[k]; int cs = s.below(3);
		for (auto &c : t) if (cs == 1 || (cs == 2 && s.below(2))) c = toupper(c);
		return t;
	}
	double real() { switch (s.below(4)) { case 0: return s.range(-100, 100); case 1: return s.range(-100000, 100000) / 64.0; case 2: { double m = (double) s.u64() * (s.below(2) ? 1 : -1); return m; } default: { uint64_t u = s.u64(); double d; memcpy(&d, &u, 8); return d == d && d - d == 0 ? d : 0.1; } } }
	std::string val(float &v) { v = (float) real(); if (v - v != 0) v = 3.5f; return dress(fmt(s.below(2) ? "%.9g" : "%.9e", v)); }
	std::string val(double &v) { v = real(); return dress(fmt("%.17g", v)); }
	std::string val(long double &v) { v = (long double) real(); if (s.below(2)) v /= 3; return dress(fmt("%.21Lg", v)); }

	std::string ws() { static const char *w[] = { "", " ", "\n", "\t", "\n  ", "\r\n" }; return w[s.weighted({ 6, 2, 2, 1, 1, 1 })]; }
	void between() // between elements
	{
		out += ws();
		if (s.chance(10)) out += "<!-- <s>no</s> & -->" + ws();
		if (s.chance(4)) out += "<?pi <s>?>";
	}
	std::string junk_name() { return s.oneof<const char *>({ "zz", "S", "rootx", "t1", "ns:q", "_", "ii", "\xC3\xA9" }); }
	void junk(int depth)
	{
		if (--budget < 0) return;
		std::string n = junk_name(); open(n); junk_attrs(); 
		if (s.chance(60)) { out += "/>"; return; }
		out += ">";
		int k = s.below(3);
		while (k-- > 0)
		{
			if (s.below(2)) { std::string v = text(); spell(v, false); }
			else if (depth < 5)
			{
				std::string m = s.oneof<const char *>({ "s", "i", "ls", "one", "root", "lo", "kid", "w" });
				open(m); if (s.below(3) == 0) out += " s=\"7\" i='8'"; out += ">"; if (s.below(2)) out += "77"; else if (s.below(2)) junk(depth + 1); close(m);
			}
		}
		close(n);
	}
	void open(const std::string &n) { out += "<" + n; }
	void close(const std::string &n) { out += "</" + n + (s.chance(10) ? " >" : ">"); }
	std::string junk_names_used;
	void junk_attrs() { if (s.chance(30)) attr(s.oneof<const char *>({ "zz", "I2", "ns:a" }), text()); }
	void attr(const std::string &n, const std::string &t)
	{
		char q = s.below(2) ? '"' : '\'';
		std::string w = ws(); out += (w.empty() ? " " : w) + n + (s.chance(10) ? " = " : "=") + q; spell(t, true, q); out += q;
	}
	template <class T> void elem(const char *n, T &v)
	{
		--budget; open(n); junk_attrs();
		std::string t = val(v);
		if (t.empty() && s.below(2)) { out += "/>"; return; }
		out += ">"; if (s.chance(10)) junk(4); spell(t, false); close(n);
	}
	template <class C> void item(const char *n, C &c) { typename C::value_type v = typename C::value_type(); elem(n, v); c.push_back(v); }
	template <class T> bool at(std::set<std::string> &used, const char *n, T &v) { if (!used.insert(n).second) return false; attr(n, val(v)); return true; }
	template <class C> void atitem(std::set<std::string> &used, const char *n, C &c) { if (!used.insert(n).second) return; typename C::value_type v = typename C::value_type(); attr(n, val(v)); c.push_back(v); }

	void leaf(const char *n, Leaf &m, int depth)
	{
		--budget; open(n); m.text.clear(); m.open = false;
		std::set<std::string> used; int k = s.weighted({ 4, 3, 2, 1, 1 });
		while (k-- > 0) switch (s.below(13))
		{
			case 0: at(used, "s", m.s); break; case 1: at(used, "i", m.i); break; case 2: at(used, "u", m.u); break; case 3: at(used, "I", m.I); break;
			case 4: at(used, "U", m.U); break; case 5: at(used, "b", m.b); break; case 6: at(used, "f", m.f); break; case 7: at(used, "x", m.x); break;
			case 8: at(used, "d", m.d); break; case 9: at(used, "l", m.l); break; case 10: atitem(used, "w", m.w); break;
			case 11: if (used.insert("zz").second) attr("zz", text()); break;
			case 12: if (used.insert("SS").second) attr("SS", "5"); break;
		}
		switch (s.weighted({ 2, 3, 6 }))
		{
			case 0: out += ws() + "/>"; return;
			case 1: { out += ">"; std::string t = text(); m.text = t; spell(t, false); close(n); return; }
		}
		out += ">"; m.open = true;
		k = 1 + s.below(4);
		while (k-- > 0 && budget > 0)
		{
			between();
			switch (s.weighted({ 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 4, 4, 2 }))
			{
				case 0: elem("s", m.s); break; case 1: elem("i", m.i); break; case 2: elem("u", m.u); break; case 3: elem("I", m.I); break;
				case 4: elem("U", m.U); break; case 5: elem("b", m.b); break; case 6: elem("f", m.f); break; case 7: elem("x", m.x); break;
				case 8: elem("d", m.d); break; case 9: elem("l", m.l); break; case 10: item("w", m.w); break;
				case 11: if (depth < 6) { m.kid.push_back(Leaf()); leaf("kid", m.kid.back(), depth + 1); } break;
				case 12: junk(0); break;
			}
		}
		between(); close(n);
	}
	void prolog()
	{
		if (s.chance(8)) out += "\xEF\xBB\xBF";
		if (s.chance(60)) out += s.oneof<const char *>({ "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>" });
		misc();
	}
	void misc() { out += ws(); if (s.chance(20)) out += "<!-- x -->\n"; if (s.chance(8)) out += "<?target data?>"; if (s.chance(4)) { size_t k = 1 + s.below(12000); pad += k; out += "<!--" + std::string(k, s.below(2) ? ' ' : 'y') + "-->"; } }
	// a whole document; m gets what it says
	void doc(XDoc &m)
	{
		big = !pbt::guided && s.chance(2);
		prolog();
		int kind = s.weighted({ 40, 2, 1 });
		if (kind == 1) { elem("note", m.note); misc(); return; }
		if (kind == 2) { junk(0); misc(); return; }
		Root &r = m.root; out += "<root"; std::set<std::string> used; int k = s.weighted({ 6, 2, 1, 1 });
		while (k-- > 0) switch (s.below(6)) { case 0: at(used, "s", r.s); break; case 1: at(used, "i", r.i); break; case 2: atitem(used, "ls", r.ls); break; case 3: atitem(used, "vi", r.vi); break; case 4: at(used, "d", r.d); break; default: if (used.insert("zz").second) attr("zz", "1"); }
		if (s.chance(8)) { out += "/>"; misc(); return; }
		out += ">";
		size_t when = big ? s.below(3) : 99, step = 0;
		while (budget > 0 && s.more(9))
		{
			between();
			if (step++ == when) bulk(r);
			switch (s.weighted({ 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 4, 3, 2, 2, 2, 2, 3, 6, 6, 4, 3, 4 }))
			{
				case 0: elem("s", r.s); break; case 1: elem("i", r.i); break; case 2: elem("u", r.u); break; case 3: elem("I", r.I); break;
				case 4: elem("U", r.U); break; case 5: elem("b", r.b); break; case 6: elem("f", r.f); break; case 7: elem("x", r.x); break;
				case 8: elem("d", r.d); break; case 9: elem("l", r.l); break; case 10: item("ls", r.ls); break; case 11: item("vi", r.vi); break;
				case 12: item("ld", r.ld); break; case 13: { bool v = false; elem("lb", v); r.lb.push_back(v); break; } case 14: item("vb", r.vb); break; case 15: item("lu", r.lu); break; case 16: item("vs", r.vs); break;
				case 17: r.lo.push_back(Leaf()); leaf("lo", r.lo.back(), 0); break; case 18: r.vo.push_back(Leaf()); leaf("vo", r.vo.back(), 0); break;
				case 19: leaf("one", r.one, 0); break; case 20: leaf("two", r.two, 0); break; case 21: junk(0); break;
			}
		}
		between(); close("root"); misc();
	}
};
