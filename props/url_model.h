// Reference model of coda_url, written from the statements of C07 and C08.
#pragma once
#include "pbt.h"
#include <coda/url_parser.hpp>

struct UrlVal { bool ok; std::string scheme, host, path, query, dom; std::string url() const { return scheme + host + path + query; } };

static inline std::string url_lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static inline bool url_has_prefix(const std::string &t, const char *p) { size_t n = strlen(p); return t.size() >= n && url_lower(t.substr(0, n)) == p; }
static inline bool url_host_char(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.' || c == ':' || c == '-' || c == '_'; }

static inline std::string url_norm_path(const std::string &p, bool fetchable)
{
	std::vector<std::string> seg, out; std::string cur;
	for (char c : p) { if (c == '/') { seg.push_back(cur); cur.clear(); } else cur += c; }
	seg.push_back(cur);
	bool slash = false;                       // does the last step denote a directory
	for (size_t i = 1; i < seg.size(); ++i)  // p starts with '/', so seg[0] is empty
	{
		slash = seg[i].empty() || seg[i] == "." || seg[i] == "..";
		if (seg[i] == "..") { if (!out.empty()) out.pop_back(); }
		else if (!slash) out.push_back(seg[i]);
	}
	std::string r;
	for (auto &s : out) r += "/" + s;
	if (r.empty()) return "/";
	if (slash && fetchable) r += '/';
	return r;
}
static inline std::string url_dom(const std::string &host)
{
	size_t p = host.rfind('.');
	if (p == std::string::npos || p == 0) return host;
	p = host.rfind('.', p - 1);
	return p == std::string::npos ? host : host.substr(p + 1);
}
static inline void url_split(UrlVal &v, std::string rest, uint32_t flags)
{
	size_t q = rest.find('?');
	if (q != std::string::npos) { v.query = rest.substr(q); rest.resize(q); }
	if (rest.empty() || rest[0] != '/') rest.insert(0, "/");
	v.path = url_norm_path(rest, flags & CODA_URL_FETCHABLE);
}
static inline UrlVal url_absolute(std::string t, uint32_t flags)
{
	UrlVal v; v.ok = !t.empty();
	if (!v.ok) return v;
	size_t h = t.find('#'); if (h != std::string::npos) t.resize(h);
	if (url_has_prefix(t, "http://")) { v.scheme = t.substr(0, 7); t.erase(0, 7); }
	else if (url_has_prefix(t, "https://")) { v.scheme = t.substr(0, 8); t.erase(0, 8); }
	else v.scheme = "http://";
	size_t n = 0; while (n < t.size() && url_host_char(t[n])) ++n;
	v.host = url_lower(t.substr(0, n));
	while (!v.host.empty() && v.host[0] == '.') v.host.erase(0, 1);
	while (!v.host.empty() && v.host.back() == '.') v.host.pop_back();
	v.dom = url_dom(v.host);
	url_split(v, t.substr(n), flags);
	return v;
}
static inline UrlVal url_relative(std::string t, uint32_t flags, const UrlVal &par)
{
	UrlVal v; v.ok = false;
	if (t.empty() || !par.ok) return v;
	if (url_has_prefix(t, "http://") || url_has_prefix(t, "https://"))
	{
		v = url_absolute(t, flags);
		if ((flags & CODA_URL_SUBDOMAIN) && v.dom != par.dom) v.ok = false;
		return v;
	}
	if (url_has_prefix(t, "mailto:") || url_has_prefix(t, "javascript:") || t[0] == '#') return v;
	size_t h = t.find('#'); if (h != std::string::npos) t.resize(h);
	v.ok = true; v.scheme = par.scheme; v.host = par.host; v.dom = par.dom;
	if (t[0] != '/') t = par.path.substr(0, par.path.rfind('/') + 1) + t;
	url_split(v, t, flags);
	return v;
}

static inline std::string gen_host(Src &s)
{
	static const char *lab[] = { "a", "example", "WWW", "co", "com", "x-y", "n_1", "127", "RU", "" };
	std::string r; int n = s.below(5);
	for (int i = 0; i < n; ++i) { if (i) r += '.'; r += lab[s.below(s.chance(20) ? 10 : 9)]; }
	if (s.chance(40)) r.insert(0, s.below(4), '.');
	if (s.chance(40)) r.append(s.below(4), '.');
	if (s.chance(40)) r += ":80";
	if (s.chance(16)) r.insert(s.below(r.size() + 1), 1, s.oneof<char>({ '@', ' ', '\xe9', '\0', '%', '\\', '[', '`', '{', ';' }));
	return r;
}
static inline std::string gen_path(Src &s)
{
	std::string r;
	while (s.more(4) && r.size() < 120)
	{
		switch (s.weighted({ 6, 6, 4, 3, 3, 1, 1, 1, 1, 1 }))
		{
			case 0: r += "/"; break;
			case 1: r += s.oneof<const char *>({ "a", "b", "dir", "index.html", "A", "x y" }); break;
			case 2: r += "/.."; break;
			case 3: r += "/."; break;
			case 4: r += "."; break;
			case 5: r += "..."; break;
			case 6: r += "//"; break;
			case 7: { char ch = (char) s.byte(); s.note((uint8_t) ch); if (ch == '?' || ch == '#') ch = '!'; r += ch; break; }
			case 8: r += s.oneof<const char *>({ "..a", "a..", ".a", "a.", "http://", ":", "@" }); break;
			default: r += "/../"; break;
		}
	}
	return r;
}
static inline std::string gen_tail(Src &s)
{
	std::string r;
	if (s.chance(80)) { r += '?'; size_t n = s.len(12); for (size_t i = 0; i < n; ++i) r += s.oneof<char>({ 'a', '=', '&', '/', '.', '?', '+', '%', ':', '1' }); }
	if (s.chance(50)) { r += '#'; size_t n = s.len(8); for (size_t i = 0; i < n; ++i) r += s.oneof<char>({ 'a', '/', '.', '?', '#', '1' }); }
	return r;
}
static inline std::string gen_scheme(Src &s)
{
	return s.oneof<const char *>({ "http://", "", "https://", "HTTP://", "HttpS://", "HTTPS://", "http:/", "https:/", "ftp://", "http:", "//", "htt" });
}
static inline std::string gen_absolute(Src &s)
{
	std::string t = gen_scheme(s) + gen_host(s) + gen_path(s) + gen_tail(s);
	if (s.chance(20) && !t.empty()) t.resize(s.below(t.size() + 1));
	if (s.chance(10)) t = s.from(std::string("./?#:htps\0", 10), s.len(30));
	if (s.chance(3)) t = stretch(s, t, s.oneof<const char *>({ "a", "/a", "../", "/.", "a.", "x", "&", "A" }));
	return t;
}

// `v` must be what the object reports
static inline void url_check(const coda_url &u, const UrlVal &v, const std::string &what)
{
	std::string got(u.get_url(), u.get_url_len()), gd(u.get_domain(), u.get_domain_len());
	CHECK(!u.empty(), "%s left the object empty, expected %s", what.c_str(), show(v.url()).c_str());
	CHECK(u.get_url()[u.get_url_len()] == 0 && u.get_domain()[u.get_domain_len()] == 0, "%s: reported lengths %u, %u do not end at the terminating zeros", what.c_str(), u.get_url_len(), u.get_domain_len());
	// the case the scheme is written in is left open
	size_t n = v.scheme.size();
	CHECK(got.size() >= n && url_lower(got.substr(0, n)) == url_lower(v.scheme) && got.substr(n) == v.url().substr(n), "%s gives %s, expected %s", what.c_str(), show(got).c_str(), show(v.url()).c_str());
	if (v.host.find("..") == std::string::npos) CHECK(gd == v.dom, "%s: domain %s, expected %s", what.c_str(), show(gd).c_str(), show(v.dom).c_str());
	else
	{
		bool ok = gd.size() <= v.host.size() && v.host.substr(v.host.size() - gd.size()) == gd
			&& (gd.size() == v.host.size() || v.host[v.host.size() - gd.size() - 1] == '.');
		CHECK(ok, "%s: domain %s is not a suffix of the host %s at a dot", what.c_str(), show(gd).c_str(), show(v.host).c_str());
	}
}

// a text of 4 GB or more does not fit the lengths an object keeps: refused, nothing is cut off. One process at a time, code that does not refuse it needs gigabytes
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>
static void url_too_long(Src &s, Ctx &c, bool relative)
{
	if (pbt::guided) return;
	size_t n = s.oneof<size_t>({ 1ull << 32, 1ull << 32, 3ull << 31, 1ull << 33 }) + s.below(40); uint32_t flags = s.below(4) & (relative ? 3 : CODA_URL_FETCHABLE);
	std::string t = gen_absolute(s), pt = "http://www.example.com/a/b"; bool held = s.below(4) == 0;
	if (relative && s.below(2)) t = gen_path(s) + "x";
	if (relative && s.below(3) == 0) { t = s.below(2) ? "x" : "/x"; n = (1ull << 32) - (s.below(2) ? 17 + s.below(5) : s.below(17)); } // fits alone, but not after the site
	std::string lock = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + "/url-lock"; int fd = open(lock.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666);
	struct Close { int fd; ~Close() { if (fd >= 0) close(fd); } } cl = { fd };
	if (fd < 0 || flock(fd, LOCK_EX)) return;
	Vast v(n); if (!v.data()) return;
	v.at(0, t); c.say("a text of %zu bytes that starts with %s", n, show(t).c_str()); c.label("text of 4 GB and more"); c.nontrivial();
	coda_url p, u; p.create_absolute(pt.data(), pt.size(), 0); if (held) u = p;
	int r = relative ? u.create_relative(v.data(), n, flags, p) : u.create_absolute(v.data(), n, flags);
	CHECK(r != 0, "a text of %zu bytes is accepted as a URL of %zu", n, (size_t) u.get_url_len());
	CHECK(u.empty() && !u.allocated() && !u.get_url_len() && !u.get_domain_len(), "a text of %zu bytes is refused, but the object is not empty", n);
}
