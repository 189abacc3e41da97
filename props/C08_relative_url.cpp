// @pbt quick=200000 thorough=10000000 fuzz=8 tfuzz=240 allocmb=24000 casesec=90 maxlen=700
#include "url_model.h"

const char *prop_id = "C08";
const char *prop_rule = "a parent URL from the generator of C07 (or a result of an earlier resolution), and references: rooted and unrooted paths over dot, empty and ordinary segments, queries, fragments, absolute URLs on the same or another domain in any scheme case, mailto:/javascript: in any case and cut short; all flag combinations; exact-size unterminated buffers; a few texts of 4 GB and more, which must be refused. Oracle: reference resolver. Non-trivial: an unrooted reference with a dot segment, a refused reference, or an absolute one under the same-domain flag.";

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(4000) == 3999) return url_too_long(s, c, true);
	std::string pt = gen_absolute(s);
	if (s.chance(10)) pt = "";
	uint32_t pf = s.below(2) ? CODA_URL_FETCHABLE : 0;
	UrlVal pv = url_absolute(pt, pf);
	coda_url par;
	{ Exact in(pt); par.create_absolute(in, in.size(), pf); }
	if (pv.ok) pv.dom.assign(par.get_domain(), par.get_domain_len());   // the domain of odd hosts is C07's business
	int steps = 1 + s.weighted({ 5, 2, 1 });
	coda_url cur(par); UrlVal cv = pv;
	for (int i = 0; i < steps; ++i)
	{
		std::string t;
		switch (s.weighted({ 5, 4, 3, 2, 2, 1 }))
		{
			case 0: t = gen_path(s) + gen_tail(s); break;
			case 1: t = s.oneof<const char *>({ "a", "../", "./", "..", ".", "a/../../b", "../../..", "x", "a/", "./..", "" }) + gen_path(s) + gen_tail(s); break;
			case 2: t = gen_absolute(s); break;
			case 3:
			{	// same or similar domain, different case
				std::string d = cv.ok ? cv.host : "example.com";
				if (s.chance(100)) d = s.oneof<const char *>({ "www.", "a.b.", "not", "." }) + d;
				for (auto &ch : d) if (s.chance(60) && ch >= 'a' && ch <= 'z') ch -= 32;
				t = s.oneof<const char *>({ "http://", "https://", "HTTP://", "hTTps://" }) + d + gen_path(s) + gen_tail(s); break;
			}
			case 4: t = s.oneof<const char *>({ "mailto:", "javascript:", "MailTo:", "JAVAscript:", "#", "mailto", "javascript", "mail", "javascript:x", "mailto:a@b", "?", "//", "http:", "https:/" }); if (s.below(2)) t += gen_path(s); break;
			default: t = s.blob(20); break;
		}
		if (s.chance(3)) t = stretch(s, t, s.oneof<const char *>({ "a", "/a", "../", "/.", "a.", "&" }));
		uint32_t flags = s.below(4);
		UrlVal v = url_relative(t, flags, cv);
		c.say("relative %s flags %u to %s -> %s", show(t).c_str(), flags, cv.ok ? show(cv.url()).c_str() : "an empty parent", v.ok ? show(v.url()).c_str() : "refused");
		c.nontrivial(!v.ok || t.find("..") != std::string::npos || (flags & CODA_URL_SUBDOMAIN));
		c.label(!cv.ok ? "empty parent" : !v.ok ? "refused" : url_has_prefix(t, "http") ? "absolute reference" : t[0] == '/' ? "rooted" : "unrooted");
		coda_url u;
		Exact in(t);
		int r = u.create_relative(in, in.size(), flags, cur);
		std::string what = "create_relative(" + show(t) + fmt(", flags %u, parent ", flags) + (cv.ok ? show(cv.url()) : std::string("empty")) + ")";
		if (cv.ok && (flags & CODA_URL_SUBDOMAIN) && (url_has_prefix(t, "http://") || url_has_prefix(t, "https://")))
		{
			UrlVal a = url_absolute(t, flags);
			if (a.host.find("..") != std::string::npos || cv.host.find("..") != std::string::npos)
			{	// which part of a host with empty labels is its domain is left open
				c.label("domain left open");
				if (r != 0) { CHECK(u.empty() && !u.allocated(), "%s refused, but the object is not empty", what.c_str()); continue; }
				v = a;
			}
		}
		if (!v.ok)
		{
			CHECK(r != 0, "%s accepted: %s", what.c_str(), show(u.get_url()).c_str());
			CHECK(u.empty() && !u.allocated() && !*u.get_url() && !*u.get_domain() && !u.get_url_len() && !u.get_domain_len(), "%s refused, but the object is not empty", what.c_str());
			continue;
		}
		CHECK(r == 0, "%s returns %d", what.c_str(), r);
		url_check(u, v, what);
		v.dom.assign(u.get_domain(), u.get_domain_len());
		CHECK(std::string(cur.get_url(), cur.get_url_len()).size() == cv.url().size(), "%s changed its parent", what.c_str());
		cur = u; cv = v; cv.scheme = std::string(u.get_url(), u.get_url_len()).substr(0, v.scheme.size());
	}
}
