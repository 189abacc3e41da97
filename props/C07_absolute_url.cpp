// @pbt quick=200000 thorough=10000000 fuzz=8 tfuzz=240 allocmb=24000 casesec=90 maxlen=500
#include "url_model.h"

const char *prop_id = "C07";
const char *prop_rule = "texts assembled from scheme variants (any case, partial), hosts (labels, ports, extra dots, foreign bytes), paths over /, ., .., empty and ordinary segments, queries and fragments, truncated anywhere, plus raw texts over ./?#:htps and zero; both flag values; exact-size unterminated buffers; a few texts of 4 GB and more, which must be refused. Oracle: segment-list reference normaliser; second parse of the result. Non-trivial: the path contains a dot or empty segment, or the host needs change, or there is a query or fragment.";

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.below(4000) == 3999) return url_too_long(s, c, false);
	std::string t = gen_absolute(s);
	uint32_t flags = s.below(2) ? CODA_URL_FETCHABLE : 0;
	UrlVal v = url_absolute(t, flags);
	c.say("absolute %s flags %u -> %s", show(t).c_str(), flags, v.ok ? show(v.url()).c_str() : "refused");
	if (v.ok) c.nontrivial(t != v.url() && t.size() > 3);
	c.label(!v.ok ? "empty text" : v.host.empty() ? "no host" : v.path == "/" ? "root path" : "path");
	Exact in(t);
	coda_url u;
	std::string what = "create_absolute(" + show(t) + (flags ? ", fetchable)" : ", 0)");
	int r = u.create_absolute(in, in.size(), flags);
	if (!v.ok) { CHECK(r != 0 && u.empty(), "%s accepted", what.c_str()); return; }
	CHECK(r == 0, "%s returns %d", what.c_str(), r);
	url_check(u, v, what);
	std::string first(u.get_url(), u.get_url_len()), dom(u.get_domain(), u.get_domain_len());
	Exact in2(first);
	coda_url w;
	CHECK(w.create_absolute(in2, in2.size(), flags) == 0, "parsing the result %s fails", show(first).c_str());
	std::string second(w.get_url(), w.get_url_len()), dom2(w.get_domain(), w.get_domain_len());
	CHECK(second == first && dom == dom2, "parsing is not idempotent: %s -> %s (%s) -> %s (%s)", show(t).c_str(), show(first).c_str(), show(dom).c_str(), show(second).c_str(), show(dom2).c_str());
}
