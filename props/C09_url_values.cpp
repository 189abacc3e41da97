// @pbt quick=60000 thorough=3000000 fuzz=8 tfuzz=240 maxlen=900
#include "url_model.h"
#include <memory>

const char *prop_id = "C09";
const char *prop_rule = "histories of 1-30 operations over five URL objects: construct, absolute and relative parse (also into an object that holds a URL, with empty or missing text, with an empty parent, with itself as parent), copy-construct, assign (also to itself), destroy; all objects are read after every operation. Oracle: map of the value each object was last given, the value itself being what a fresh object gets for the same text; heap balance at the end. Non-trivial: at least one copy or assignment and one failed parse.";

enum { N = 5 };
struct M { bool ok; std::string url, dom; M() : ok(false) {} };

static M fresh_abs(const std::string &t, uint32_t f) { coda_url u; Exact in(t); M m; m.ok = 0 == u.create_absolute(in, in.size(), f); if (m.ok) { m.url = u.get_url(); m.dom = u.get_domain(); } return m; }

static void history(Src &s, Ctx &c, bool &copies, bool &fails)
{
	coda_url *o[N] = { 0, 0, 0, 0, 0 }; M m[N];
	struct Free { coda_url **o; ~Free() { for (int i = 0; i < N; ++i) delete o[i]; } } guard = { o };
	int steps = 0;
	static const char *texts[] = { "example.com/a/b", "http://x.org/", "https://WWW.Site.ru/p/../q?z=1#f", "a", "h.com/dir/", "long.host.name.example.com/some/very/long/path/which/needs/more/memory?and=a&query=string", "" };
	static const char *refs[] = { "/r", "../x", "y?q", "http://other.org/z", "#frag", "mailto:x", "https://sub.example.com/", "" };
	while ((steps < 3 || s.more(10)) && steps < 30)
	{
		++steps;
		int i = s.below(N), j = s.below(N);
		switch (s.weighted({ 4, 3, 4, 4, 2, 1, 1 }))
		{
			case 0:
			{
				std::string t = s.pick(std::vector<std::string>(texts, texts + 7)); if (s.chance(3)) t = stretch(s, t, s.oneof<const char *>({ "a", "b.", "/q" })); uint32_t f = s.below(2);
				bool null = s.chance(10);
				c.say("%d = absolute %s%s", i, null ? "NULL" : show(t).c_str(), m[i].ok ? " into an object that holds a URL" : "");
				if (!o[i]) o[i] = new coda_url;
				M v = null ? M() : fresh_abs(t, f); if (m[i].ok) v = M();
				Exact in(t);
				int r = o[i]->create_absolute(null ? NULL : in.data(), in.size(), f);
				CHECK((r == 0) == v.ok, "create_absolute returns %d", r);
				if (!v.ok) fails = true;
				m[i] = v; break;
			}
			case 1:
			{
				if (!o[j]) break;
				std::string t = s.pick(std::vector<std::string>(refs, refs + 8)); if (s.chance(3)) t = stretch(s, t, "q"); uint32_t f = s.below(4);
				c.say("%d = relative %s to %d", i, show(t).c_str(), j);
				if (!o[i]) o[i] = new coda_url;
				M v;
				if (!m[i].ok && m[j].ok && i != j)
				{
					coda_url p, u; Exact in(m[j].url); p.create_absolute(in, in.size(), CODA_URL_FETCHABLE);
					Exact rin(t);
					if (std::string(p.get_url()) == m[j].url && !t.empty()) { v.ok = 0 == u.create_relative(rin, rin.size(), f, p); if (v.ok) { v.url = u.get_url(); v.dom = u.get_domain(); } }
					else if (!t.empty()) break;
				}
				Exact in(t);
				int r = o[i]->create_relative(in, in.size(), f, *o[j]);
				CHECK((r == 0) == v.ok, "create_relative returns %d", r);
				if (!v.ok) fails = true;
				m[i] = v; break;
			}
			case 2:
				if (!o[i]) o[i] = new coda_url;
				if (!o[j]) break;
				c.say("%d = %d (assignment)", i, j);
				*o[i] = *o[j]; m[i] = m[j]; copies = true; break;
			case 3:
				if (!o[j] || i == j) break;
				c.say("%d copy-constructed from %d", i, j);
				delete o[i]; o[i] = 0; o[i] = new coda_url(*o[j]); m[i] = m[j]; copies = true; break;
			case 4: c.say("destroy %d", i); delete o[i]; o[i] = 0; m[i] = M(); break;
			case 5: if (o[i]) { c.say("%d = %d (to itself)", i, i); coda_url &r = *o[i]; *o[i] = r; copies = true; } break;
			default:
			{	// a chain: temporary copies
				if (!o[i] || !o[j]) break;
				c.say("swap %d and %d through a temporary", i, j);
				coda_url t(*o[i]); *o[i] = *o[j]; *o[j] = t; std::swap(m[i], m[j]); copies = true; break;
			}
		}
		for (int k = 0; k < N; ++k)
		{
			if (!o[k]) continue;
			CHECK(o[k]->empty() == !m[k].ok && o[k]->allocated() == m[k].ok, "object %d: empty() = %d, allocated() = %d, expected %s", k, o[k]->empty(), o[k]->allocated(), m[k].ok ? "a URL" : "empty");
			CHECK(m[k].url == o[k]->get_url() && m[k].dom == o[k]->get_domain(), "object %d reports %s, %s; expected %s, %s", k, show(o[k]->get_url()).c_str(), show(o[k]->get_domain()).c_str(), show(m[k].url).c_str(), show(m[k].dom).c_str());
			CHECK(o[k]->get_url_len() == m[k].url.size() && o[k]->get_domain_len() == m[k].dom.size(), "object %d reports lengths %u, %u; expected %zu, %zu", k, o[k]->get_url_len(), o[k]->get_domain_len(), m[k].url.size(), m[k].dom.size());
		}
	}
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	bool copies = false, fails = false;
	c.log.reserve(c.verbose ? 100000 : 0);
	Ctx quiet; quiet.verbose = c.verbose;
	if (c.verbose == 1) { history(s, c, copies, fails); return; }
	long a = pbt::live_blocks();
	history(s, c, copies, fails);
	long b = pbt::live_blocks();
	CHECK(a == b, "%ld block(s) allocated and not released by the objects of this history", b - a);
	c.nontrivial(copies && fails); c.label(copies ? fails ? "copies and failures" : "copies" : "no copies");
}
