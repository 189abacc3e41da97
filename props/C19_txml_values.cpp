// @pbt quick=40000 thorough=3000000 fuzz=8 tfuzz=240 maxlen=2500
#include "txml_common.h"

const char *prop_id = "C19";
const char *prop_rule = "documents generated from a declared structure (strings, 32/64-bit signed and unsigned, bytes, booleans, float, double, long double, lists and vectors of them, nested objects, lists and vectors of objects that contain lists of themselves), each member as attribute or element, repeated, in any order, with undeclared elements and attributes containing declared names, numbers with blanks, signs and leading zeros, comments, processing instructions, CDATA, entities and character references, whitespace, BOM; rarely thousands of attributes, items or levels, and values around 256 to 131072 bytes. Oracle: the values the generator spelled, kept in a structure of the same shape. Non-trivial: at least five elements, with a list member and a nested object.";

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	XDoc want; XGen g(s); g.doc(want);
	c.say("%s", show(g.out.size() > 6000 ? g.out.substr(0, 3000) + "...." + g.out.substr(g.out.size() - 3000) : g.out).c_str());
	Exact buf(g.out); XDoc got; std::string d;
	leakcheck("loading a document", [&] {
		XDoc x;
		try { x.load_from_string(buf.data(), buf.size()); } catch (const std::exception &e) { pbt::fail("a well-formed document is rejected: %s", e.what()); }
		d = diffdoc(want, x);
	});
	CHECK(d.empty(), "%s", d.c_str());
	bool lists = want.root.ls.size() + want.root.vi.size() + want.root.ld.size() + want.root.lb.size() + want.root.vb.size() + want.root.lu.size() + want.root.vs.size() > 0;
	bool objs = want.root.lo.size() + want.root.vo.size() > 0;
	if (objs) c.label("objects in containers"); if (g.pad) c.label("long values"); if (g.many) c.label("very many elements, attributes or levels");
	for (auto &x : want.root.lo) if (!x.kid.empty()) c.label("objects in objects");
	c.nontrivial(lists && objs && g.budget <= 35);
}
