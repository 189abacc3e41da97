// @pbt quick=150000 thorough=8000000 fuzz=7 tfuzz=240 maxlen=800
#include "b64_common.h"
#include <coda/web64.h>
#include <coda/url.hpp>

const char *prop_id = "C03";
const char *prop_rule = "byte strings (0-1200 bytes) encoded into buffers of every size and decoded back, the text also passed through percent-encoding; alphabet texts with padding, then up to four edits, decoded into buffers of every size. Oracle: bit-accumulator encoder and group-wise decoder over the web64 alphabet. Non-trivial: more than two bytes encoded, a short buffer or an invalid text.";
static size_t len(size_t n) { return WEB64_LENGTH(n); }
static size_t declen(size_t a, size_t b) { return WEB64_DECODE_LENGTH(a + b); }
static const B64Api A = { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", '.',
	web64_encode, web64_decode, 0, 0, 0, len, declen };
void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	if (s.chance(20))
	{
		std::string d = s.blob(60), t(WEB64_LENGTH(d.size()) + 1, 'x');
		web64_encode(d.data(), d.size(), &t[0], t.size());
		t.pop_back();
		CHECK(coda_urlenc(t) == t, "web64 text %s is changed by percent-encoding", show(t).c_str());
	}
	b64_case(A, s, c);
}
