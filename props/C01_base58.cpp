// @pbt quick=120000 thorough=6000000 fuzz=7 tfuzz=240 maxlen=600 casesec=120
#include "pbt.h"
#include <coda/base58.h>

const char *prop_id = "C01";
const char *prop_rule = "byte strings (0-400 bytes, rarely 5000, 47500 or 65560, or 300000 zeros, leading zeros, runs, all-0xff) encoded and decoded against a big-number reference; texts over the alphabet, mutated with foreign characters at any position; output buffers of every size. Non-trivial: a text with an invalid character, a truncated output, or an input with a leading zero or of 3 or more bytes.";

static const char AL[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

// repeated short division of a big-endian number
static std::string ref_enc(const std::string &in)
{
	size_t z = 0; while (z < in.size() && !in[z]) ++z;
	std::vector<unsigned> num(in.begin() + z, in.end());
	for (auto &x : num) x &= 0xff;
	std::string r;
	size_t at = 0;
	while (at < num.size())
	{
		unsigned rem = 0;
		for (size_t i = at; i < num.size(); ++i) { unsigned v = rem * 256 + num[i]; num[i] = v / 58; rem = v % 58; }
		r += AL[rem];
		while (at < num.size() && !num[at]) ++at;
	}
	r += std::string(z, '1');
	return std::string(r.rbegin(), r.rend());
}
static int digit(unsigned char c) { const char *p = c ? strchr(AL, c) : 0; return p ? p - AL : -1; }
static std::string ref_dec(const std::string &t)
{
	size_t z = 0; while (z < t.size() && t[z] == '1') ++z;
	std::vector<unsigned char> out;       // little endian
	for (size_t i = z; i < t.size(); ++i)
	{
		unsigned c = digit(t[i]);
		for (size_t k = 0; k < out.size(); ++k) { c += 58u * out[k]; out[k] = c & 0xff; c >>= 8; }
		while (c) { out.push_back(c & 0xff); c >>= 8; }
	}
	return std::string(z, '\0') + std::string(out.rbegin(), out.rend());
}

// the same for long inputs, five digits at a time
static std::string fast_enc(const std::string &in)
{
	size_t z = 0; while (z < in.size() && !in[z]) ++z;
	std::vector<uint32_t> num((in.size() - z + 3) / 4, 0);
	for (size_t i = in.size(), k = 0; i > z; --i, ++k) num[num.size() - 1 - k / 4] |= (uint32_t) (uint8_t) in[i - 1] << (8 * (k % 4));
	std::string r; size_t at = 0; while (at < num.size() && !num[at]) ++at;
	while (at < num.size())
	{
		uint64_t rem = 0;
		for (size_t i = at; i < num.size(); ++i) { uint64_t v = rem << 32 | num[i]; num[i] = (uint32_t) (v / 656356768u); rem = v % 656356768u; }
		while (at < num.size() && !num[at]) ++at;
		for (int k = 0; k < 5 && (rem || at < num.size()); ++k) { r += AL[rem % 58]; rem /= 58; }
	}
	r += std::string(z, '1');
	return std::string(r.rbegin(), r.rend());
}
static void large(Src &s, Ctx &c)
{
	int kind = s.below(30);
	if (kind == 28)
	{
		// decoding only: the decoded size does not fit in 16 bits
		size_t n = 65530 + s.below(60); std::string d; uint64_t x = s.u64() | 1; for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; d += (char) x; }
		d[0] = (char) 0xff; std::string t = fast_enc(d); Exact in(t); c.say("decode %zu characters of %zu bytes", t.size(), n); c.label("very long text"); c.nontrivial();
		char *p = NULL; ssize_t k = coda_base58_decode_alloc(in, in.size(), &p); bool ok = k == (ssize_t) n && p && !memcmp(p, d.data(), n); if (k >= 0 && p) free(p);
		CHECK(ok, "decode_alloc of %zu characters gives %zd, expected %zu bytes", t.size(), k, n);
		return;
	}
	if (kind >= 25 && kind < 28)
	{
		size_t z = s.oneof<size_t>({ 255, 65535, 65536, 70000, 300000 }) + s.below(3); std::string b = s.bytes(s.below(5)); std::string d = std::string(z, '\0') + b, t = ref_enc(d);
		c.say("%zu zeros and %s", z, show(b).c_str()); c.label("many zeros"); c.nontrivial();
		Exact in(d), tx(t); char *p = NULL; size_t r = coda_base58_encode_alloc(in, in.size(), &p); bool ok = p && r == t.size() && t == p; free(p);
		CHECK(ok, "encode_alloc gives %zu characters, expected %zu", r, t.size());
		p = NULL; ssize_t k = coda_base58_decode_alloc(tx, tx.size(), &p); ok = k == (ssize_t) d.size() && p && !memcmp(p, d.data(), d.size()); if (k >= 0 && p) free(p);
		CHECK(ok, "decode_alloc gives %zd, expected %zu", k, d.size());
		return;
	}
	bool vl = kind == 29; size_t n = vl ? 47480 + s.below(200) : 400 + s.below(4500);
	std::string d = std::string(s.below(3) ? 0 : s.below(300), '\0'); uint64_t x = s.u64() | 1; if (s.below(4) == 0) d += std::string(n, '\xff'); else for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; d += (char) x; }
	c.say("%zu bytes %s...", d.size(), show(d.substr(0, 40)).c_str()); c.label(vl ? "very long input" : "long input"); c.nontrivial();
	std::string want = fast_enc(d); Exact in(d);
	char *p = NULL; size_t r = coda_base58_encode_alloc(in, in.size(), &p);
	CHECK(p, "encode_alloc gave no buffer"); std::string got = p; free(p);
	CHECK(got == want && r == want.size(), "encode_alloc of %zu bytes gives length %zu and another text than expected (%zu)", d.size(), r, want.size());
	if (vl && s.below(2)) return;
	Exact t(want); p = NULL; ssize_t k = coda_base58_decode_alloc(t, t.size(), &p);
	bool ok = k == (ssize_t) d.size() && p && !memcmp(p, d.data(), d.size()); if (k >= 0 && p) free(p);
	CHECK(ok, "decode_alloc of %zu characters gives %zd, expected %zu bytes", want.size(), k, d.size());
	if (vl) return;
	size_t m = s.below(want.size() + 3); Exact out(m, 0x5a); coda_base58_encode(in, in.size(), out, m);
	CHECK(!memcmp(out.data(), want.c_str(), std::min(m, want.size() + 1)), "encode of %zu bytes into %zu is no prefix of the text", d.size(), m);
	std::string bad = want; bad[s.below(bad.size())] = '0'; Exact b(bad); p = NULL; k = coda_base58_decode_alloc(b, b.size(), &p); if (k >= 0 && p) free(p);
	CHECK(k < 0 && !p, "decode_alloc of %zu characters with a foreign one gives %zd", bad.size(), k);
}

void prop_init() {}

static void check_decode(const std::string &text, const std::string *expect)
{
	Exact in(text);
	size_t z = 0; while (z < text.size() && text[z] == '1') ++z;
	Exact out(z + (text.size() - z) * 733 / 1000 + 1, 0x5a);
	leakcheck("coda_base58_decode", [&]() {
		ssize_t r = coda_base58_decode(in, in.size(), out);
		if (expect) CHECK(r == (ssize_t) expect->size() && !memcmp(out.data(), expect->data(), expect->size()),
			"decode(%s) = %zd %s, expected %zu %s", show(text).c_str(), r, r >= 0 && r <= (ssize_t) out.size() ? show(out.data(), r).c_str() : "-", expect->size(), show(*expect).c_str());
		else CHECK(r < 0, "decode(%s) = %zd, expected an error (negative)", show(text).c_str(), r);
	});
	leakcheck("coda_base58_decode_alloc", [&]() {
		char *p = (char *) 1;
		ssize_t r = coda_base58_decode_alloc(in, in.size(), &p);
		if (expect)
		{
			bool ok = r == (ssize_t) expect->size() && p && p != (char *) 1 && !memcmp(p, expect->data(), expect->size());
			if (p && p != (char *) 1) free(p);
			CHECK(ok, "decode_alloc(%s) = %zd, expected %zu %s", show(text).c_str(), r, expect->size(), show(*expect).c_str());
		}
		else
		{
			bool ok = r < 0 && p == NULL;
			if (p && p != (char *) 1) free(p);
			CHECK(ok, "decode_alloc(%s) = %zd with buffer %s, expected an error and no buffer", show(text).c_str(), r, p ? "set" : "null");
		}
	});
}

static void check_encode(const std::string &data, Src &s, Ctx &c)
{
	std::string want = ref_enc(data);
	Exact in(data);
	leakcheck("coda_base58_encode_alloc", [&]() {
		char *p = NULL;
		size_t r = coda_base58_encode_alloc(in, in.size(), &p);
		CHECK(p, "encode_alloc gave no buffer");
		bool ok = !strcmp(p, want.c_str()) && r == want.size();
		std::string got = p; free(p);
		CHECK(ok, "encode_alloc(%s) = %s length %zu, expected %s length %zu", show(data).c_str(), show(got).c_str(), r, show(want).c_str(), want.size());
	});
	size_t n;
	switch (s.weighted({ 2, 2, 2, 1 }))
	{
		case 0: n = want.size() + 1 - std::min<size_t>(want.size() + 1, s.below(4)); break;
		case 1: n = s.below(want.size() + 2); break;
		case 2: n = want.size() + s.below(40); break;
		default: n = s.below(4);
	}
	if (n < want.size()) c.nontrivial();
	c.label(n < want.size() ? "truncated output" : n == want.size() ? "output exactly full" : "output with room");
	c.say("encode into %zu bytes (full text %zu)", n, want.size());
	Exact out(n, 0x5a);
	leakcheck("coda_base58_encode", [&]() {
		coda_base58_encode(in, in.size(), out, n);
		size_t m = std::min(n, want.size());
		CHECK(!memcmp(out.data(), want.data(), m), "encode(%s) into %zu bytes stored %s, expected a prefix of %s", show(data).c_str(), n, show(out.data(), n).c_str(), show(want).c_str());
		if (n > want.size()) CHECK(out.data()[want.size()] == 0, "encode(%s) into %zu bytes: no terminating zero", show(data).c_str(), n);
	});
}

void run_case(Src &s, Ctx &c)
{
	if (!pbt::guided && s.below(2000) == 777) { large(s, c); return; }
	if (s.below(1000) == 999)
	{
		// a buffer that is said to hold, and holds, gigabytes
		size_t n = vast_len(s); Vast v(n); if (!v.data()) return;
		std::string d = s.bytes(s.below(40)), t = ref_enc(d); Exact in(d); memset(v.data(), 0x5a, 100);
		c.say("encode %s into %zu bytes", show(d).c_str(), n); c.label("huge buffer"); c.nontrivial();
		coda_base58_encode(in, d.size(), v.data(), n);
		CHECK(!memcmp(v.data(), t.c_str(), t.size() + 1), "encode(%s) into %zu bytes stored %s", show(d).c_str(), n, show(v.data(), t.size() + 1).c_str());
		return;
	}
	if (s.weighted({ 3, 2 }) == 0)
	{
		size_t z = s.chance(80) ? s.len(60) : 0;
		std::string d = std::string(z, '\0') + s.blob(s.chance(16) ? 400 : 60);
		c.say("bytes %s", show(d).c_str());
		c.nontrivial(z || d.size() >= 3);
		c.label(z ? "bytes with leading zeros" : "bytes");
		check_encode(d, s, c);
		std::string t = ref_enc(d);
		check_decode(t, &d);
	}
	else
	{
		std::string t = s.from(AL, s.len(s.chance(16) ? 400 : 60));
		if (s.chance(100)) t.insert(0, s.len(20), '1');
		if (s.chance(40)) { size_t k = s.below(3); for (auto &ch : t) if (ch != '1') ch = k ? 'z' : '2'; }
		int bad = 0;
		while (s.more(1) && bad < 4)
		{
			char ch;
			switch (s.weighted({ 3, 2, 1 }))
			{
				case 0: ch = s.oneof<char>({ '0', 'O', 'I', 'l', ' ', '\0', '\n', '+', '=' }); break;
				case 1: ch = (char) s.byte(); s.note((uint8_t) ch); break;
				default: ch = (char) (128 + s.below(128)); break;
			}
			size_t p = s.below(t.size() + 1);
			if (s.chance(128) && p < t.size()) t[p] = ch; else t.insert(p, 1, ch);
			++bad;
		}
		bool valid = true;
		for (unsigned char ch : t)
		{
			CHECK(coda_isbase58((char) ch) == (digit(ch) >= 0), "coda_isbase58(0x%02x) = %d", ch, coda_isbase58((char) ch));
			if (digit(ch) < 0) valid = false;
		}
		c.say("text %s (%s)", show(t).c_str(), valid ? "valid" : "invalid");
		c.nontrivial(!valid || t.size() >= 3);
		c.label(valid ? "valid text" : digit(t[0]) < 0 ? "invalid text, first character" : "invalid text, later character");
		if (valid) { std::string d = ref_dec(t); check_decode(t, &d); }
		else check_decode(t, NULL);
	}
}
