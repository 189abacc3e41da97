// Reference model shared by the Base64 (C02) and web64 (C03) harnesses.
#pragma once
#include "pbt.h"

struct B64Api {
	const char *alpha; char pad;
	void (*enc)(const char *, size_t, char *, size_t);
	bool (*dec)(const char *, size_t, char *, size_t *);
	size_t (*enc_alloc)(const char *, size_t, char **);          // or NULL
	bool (*dec_alloc)(const char *, size_t, char **, size_t *);  // or NULL
	bool (*isalpha)(char);                                       // or NULL
	size_t (*length)(size_t); size_t (*declength)(size_t, size_t); // declength: of a text in two parts
};

static std::string b64_ref_enc(const B64Api &A, const std::string &d)
{
	std::string r; unsigned acc = 0, bits = 0;
	for (unsigned char ch : d)
	{
		acc = (acc << 8 | ch) & 0xfffff; bits += 8;
		while (bits >= 6) { bits -= 6; r += A.alpha[acc >> bits & 63]; }
	}
	if (bits) r += A.alpha[acc << (6 - bits) & 63];
	while (r.size() % 4) r += A.pad;
	return r;
}
static int b64_digit(const B64Api &A, char c) { const char *p = c ? strchr(A.alpha, c) : 0; return p ? p - A.alpha : -1; }
// decodes the complete groups before the first bad one; ok = nothing bad
static std::string b64_ref_dec(const B64Api &A, const std::string &t, bool &ok)
{
	std::string r;
	for (size_t i = 0; i < t.size(); i += 4)
	{
		ok = false;
		if (t.size() - i < 4) return r;
		bool last = t.size() - i == 4;
		int a = b64_digit(A, t[i]), b = b64_digit(A, t[i + 1]), c = b64_digit(A, t[i + 2]), d = b64_digit(A, t[i + 3]);
		if (a < 0 || b < 0) return r;
		bool p3 = t[i + 2] == A.pad, p4 = t[i + 3] == A.pad;
		if (p3 && !(p4 && last)) return r;
		if (p4 && !last) return r;
		if (!p3 && c < 0) return r;
		if (!p4 && d < 0) return r;
		r += (char) (a << 2 | b >> 4);
		if (!p3) r += (char) (b << 4 | c >> 2);
		if (!p4) r += (char) (c << 6 | d);
	}
	ok = true;
	return r;
}

static void b64_check_decode(const B64Api &A, const std::string &t, Src &s, Ctx &c)
{
	bool ok; std::string want = b64_ref_dec(A, t, ok);
	Exact in(t);
	size_t n;
	switch (s.weighted({ 4, 2, 2, 1 }))
	{
		case 0: n = A.declength(t.size() / 3, t.size() - t.size() / 3); CHECK(!ok || n >= want.size(), "the length for decoding %zu characters is %zu, they hold %zu", t.size(), n, want.size()); break;
		case 1: n = s.below(want.size() + 2); break;
		case 2: n = want.size(); break;
		default: n = s.below(4); break;
	}
	c.say("decode into %zu bytes: %s; expected %s, %s", n, show(t).c_str(), ok ? "valid" : "invalid", show(want).c_str());
	c.label(ok ? (n < want.size() ? "valid text, short buffer" : "valid text") : "invalid text");
	if (!ok || n < want.size()) c.nontrivial();
	Exact out(n, 0x5a);
	leakcheck("decode", [&]() {
		size_t got = n;
		bool r = A.dec(in, in.size(), out, &got);
		CHECK(r == ok, "decode(%s) says %s, but the text is %s", show(t).c_str(), r ? "valid" : "invalid", ok ? "valid" : "invalid");
		CHECK(got <= n, "decode(%s) into %zu bytes reports %zu bytes", show(t).c_str(), n, got);
		size_t m = std::min(n, want.size());
		if (ok) CHECK(got == m, "decode(%s) into %zu bytes reports %zu bytes, expected %zu", show(t).c_str(), n, got, m);
		else CHECK(got >= m && got <= m + 2, "decode(%s) into %zu bytes reports %zu bytes, the complete groups hold %zu", show(t).c_str(), n, got, m);
		CHECK(!memcmp(out.data(), want.data(), m), "decode(%s) into %zu bytes gives %s, expected a prefix of %s", show(t).c_str(), n, show(out.data(), got).c_str(), show(want).c_str());
		for (size_t i = got; i < n; ++i) CHECK((unsigned char) out.data()[i] == 0x5a, "decode(%s) reports %zu bytes but wrote byte %zu", show(t).c_str(), got, i);
		memset(out.data(), 0x5a, n);
	});
	if (A.dec_alloc) leakcheck("decode_alloc", [&]() {
		char *p = (char *) 1; size_t got = 12345;
		bool r = A.dec_alloc(in, in.size(), &p, &got);
		if (ok)
		{
			bool good = r && p && p != (char *) 1 && got == want.size() && !memcmp(p, want.data(), got);
			if (p && p != (char *) 1) free(p);
			CHECK(good, "decode_alloc(%s) = %d length %zu, expected %s", show(t).c_str(), r, got, show(want).c_str());
			r = A.dec_alloc(in, in.size(), &p, NULL);
			good = r && p && !memcmp(p, want.data(), want.size());
			free(p);
			CHECK(good, "decode_alloc(%s) without length fails", show(t).c_str());
		}
		else
		{
			if (p && p != (char *) 1) free(p);
			CHECK(!r && !p, "decode_alloc(%s) = %d, buffer %p; expected false and no buffer", show(t).c_str(), r, (void *) p);
		}
	});
}

// inputs of 2-8 GB that are decided by their first bytes
static void b64_vast(const B64Api &A, Src &s, Ctx &c)
{
	size_t n = vast_len(s), k = s.below(40);
	Vast v(n); Exact out(k, 0x5a);
	if (!v.data()) { c.label("huge length: no address space"); return; }
	c.nontrivial();
	if (s.below(2))
	{
		// a short input into a buffer that is said to hold, and holds, gigabytes
		std::string d = s.bytes(k), t = b64_ref_enc(A, d); Exact in(d), text(t);
		c.say("encode and decode %s with a buffer of %zu bytes", show(d).c_str(), n); c.label("huge buffer");
		memset(v.data(), 0x5a, 100);
		A.enc(in, k, v.data(), n);
		CHECK(!memcmp(v.data(), t.c_str(), t.size() + 1), "encode(%s) into %zu bytes gives %s", show(d).c_str(), n, show(v.data(), t.size() + 1).c_str());
		memset(v.data(), 0x5a, 100);
		size_t got = n; bool r = A.dec(text, t.size(), v.data(), &got);
		CHECK(r && got == k && !memcmp(v.data(), d.data(), k), "decode(%s) into %zu bytes = %d, %zu bytes, %s", show(t).c_str(), n, r, got, show(v.data(), k).c_str());
		return;
	}
	if (s.below(2))
	{
		std::string d = s.bytes(45);
		v.at(0, d);
		c.say("encode %zu bytes that start with %s into %zu bytes", n, show(d).c_str(), k);
		c.label("huge input, encode");
		std::string want = b64_ref_enc(A, d).substr(0, k);
		A.enc(v.data(), n, out, k);
		CHECK(!memcmp(out.data(), want.data(), k), "encode of %zu bytes that start with %s into %zu bytes gives %s, expected %s", n, show(d).c_str(), k, show(out.data(), k).c_str(), show(want).c_str());
		size_t len = A.length(n); unsigned __int128 need = ((unsigned __int128) n + 2) / 3 * 4;
		CHECK(len == (size_t) need, "length macro(%zu) = %zu", n, len);
	}
	else
	{
		std::string t = s.from(A.alpha, 4 * s.below(8)); bool ok; std::string want = b64_ref_dec(A, t, ok);
		v.at(0, t);                                     // zeros, no digits, come next
		c.say("decode %zu bytes that start with %s into %zu bytes", n, show(t).c_str(), k);
		c.label("huge text, decode");
		{ size_t l = A.declength(n / 2, n - n / 2); CHECK(l >= n / 4 * 3, "the length for decoding %zu characters is %zu", n, l); }
		size_t got = k;
		bool r = A.dec(v.data(), n, out, &got);
		CHECK(!r, "decode of %zu bytes that start with %s and zeros says valid", n, show(t).c_str());
		size_t m = std::min(k, want.size());
		CHECK(got >= m && got <= std::min(k, m + 2), "decode of %zu bytes that start with %s and zeros into %zu bytes reports %zu bytes", n, show(t).c_str(), k, got);
		CHECK(!memcmp(out.data(), want.data(), m), "decode of %zu bytes that start with %s and zeros into %zu bytes gives %s", n, show(t).c_str(), k, show(out.data(), m).c_str());
	}
}

static void b64_case(const B64Api &A, Src &s, Ctx &c)
{
	if (s.below(1000) == 999) return b64_vast(A, s, c);
	switch (s.weighted({ 4, 5, 1 }))
	{
		case 0:
		{
			std::string d = s.blob(s.chance(16) ? 1200 : 50); if (s.chance(4)) d = stretch(s, d, s.oneof<const char *>({ "a", "\xff\x01", "xyz" })); std::string want = b64_ref_enc(A, d);
			Exact in(d);
			c.say("encode %s", show(d).c_str());
			CHECK(A.length(d.size()) == want.size(), "length macro(%zu) = %zu, expected %zu", d.size(), A.length(d.size()), want.size());
			size_t n;
			switch (s.weighted({ 2, 2, 2, 1 }))
			{
				case 0: n = want.size() + s.below(3); break;
				case 1: n = s.below(want.size() + 2); break;
				case 2: n = want.size() - std::min<size_t>(want.size(), s.below(6)); break;
				default: n = want.size() + 1 + s.below(30);
			}
			c.nontrivial(n < want.size() || d.size() > 2);
			c.label(n < want.size() ? "encode, short buffer" : n == want.size() ? "encode, exactly full" : "encode, room");
			Exact out(n, 0x5a);
			leakcheck("encode", [&]() {
				A.enc(in, in.size(), out, n);
				size_t m = std::min(n, want.size());
				CHECK(!memcmp(out.data(), want.data(), m), "encode(%s) into %zu bytes gives %s, expected a prefix of %s", show(d).c_str(), n, show(out.data(), n).c_str(), show(want).c_str());
				if (n > want.size()) CHECK(!out.data()[m], "encode(%s) into %zu bytes is not zero-terminated", show(d).c_str(), n);
			});
			if (A.enc_alloc) leakcheck("encode_alloc", [&]() {
				char *p = 0; size_t r = A.enc_alloc(in, in.size(), &p);
				CHECK(p, "encode_alloc gave no buffer");
				bool good = r == want.size() && !memcmp(p, want.data(), r) && !p[r];
				std::string got(p); free(p);
				CHECK(good, "encode_alloc(%s) = %s length %zu, expected %s", show(d).c_str(), show(got).c_str(), r, show(want).c_str());
			});
			b64_check_decode(A, want, s, c);
			break;
		}
		case 1:
		{
			// valid text, then damaged
			size_t groups = s.len(s.chance(16) ? 200 : 10);
			std::string t = s.from(A.alpha, groups * 4);
			if (groups) { size_t p = s.below(3); for (size_t i = 0; i < p; ++i) t[t.size() - 1 - i] = A.pad; }
			if (s.chance(4)) t = stretch(s, t, std::string(A.alpha).substr(s.below(50), 4));
			int edits = 0;
			while (s.more(1) && edits++ < 4)
			{
				size_t p = s.below(t.size() + 1);
				char ch;
				switch (s.weighted({ 3, 3, 2, 2 }))
				{
					case 0: ch = A.pad; break;
					case 1: ch = s.oneof<char>({ '=', '.', '+', '/', '-', '_', '\n', ' ', '\0', ',', '*', '@', '[', '`', '{', ':' }); break;
					case 2: ch = (char) s.byte(); s.note((uint8_t) ch); break;
					default: ch = s.pick(std::string(A.alpha)); break;
				}
				switch (s.below(4))
				{
					case 0: if (p < t.size()) t[p] = ch; break;
					case 1: t.insert(p, 1, ch); break;
					case 2: if (p < t.size()) t.erase(p, 1); break;
					default: t.resize(p); break;
				}
			}
			b64_check_decode(A, t, s, c);
			break;
		}
		default:
		{
			if (A.isalpha) for (int i = 0; i < 256; ++i) CHECK(A.isalpha((char) i) == (b64_digit(A, (char) i) >= 0), "isbase64(0x%02x) = %d", i, A.isalpha((char) i));
			if (A.enc_alloc)
			{
				// lengths whose encoding does not fit in size_t, or in memory
				size_t big;
				switch (s.below(3))
				{
					case 0: big = SIZE_MAX - s.below(200); break;
					case 1: big = SIZE_MAX / 4 * 3 + s.below(200) - 100; break;
					default: big = SIZE_MAX / 4 * 3 + s.below(SIZE_MAX / 4); break;
				}
				unsigned __int128 need = (((unsigned __int128) big + 2) / 3) * 4 + 1;
				bool over = need > SIZE_MAX;
				c.say("encode_alloc of %zu bytes (%s)", big, over ? "length overflows" : "too much memory");
				c.label(over ? "huge length, overflow" : "huge length, no memory");
				c.nontrivial();
				char *p = (char *) 1; Exact in(std::string(64, 'x'));
				size_t r = A.enc_alloc(in, big, &p);
				CHECK(p == NULL, "encode_alloc of %zu bytes returned a buffer", big);
				CHECK(r == (over ? 0 : (size_t) need), "encode_alloc of %zu bytes returned %zu without a buffer, expected %zu", big, r, over ? (size_t) 0 : (size_t) need);
			}
		}
	}
}
