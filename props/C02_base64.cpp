// @pbt quick=150000 thorough=8000000 fuzz=7 tfuzz=240 maxlen=800
#include "b64_common.h"
#include <coda/base64.h>

const char *prop_id = "C02";
const char *prop_rule = "byte strings (0-1200 bytes) encoded into buffers of every size and decoded back; alphabet texts with padding, then up to four edits (foreign, padding or alphabet characters replaced, inserted, removed, truncation) decoded into buffers of every size; lengths near the top of size_t. Oracle: bit-accumulator encoder and group-wise decoder written from RFC 4648. Non-trivial: more than two bytes encoded, a short buffer, an invalid text or an overflowing length.";
static size_t len(size_t n) { return CODA_BASE64_LENGTH(n); }
static size_t declen(size_t a, size_t b) { return CODA_BASE64_DECODE_LENGTH(a + b); }
static const B64Api A = { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", '=',
	coda_base64_encode, coda_base64_decode, coda_base64_encode_alloc, coda_base64_decode_alloc, coda_isbase64, len, declen };
void prop_init() {}
void run_case(Src &s, Ctx &c) { b64_case(A, s, c); }
