/* EMV format conversions */
#include "vp.h"
#include "emv_tlv.h"

#ifndef NBITS
#define NBITS 16
#endif
#ifndef NLEN
#define NLEN 6
#endif
/* reference: decimal value of packed digits, right justified */
static bool spec_n(const uint8_t* p, size_t len, size_t max, uint32_t* v, bool* big)
{
	*v = 0;
	*big = false;
	for (size_t i = 0; i < 2 * max; ++i) {
		if (i < 2 * len) {
			uint8_t d = (i & 1) ? p[i / 2] & 0xF : p[i / 2] >> 4;
			if (d > 9) return false;
			uint64_t x = (uint64_t)*v * 10 + d;
			if (x > 0xFFFFFFFF) { *big = true; return true; }
			*v = (uint32_t)x;
		}
	}
	return true;
}
static void n_encode(size_t len, uint32_t value)
{
	uint8_t* mem = malloc(NLEN);
	VP_ASSUME(mem != NULL);
	uint8_t* p = mem + (NLEN - len);
	const uint8_t* r = emv_uint_to_format_n(value, p, len);
	if (len == 0) {
		VP_POST("no buffer", r == NULL);
		return;
	}
	VP_POST("returns the buffer", r == p);
	uint64_t mod = 1, v = 0;
	bool digits = true;
	for (size_t i = 0; i < NLEN; ++i) {
		if (i < len) {
			if ((p[i] >> 4) > 9 || (p[i] & 0xF) > 9) digits = false;
			v = v * 100 + (p[i] >> 4) * 10 + (p[i] & 0xF);
			mod *= 100;
		}
	}
	VP_POST("only decimal digits", digits);
	/* v == value mod 100^len, without a division */
	VP_POST("value, right justified and zero padded", len >= 5 ? v == value : v < mod && v <= value && (value - v) % mod == 0);
	VP_COVER("many digits", len < 3 || v > 50000u);
}
static uint32_t any_value(void)
{
	uint32_t value = vp_u32();
	VP_ASSUME(value < (1u << NBITS));
	return value;
}
void b_n_encode(void)
{
#ifdef LEN
	n_encode(LEN, any_value());
#else
	n_encode(0, any_value()); n_encode(1, any_value()); n_encode(2, any_value()); n_encode(3, any_value()); n_encode(4, any_value());
#endif
}
#ifndef LEN
#define LEN NLEN
#endif
/* windows of values around digit and word boundaries */
void b_n_encode_windows(void)
{
	n_encode(LEN, 99872 + vp_u8());
	n_encode(LEN, 65408 + vp_u8());
	n_encode(LEN, 999872 + vp_u8());
	n_encode(LEN, 9999872 + vp_u8());
	n_encode(LEN, 0xFFFF80 + vp_u8());
	n_encode(LEN, 99999872 + vp_u8());
	n_encode(LEN, 999999872 + vp_u8());
	n_encode(LEN, 0x7FFFFF80u + vp_u8());
	n_encode(LEN, 3999999872u + vp_u8());
	n_encode(LEN, 0xFFFFFF00 + vp_u8());
}
void b_n_decode(void)
{
#ifdef FIXLEN
	size_t len = NLEN;
#else
	size_t len = vp_size(NLEN);
#endif
	uint8_t* p = vp_buf(len, NLEN);
#if NLEN == 6
	/* around 2^32-1 */
	VP_ASSUME(p[2] == 0x94 && p[3] == 0x96 && p[4] == 0x72);
#endif
	uint32_t value = 0;
	uint32_t v; bool big;
	int r = emv_format_n_to_uint(p, len, &value);
	if (len == 0) { VP_POST("empty rejected", r < 0); return; }
	bool ok = spec_n(p, len, NLEN, &v, &big);
	if (!ok || big) {
		VP_POST("digits above 9 and values above 32 bits are rejected", r > 0);
	} else {
		VP_POST("accepted", r == 0);
		VP_POST("exact value", value == v);
	}
	VP_COVER("large", len < 5 || (r == 0 && value > 4000000000u));
	VP_COVER("too large", len < 5 || (ok && big));
	VP_COVER("bad digit", !ok);
}
void b_b(void)
{
	size_t len = vp_size(8);
	uint8_t* p = vp_buf(len, 8);
	uint32_t value = vp_u32(), v = 0;
	int r = emv_format_b_to_uint(p, len, &v);
	if (len == 0 || len > 4) {
		VP_POST("unsupported length rejected", r < 0);
	} else {
		uint32_t e = 0;
		for (size_t i = 0; i < 4; ++i) if (i < len) e = (e << 8) | p[i];
		VP_POST("big endian value", r == 0 && v == e);
	}
	const uint8_t* q = emv_uint_to_format_b(value, p, len);
	if (len == 0) { VP_POST("no buffer", q == NULL); return; }
	VP_POST("returns the buffer", q == p);
	size_t k = vp_size(7);
	if (k < len) {
		size_t sh = len - 1 - k;
		VP_POST("big endian, right justified, zero padded", p[k] == (sh < 4 ? (uint8_t)(value >> (8 * sh)) : 0));
	}
	if (len == 4) {
		VP_POST("round trip", emv_format_b_to_uint(p, len, &v) == 0 && v == value);
	}
	VP_COVER("long", len == 8 && k == 7);
}
void b_fmt_null(void)
{
	uint8_t b[2] = { 1, 2 }; uint32_t v;
	char s[2];
	VP_POST("NULL rejected", emv_format_n_to_uint(NULL, 2, &v) < 0 && emv_format_n_to_uint(b, 2, NULL) < 0 &&
		emv_format_b_to_uint(NULL, 2, &v) < 0 && emv_format_b_to_uint(b, 2, NULL) < 0 &&
		emv_uint_to_format_n(1, NULL, 2) == NULL && emv_uint_to_format_b(1, NULL, 2) == NULL &&
		emv_format_ans_to_non_control_str(NULL, 2, s, 2) < 0 && emv_format_ans_to_non_control_str(b, 2, NULL, 2) < 0 &&
		emv_format_ans_to_alnum_space_str(NULL, 2, s, 2) < 0 && emv_format_ans_to_alnum_space_str(b, 2, NULL, 2) < 0 &&
		emv_format_b_to_str(NULL, 2, s, 2) < 0 && emv_format_b_to_str(b, 2, NULL, 2) < 0);
	VP_COVER("reached", true);
}

/* ---- character filters ---- */
#define KEPT_NC(c) (((c) >= 0x20 && (c) <= 0x7E) || (c) >= 0xA0)
#define KEPT_AN(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'A' && (c) <= 'Z') || ((c) >= 'a' && (c) <= 'z') || (c) == ' ')
#ifndef SLEN
#define SLEN 5
#endif
#define FILTER_HARNESS(fn, KEPT) \
void b_##fn(void) \
{ \
	size_t len = vp_size(SLEN), out_len = vp_size(SLEN + 2); \
	uint8_t* p = vp_buf(len, SLEN); \
	uint8_t* mem = vp_buf(out_len, SLEN + 2); \
	char* out = (char*)mem; \
	uint8_t exp[SLEN + 1]; size_t n = 0; \
	int r = emv_##fn(p, len, out, out_len); \
	if (!len || !out_len) { VP_POST("empty buffers rejected", r < 0); return; } \
	VP_POST("succeeds", r == 0); \
	for (size_t i = 0; i < SLEN; ++i) if (i < len && n + 1 < out_len && KEPT(p[i])) exp[n++] = p[i]; \
	exp[n] = 0; \
	for (size_t i = 0; i <= SLEN; ++i) if (i <= n) VP_POST("exactly the permitted characters, in order, truncated to fit, terminated", (uint8_t)out[i] == exp[i]); \
	VP_COVER("truncated", n == 3 && out_len == 4); \
	VP_COVER("dropped", n == 2 && len == 4 && out_len > 5); \
}
FILTER_HARNESS(format_ans_to_non_control_str, KEPT_NC)
FILTER_HARNESS(format_ans_to_alnum_space_str, KEPT_AN)

void b_hex(void)
{
	static const char hex[] = "0123456789ABCDEF";
	size_t len = vp_size(4), out_len = vp_size(10);
	uint8_t* p = vp_buf(len, 4);
	char* out = (char*)vp_buf(out_len, 10);
	int r = emv_format_b_to_str(p, len, out, out_len);
	if (!len || !out_len) { VP_POST("empty buffers rejected", r < 0); return; }
	VP_POST("succeeds", r == 0);
	size_t n = len * 2 < out_len - 1 ? len * 2 : out_len - 1;
	for (size_t i = 0; i < 9; ++i) if (i < n) VP_POST("hex digit", out[i] == hex[i & 1 ? p[i / 2] & 0xF : p[i / 2] >> 4]);
	VP_POST("terminated", out[n] == 0);
	VP_COVER("truncated", n == 5 && len == 4);
	VP_COVER("full", n == 8);
}

