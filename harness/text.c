/* Exact conversion between card encodings and text (emv_strings.c): C28 */
#include "vp.h"
#include "emv_strings.h"

static int text_length(const char* s, size_t max)
{
	for (size_t i = 0; i < max; ++i) if (!s[i]) return (int)i;
	return -1;
}
/* s (n octets) is exactly the text t of m characters */
static bool is_text(const char* s, size_t n, const char* t, size_t m)
{
	bool ok = n > m;
	for (size_t i = 0; i < MAXOUT; ++i) {
		if (i < m && i < n && s[i] != t[i]) ok = false;
		if (i == m && i < n && s[i] != 0) ok = false;
	}
	return ok;
}

/* ---- date and time ---- */
#ifdef V_DT
static void date_time(bool date)
{
	size_t len = vp_size(4), n = vp_size(MAXOUT);
	const uint8_t* in = vp_buf(len, 4);
	char* out = (char*)vp_buf(n, MAXOUT);
	bool null = vp_bool();
	char t[11];
	bool digits = true;
	uint8_t d[6];
	for (unsigned int i = 0; i < 6; ++i) d[i] = 0;
	if (len == 3) for (unsigned int i = 0; i < 3; ++i) {
		d[2 * i] = in[i] >> 4; d[2 * i + 1] = in[i] & 15;
		if (d[2 * i] > 9 || d[2 * i + 1] > 9) digits = false;
	}
	size_t m;
	if (date) {
		t[0] = '2'; t[1] = '0'; t[2] = '0' + d[0]; t[3] = '0' + d[1]; t[4] = '-'; t[5] = '0' + d[2]; t[6] = '0' + d[3]; t[7] = '-'; t[8] = '0' + d[4]; t[9] = '0' + d[5]; m = 10;
	} else {
		t[0] = '0' + d[0]; t[1] = '0' + d[1]; t[2] = ':'; t[3] = '0' + d[2]; t[4] = '0' + d[3]; t[5] = ':'; t[6] = '0' + d[4]; t[7] = '0' + d[5]; m = 8;
	}
	int r = date ? emv_date_get_string(in, len, null ? NULL : out, n) : emv_time_get_string(in, len, null ? NULL : out, n);
	if (!len) VP_POST("no data is an error", r < 0);
	else if (null || !n) VP_POST("no text wanted", r == 0);
	else if (len != 3) VP_POST("wrong length", r > 0);
	else if (n < m + 1) VP_POST("text does not fit", r < 0);
	else if (!digits) VP_POST("invalid digit", r > 0);
	else VP_POST("exact text", r == 0 && is_text(out, n, t, m));
	VP_COVER("text", r == 0 && !null && n == m + 1);
}
void b_date(void) { date_time(true); }
void b_time(void) { date_time(false); }
#endif

/* ---- digits and track 2 ---- */
#ifdef V_DIG
static void digits(bool track2)
{
	size_t len = vp_size(MAXIN), n = vp_size(MAXOUT);
	const uint8_t* in = vp_buf(len, MAXIN);
	char* out = (char*)vp_buf(n, MAXOUT);
	char t[2 * MAXIN + 1];
	size_t m = 0;
	bool end = false, bad = false;
	for (size_t i = 0; i < 2 * MAXIN; ++i) if (i < 2 * len && !end) {
		uint8_t x = (i & 1) ? in[i / 2] & 15 : in[i / 2] >> 4;
		if (x == 15) end = true;
		else if (x > 9 && !track2) { end = true; bad = true; }
		else t[m++] = '0' + x;
	}
	int r = track2 ? emv_track2_equivalent_data_get_string(in, len, out, n) : emv_format_cn_get_string(in, len, out, n);
	if (!len) VP_POST("no data is an error", r < 0);
	else if (!n) VP_POST("no text wanted", track2 ? r == 0 : r < 0);
	else if (n < 2 * len + 1) VP_POST("text does not fit", r < 0);
	else if (bad) VP_POST("invalid digit", r > 0);
	else VP_POST("exact text up to the padding", r == 0 && is_text(out, n, t, m));
	VP_COVER("padded", r == 0 && m == 3 && len == 2);
	VP_COVER("full", r == 0 && len == MAXIN && m == 2 * MAXIN);
}
void b_cn(void) { digits(false); }
void b_track2(void) { digits(true); }
#endif

/* ---- characters ---- */
#ifdef V_CHR
void b_chars(void)
{
	size_t len = vp_size(MAXIN), n = vp_size(MAXOUT);
	const uint8_t* in = vp_buf(len, MAXIN);
	char* out = (char*)vp_buf(n, MAXOUT);
	char t[MAXIN + 1];
	unsigned int bad = 0;
	for (size_t i = 0; i < MAXIN; ++i) if (i < len) {
		uint8_t c = in[i];
		bool a = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), d = c >= '0' && c <= '9';
		t[i] = (char)c;
		if (!(a || (V_CHR >= 1 && d) || (V_CHR == 2 && c == ' ') || (V_CHR == 3 && c >= 0x20 && c <= 0x7F))) ++bad;
	}
	int r = V_CHR == 0 ? emv_format_a_get_string(in, len, out, n) : V_CHR == 1 ? emv_format_an_get_string(in, len, out, n) :
		V_CHR == 2 ? emv_format_ans_only_space_get_string(in, len, out, n) : emv_format_ans_ccs_get_string(in, len, out, n);
	if (!len || !n) VP_POST("nothing to do is an error", r < 0);
	else if (n < len + 1) VP_POST("text does not fit", r < 0);
	else if (bad) VP_POST("invalid character", r > 0);
	else VP_POST("exact text", r == 0 && is_text(out, n, t, len));
	VP_COVER("text", r == 0 && len == MAXIN);
}
#endif

/* ---- numbers ---- */
#ifdef V_NUM
/* decimal text of v */
static size_t decimal(uint32_t v, char* t)
{
	static const uint32_t p[10] = { 1000000000, 100000000, 10000000, 1000000, 100000, 10000, 1000, 100, 10, 1 };
	size_t m = 0;
	for (unsigned int i = 0; i < 10; ++i) {
		if (v >= p[i] || m || i == 9) t[m++] = '0' + (char)(v / p[i] % 10);
	}
	return m;
}
static void check_amount(uint32_t v, size_t len)
{
	size_t n = vp_size(MAXOUT);
	uint8_t* in = vp_buf(len, 4);
	char* out = (char*)vp_buf(n, MAXOUT);
	char t[10];
	for (size_t i = 0; i < len; ++i) in[i] = (uint8_t)(v >> (8 * (len - 1 - i)));
	size_t m = decimal(v, t);
	int r = emv_amount_get_string(in, len, out, n);
	if (!n) VP_POST("no text wanted", r == 0);
	else if (n < m + 1) VP_POST("text does not fit", r < 0);
	else VP_POST("exact text", r == 0 && is_text(out, n, t, m));
	VP_COVER("text", r == 0 && n == m + 1);
}
void b_amount(void) { check_amount(vp_u16(), 2); }
void b_amount_1(void) { check_amount(vp_u8(), 1); }
void b_amount_window(void) { check_amount(BASE + vp_u8(), 4); }
/* format n: the digits themselves, without leading zeroes */
void b_format_n(void)
{
	size_t n = vp_size(MAXOUT), len = LEN;
	uint8_t* in = vp_buf(len, LEN);
	char* out = (char*)vp_buf(n, MAXOUT);
	static const uint8_t high[] = HIGH;
	for (size_t i = 0; i < sizeof(high); ++i) in[i] = high[i];
	char t[2 * LEN + 1];
	size_t m = 0;
	bool bad = false;
	for (size_t i = 0; i < 2 * LEN; ++i) {
		uint8_t x = (i & 1) ? in[i / 2] & 15 : in[i / 2] >> 4;
		if (x > 9) bad = true;
		if (x || m || i == 2 * LEN - 1) t[m++] = '0' + x;
	}
	int r = emv_format_n_get_string(in, len, out, n);
	if (bad) VP_POST("invalid digit", r > 0);
	else if (BIG) VP_POST("too large", r > 0);
	else if (n < m + 1) VP_POST("text does not fit", r < 0);
	else VP_POST("exact text", r == 0 && is_text(out, n, t, m));
#if !BIG
	VP_COVER("text", r == 0 && n == m + 1);
#endif
}
#endif

/* ---- text to digits ---- */
#ifdef V_PACK
static void pack(bool cn)
{
	size_t l = vp_size(MAXIN), n = vp_size(MAXOUT);
	char* s = (char*)vp_buf(l + 1, MAXIN + 1);
	uint8_t* out = vp_buf(n, MAXOUT);
	s[l] = 0;
	int sl = text_length(s, l + 1);
	VP_ASSUME(sl == (int)l);
	/* empty text is only defined for format cn */
	VP_ASSUME(cn || l > 0);
	uint8_t e[2 * MAXOUT];
	bool bad = false;
	for (size_t i = 0; i < 2 * MAXOUT; ++i) if (i < 2 * n) {
		uint8_t x;
		if (cn) {
			x = i < l ? (uint8_t)(s[i] - '0') : 15;
			if (i < l && (s[i] < '0' || s[i] > '9')) bad = true;
		} else {
			/* i counts from the right */
			x = i < l ? (uint8_t)(s[l - 1 - i] - '0') : 0;
			if (i < l && (s[l - 1 - i] < '0' || s[l - 1 - i] > '9')) bad = true;
		}
		e[i] = x;
	}
	int r = cn ? emv_str_to_format_cn(s, out, n) : emv_str_to_format_n(s, out, n);
	bool ok = true;
	for (size_t i = 0; i < MAXOUT; ++i) if (i < n) {
		uint8_t hi = cn ? e[2 * i] : e[2 * (n - 1 - i) + 1], lo = cn ? e[2 * i + 1] : e[2 * (n - 1 - i)];
		if (out[i] != (uint8_t)((hi << 4) | lo)) ok = false;
	}
	if (!n) VP_POST("no room is an error", r < 0);
	else if (bad) VP_POST("character that is not a digit", r > 0);
	else VP_POST("exact digits and padding", r == 0 && ok);
	VP_COVER("padded", r == 0 && l == 3 && n == 3);
	VP_COVER("cut", r == 0 && l == MAXIN && n == 2);
	/* what was packed reads back as the digits that fit */
	char back[2 * MAXOUT + 1];
	if (cn && n && !bad) {
		int r2 = emv_format_cn_get_string(out, n, back, sizeof(back));
		size_t m = l < 2 * n ? l : 2 * n;
		bool same = r2 == 0 && back[m] == 0;
		for (size_t i = 0; i < 2 * MAXOUT; ++i) if (i < m && back[i] != s[i]) same = false;
		VP_POST("round trip", same);
	}
}
void b_pack_cn(void) { pack(true); }
void b_pack_n(void) { pack(false); }
#endif
