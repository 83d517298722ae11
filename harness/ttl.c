/* Terminal Transport Layer: T=0 TPDU / APDU exchange and commands */
#include "vp.h"
#include "emv_ttl.h"
#include "iso7816_apdu.h"

/* ---- specification of the exchange (ISO 7816-3 10.3.3, 12.2.1; EMV Contact
 * Interface Specification 9.2.2.3, 9.3.1, Annex A), as the card reader sees it:
 * after every response it states what has to be transmitted next, or what the
 * result has to be ---- */
#ifndef KX
#define KX 4        /* exchanges */
#endif
#ifndef CD
#define CD 3        /* command data octets */
#endif
#ifndef RL
#define RL 5        /* response octets per exchange */
#endif
#ifndef CAP
#define CAP 8       /* response buffer */
#endif
#define CLEN (CD + 6)

static enum emv_cardreader_mode_t g_mode;
static uint8_t g_c[CLEN]; static size_t g_clen; static int g_case;
static unsigned int g_calls; static bool g_final; static int g_err; /* 0 success, 1 positive, -1 negative, 2 reader error */
static int g_rc;
static uint8_t g_le[CLEN];
static uint8_t g_hdr[5]; static unsigned int g_left, g_sent; /* command data to send */
static uint8_t g_exp[CLEN]; static size_t g_explen;
static uint8_t g_out[CAP + RL]; static size_t g_outn, g_cap; static unsigned int g_sw; static bool g_have_sw;
static bool g_first; /* the last transmission was the command itself */

static int spec_case(const uint8_t* c, size_t len)
{
	if (len < 4) return 0;
	if (len == 4) return 1;
	if (len == 5) return 2;
	if (c[4] == 0) return 0; /* extended */
	if (len == 5u + c[4]) return 3;
	if (len == 6u + c[4]) return 4;
	return 0;
}
static void fin(int err) { g_final = true; g_err = err; }
static void expect(const uint8_t* p, size_t n)
{
	for (size_t i = 0; i < CLEN; ++i) if (i < n) g_exp[i] = p[i];
	g_explen = n;
}
static void start(void)
{
	g_calls = 0; g_final = false; g_err = 0; g_outn = 0; g_have_sw = false; g_sw = 0; g_sent = 0; g_left = 0; g_first = true;
	g_case = spec_case(g_c, g_clen);
	for (unsigned int i = 0; i < 5; ++i) g_hdr[i] = i < 4 || g_case != 1 ? g_c[i] : 0;
	if (g_mode == EMV_CARDREADER_MODE_TPDU) {
		if (g_case >= 3) g_left = g_c[4];
		expect(g_hdr, 5);
	} else {
		expect(g_c, g_clen);
	}
}
static void respond(const uint8_t* rx, size_t n)
{
	if (n == 0) { fin(1); return; }
	uint8_t ins = g_hdr[1];
	if (g_case == 1 && n != 2) { fin(1); return; }
	if (n == 1) {
		if (rx[0] == ins && g_left > 0) {
			expect(g_c + 5 + g_sent, g_left);
			g_sent += g_left; g_left = 0;
		} else if (rx[0] == (ins ^ 0xFF) && rx[0] != 0x60 && g_left > 0) {
			expect(g_c + 5 + g_sent, 1);
			++g_sent; --g_left;
		} else {
			fin(1);
		}
		return;
	}
	uint8_t sw1 = rx[n - 2], sw2 = rx[n - 1];
	bool more = sw1 == 0x61, again = sw1 == 0x6C, warn = false;
	if ((more || again) && (g_case == 1 || g_case == 3)) {
		/* case 1 passes every status on */
		if (g_case == 3) { fin(1); return; }
	}
	if (g_case == 1) { g_sw = sw1 << 8 | sw2; fin(0); return; }
	if (!more && !again && !g_have_sw) {
		g_sw = sw1 << 8 | sw2;
		g_have_sw = true;
		warn = g_case == 4 && n == 2 && (sw1 == 0x62 || sw1 == 0x63);
	}
	/* response data */
	size_t off = g_mode == EMV_CARDREADER_MODE_TPDU ? 1 : 0;
	if (n > 2 + off) {
		if (g_case == 3) { fin(1); return; }
		if (off && rx[0] != ins) { fin(1); return; }
		size_t d = n - 2 - off;
		if (g_outn + d + 2 > g_cap) { fin(-1); return; }
		for (size_t i = 0; i < RL; ++i) if (i < d) g_out[g_outn + i] = rx[off + i];
		g_outn += d;
	}
	if (more || warn) {
		g_hdr[0] = 0x00; g_hdr[1] = 0xC0; g_hdr[2] = 0; g_hdr[3] = 0;
		g_hdr[4] = more || (sw1 == 0x62 && sw2 >= 0x02 && sw2 <= 0x80) ? sw2 : 0;
		g_left = 0; g_first = false;
		expect(g_hdr, 5);
	} else if (again) {
		if (g_mode == EMV_CARDREADER_MODE_APDU && g_case == 4 && g_first) {
			/* whole command with the Le that the card wants */
			for (size_t i = 0; i < CLEN; ++i) if (i < g_clen) g_le[i] = i + 1 == g_clen ? sw2 : g_c[i];
			expect(g_le, g_clen);
			return;
		}
		g_hdr[4] = sw2;
		g_left = 0;
		expect(g_hdr, 5);
	} else {
		fin(0);
	}
}

static int reader(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	VP_POST("reader context", ctx == g_exp);
	VP_POST("no transmission after the end of the exchange", !g_final);
	VP_POST("length of the transmission", tx_len == g_explen);
	bool same = true;
	for (size_t i = 0; i < CLEN; ++i) if (i < g_explen && i < tx_len && ((const uint8_t*)tx)[i] != g_exp[i]) same = false;
	VP_POST("octets of the transmission", same);
	VP_POST("room for a complete response", *rx_len >= 258);
#ifndef VP_NATIVE
	VP_POST("receive buffer", __CPROVER_w_ok(rx, 258));
#endif
	++g_calls;
	if (g_calls == KX) { g_rc = -7; fin(2); return g_rc; }
	g_rc = vp_bool() ? 0 : vp_int();
	if (g_rc) { fin(2); return g_rc; }
	size_t n = vp_size(RL);
	uint8_t* p = rx;
	vp_fill(p, RL);
	/* SW1 is 6X or 9X: ISO 7816-3 10.3.3 */
	if (n > 1) VP_ASSUME((p[n - 2] & 0xF0) == 0x60 || (p[n - 2] & 0xF0) == 0x90);
	respond(p, n);
	*rx_len = n;
	return 0;
}

static struct emv_ttl_t g_ttl;
void b_trx(void)
{
	uint16_t sw = vp_u16();
#ifdef MODE
	g_mode = MODE;
#else
	g_mode = vp_bool() ? EMV_CARDREADER_MODE_APDU : EMV_CARDREADER_MODE_TPDU;
#endif
	g_ttl.cardreader.mode = g_mode; g_ttl.cardreader.ctx = g_exp; g_ttl.cardreader.trx = reader;
#ifdef CLENFIX
	g_clen = CLENFIX;
#else
	g_clen = vp_size(CLEN);
#endif
	g_cap = vp_size(CAP);
	uint8_t* c = malloc(CLEN);
	VP_ASSUME(c != NULL);
	c += CLEN - g_clen;
	vp_fill(g_c, CLEN);
	for (size_t i = 0; i < CLEN; ++i) if (i < g_clen) c[i] = g_c[i];
	uint8_t* out = malloc(CAP);
	VP_ASSUME(out != NULL);
	out += CAP - g_cap;
	size_t n = g_cap;
	/* INS 6X and 9X are invalid: ISO 7816-3 12.1.2 */
	if (g_clen > 1) VP_ASSUME((g_c[1] & 0xF0) != 0x60 && (g_c[1] & 0xF0) != 0x90);
	start();
	int r = emv_ttl_trx(&g_ttl, c, g_clen, out, &n, &sw);
	if (g_case == 0 || g_cap < 2) {
		VP_POST("unusable command or buffer rejected before anything is transmitted", r < 0 && g_calls == 0);
		return;
	}
	VP_POST("exchange complete", g_final);
	if (g_err == 2) { VP_POST("error of the reader passed on", r == g_rc); return; }
	if (g_err == 1) { VP_POST("protocol error", r > 0); return; }
	if (g_err == -1) { VP_POST("response does not fit", r < 0); VP_COVER("does not fit", g_calls == 2); return; }
	VP_POST("success", r == 0);
	VP_POST("status", sw == g_sw);
	VP_POST("response length", n == g_outn + 2);
	bool same = true;
	for (size_t i = 0; i < CAP; ++i) if (i < g_outn && out[i] != g_out[i]) same = false;
	VP_POST("response data", same);
	VP_POST("response ends with the status", out[n - 2] == sw >> 8 && out[n - 1] == (sw & 0xFF));
#if !defined(CLENFIX) || CLENFIX > 6
	VP_COVER("case 4, procedure byte, response", g_case == 4 && g_calls == 3 && g_outn > 0);
#endif
#if !defined(CLENFIX) || CLENFIX == 5
	VP_COVER("wrong length, then data", g_case == 2 && g_calls == 2 && g_outn > 0 && g_sw == 0x9000);
#endif
}
void b_trx_null(void)
{
	uint8_t c[5] = { 0 }, o[8]; size_t n = 8; uint16_t sw;
	g_ttl.cardreader.mode = EMV_CARDREADER_MODE_APDU; g_ttl.cardreader.ctx = g_exp; g_ttl.cardreader.trx = reader;
	g_final = true;
	VP_POST("missing arguments", emv_ttl_trx(NULL, c, 5, o, &n, &sw) < 0 && emv_ttl_trx(&g_ttl, NULL, 5, o, &n, &sw) < 0 && emv_ttl_trx(&g_ttl, c, 0, o, &n, &sw) < 0 &&
		emv_ttl_trx(&g_ttl, c, 5, NULL, &n, &sw) < 0 && emv_ttl_trx(&g_ttl, c, 5, o, NULL, &sw) < 0 && emv_ttl_trx(&g_ttl, c, 5, o, &n, NULL) < 0);
	g_ttl.cardreader.mode = vp_int();
	VP_ASSUME(g_ttl.cardreader.mode != EMV_CARDREADER_MODE_APDU && g_ttl.cardreader.mode != EMV_CARDREADER_MODE_TPDU);
	VP_POST("unknown reader mode", emv_ttl_trx(&g_ttl, c, 5, o, &n, &sw) < 0);
}

/* ---- commands, against the contract of the exchange ---- */
static uint8_t x_apdu[261]; static size_t x_len; static unsigned int x_calls; static int x_r; static size_t x_rlen; static uint16_t x_sw;
static uint8_t x_rapdu[258];
int stub_trx(struct emv_ttl_t* ctx, const void* c_apdu, size_t c_apdu_len, void* r_apdu, size_t* r_apdu_len, uint16_t* sw1sw2)
{
	++x_calls;
	VP_POST("context passed on", ctx == &g_ttl);
	x_len = c_apdu_len;
	VP_POST("command fits", c_apdu_len >= 5 && c_apdu_len <= 261);
#ifdef VP_NATIVE
	memcpy(x_apdu, c_apdu, c_apdu_len);
#else
	VP_POST("command readable", __CPROVER_r_ok(c_apdu, c_apdu_len));
	VP_POST("response writable", __CPROVER_w_ok(r_apdu, *r_apdu_len));
	for (unsigned int i = 0; i < 22; ++i) if (i < c_apdu_len) x_apdu[i] = ((const uint8_t*)c_apdu)[i];
#endif
	VP_POST("room for any response", *r_apdu_len >= 258);
	if (x_r == 0) {
		memcpy(r_apdu, x_rapdu, 258);
		*r_apdu_len = x_rlen;
		*sw1sw2 = x_sw;
	}
	return x_r;
}
/* response lengths: each is a separate, concrete case */
static const unsigned int x_lens[] = { 2, 40, 258 };
static void x_start(unsigned int rlen)
{
	x_calls = 0; x_r = vp_bool() ? 0 : vp_int(); x_sw = vp_u16(); x_rlen = rlen;
	vp_fill(x_rapdu, 258);
}
#define OBUF 300
static uint8_t* x_out; static size_t x_given, x_n; static uint16_t x_swout;
static void x_buffers(void)
{
#ifdef XG
	x_given = XG;
#else
	x_given = vp_bool() ? 256 : vp_size(OBUF);
#endif
	x_out = malloc(OBUF);
	VP_ASSUME(x_out != NULL);
	x_out += OBUF - x_given;
	x_n = x_given;
	x_swout = 0;
}
static void x_result(int r)
{
	VP_POST("one command", x_calls == 1);
	VP_POST("result of the exchange", x_r ? r == x_r : r == 0);
	if (x_r == 0) {
		bool same = true;
		VP_POST("response data length", x_n == x_rlen - 2);
		VP_POST("status", x_swout == x_sw);
		for (unsigned int i = 0; i + 2 < x_rlen; ++i) if (x_out[i] != x_rapdu[i]) same = false;
		VP_POST("response data", same);
		VP_COVER("full response", x_n == 256);
	}
}
static void i_select_1(unsigned int rlen)
{
	bool next = vp_bool();
	size_t len = vp_size(20);
	uint8_t* name = vp_buf(len, 20);
	x_start(rlen); x_buffers();
	int r = next ? emv_ttl_select_by_df_name_next(&g_ttl, name, len, x_out, &x_n, &x_swout) : emv_ttl_select_by_df_name(&g_ttl, name, len, x_out, &x_n, &x_swout);
	if (x_given < 256 || len < 5 || len > 16) { VP_POST("invalid arguments rejected, nothing transmitted", r < 0 && x_calls == 0); return; }
	VP_POST("SELECT header", x_len == 6 + len && x_apdu[0] == 0x00 && x_apdu[1] == 0xA4 && x_apdu[2] == 0x04 && x_apdu[3] == (next ? 0x02 : 0x00) && x_apdu[4] == len && x_apdu[5 + len] == 0);
	unsigned int k = vp_size(15);
	VP_POST("SELECT data", k >= len || x_apdu[5 + k] == name[k]);
	x_result(r);
	VP_COVER("longest", len == 16 && r == 0);
}
static void i_read_record_1(unsigned int rlen)
{
	uint8_t sfi = vp_u8(), rec = vp_u8();
	x_start(rlen); x_buffers();
	int r = emv_ttl_read_record(&g_ttl, sfi, rec, x_out, &x_n, &x_swout);
	if (x_given < 256 || sfi < 1 || sfi > 30) { VP_POST("invalid arguments rejected, nothing transmitted", r < 0 && x_calls == 0); return; }
	VP_POST("READ RECORD", x_len == 5 && x_apdu[0] == 0x00 && x_apdu[1] == 0xB2 && x_apdu[2] == rec && x_apdu[3] == ((sfi << 3) | 4) && x_apdu[4] == 0);
	x_result(r);
}
#ifndef GD
#define GD 12
#endif
static void i_gpo_1(unsigned int rlen)
{
	size_t len = vp_size(GD);
	uint8_t* d = vp_buf(len, GD);
	bool none = vp_bool();
	x_start(rlen); x_buffers();
	int r = emv_ttl_get_processing_options(&g_ttl, none ? NULL : d, len, x_out, &x_n, &x_swout);
	if (x_given < 256 || (!none && (len < 2 || d[0] != 0x83))) { VP_POST("invalid arguments rejected, nothing transmitted", r < 0 && x_calls == 0); return; }
	size_t n = none ? 2 : len;
	VP_POST("GET PROCESSING OPTIONS header", x_len == 6 + n && x_apdu[0] == 0x80 && x_apdu[1] == 0xA8 && x_apdu[2] == 0 && x_apdu[3] == 0 && x_apdu[4] == n && x_apdu[5 + n] == 0);
	unsigned int k = vp_size(GD - 1);
	VP_POST("GET PROCESSING OPTIONS data", k >= n || x_apdu[5 + k] == (none ? (k ? 0x00 : 0x83) : d[k]));
	x_result(r);
	VP_COVER("empty", none && r == 0);
}
/* lengths around the maximum */
static void i_gpo_long_1(unsigned int rlen)
{
	static uint8_t d[300];
	size_t len = 240 + vp_size(60);
	d[0] = 0x83;
	x_start(rlen); x_buffers();
	VP_ASSUME(x_given >= 256);
	int r = emv_ttl_get_processing_options(&g_ttl, d, len, x_out, &x_n, &x_swout);
	if (len > 255) { VP_POST("data too long rejected, nothing transmitted", r < 0 && x_calls == 0); return; }
	VP_POST("length of long command", x_len == 6 + len && x_apdu[4] == len);
	x_result(r);
	VP_COVER("longest", len == 255 && r == 0);
}
void i_null(void)
{
	uint8_t b[8]; size_t n = 300; uint16_t sw;
	x_calls = 0;
	VP_POST("missing arguments", emv_ttl_select_by_df_name(NULL, b, 5, b, &n, &sw) < 0 && emv_ttl_select_by_df_name(&g_ttl, NULL, 5, b, &n, &sw) < 0 && emv_ttl_select_by_df_name(&g_ttl, b, 5, NULL, &n, &sw) < 0 &&
		emv_ttl_select_by_df_name(&g_ttl, b, 5, b, NULL, &sw) < 0 && emv_ttl_select_by_df_name(&g_ttl, b, 5, b, &n, NULL) < 0 &&
		emv_ttl_select_by_df_name_next(NULL, b, 5, b, &n, &sw) < 0 && emv_ttl_select_by_df_name_next(&g_ttl, NULL, 5, b, &n, &sw) < 0 && emv_ttl_select_by_df_name_next(&g_ttl, b, 5, NULL, &n, &sw) < 0 &&
		emv_ttl_select_by_df_name_next(&g_ttl, b, 5, b, NULL, &sw) < 0 && emv_ttl_select_by_df_name_next(&g_ttl, b, 5, b, &n, NULL) < 0);
	VP_POST("missing arguments", emv_ttl_read_record(NULL, 1, 1, b, &n, &sw) < 0 && emv_ttl_read_record(&g_ttl, 1, 1, NULL, &n, &sw) < 0 && emv_ttl_read_record(&g_ttl, 1, 1, b, NULL, &sw) < 0 && emv_ttl_read_record(&g_ttl, 1, 1, b, &n, NULL) < 0);
	VP_POST("missing arguments", emv_ttl_get_processing_options(NULL, NULL, 0, b, &n, &sw) < 0 && emv_ttl_get_processing_options(&g_ttl, NULL, 0, NULL, &n, &sw) < 0 &&
		emv_ttl_get_processing_options(&g_ttl, NULL, 0, b, NULL, &sw) < 0 && emv_ttl_get_processing_options(&g_ttl, NULL, 0, b, &n, NULL) < 0);
	VP_POST("nothing transmitted", x_calls == 0);
}
#define EACH(fn) void fn(void) { for (unsigned int i = 0; i < sizeof(x_lens) / sizeof(x_lens[0]); ++i) fn##_1(x_lens[i]); }
EACH(i_select)
EACH(i_read_record)
EACH(i_gpo)
EACH(i_gpo_long)
/* ---- classification of commands: ISO 7816-3, table 13 ---- */
void b_case(void)
{
	size_t len = vp_size(600);
	uint8_t* c = malloc(600);
	VP_ASSUME(c != NULL);
	c += 600 - len;
	int r = iso7816_apdu_case(c, len);
	size_t lc = len > 6 ? (size_t)c[5] << 8 | c[6] : 0;
	if (len < 4) { VP_POST("too short", r < 0); return; }
	int s = len == 4 ? ISO7816_APDU_CASE_1 : len == 5 ? ISO7816_APDU_CASE_2S :
		c[4] ? (len == 5u + c[4] ? ISO7816_APDU_CASE_3S : len == 6u + c[4] ? ISO7816_APDU_CASE_4S : -1) :
		len == 7 ? ISO7816_APDU_CASE_2E : lc && len == 7 + lc ? ISO7816_APDU_CASE_3E : lc && len == 9 + lc ? ISO7816_APDU_CASE_4E : -1;
	VP_POST("command case", s < 0 ? r < 0 : r == s);
	VP_COVER("extended", r == ISO7816_APDU_CASE_4E);
}
