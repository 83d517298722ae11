/* Human readable decoding of card data (emv_strings.c, iso7816_strings.c) */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_strings.h"
#include "emv_fields.h"
#include "iso7816_strings.h"

#ifndef MAXIN
#define MAXIN 8
#endif
#ifndef MAXOUT
#define MAXOUT 24
#endif

/* ---- libc by contract ---- */
static bool all_fmt_ok;
static int str_length(const char* s)
{
	for (int i = 0; i < 512; ++i) if (!s[i]) return i;
	return -1;
}
/* formatting: needs room for n octets, valid arguments for the conversions
 * that the library uses, and leaves a string of min(r, n-1) characters */
static int format(char* s, size_t n, const char* f, va_list ap, bool may_fail)
{
	int r = 0, more = 0;
	bool plain = true;
#ifdef VP_NATIVE
	if (n) { s[0] = s[n - 1] = 'x'; }
#else
	VP_POST("formats into the space that is there", n == 0 || __CPROVER_w_ok(s, n));
#endif
	size_t i = 0;
	for (; f[i]; ++i) {
		if (f[i] != '%') { ++r; continue; }
		plain = false;
		++i;
		if (f[i] == '%') { ++r; continue; }
		if (f[i] == '0') { ++i; }
		if (f[i] >= '1' && f[i] <= '9') { ++i; }
		if (f[i] == 's') {
			const char* a = va_arg(ap, const char*);
			int l = str_length(a);
			VP_POST("argument for %s is a terminated string", l >= 0);
			r += l;
		} else if (f[i] == '.' && f[i + 1] == '*' && f[i + 2] == 's') {
			i += 2;
#ifdef VP_NATIVE
			int max = va_arg(ap, int);
#else
			/* cbmc does not promote variable arguments */
			int max = va_arg(ap, uint8_t);
#endif
			const uint8_t* a = va_arg(ap, const uint8_t*);
			for (int k = 0; k < max && a[k]; ++k) ++r;
		} else if (f[i] == 'z') {
			++i;
			(void)va_arg(ap, size_t);
			++r; more += 19;
		} else if (f[i] == 'u' || f[i] == 'd' || f[i] == 'X' || f[i] == 'x') {
			(void)va_arg(ap, unsigned int);
			++r; more += 9;
		} else {
			/* a conversion that this contract does not know */
			VP_ASSUME(0);
		}
	}
	if (!plain) {
		r += (int)vp_size(more);
		if (may_fail && vp_bool()) return -1;
	}
	if (n) {
		size_t m = (size_t)r < n ? (size_t)r : n - 1;
#ifdef VP_NATIVE
		for (size_t k = 0; k < m; ++k) s[k] = 'x';
#endif
		s[m] = 0;
	}
	return r;
}
int stub_vsnprintf(char* s, size_t n, const char* f, va_list ap) { return format(s, n, f, ap, true); }
int stub_snprintf(char* s, size_t n, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = format(s, n, f, ap, false);
	va_end(ap);
	return r;
}
char* stub_strncpy(char* d, const char* s, size_t n)
{
#ifdef VP_NATIVE
	return strncpy(d, s, n);
#else
	VP_POST("copies into the space that is there", n == 0 || __CPROVER_w_ok(d, n));
	size_t i = 0;
	for (; i < 512 && i < n; ++i) {
		d[i] = s[i];
		if (!s[i]) break;
	}
	return d;
#endif
}

/* ---- code tables: any answer ---- */
static const char* any_text(void)
{
	switch (vp_size(2)) {
	case 0: return NULL;
	case 1: return "Name";
	default: return "A name that is longer than any buffer that the library uses for one, as the code tables are files that somebody else supplies........";
	}
}
const char* mcc_lookup(unsigned int mcc) { return any_text(); }
int mcc_init(const char* path) { return 0; }
int isocodes_init(const char* path) { return 0; }
static const char* by_alpha(const char* s, size_t n)
{
	bool ok = true;
	for (size_t i = 0; i < n; ++i) if (!s[i]) return any_text();
	ok = s[n] == 0;
	VP_POST("code is a terminated string", ok);
	return any_text();
}
const char* isocodes_lookup_country_by_alpha2(const char* s) { return by_alpha(s, 2); }
const char* isocodes_lookup_country_by_alpha3(const char* s) { return by_alpha(s, 3); }
const char* isocodes_lookup_country_by_numeric(unsigned int c) { return any_text(); }
const char* isocodes_lookup_currency_by_alpha3(const char* s) { return by_alpha(s, 3); }
const char* isocodes_lookup_currency_by_numeric(unsigned int c) { return any_text(); }
const char* isocodes_lookup_language_by_alpha2(const char* s) { return by_alpha(s, 2); }
const char* isocodes_lookup_language_by_alpha3(const char* s) { return by_alpha(s, 3); }

static bool terminated(const char* s, size_t n)
{
	bool t = false;
	for (size_t i = 0; i < MAXOUT; ++i) if (i < n && !s[i]) t = true;
	return t;
}
static char* any_out(size_t* len, bool* preset)
{
#ifdef OUTFIX
	*len = OUTFIX;
#else
	*len = vp_size(MAXOUT);
#endif
	char* s = (char*)vp_buf(*len, MAXOUT);
	*preset = vp_bool();
	if (*preset && *len) s[0] = 0;
	return s;
}

#ifdef FN
void i_dec(void)
{
	size_t len = vp_size(MAXIN);
#ifdef SELECT
	/* the code reads through a structure of the largest APDU, which cbmc
	 * takes for an access to all of it */
	uint8_t* in = malloc(300);
	VP_ASSUME(in != NULL);
	vp_fill(in, MAXIN + 2);
	VP_ASSUME(len > 4 && (in[0] & 0x80) == 0 && in[1] == 0xA4);
#else
	const uint8_t* in = vp_buf(len, MAXIN);
#endif
#ifdef NO_SELECT
	VP_ASSUME(len < 5 || (in[0] & 0x80) != 0 || in[1] != 0xA4);
#endif
	size_t out_len; bool preset;
	char* out = any_out(&out_len, &preset);
#ifdef NO_NULL
	bool null = false;
#else
	bool null = vp_bool();
#endif
	int r = FN(in, len, null ? NULL : out, out_len);
	if (!null && out_len && len) {
		VP_POST("a result is a terminated string", r != 0 || terminated(out, out_len));
#ifndef PARTIAL
		VP_POST("an empty string stays terminated on errors", !preset || terminated(out, out_len));
#endif
	}
	VP_POST("no data is an error", len || r < 0);
	VP_COVER("decoded", r == 0 && !null && out_len > 4);
}
#endif
#ifdef FN1
void i_dec1(void)
{
	uint8_t x = vp_u8();
	size_t out_len; bool preset;
	char* out = any_out(&out_len, &preset);
	bool null = vp_bool();
	int r = FN1(x, null ? NULL : out, out_len);
	if (!null && out_len) {
		VP_POST("a result is a terminated string", r != 0 || terminated(out, out_len));
		VP_POST("an empty string stays terminated on errors", !preset || terminated(out, out_len));
	}
	VP_COVER("decoded", r == 0 && !null && out_len > 4);
}
#endif

/* ---- status words, historical bytes ---- */
#ifdef ISO
void i_sw(void)
{
	uint8_t a = vp_u8(), b = vp_u8();
	size_t n; bool preset;
	char* out = any_out(&n, &preset);
	bool null = vp_bool();
	const char* r = iso7816_sw1sw2_get_string(a, b, null ? NULL : out, n);
	VP_POST("every status word is described, in the given string", null || !n ? r == NULL : r == out);
	if (!null && n) VP_POST("the description is a terminated string", terminated(out, n));
	VP_COVER("long", r && a == 0x62 && n > 12);
}
void i_service(void)
{
	uint8_t a = vp_u8();
	size_t n; bool preset;
	char* out = any_out(&n, &preset);
	int r = iso7816_card_service_data_get_string_list(a, out, n);
	VP_POST("accepted", r == 0);
	if (n) VP_POST("the list is a terminated string", terminated(out, n));
	VP_COVER("list", r == 0 && n == MAXOUT);
}
void i_caps(void)
{
	size_t len = vp_size(4);
	uint8_t* in = vp_buf(len, 4);
	size_t n; bool preset;
	char* out = any_out(&n, &preset);
	bool null = vp_bool();
	int r = iso7816_card_capabilities_get_string_list(null ? NULL : in, len, out, n);
	/* 18 in the third octet is reserved */
	VP_POST("no data is an error", null || !len ? r < 0 : r == 0 || (len > 2 && (in[2] & 0x18) == 0x18));
	if (n && len && !null) VP_POST("the list is a terminated string", terminated(out, n));
	VP_COVER("list", r == 0 && n == MAXOUT && len == 3);
}
void i_lcs(void)
{
	uint8_t a = vp_u8();
	const char* s = iso7816_lcs_get_string(a);
	bool text = s != NULL;
	if (s) text = s[0] != 0;
	VP_POST("every life cycle status has a description", text);
	VP_COVER("active", a == 5);
}
#endif

#ifdef INFO
static const uint8_t* tlv_value; static size_t tlv_len;
static char* tlv_out; static char* tlv_out_last; static size_t tlv_out_len;
static unsigned int delegated;
/* contract of a decoder, as decided by the jobs above */
static int decoder(const void* buf, size_t len, char* str, size_t str_len, bool partial)
{
	++delegated;
	VP_POST("decoder gets the value of the field", buf == tlv_value && len == tlv_len);
	VP_POST("decoder gets the result buffer", str == tlv_out && str_len == tlv_out_len);
	int r = vp_bool() ? 0 : vp_int();
	if (!len || !buf) { if (r >= 0) r = -1; }
	if (str && str_len && len && buf) {
		/* some text; on errors of some decoders without its end */
		str[0] = 'x';
		if (!(partial && r != 0)) *tlv_out_last = 0;
	}
	return r;
}
#define D(name) int stub_##name(const uint8_t* b, size_t l, char* s, size_t n) { return decoder(b, l, s, n, false); }
#define DP(name) int stub_##name(const uint8_t* b, size_t l, char* s, size_t n) { return decoder(b, l, s, n, true); }
#define D1(name) int stub_##name(uint8_t x, char* s, size_t n) { bool first = tlv_len && tlv_value && x == tlv_value[0]; VP_POST("decoder gets the octet of the field", first); return decoder(tlv_value, tlv_len, s, n, false); }
DP(emv_format_a_get_string) DP(emv_format_an_get_string) DP(emv_format_ans_only_space_get_string) DP(emv_format_ans_ccs_get_string)
DP(emv_format_cn_get_string) DP(emv_format_n_get_string)
D(emv_amount_get_string) D(emv_track2_equivalent_data_get_string)
D(emv_date_get_string) D(emv_time_get_string) D(emv_mcc_get_string) D(emv_term_caps_get_string_list) D(emv_addl_term_caps_get_string_list) D(emv_aip_get_string_list)
D(emv_app_usage_control_get_string_list) D(emv_cvm_results_get_string_list) D(emv_tvr_get_string_list) D(emv_tsi_get_string_list) D(emv_ttq_get_string_list) D(emv_ctq_get_string_list)
D(emv_visa_form_factor_indicator_get_string_list) D(emv_amex_enh_cl_reader_caps_get_string_list) D(emv_terminal_risk_management_data_get_string_list) D(emv_aid_get_string)
D(emv_asrpd_get_string_list) D(emv_afl_get_string_list) D(emv_cvm_list_get_string_list) D(emv_app_reference_currency_get_string_list) D(emv_language_preference_get_string_list)
D(emv_iad_get_string_list) D(emv_mastercard_third_party_data_get_string_list) D(emv_issuer_auth_data_get_string_list) D(emv_capdu_get_string)
int stub_emv_auth_response_code_get_string(const void* b, size_t l, char* s, size_t n) { return decoder(b, l, s, n, false); }
D1(emv_transaction_type_get_string) D1(emv_term_type_get_string_list) D1(emv_pos_entry_mode_get_string) D1(emv_account_type_get_string) D1(emv_cid_get_string_list) D1(emv_amex_cl_reader_caps_get_string)

void i_info(void)
{
	struct emv_tlv_t tlv;
	struct emv_tlv_info_t info;
	memset(&tlv, 0, sizeof(tlv));
	delegated = 0;
	size_t len = vp_size(MAXIN);
	uint8_t* value = vp_buf(len, MAXIN);
	/* entries of a DOL have a length but no value */
#ifdef OUTLEN
	bool dol = OUTLEN == 0;
#else
	bool dol = vp_bool();
#endif
	tlv.ber.tag = vp_u32();
	tlv.ber.length = len;
	tlv.ber.value = dol ? NULL : value;
	tlv_value = tlv.ber.value; tlv_len = len;
#ifdef OUTLEN
	size_t out_len = OUTLEN;
#else
	size_t out_len = vp_size(MAXOUT);
#endif
	char* mem = malloc(MAXOUT);
	VP_ASSUME(mem != NULL);
	vp_fill((uint8_t*)mem, MAXOUT);
	char* out = mem + (MAXOUT - out_len);
	tlv_out_last = mem + (MAXOUT - 1);
	/* no buffer is given as NULL and zero, as for entries of a DOL */
#ifdef OUTLEN
	bool null = OUTLEN == 0;
#else
	bool null = dol || vp_bool();
#endif
	if (null) { out = NULL; out_len = 0; }
	tlv_out = out; tlv_out_len = out_len;
	int r = emv_tlv_get_info(&tlv, &info, out, out_len);
	if (out && out_len) {
		VP_POST("whatever the result, the string is terminated", terminated(out, out_len));
	}
	static const char pse[] = "1PAY.SYS.DDF01", ppse[] = "2PAY.SYS.DDF01";
	if (tlv.ber.tag == 0x84 && !dol && out && out_len > 14) {
		bool is_pse = len == 14, is_ppse = len == 14, same = len == 14;
		for (size_t i = 0; i < 14; ++i) if (len == 14) {
			if (value[i] != pse[i]) is_pse = false;
			if (value[i] != ppse[i]) is_ppse = false;
			if (value[i] != (uint8_t)out[i]) same = false;
		}
		VP_POST("a directory name is shown as text, any other DF name as AID", (is_pse || is_ppse) ? (r == 0 && same && !out[14] && delegated == 0) : delegated == 1);
#if !defined(OUTLEN) || OUTLEN > 14
		VP_COVER("PPSE", is_ppse);
#endif
	}
	VP_POST("the value is decoded at most twice", delegated <= 2);
	VP_POST("the name is a string or absent", !info.tag_name || info.tag_name[0]);
#if defined(OUTLEN) && OUTLEN == 0
	VP_COVER("no value wanted", r == 0 && len == 14);
#else
	VP_COVER("decoded by a decoder", r == 0 && delegated == 1);
#endif
	VP_COVER("unknown", r == 1 && !info.tag_name);
}
#endif
