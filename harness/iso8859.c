/* ISO 8859 to UTF-8 */
#include "vp.h"
#include "iso8859.h"
#include <stdio.h>
#include <iconv.h>
#include <stdarg.h>

#ifndef MAXLEN
#define MAXLEN 6
#endif
#define OUTLEN (2 * MAXLEN + 2)

#ifdef P_SIMPLE
int iso8859_to_utf8(unsigned int codepage, const uint8_t* iso8859, size_t iso8859_len, char* utf8, size_t utf8_len)
__CPROVER_requires(iso8859_len <= 0x7fffffffffff && utf8_len <= 0x7fffffffffff)
__CPROVER_requires(__CPROVER_is_fresh(iso8859, iso8859_len) && __CPROVER_is_fresh(utf8, utf8_len))
__CPROVER_assigns(__CPROVER_object_whole(utf8))
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1 || __CPROVER_return_value == 2 || __CPROVER_return_value == -1)
__CPROVER_ensures((iso8859_len == 0 || utf8_len == 0) ==> __CPROVER_return_value < 0)
__CPROVER_ensures((iso8859_len && utf8_len && codepage != 1) ==> (__CPROVER_return_value > 0 && utf8[0] == 0))
__CPROVER_ensures((__CPROVER_return_value == 0 && iso8859[0] == 0) ==> utf8[0] == 0)
__CPROVER_ensures((__CPROVER_return_value == 0 && iso8859[0] && utf8_len >= 3) ==> (iso8859[0] < 0x80 ? utf8[0] == (char)iso8859[0] : utf8[0] == (char)(iso8859[0] < 0xC0 ? 0xC2 : 0xC3)))
__CPROVER_ensures((__CPROVER_return_value == 0 && utf8_len >= 3) ==> !((iso8859[0] && iso8859[0] < 0x20) || (iso8859[0] > 0x7E && iso8859[0] < 0xA0)))
;
void p_simple(void)
{
	unsigned int codepage; const uint8_t* in; size_t in_len; char* out; size_t out_len;
	int r = iso8859_to_utf8(codepage, in, in_len, out, out_len);
	VP_COVER("converted", r == 0);
	VP_COVER("rejected", r == 2);
}
#endif

/* exact result */
void b_simple(void)
{
	size_t len = vp_size(MAXLEN);
	const uint8_t* in = vp_buf(len, MAXLEN);
	size_t out_len = vp_size(OUTLEN);
	uint8_t* out = vp_buf(out_len, OUTLEN);
	uint8_t before[OUTLEN];
	for (size_t i = 0; i < OUTLEN; ++i) if (i < out_len) before[i] = out[i];
	unsigned int codepage = vp_u32();
	bool supported = iso8859_is_supported(codepage);
	VP_POST("code page 1 is supported", supported == (codepage == 1));
	int r = iso8859_to_utf8(codepage, in, len, (char*)out, out_len);
	if (!len || !out_len) { VP_POST("empty buffers are errors", r < 0); return; }
	if (codepage != 1) { VP_POST("unsupported code page is an error, empty result", r > 0 && out[0] == 0); return; }
	uint8_t want[OUTLEN + 2];
	size_t n = 0;
	bool stop = false, bad = false;
	for (size_t i = 0; i < MAXLEN; ++i) {
		if (i < len && !stop) {
			uint8_t c = in[i];
			size_t w = c < 0x80 ? 1 : 2;
			if (c == 0 || n + w + 1 > out_len) { stop = true; continue; }
			if (c < 0x20 || (c > 0x7E && c < 0xA0)) { stop = bad = true; continue; }
			if (w == 1) want[n++] = c;
			else { want[n++] = c < 0xC0 ? 0xC2 : 0xC3; want[n++] = 0x80 + (c & 0x3F); }
		}
	}
	if (bad) { VP_POST("characters that are not printable are errors", r > 0); return; }
	VP_POST("converted", r == 0);
	size_t k = vp_size(OUTLEN - 1);
	if (k < out_len) {
		if (k < n) VP_POST("exact UTF-8 of the text, cut between characters", out[k] == want[k]);
		else if (k == n) VP_POST("terminated", out[k] == 0);
		else VP_POST("nothing else is written", out[k] == before[k]);
	}
	VP_COVER("all characters wide", n == 2 * MAXLEN);
	VP_COVER("cut", stop && in[0] >= 0xA0 && n == 4);
}
void b_null(void)
{
	uint8_t in[2] = { 'a', 'b' }; char out[3] = { 1, 1, 1 };
	int r1 = iso8859_to_utf8(1, NULL, 2, out, 3), r2 = iso8859_to_utf8(1, in, 2, NULL, 3);
	VP_POST("NULL is an error", r1 < 0 && r2 < 0);
	VP_COVER("null", true);
}

/* iconv(): assumed contract. It consumes a prefix of the input, appends to the
 * output within the space that it is given, moves all four accordingly, and
 * reports success only when all of the input is consumed. */
static bool is_open, opened, name_ok, conv_done, conv_args_ok;
static unsigned int want_page;
static const uint8_t* conv_in; static size_t conv_in_len;
static char* conv_out; static size_t conv_out_len, conv_written;
static size_t conv_ret;
static int cd_obj;
int stub_snprintf(char* s, size_t n, const char* f, ...)
{
	/* only the conversion that is used here; by its contract the result is
	 * the name with the number, cut to the buffer and terminated */
	char t[16] = "ISO-8859-";
	size_t k = 9;
	va_list ap;
	va_start(ap, f);
	unsigned int v = va_arg(ap, unsigned int);
	va_end(ap);
	bool plain = strcmp(f, "ISO-8859-%u") == 0;
	VP_ASSUME(plain);
	VP_ASSUME(v < 100);
	if (v >= 10) t[k++] = '0' + v / 10;
	t[k++] = '0' + v % 10;
	t[k] = 0;
	for (size_t i = 0; i < 12; ++i) if (i <= k && i < n) s[i] = i + 1 < n ? t[i] : 0;
	return (int)k;
}
static bool same(const char* a, const char* b)
{
	for (size_t i = 0; i < 13; ++i) { if (a[i] != b[i]) return false; if (!a[i]) return true; }
	return false;
}
iconv_t stub_iconv_open(const char* to, const char* from)
{
	char t[16] = "ISO-8859-";
	size_t k = 9;
	if (want_page >= 10) t[k++] = '0' + want_page / 10;
	t[k++] = '0' + want_page % 10;
	t[k] = 0;
	name_ok = same(to, "UTF-8") && same(from, t);
	if (vp_bool()) return (iconv_t)-1;
	is_open = opened = true;
	return (iconv_t)&cd_obj;
}
size_t stub_iconv(iconv_t cd, char** in, size_t* inl, char** out, size_t* outl)
{
	conv_done = true;
	conv_args_ok = is_open && cd == (iconv_t)&cd_obj && (const uint8_t*)*in == conv_in && *inl == conv_in_len && *out == conv_out && *outl < conv_out_len;
	VP_POST("converts all of the text, into the space that leaves room for the terminator", conv_args_ok);
	conv_written = vp_size(OUTLEN);
	VP_ASSUME(conv_written <= *outl);
	for (size_t i = 0; i < OUTLEN; ++i) if (i < conv_written) (*out)[i] = 'a' + i;
	size_t used = vp_size(MAXLEN);
	VP_ASSUME(used <= *inl);
	bool ok = vp_bool();
	if (ok) used = *inl;
	*in += used; *inl -= used;
	*out += conv_written; *outl -= conv_written;
	conv_ret = ok ? vp_size(3) : (size_t)-1;
	return conv_ret;
}
int stub_iconv_close(iconv_t cd)
{
	VP_POST("closes the open converter", is_open && cd == (iconv_t)&cd_obj);
	is_open = false;
	return 0;
}
void i_iconv(void)
{
	is_open = opened = name_ok = conv_done = false;
	size_t len = vp_size(MAXLEN);
	const uint8_t* in = vp_buf(len, MAXLEN);
	size_t out_len = vp_size(OUTLEN);
	uint8_t* out = vp_buf(out_len, OUTLEN);
	uint8_t before[OUTLEN];
	for (size_t i = 0; i < OUTLEN; ++i) if (i < out_len) before[i] = out[i];
	unsigned int codepage = vp_u32();
	want_page = codepage;
	conv_in = in; conv_in_len = len; conv_out = (char*)out; conv_out_len = out_len;
	bool known = codepage >= 1 && codepage <= 15 && codepage != 12;
	bool supported = iso8859_is_supported(codepage);
	VP_POST("code pages 1 to 15 except 12 are supported", supported == known);
	int r = iso8859_to_utf8(codepage, in, len, (char*)out, out_len);
	if (!len || !out_len) { VP_POST("empty buffers are errors", r < 0 && !opened); return; }
	if (!known) { VP_POST("unsupported code page is an error, empty result", r > 0 && out[0] == 0 && !opened); return; }
	VP_POST("the code page asked for", name_ok);
	VP_POST("converter released", !is_open);
	if (!opened) { VP_POST("no converter is an error", r < 0); return; }
	VP_POST("converted", conv_done);
	VP_POST("failure is reported", (conv_ret == (size_t)-1) == (r != 0));
	size_t k = vp_size(OUTLEN - 1);
	if (k < out_len) {
		if (k < conv_written) VP_POST("converted text is kept", out[k] == 'a' + k);
		else if (k == conv_written) VP_POST("terminated", out[k] == 0);
		else if (k) VP_POST("nothing else is written", out[k] == before[k]);
	}
	VP_COVER("full", r == 0 && conv_written == OUTLEN - 1);
	VP_COVER("page 15", r == 0 && codepage == 15);
	VP_COVER("failed", r > 0 && opened);
}
