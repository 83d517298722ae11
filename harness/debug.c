/* Debug events: which reach the callback, and with what */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#define EMV_DEBUG_ENABLED
static enum emv_debug_source_t dbg_source;
#define EMV_DEBUG_SOURCE dbg_source
#include "emv_debug.h"

/* what the callback was given */
static unsigned int n_calls;
static unsigned int got_ts;
static enum emv_debug_source_t got_source;
static enum emv_debug_level_t got_level;
static enum emv_debug_type_t got_type;
static const void* got_buf;
static size_t got_len;
static bool got_str_ok;
static void callback(unsigned int timestamp, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t debug_type, const char* str, const void* buf, size_t buf_len)
{
	++n_calls;
	got_ts = timestamp; got_source = source; got_level = level; got_type = debug_type;
	got_buf = buf; got_len = buf_len;
	/* the formatter left "evt" behind */
	got_str_ok = str && str[0] == 'e' && str[1] == 'v' && str[2] == 't' && str[3] == 0;
}

/* the formatter: any outcome that C allows; it may use the whole of the
 * buffer that it is given, and it terminates it */
static unsigned int n_fmt;
static const char* want_fmt;
static bool want_args;
static unsigned int want_arg;
static bool fmt_args_ok, fmt_ok;
static int fmt_ret;
int stub_vsnprintf(char* s, size_t n, const char* f, va_list ap)
{
	++n_fmt;
	fmt_ok = f == want_fmt;
	fmt_args_ok = true;
	if (want_args) {
		unsigned int a = va_arg(ap, unsigned int);
		fmt_args_ok = a == want_arg;
	}
	fmt_ret = vp_int();
	if (fmt_ret >= 0 && n) {
		/* "evt", then anything up to the end of the buffer */
		VP_ASSUME(n >= 4);
		s[0] = 'e'; s[1] = 'v'; s[2] = 't'; s[3] = 0;
		size_t k = vp_size(2048);
		if (k >= 4 && k < n) s[k] = vp_u8();
		s[n - 1] = 0;
	}
	return fmt_ret;
}
static uint32_t now;
int stub_timespec_get(struct timespec* t, int base)
{
#ifdef CLOCK
	uint32_t sec = 1800000000u + vp_u8();
	uint32_t us = vp_bool() ? 999999 - vp_u8() : vp_u8();
	uint32_t ns = vp_size(999);
#else
	uint32_t sec = 1800000000u, us = 999999, ns = 999;
#endif
	t->tv_sec = sec;
	t->tv_nsec = us * 1000 + ns;
	now = sec * 1000000u + us;
	return base;
}
int stub_clock_gettime(clockid_t c, struct timespec* t) { stub_timespec_get(t, 0); return 0; }

static bool any_config(unsigned int* mask, enum emv_debug_level_t* level)
{
	*mask = vp_u32();
	*level = (enum emv_debug_level_t)vp_size(EMV_DEBUG_ALL);
	bool func = vp_bool();
	int r = emv_debug_init(*mask, *level, func ? callback : NULL);
	VP_POST("init succeeds", r == 0);
	return func;
}

void i_filter(void)
{
	unsigned int mask; enum emv_debug_level_t level;
	n_calls = n_fmt = 0;
	want_args = vp_bool();
	/* possibly configured before; only the last configuration counts */
	bool again = vp_bool();
	bool func = any_config(&mask, &level);
	if (again) func = any_config(&mask, &level);
	static const char f[] = "%u";
	want_fmt = f;
	want_arg = vp_u32();
	uint8_t data[4];
	size_t len = vp_size(4);
	const void* buf = vp_bool() ? data : NULL;
	enum emv_debug_source_t source = (enum emv_debug_source_t)vp_size(0xFF);
	enum emv_debug_level_t l = (enum emv_debug_level_t)vp_size(EMV_DEBUG_ALL);
	enum emv_debug_type_t type = (enum emv_debug_type_t)(1 + vp_size(EMV_DEBUG_TYPE_RTPDU - 1));
	if (want_args) emv_debug_internal(source, l, type, f, buf, len, want_arg);
	else emv_debug_internal(source, l, type, f, buf, len);
	bool pass = func && (mask & source) && l <= level;
	if (!pass) {
		VP_POST("events that are not enabled never reach the callback", n_calls == 0);
	} else {
		VP_POST("the message is formatted from the format and its arguments", n_fmt >= 1 && fmt_ok && fmt_args_ok);
		if (fmt_ret >= 0) {
			VP_POST("an enabled event reaches the callback once", n_calls == 1);
			VP_POST("source, level and type as reported", got_source == source && got_level == l && got_type == type);
			VP_POST("data as reported", got_buf == buf && got_len == len);
			VP_POST("formatted message", got_str_ok);
			VP_POST("microsecond timestamp", got_ts == now);
		} else {
			VP_POST("no message when formatting fails", n_calls == 0);
		}
	}
	VP_COVER("delivered", pass && n_calls == 1 && fmt_ret > 2000);
	VP_COVER("filtered by source", func && !(mask & source) && l <= level && mask);
	VP_COVER("filtered by level", func && (mask & source) && l > level);
}

/* the clock */
void i_clock(void)
{
	n_calls = 0;
	want_args = false;
	emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, callback);
	emv_debug_internal(EMV_DEBUG_SOURCE_TTL, EMV_DEBUG_ERROR, EMV_DEBUG_TYPE_MSG, "m", NULL, 0);
	if (n_calls) {
		VP_POST("microsecond timestamp", got_ts == now);
	}
	VP_COVER("timestamp", n_calls);
}

/* the macros that the library uses */
void i_macros(void)
{
	n_calls = 0;
	want_args = false;
	dbg_source = (enum emv_debug_source_t)(1u << vp_size(3));
	emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, callback);
	uint8_t data[3];
	static const char f[] = "m";
	struct { int x[5]; } atr;
	const void* b = NULL; size_t n = 0;
	enum emv_debug_level_t l = EMV_DEBUG_CARD; enum emv_debug_type_t t = EMV_DEBUG_TYPE_MSG;
	size_t which = vp_size(10);
	switch (which) {
	case 0: emv_debug_error(f); l = EMV_DEBUG_ERROR; break;
	case 1: emv_debug_info(f); l = EMV_DEBUG_INFO; break;
	case 2: emv_debug_info_data(f, data, 3); l = EMV_DEBUG_INFO; t = EMV_DEBUG_TYPE_DATA; b = data; n = 3; break;
	case 3: emv_debug_info_tlv(f, data, 2); l = EMV_DEBUG_INFO; t = EMV_DEBUG_TYPE_TLV; b = data; n = 2; break;
	case 4: emv_debug_atr_info(&atr); t = EMV_DEBUG_TYPE_ATR; b = &atr; n = sizeof(atr); break;
	case 5: emv_debug_apdu(f); break;
	case 6: emv_debug_capdu(data, 3); t = EMV_DEBUG_TYPE_CAPDU; b = data; n = 3; break;
	case 7: emv_debug_rapdu(data, 3); t = EMV_DEBUG_TYPE_RAPDU; b = data; n = 3; break;
	case 8: emv_debug_ctpdu(data, 3); t = EMV_DEBUG_TYPE_CTPDU; b = data; n = 3; break;
	case 9: emv_debug_rtpdu(data, 3); t = EMV_DEBUG_TYPE_RTPDU; b = data; n = 3; break;
	default: emv_debug_trace_data("t", data, 1); l = EMV_DEBUG_TRACE; t = EMV_DEBUG_TYPE_DATA; b = data; n = 1; break;
	}
	if (fmt_ret >= 0) {
		VP_POST("one event of the right level and type, with its data", n_calls == 1 && got_source == dbg_source && got_level == l && got_type == t && got_buf == b && got_len == n);
	}
	VP_COVER("ATR", which == 4 && n_calls == 1);
}
