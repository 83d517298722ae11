/* Answer To Reset: ISO 7816-3 parameters, COMPACT-TLV historical bytes, EMV validation */
#include "vp.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#ifdef VP_EMV
#include "emv.h"
#endif

/* ---- COMPACT-TLV ---- */
static size_t spec_ctlv_len(const uint8_t* p, size_t len)
{
	return len >= 1 && len - 1 >= (p[0] & 15u) ? 1 + (p[0] & 15u) : 0;
}
#if !defined(VP_NATIVE) && defined(P_CTLV)
int iso7816_compact_tlv_itr_next(struct iso7816_compact_tlv_itr_t* itr, struct iso7816_compact_tlv_t* tlv)
__CPROVER_requires(__CPROVER_is_fresh(itr, sizeof(*itr)) && __CPROVER_is_fresh(tlv, sizeof(*tlv)))
__CPROVER_requires(__CPROVER_is_fresh(itr->ptr, itr->len))
__CPROVER_assigns(*itr, *tlv)
__CPROVER_ensures((__CPROVER_return_value == 0) == (__CPROVER_old(itr->len) == 0))
__CPROVER_ensures((__CPROVER_return_value > 0) == (__CPROVER_old(itr->len) != 0 && spec_ctlv_len(__CPROVER_old(itr->ptr), __CPROVER_old(itr->len)) > 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value == 1u + (((const uint8_t*)__CPROVER_old(itr->ptr))[0] & 15u))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (tlv->tag == ((const uint8_t*)__CPROVER_old(itr->ptr))[0] / 16 && tlv->length == (((const uint8_t*)__CPROVER_old(itr->ptr))[0] & 15)))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> tlv->value == (const uint8_t*)__CPROVER_old(itr->ptr) + 1)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (itr->len == __CPROVER_old(itr->len) - (size_t)__CPROVER_return_value &&
	(const uint8_t*)itr->ptr == (const uint8_t*)__CPROVER_old(itr->ptr) + __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value <= 0 ==> (itr->len == __CPROVER_old(itr->len) && itr->ptr == __CPROVER_old(itr->ptr)))
;
void p_ctlv(void)
{
	struct iso7816_compact_tlv_itr_t* itr; struct iso7816_compact_tlv_t* tlv;
	int r = iso7816_compact_tlv_itr_next(itr, tlv);
	VP_COVER("element", r == 16 && itr->len == 100);
	VP_COVER("error", r < 0);
	VP_COVER("end", r == 0);
}
#endif
void b_ctlv(void)
{
	size_t len = vp_size(17);
	uint8_t* p = vp_buf(len, 17);
	struct iso7816_compact_tlv_itr_t itr;
	struct iso7816_compact_tlv_t t;
	size_t pos = 0;
	VP_POST("NULL", iso7816_compact_tlv_decode(NULL, len, &t) < 0 && iso7816_compact_tlv_decode(p, len, NULL) < 0 && iso7816_compact_tlv_itr_init(NULL, len, &itr) < 0 &&
		iso7816_compact_tlv_itr_init(p, len, NULL) < 0 && iso7816_compact_tlv_itr_next(NULL, &t) < 0);
	int r = iso7816_compact_tlv_itr_init(p, len, &itr);
	VP_POST("init", (r == 0) == (len > 0) && r <= 0);
	VP_ASSUME(len > 0);
	VP_POST("NULL element", iso7816_compact_tlv_itr_next(&itr, NULL) < 0);
	for (unsigned int i = 0; i < 18; ++i) {
		size_t n = spec_ctlv_len(p + pos, len - pos);
		r = iso7816_compact_tlv_itr_next(&itr, &t);
		if (pos == len) { VP_POST("end exactly after the last element", r == 0); VP_COVER("many", i == 5); break; }
		if (n == 0) { VP_POST("truncated element is an error", r < 0); VP_COVER("error", i == 1); break; }
		VP_POST("element", r > 0 && (size_t)r == n && t.tag == p[pos] / 16 && t.length == n - 1 && (const uint8_t*)t.value == p + pos + 1);
		pos += n;
	}
}

/* ---- ISO 7816-3 ---- */
static const unsigned int spec_D[16] = { 0, 1, 2, 4, 8, 16, 32, 64, 12, 20 };
static const unsigned int spec_F[16] = { 372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048 };
static const unsigned int spec_f2[16] = { 8, 10, 12, 16, 24, 32, 40, 0, 0, 10, 15, 20, 30, 40 }; /* MHz * 2 */

struct spec_atr {
	bool ok;
	bool si_known; /* the standard says which status indicator applies */
	unsigned int t[4][5]; /* position of TA, TB, TC, TD; 0 absent */
	unsigned int hist, hist_len, si, si_len, tck;
	uint8_t T1;
	unsigned int D, F, f2, N, protocol, vpp, vpp_course, ipp, classes, clock_stop, spu, WI, IFSI, CWI, BWI, crc;
	bool vpp_connected, specific, implicit, may_change, t15;
	unsigned int specific_protocol;
};

/* a has 33 octets of which n count */
static void spec_atr(const uint8_t* a, size_t n, struct spec_atr* o)
{
	unsigned int pos = 1, T = 0;
	bool seen[4][2] = { { false } }, tck = false, more = true;
	o->ok = false;
	o->si_known = true;
	o->D = 1; o->F = 372; o->f2 = 10; o->N = 0; o->protocol = 0;
	o->vpp_connected = true; o->vpp = o->vpp_course = 5000; o->ipp = 50;
	o->classes = 1; o->clock_stop = 0; o->spu = 0;
	o->WI = 10; o->IFSI = 32; o->CWI = 13; o->BWI = 4; o->crc = 0;
	o->specific = o->implicit = o->may_change = o->t15 = false; o->specific_protocol = 0;
	o->hist = o->hist_len = o->si = o->si_len = o->tck = 0; o->T1 = 0;
	for (unsigned int k = 0; k < 4; ++k) for (unsigned int i = 0; i < 5; ++i) o->t[k][i] = 0;
	if (n < 2 || n > 33) return;
	if (a[0] != 0x3B && a[0] != 0x3F) return;
	for (unsigned int i = 1; i < 5; ++i) {
		/* a[pos] is T0 or TD(i-1) */
		uint8_t y = a[pos++];
		if (more) for (unsigned int k = 0; k < 4; ++k) if (y & (0x10u << k)) o->t[k][i] = pos++;
		/* the interface bytes need to exist */
		if (pos > n) return;
		if (o->t[0][i]) {
			uint8_t v = a[o->t[0][i]];
			if (i == 1) { o->D = spec_D[v & 15]; o->F = spec_F[v >> 4]; o->f2 = spec_f2[v >> 4]; if (!o->D || !o->F) return; }
			else if (i == 2) { o->specific = true; o->specific_protocol = v & 15; o->implicit = (v & 0x10) != 0; o->may_change = (v & 0x80) == 0; }
			else if (T == 15 && !seen[0][1]) { seen[0][1] = true; o->classes = v & 63; o->clock_stop = v >> 6; if (o->classes < 1 || o->classes > 7) return; }
			else if (T == 1 && !seen[0][0]) { seen[0][0] = true; o->IFSI = v; if (v == 0 || v == 255) return; }
		}
		if (o->t[1][i]) {
			uint8_t v = a[o->t[1][i]];
			if (i == 1) {
				o->vpp_connected = v != 0;
				if (v) {
					if ((v & 31) < 5 || (v & 31) > 25 || ((v >> 5) & 3) == 3) return;
					o->vpp = o->vpp_course = (v & 31) * 1000;
					o->ipp = ((v >> 5) & 3) == 0 ? 25 : ((v >> 5) & 3) == 1 ? 50 : 100;
				}
			} else if (i == 2) { if (!o->vpp_connected || v < 50 || v > 250) return; o->vpp = v * 100; }
			else if (T == 15 && !seen[1][1]) { seen[1][1] = true; o->spu = v == 0 ? ISO7816_SPU_NOT_USED : v < 0x80 ? ISO7816_SPU_STANDARD : ISO7816_SPU_PROPRIETARY; }
			else if (T == 1 && !seen[1][0]) { seen[1][0] = true; o->CWI = v & 15; o->BWI = v >> 4; if (o->BWI > 9) return; }
		}
		if (o->t[2][i]) {
			uint8_t v = a[o->t[2][i]];
			if (i == 1) o->N = v;
			else if (i == 2) { o->WI = v; if (!v) return; }
			else if (T == 1 && !seen[2][0]) { seen[2][0] = true; o->crc = v & 1; }
		}
		if (!o->t[3][i]) break;
		T = a[o->t[3][i]] & 15;
		if (i == 1) o->protocol = T;
		if (T != 0 && T != 1 && (i == 1 || T != 15)) return;
		if (T != 0) tck = true;
		if (T == 15) o->t15 = true;
		if (i == 4) { if (a[o->t[3][i]] & 0xF0) return; }
		else pos = o->t[3][i];
	}
	unsigned int K = a[1] & 15;
	if (pos + K > n) return;
	if (K) {
		unsigned int end;
		o->T1 = a[pos];
		o->hist = pos + 1;
		o->hist_len = K - 1;
		end = pos + K;
		if (o->T1 == 0) {
			if (K < 4) return;
			o->hist_len = K - 4;
			o->si = end - 3; o->si_len = 3;
		}
		if (o->T1 == 0 || o->T1 == 0x80) {
			unsigned int p = o->hist, e = o->hist + o->hist_len, count = 0;
			bool last = false;
			for (unsigned int i = 0; i < 15; ++i) {
				if (p >= e) break;
				last = (a[p] >> 4) == 8;
				if (last) ++count;
				if (p + 1 + (a[p] & 15) > e) return;
				if (last && o->T1 == 0x80) { o->si = p + 1; o->si_len = a[p] & 15; }
				p += 1 + (a[p] & 15);
			}
			/* a status indicator data object is the last one, and only without T1=00 */
			if (o->T1 == 0 ? count > 0 : count > (last ? 1 : 0)) o->si_known = false;
		}
		pos = end;
	}
	if (tck) {
		uint8_t x = 0;
		if (pos >= n) return;
		for (unsigned int i = 1; i < 33; ++i) if (i <= pos) x ^= a[i];
		if (x) return;
		o->tck = pos;
	}
	o->ok = true;
}


/* One ATR: t0 and the octets TD1 to TD4 are concrete (structure), all others
 * are unconstrained. */
static unsigned int popcount4(unsigned int y) { return (y & 1) + (y >> 1 & 1) + (y >> 2 & 1) + (y >> 3 & 1); }

static void check_atr(const uint8_t* a, unsigned int n)
{
	struct iso7816_atr_info_t o;
	struct spec_atr s;
	int r;
	o.K_count = o.T1 = o.TCK = 0xAA;
	r = iso7816_atr_parse(a, n, &o);
	spec_atr(a, n, &s);
	VP_POST("valid ATR accepted, other ATR rejected", (r == 0) == s.ok);
	VP_POST("error is positive", r >= 0);
	VP_COVER("valid", s.ok);
	if (!s.ok || r) return;
	VP_POST("length and first octets", o.atr_len == n && o.TS == a[0] && o.T0 == a[1] && o.K_count == (a[1] & 15));
	for (unsigned int i = 0; i < n; ++i) VP_POST("copy", o.atr[i] == a[i]);
	for (unsigned int i = 1; i < 5; ++i) {
		VP_POST("TA", o.TA[i] == (s.t[0][i] ? o.atr + s.t[0][i] : NULL));
		VP_POST("TB", o.TB[i] == (s.t[1][i] ? o.atr + s.t[1][i] : NULL));
		VP_POST("TC", o.TC[i] == (s.t[2][i] ? o.atr + s.t[2][i] : NULL));
		VP_POST("TD", o.TD[i] == (s.t[3][i] ? o.atr + s.t[3][i] : NULL));
	}
	VP_POST("historical bytes", (s.hist ? o.historical_bytes == o.atr + s.hist : o.historical_bytes == NULL) && o.historical_bytes_len == s.hist_len && o.T1 == s.T1);
	if (s.si_known) {
		VP_POST("status indicator", o.status_indicator_bytes == (s.si ? o.atr + s.si : NULL) && (!s.si || o.status_indicator_bytes_len == s.si_len));
		VP_POST("LCS", o.status_indicator.LCS == (s.si && (s.si_len == 1 || s.si_len == 3) ? a[s.si] : 0));
		VP_POST("SW1-SW2", s.si && (s.si_len == 2 || s.si_len == 3) ?
			o.status_indicator.SW1 == a[s.si + s.si_len - 2] && o.status_indicator.SW2 == a[s.si + s.si_len - 1] :
			o.status_indicator.SW1 == 0 && o.status_indicator.SW2 == 0);
	}
	VP_POST("TCK", o.TCK == (s.tck ? a[s.tck] : 0));
	VP_POST("Fi, Di", o.global.Di == s.D && o.global.Fi == s.F && o.global.fmax * 2 == (float)s.f2);
	VP_POST("Vpp", o.global.Vpp_connected == s.vpp_connected && (!s.vpp_connected || (o.global.Vpp == s.vpp && o.global.Vpp_course == s.vpp_course && o.global.Ipp == s.ipp)));
	VP_POST("protocol", o.global.protocol == s.protocol);
	VP_POST("specific mode", o.global.specific_mode == s.specific && (!s.specific || (o.global.specific_mode_protocol == s.specific_protocol &&
		o.global.etu_is_implicit == s.implicit && o.global.specific_mode_may_change == s.may_change)));
	VP_POST("card classes, clock stop, SPU", o.global.card_classes == s.classes && (unsigned int)o.global.clock_stop == s.clock_stop && (unsigned int)o.global.spu == s.spu);
	VP_POST("N", o.global.N == s.N);
	VP_POST("GT", o.global.GT == (s.N != 255 ? 12 + s.N : s.protocol == 0 ? 12 : 11));
	VP_POST("CGT", o.protocol_T1.CGT == (s.N != 255 ? 12 + s.N : 11));
	VP_POST("WT", o.protocol_T0.WI == s.WI && o.protocol_T0.WT == s.WI * 960 * s.D);
	VP_POST("T=1 parameters", o.protocol_T1.IFSI == s.IFSI && o.protocol_T1.CWI == s.CWI && o.protocol_T1.BWI == s.BWI && (unsigned int)o.protocol_T1.error_detection_code == s.crc);
	VP_POST("CWT", o.protocol_T1.CWT == 11 + (1u << s.CWI));
#ifndef NO_BWT
	VP_POST("BWT", o.protocol_T1.BWT == 11 + (unsigned int)(((uint64_t)(1u << s.BWI) * 960 * 372 * s.D) / s.F));
#endif
}
static void one_atr(const unsigned int* y, const unsigned int* t, unsigned int K, int extra)
{
	/* y[0..3] are Y1 to Y4, t[0..3] the T values of TD1 to TD4 */
	unsigned int pos = 2, n;
	uint8_t td[5];
	unsigned int at[5];
	bool tck = false;
	for (unsigned int i = 0; i < 4; ++i) {
		pos += popcount4(y[i]);
		if (!(y[i] & 8)) { at[i] = 0; break; }
		at[i] = pos - 1;
		td[i] = (i < 3 ? y[i + 1] << 4 : 0) | t[i];
		if (t[i]) tck = true;
	}
	n = pos + K + (tck ? 1 : 0) + extra;
	if (n > 33 || n < 2) return;
	uint8_t* a = malloc(n);
	VP_ASSUME(a != NULL);
	vp_fill(a, n);
	a[1] = (y[0] << 4) | K;
	for (unsigned int i = 0; i < 4; ++i) {
		if (!(y[i] & 8)) break;
		if (at[i] < n) a[at[i]] = td[i];
	}
	check_atr(a, n);
}
static const unsigned int tval[4] = { 0, 1, 15, 0 };
#ifndef LO
#define LO 0
#define HI 1
#endif
void b_atr_structure(void)
{
	for (unsigned int i = LO; i < HI; ++i) {
		unsigned int h = i * 2654435761u >> 8;
		unsigned int y[4] = { 8 | (h & 7), 8 | (h >> 3 & 7), 8 | (h >> 6 & 7), h >> 9 & 7 }, t[4] = { h >> 12 & 1, tval[(h >> 13) % 3], tval[(h >> 15) % 3], tval[(h >> 17) % 3] };
		if (i < 8) { y[0] = i; }
		else if (i < 136) { y[0] = 8 | (i & 7); y[1] = i >> 3 & 7; t[0] = (i - 8) >> 6; }
		else if (i < 328) { y[1] = 8 | (i & 7); y[2] = i >> 3 & 7; t[1] = tval[(i - 136) / 64]; }
		else if (i < 520) { y[2] = 8 | (i & 7); y[3] = i >> 3 & 7; t[2] = tval[(i - 328) / 64]; }
		else { y[3] = 8 | (i & 7); t[3] = tval[(i - 520) / 8]; }
		one_atr(y, t, i & 1, 0);
	}
}
/* historical bytes: K concrete */
#ifndef KH
#define KH 5
#define TT 1
#endif
void b_atr_hist(void)
{
	unsigned int y[4] = { TT ? 8 : 0, 0, 0, 0 }, t[4] = { TT, 0, 0, 0 };
	one_atr(y, t, KH, 0);
}
/* truncation and excess */
#ifndef ELO
#define ELO -10
#define EHI 11
#endif
void b_atr_short(void)
{
	for (int e = ELO; e < EHI; ++e) {
		unsigned int y[4] = { TT ? 12 : 4, 2, 0, 0 }, t[4] = { TT, 0, 0, 0 };
		if (e) one_atr(y, t, 4, e);
	}
}
void b_atr_size(void)
{
	size_t n = (size_t)vp_u64();
	uint8_t a[1];
	struct iso7816_atr_info_t o;
	VP_ASSUME(n < 2 || n > 33);
	a[0] = 0x3B;
	VP_POST("size", iso7816_atr_parse(a, n, &o) > 0);
}
void b_atr_null(void)
{
	uint8_t a[33];
	struct iso7816_atr_info_t o;
	size_t n = (size_t)vp_u64();
	VP_POST("NULL", iso7816_atr_parse(NULL, n, &o) < 0 && iso7816_atr_parse(a, n, NULL) < 0);
}

/* ---- EMV Level 1, 8.3: which ATR are acceptable ---- */
#ifdef VP_EMV
static int e_result;
static bool e_has[4][5];
static uint8_t e_val[4][5];
static uint8_t e_atr[33];
static size_t e_len;
static bool e_args_ok;
static unsigned int e_calls;

/* contract of iso7816_atr_parse (C11): the interface octets, N and CWI */
int stub_atr_parse(const uint8_t* atr, size_t len, struct iso7816_atr_info_t* o)
{
	++e_calls;
	e_args_ok = atr == e_atr && len == e_len && o != NULL;
	memset(o, 0, sizeof(*o));
	if (e_result) return e_result;
	for (unsigned int i = 1; i < 5; ++i) {
		o->atr[4 * i + 0] = e_val[0][i]; o->TA[i] = e_has[0][i] ? &o->atr[4 * i + 0] : NULL;
		o->atr[4 * i + 1] = e_val[1][i]; o->TB[i] = e_has[1][i] ? &o->atr[4 * i + 1] : NULL;
		o->atr[4 * i + 2] = e_val[2][i]; o->TC[i] = e_has[2][i] ? &o->atr[4 * i + 2] : NULL;
		o->atr[4 * i + 3] = e_val[3][i]; o->TD[i] = e_has[3][i] ? &o->atr[4 * i + 3] : NULL;
	}
	o->TS = 0x3B;
	o->global.N = e_has[2][1] ? e_val[2][1] : 0;
	o->global.protocol = e_has[3][1] ? e_val[3][1] & 15 : 0;
	o->protocol_T1.CWI = e_has[3][2] && (e_val[3][2] & 15) == 1 && e_has[1][3] ? e_val[1][3] & 15 : 13;
	o->protocol_T1.BWI = e_has[3][2] && (e_val[3][2] & 15) == 1 && e_has[1][3] ? e_val[1][3] >> 4 : 4;
	return 0;
}
void i_emv_atr(void)
{
	int r;
	e_calls = 0;
	e_result = vp_int();
	for (unsigned int k = 0; k < 4; ++k) for (unsigned int i = 1; i < 5; ++i) { e_has[k][i] = vp_bool(); e_val[k][i] = vp_u8(); }
	/* an octet of level i + 1 needs TDi; C11 */
	for (unsigned int i = 1; i < 4; ++i) if (!e_has[3][i]) for (unsigned int k = 0; k < 4; ++k) e_has[k][i + 1] = false;
	if (e_has[3][1]) VP_ASSUME((e_val[3][1] & 15) <= 1);
	for (unsigned int i = 2; i < 5; ++i) if (e_has[3][i]) VP_ASSUME((e_val[3][i] & 15) <= 1 || (e_val[3][i] & 15) == 15);
	e_len = vp_size(33);
	VP_POST("NULL", emv_atr_parse(NULL, e_len) < 0 && emv_atr_parse(e_atr, 0) < 0 && e_calls == 0);
	VP_ASSUME(e_len > 0);
	r = emv_atr_parse(e_atr, e_len);
	VP_POST("decoded once", e_calls == 1 && e_args_ok);
	bool ok = true;
	unsigned int T1 = e_has[3][1] ? e_val[3][1] & 15 : 0, T2 = e_has[3][2] ? e_val[3][2] & 15 : 0;
	/* 8.3.3.1: TA1 */
	if (e_has[0][1]) {
		uint8_t v = e_val[0][1];
		if (e_has[0][2]) { if (v < 0x11 || v > 0x13) ok = false; }
		else if (v < 0x10 || (v & 15) < 3) ok = false;
	}
	/* 8.3.3.3: TC1 */
	if (e_has[2][1] && e_val[2][1] != 0 && e_val[2][1] != 255) ok = false;
	/* 8.3.3.5: TA2, specific mode of the first protocol */
	if (e_has[0][2] && ((e_val[0][2] & 0x10) || (e_val[0][2] & 15) != T1)) ok = false;
	/* 8.3.3.7: TC2 */
	if (e_has[2][2] && (T1 != 0 || e_val[2][2] != 10)) ok = false;
	/* 8.3.3.8: TD2 */
	if (e_has[3][2] && T2 != (T1 == 0 ? 15 : 1)) ok = false;
	if (!e_has[3][2] && T1 == 1) ok = false;
	if (e_has[3][2] && T2 == 1) {
		/* 8.3.3.9 to 8.3.3.11 */
		if (e_has[0][3] && e_val[0][3] < 0x10) ok = false;
		if (!e_has[1][3] || (e_val[1][3] >> 4) > 4 || (e_val[1][3] & 15) > 5) ok = false;
		if (e_has[2][3] && e_val[2][3] != 0) ok = false;
	}
	if (e_result < 0) VP_POST("internal error", r == EMV_ERROR_INTERNAL);
	else if (e_result > 0) VP_POST("malformed ATR is a card error", r == EMV_OUTCOME_CARD_ERROR);
	else VP_POST("accepted exactly when EMV allows it", r == (ok ? 0 : EMV_OUTCOME_CARD_ERROR));
	VP_COVER("T=0", e_result == 0 && ok && T1 == 0 && e_has[0][2] && e_has[0][1]);
	VP_COVER("T=1", e_result == 0 && ok && T1 == 1 && e_has[0][3]);
	VP_COVER("rejected", e_result == 0 && !ok);
}
/* search for a failing input on the real code: ATR octets in, oracle by the
 * specifications above */
void f_emv_atr(void)
{
	size_t n = vp_size(33);
	uint8_t a[33];
	struct spec_atr s;
	bool ok;
	vp_fill(a, 33);
	if (vp_bool()) a[0] = 0x3B;
	spec_atr(a, n, &s);
	/* help with TCK */
	if (!s.ok && n > 2) {
		uint8_t x = 0;
		for (unsigned int i = 1; i + 1 < n; ++i) x ^= a[i];
		a[n - 1] = x;
		spec_atr(a, n, &s);
	}
	if (n == 0) return;
	ok = s.ok;
	if (ok) {
#define HAS(k, i) (s.t[k][i] != 0)
#define VAL(k, i) (a[s.t[k][i]])
		unsigned int T1 = HAS(3, 1) ? VAL(3, 1) & 15 : 0, T2 = HAS(3, 2) ? VAL(3, 2) & 15 : 0;
		if (HAS(0, 1)) { if (HAS(0, 2)) { if (VAL(0, 1) < 0x11 || VAL(0, 1) > 0x13) ok = false; } else if (VAL(0, 1) < 0x10 || (VAL(0, 1) & 15) < 3) ok = false; }
		if (HAS(2, 1) && VAL(2, 1) != 0 && VAL(2, 1) != 255) ok = false;
		if (HAS(0, 2) && ((VAL(0, 2) & 0x10) || (VAL(0, 2) & 15) != T1)) ok = false;
		if (HAS(2, 2) && (T1 != 0 || VAL(2, 2) != 10)) ok = false;
		if (HAS(3, 2) && T2 != (T1 == 0 ? 15 : 1)) ok = false;
		if (!HAS(3, 2) && T1 == 1) ok = false;
		if (HAS(3, 2) && T2 == 1) {
			if (HAS(0, 3) && VAL(0, 3) < 0x10) ok = false;
			if (!HAS(1, 3) || (VAL(1, 3) >> 4) > 4 || (VAL(1, 3) & 15) > 5) ok = false;
			if (HAS(2, 3) && VAL(2, 3) != 0) ok = false;
		}
	}
	VP_POST("accepted exactly when EMV allows it", emv_atr_parse(a, n) == (ok ? 0 : EMV_OUTCOME_CARD_ERROR));
}
#endif
