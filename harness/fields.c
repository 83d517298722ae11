/* EMV data element decoders: AFL, CVM List, AID, Issuer Application Data */
#include "vp.h"
#include "emv_fields.h"

/* ---- specification ---- */

/* EMV 4.4 Book 3, 10.2: is this AFL entry well-formed? */
static bool spec_afl_ok(const uint8_t* p)
{
	unsigned int sfi = p[0] / 8;
	if (p[0] % 8 != 0 || sfi < 1 || sfi > 30) return false;
	if (p[1] < 1 || p[2] < p[1]) return false;
	return p[3] <= p[2] - p[1] + 1;
}
static uint32_t spec_be32(const uint8_t* p)
{
	return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3];
}
/* Issuer Application Data */
static enum emv_iad_format_t spec_iad(const uint8_t* p, size_t n)
{
	/* EMV 4.4 Book 3, Annex C9: length 0F, CCI A5 or A6, length 0F */
	if (n == 32 && p[0] == 0x0F && (p[1] == 0xA5 || p[1] == 0xA6) && p[16] == 0x0F) return EMV_IAD_FORMAT_CCD;
	/* M/Chip: CVN 000100x0 pattern, that is 10, 11, 14 or 15 */
	if (n == 18 || n == 20 || n == 26 || n == 28) {
		if (p[1] == 0x10 || p[1] == 0x11 || p[1] == 0x14 || p[1] == 0x15) return n == 18 ? EMV_IAD_FORMAT_MCHIP4 : EMV_IAD_FORMAT_MCHIP_ADVANCE;
	}
	/* VCPS supplement, Appendix M */
	if (n >= 7 && p[0] == 0x06 && p[3] == 0x03) {
		unsigned int f = p[2] / 16;
		return f == 0 ? EMV_IAD_FORMAT_VSDC_0 : f == 1 ? EMV_IAD_FORMAT_VSDC_1 : f == 3 ? EMV_IAD_FORMAT_VSDC_3 : EMV_IAD_FORMAT_INVALID;
	}
	if (n == 32 && p[0] == 0x1F && p[8] < 0x10) {
		unsigned int f = p[1] / 16;
		return f == 2 ? EMV_IAD_FORMAT_VSDC_2 : f == 4 ? EMV_IAD_FORMAT_VSDC_4 : EMV_IAD_FORMAT_INVALID;
	}
	return EMV_IAD_FORMAT_UNKNOWN;
}

/* ---- contracts ---- */
#if !defined(VP_NATIVE)
#define OCT(p) ((const uint8_t*)(p))
#ifdef P_AFL
int emv_afl_itr_next(struct emv_afl_itr_t* itr, struct emv_afl_entry_t* entry)
__CPROVER_requires(__CPROVER_is_fresh(itr, sizeof(*itr)) && __CPROVER_is_fresh(entry, sizeof(*entry)))
__CPROVER_requires(__CPROVER_is_fresh(itr->ptr, itr->len))
__CPROVER_assigns(*itr, *entry)
__CPROVER_ensures((__CPROVER_return_value == 0) == (__CPROVER_old(itr->len) == 0))
__CPROVER_ensures((__CPROVER_return_value > 0) == (__CPROVER_old(itr->len) != 0 && __CPROVER_old(itr->len) % 4 == 0 && spec_afl_ok(__CPROVER_old(itr->ptr))))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (__CPROVER_return_value == 4 && itr->len == __CPROVER_old(itr->len) - 4 && itr->ptr == OCT(__CPROVER_old(itr->ptr)) + 4))
__CPROVER_ensures(__CPROVER_return_value <= 0 ==> (itr->len == __CPROVER_old(itr->len) && itr->ptr == __CPROVER_old(itr->ptr)))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (entry->sfi == OCT(__CPROVER_old(itr->ptr))[0] / 8 && entry->first_record == OCT(__CPROVER_old(itr->ptr))[1] &&
	entry->last_record == OCT(__CPROVER_old(itr->ptr))[2] && entry->oda_record_count == OCT(__CPROVER_old(itr->ptr))[3]))
;
void p_afl(void)
{
	struct emv_afl_itr_t* itr; struct emv_afl_entry_t* entry;
	int r = emv_afl_itr_next(itr, entry);
	VP_COVER("entry", r == 4 && itr->len == 248);
	VP_COVER("rejected", r < 0);
	VP_COVER("end", r == 0);
}
#endif
#ifdef P_CVM
int emv_cvmlist_itr_next(struct emv_cvmlist_itr_t* itr, struct emv_cv_rule_t* rule)
__CPROVER_requires(__CPROVER_is_fresh(itr, sizeof(*itr)) && __CPROVER_is_fresh(rule, sizeof(*rule)))
__CPROVER_requires(__CPROVER_is_fresh(itr->ptr, itr->len))
__CPROVER_assigns(*itr, *rule)
__CPROVER_ensures((__CPROVER_return_value == 0) == (__CPROVER_old(itr->len) == 0))
__CPROVER_ensures((__CPROVER_return_value < 0) == (__CPROVER_old(itr->len) % 2 == 1))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (__CPROVER_return_value == 2 && itr->len == __CPROVER_old(itr->len) - 2 && itr->ptr == OCT(__CPROVER_old(itr->ptr)) + 2))
__CPROVER_ensures(__CPROVER_return_value <= 0 ==> (itr->len == __CPROVER_old(itr->len) && itr->ptr == __CPROVER_old(itr->ptr)))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (rule->cvm == OCT(__CPROVER_old(itr->ptr))[0] && rule->cvm_cond == OCT(__CPROVER_old(itr->ptr))[1]))
;
void p_cvm(void)
{
	struct emv_cvmlist_itr_t* itr; struct emv_cv_rule_t* rule;
	int r = emv_cvmlist_itr_next(itr, rule);
	VP_COVER("rule", r == 2 && itr->len == 240);
	VP_COVER("rejected", r < 0);
	VP_COVER("end", r == 0);
}
#endif
#ifdef P_CVMI
int emv_cvmlist_itr_init(const void* l, size_t n, struct emv_cvmlist_amounts_t* a, struct emv_cvmlist_itr_t* itr)
__CPROVER_requires(__CPROVER_is_fresh(l, n) && __CPROVER_is_fresh(a, sizeof(*a)) && __CPROVER_is_fresh(itr, sizeof(*itr)))
__CPROVER_assigns(*a, *itr)
__CPROVER_ensures((__CPROVER_return_value == 0) == (n >= 10 && n <= 252 && n % 2 == 0))
__CPROVER_ensures((__CPROVER_return_value < 0) == (n == 0))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (a->X == spec_be32(l) && a->Y == spec_be32(OCT(l) + 4)))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (itr->ptr == OCT(l) + 8 && itr->len == n - 8))
;
void p_cvmi(void)
{
	const void* l; size_t n; struct emv_cvmlist_amounts_t* a; struct emv_cvmlist_itr_t* itr;
	int r = emv_cvmlist_itr_init(l, n, a, itr);
	VP_COVER("longest", r == 0 && n == 252);
	VP_COVER("shortest", r == 0 && n == 10 && a->X == 0x12345678);
	VP_COVER("rejected", r > 0);
}
#endif
#ifdef P_IAD
enum emv_iad_format_t emv_iad_get_format(const uint8_t* iad, size_t n)
__CPROVER_requires(n > 0 && __CPROVER_is_fresh(iad, n))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == spec_iad(iad, n))
;
void p_iad(void)
{
	const uint8_t* iad; size_t n;
	enum emv_iad_format_t r = emv_iad_get_format(iad, n);
	VP_COVER("CCD", r == EMV_IAD_FORMAT_CCD);
	VP_COVER("MCHIP4", r == EMV_IAD_FORMAT_MCHIP4);
	VP_COVER("MCHIPADV", r == EMV_IAD_FORMAT_MCHIP_ADVANCE);
	VP_COVER("VSDC0", r == EMV_IAD_FORMAT_VSDC_0);
	VP_COVER("VSDC1", r == EMV_IAD_FORMAT_VSDC_1);
	VP_COVER("VSDC2", r == EMV_IAD_FORMAT_VSDC_2);
	VP_COVER("VSDC3", r == EMV_IAD_FORMAT_VSDC_3);
	VP_COVER("VSDC4", r == EMV_IAD_FORMAT_VSDC_4);
	VP_COVER("invalid", r == EMV_IAD_FORMAT_INVALID);
	VP_COVER("unknown", r == EMV_IAD_FORMAT_UNKNOWN);
}
#endif
#endif

/* ---- executable ---- */

/* every state of the iterator: any length, first four octets arbitrary, and
 * nothing beyond them readable */
void b_afl(void)
{
	size_t len = (size_t)vp_u64();
	size_t have = len < 4 ? len : 4;
	uint8_t* p = vp_buf(have, 4);
	struct emv_afl_itr_t itr;
	struct emv_afl_entry_t e = { 0 };
	VP_POST("NULL", emv_afl_itr_init(NULL, len, &itr) < 0 && emv_afl_itr_init(p, 0, &itr) < 0 && emv_afl_itr_init(p, len, NULL) < 0 &&
		emv_afl_itr_next(NULL, &e) < 0 && emv_afl_itr_next(&itr, NULL) < 0);
	itr.ptr = NULL; itr.len = 0;
	int r = emv_afl_itr_init(p, len, &itr);
	VP_POST("init accepts 4 to 252 octets in multiples of 4", (r == 0) == (len >= 4 && len <= 252 && len % 4 == 0) && (r < 0) == (len == 0));
	VP_POST("init", r != 0 || (itr.ptr == p && itr.len == len));
	itr.ptr = p; itr.len = len;
	r = emv_afl_itr_next(&itr, &e);
	bool ok = len && len % 4 == 0 && spec_afl_ok(p);
	VP_POST("end", (r == 0) == (len == 0));
	VP_POST("accepted exactly when well-formed", (r > 0) == ok && (!ok || r == 4));
	VP_POST("entry", !ok || (e.sfi == p[0] / 8 && e.first_record == p[1] && e.last_record == p[2] && e.oda_record_count == p[3]));
	VP_POST("advance", itr.ptr == p + (ok ? 4 : 0) && itr.len == len - (ok ? 4 : 0));
	VP_COVER("entry", r == 4);
	VP_COVER("rejected", r < 0 && len % 4 == 0);
}
void b_cvm(void)
{
	size_t len = (size_t)vp_u64();
	size_t have = len < 8 ? len : 8;
	uint8_t* p = vp_buf(have, 8);
	struct emv_cvmlist_itr_t itr;
	struct emv_cvmlist_amounts_t a;
	struct emv_cv_rule_t e = { 0 };
	VP_POST("NULL", emv_cvmlist_itr_init(NULL, len, &a, &itr) < 0 && emv_cvmlist_itr_init(p, 0, &a, &itr) < 0 && emv_cvmlist_itr_init(p, len, NULL, &itr) < 0 &&
		emv_cvmlist_itr_init(p, len, &a, NULL) < 0 && emv_cvmlist_itr_next(NULL, &e) < 0 && emv_cvmlist_itr_next(&itr, NULL) < 0);
	itr.ptr = NULL; itr.len = 0;
	int r = emv_cvmlist_itr_init(p, len, &a, &itr);
	VP_POST("init accepts 10 to 252 octets in multiples of 2", (r == 0) == (len >= 10 && len <= 252 && len % 2 == 0) && (r < 0) == (len == 0));
	VP_POST("init", r != 0 || ((const uint8_t*)itr.ptr == p + 8 && itr.len == len - 8 && a.X == spec_be32(p) && a.Y == spec_be32(p + 4)));
	VP_COVER("init", r == 0 && a.Y == 0x12345678);
	itr.ptr = p; itr.len = len;
	r = emv_cvmlist_itr_next(&itr, &e);
	bool ok = len && len % 2 == 0;
	VP_POST("end", (r == 0) == (len == 0));
	VP_POST("accepted exactly when well-formed", (r > 0) == ok && (!ok || r == 2));
	VP_POST("rule", !ok || (e.cvm == p[0] && e.cvm_cond == p[1]));
	VP_POST("advance", (const uint8_t*)itr.ptr == p + (ok ? 2 : 0) && itr.len == len - (ok ? 2 : 0));
	VP_COVER("rule", r == 2);
}
void b_iad(void)
{
	size_t len = vp_size(34);
	uint8_t* p = vp_buf(len, 34);
	VP_POST("NULL or empty", emv_iad_get_format(NULL, len) == EMV_IAD_FORMAT_INVALID && emv_iad_get_format(p, 0) == EMV_IAD_FORMAT_INVALID);
	VP_ASSUME(len > 0);
	enum emv_iad_format_t r = emv_iad_get_format(p, len);
	VP_POST("format", r == spec_iad(p, len));
	VP_COVER("VSDC4", r == EMV_IAD_FORMAT_VSDC_4);
}

/* registered application provider identifiers and the products below them, as
 * the scheme and product enumerations of emv_fields.h document them */
struct rid { uint8_t rid[5]; enum emv_card_scheme_t scheme; enum emv_card_product_t product; };
static const struct rid spec_rids[] = {
	{ { 0xA0, 0, 0, 0x00, 0x03 }, EMV_CARD_SCHEME_VISA, 0 },
	{ { 0xA0, 0, 0, 0x00, 0x98 }, EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_USA_DEBIT },
	{ { 0xA0, 0, 0, 0x00, 0x04 }, EMV_CARD_SCHEME_MASTERCARD, 0 },
	{ { 0xA0, 0, 0, 0x00, 0x05 }, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK },
	{ { 0xB0, 0x12, 0x34, 0x56, 0x78 }, EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_TEST },
	{ { 0xA0, 0, 0, 0x00, 0x25 }, EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT },
	{ { 0xA0, 0, 0, 0x07, 0x90 }, EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT },
	{ { 0xA0, 0, 0, 0x01, 0x52 }, EMV_CARD_SCHEME_DISCOVER, 0 },
	{ { 0xA0, 0, 0, 0x03, 0x24 }, EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_ZIP },
	{ { 0xA0, 0, 0, 0x00, 0x42 }, EMV_CARD_SCHEME_CB, 0 },
	{ { 0xA0, 0, 0, 0x00, 0x65 }, EMV_CARD_SCHEME_JCB, 0 },
	{ { 0xA0, 0, 0, 0x01, 0x21 }, EMV_CARD_SCHEME_DANKORT, 0 },
	{ { 0xA0, 0, 0, 0x03, 0x33 }, EMV_CARD_SCHEME_UNIONPAY, 0 },
	{ { 0xA0, 0, 0, 0x03, 0x37 }, EMV_CARD_SCHEME_GIMUEMOA, 0 },
	{ { 0xA0, 0, 0, 0x03, 0x71 }, EMV_CARD_SCHEME_VERVE, 0 },
	{ { 0xA0, 0, 0, 0x03, 0x84 }, EMV_CARD_SCHEME_EFTPOS, 0 },
	{ { 0xA0, 0, 0, 0x05, 0x24 }, EMV_CARD_SCHEME_RUPAY, 0 },
	{ { 0xA0, 0, 0, 0x06, 0x58 }, EMV_CARD_SCHEME_MIR, 0 },
	{ { 0xA0, 0, 0, 0x07, 0x32 }, EMV_CARD_SCHEME_MEEZA, 0 },
};
struct pix { enum emv_card_scheme_t scheme; uint8_t n, pix[3]; enum emv_card_product_t product; };
static const struct pix spec_pixs[] = {
	{ EMV_CARD_SCHEME_VISA, 2, { 0x10, 0x10 }, EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT },
	{ EMV_CARD_SCHEME_VISA, 2, { 0x20, 0x10 }, EMV_CARD_PRODUCT_VISA_ELECTRON },
	{ EMV_CARD_SCHEME_VISA, 2, { 0x20, 0x20 }, EMV_CARD_PRODUCT_VISA_VPAY },
	{ EMV_CARD_SCHEME_VISA, 2, { 0x80, 0x10 }, EMV_CARD_PRODUCT_VISA_PLUS },
	{ EMV_CARD_SCHEME_MASTERCARD, 2, { 0x10, 0x10 }, EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT },
	{ EMV_CARD_SCHEME_MASTERCARD, 2, { 0x30, 0x60 }, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO },
	{ EMV_CARD_SCHEME_MASTERCARD, 2, { 0x60, 0x00 }, EMV_CARD_PRODUCT_MASTERCARD_CIRRUS },
	{ EMV_CARD_SCHEME_MASTERCARD, 2, { 0x22, 0x03 }, EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT },
	{ EMV_CARD_SCHEME_DISCOVER, 2, { 0x30, 0x10 }, EMV_CARD_PRODUCT_DISCOVER_CARD },
	{ EMV_CARD_SCHEME_DISCOVER, 2, { 0x40, 0x10 }, EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT },
	{ EMV_CARD_SCHEME_CB, 2, { 0x10, 0x10 }, EMV_CARD_PRODUCT_CB_CREDIT_DEBIT },
	{ EMV_CARD_SCHEME_CB, 2, { 0x20, 0x10 }, EMV_CARD_PRODUCT_CB_DEBIT },
	{ EMV_CARD_SCHEME_DANKORT, 2, { 0x47, 0x11 }, EMV_CARD_PRODUCT_DANKORT_VISADANKORT },
	{ EMV_CARD_SCHEME_DANKORT, 2, { 0x47, 0x12 }, EMV_CARD_PRODUCT_DANKORT_JSPEEDY },
	{ EMV_CARD_SCHEME_UNIONPAY, 3, { 0x01, 0x01, 0x01 }, EMV_CARD_PRODUCT_UNIONPAY_DEBIT },
	{ EMV_CARD_SCHEME_UNIONPAY, 3, { 0x01, 0x01, 0x02 }, EMV_CARD_PRODUCT_UNIONPAY_CREDIT },
	{ EMV_CARD_SCHEME_UNIONPAY, 3, { 0x01, 0x01, 0x03 }, EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT },
	{ EMV_CARD_SCHEME_UNIONPAY, 3, { 0x01, 0x01, 0x06 }, EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH },
	{ EMV_CARD_SCHEME_UNIONPAY, 3, { 0x01, 0x01, 0x08 }, EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x10, 0x10, 0x00 }, EMV_CARD_PRODUCT_GIMUEMOA_STANDARD },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x10, 0x10, 0x01 }, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x10, 0x20, 0x00 }, EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x10, 0x20, 0x01 }, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x30, 0x10, 0x00 }, EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT },
	{ EMV_CARD_SCHEME_GIMUEMOA, 3, { 0x60, 0x10, 0x01 }, EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET },
	{ EMV_CARD_SCHEME_EFTPOS, 1, { 0x10 }, EMV_CARD_PRODUCT_EFTPOS_SAVINGS },
	{ EMV_CARD_SCHEME_EFTPOS, 1, { 0x20 }, EMV_CARD_PRODUCT_EFTPOS_CHEQUE },
	{ EMV_CARD_SCHEME_MIR, 2, { 0x10, 0x10 }, EMV_CARD_PRODUCT_MIR_CREDIT },
	{ EMV_CARD_SCHEME_MIR, 2, { 0x20, 0x10 }, EMV_CARD_PRODUCT_MIR_DEBIT },
};
static const uint8_t spec_girocard[] = { 0xA0, 0, 0, 0x03, 0x59, 0x10, 0x10, 0x02, 0x80, 0x01 };

static bool same(const uint8_t* a, const uint8_t* b, size_t n)
{
	bool r = true;
	for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) r = false;
	return r;
}
/* 0 known, 1 unknown, 2 malformed; any length, 16 octets of contents */
static int spec_aid(const uint8_t* p, size_t n, struct emv_aid_info_t* o)
{
	int r = 1;
	o->scheme = 0; o->product = 0;
	if (n < 5 || n > 16) return 2;
	for (unsigned int i = 0; i < sizeof(spec_rids) / sizeof(spec_rids[0]); ++i) {
		if (same(p, spec_rids[i].rid, 5)) { o->scheme = spec_rids[i].scheme; o->product = spec_rids[i].product; r = 0; }
	}
	if (n >= sizeof(spec_girocard) && same(p, spec_girocard, sizeof(spec_girocard))) { o->scheme = EMV_CARD_SCHEME_DK; o->product = EMV_CARD_PRODUCT_DK_GIROCARD; r = 0; }
	if (r == 0 && o->product == 0) for (unsigned int i = 0; i < sizeof(spec_pixs) / sizeof(spec_pixs[0]); ++i) {
		if (spec_pixs[i].scheme == o->scheme && n >= 5u + spec_pixs[i].n && same(p + 5, spec_pixs[i].pix, spec_pixs[i].n)) o->product = spec_pixs[i].product;
	}
	return r;
}
void b_aid(void)
{
	size_t len = (size_t)vp_u64();
	size_t have = len < 16 ? len : 16;
	uint8_t* p = vp_buf(have, 16);
	struct emv_aid_info_t o = { -1, -1 }, want;
	VP_POST("NULL or empty", emv_aid_get_info(NULL, len, &o) < 0 && emv_aid_get_info(p, 0, &o) < 0 && emv_aid_get_info(p, len, NULL) < 0);
	VP_ASSUME(len > 0);
	int r = emv_aid_get_info(p, len, &o);
	int s = spec_aid(p, len, &want);
	VP_POST("outcome", (r == 0) == (s == 0) && (r > 0) == (s == 2));
	VP_POST("scheme", o.scheme == want.scheme);
	VP_POST("product", o.product == want.product);
	VP_COVER("girocard", r == 0 && o.product == EMV_CARD_PRODUCT_DK_GIROCARD);
	VP_COVER("Maestro", r == 0 && o.product == EMV_CARD_PRODUCT_MASTERCARD_MAESTRO);
	VP_COVER("unknown product", r == 0 && o.scheme == EMV_CARD_SCHEME_VISA && o.product == 0);
	VP_COVER("unknown", s == 1);
	VP_COVER("malformed", s == 2);
}
