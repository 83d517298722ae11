/* Terminal Application Layer: record reading, processing options, final
 * selection, PSE and list of AIDs. The transport layer, the decoders and the
 * application objects are the contract stubs below; list handling is real. */
#include "vp.h"
#include "iso8825_ber.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "emv_app.h"
#include "emv_ttl.h"
#include "emv_tal.h"

static struct emv_ttl_t ttl;
static bool t_args_ok = true;

/* a field at the end of a list, by the contract of emv_tlv_parse() */
static void field(struct emv_tlv_list_t* list, unsigned int tag, unsigned int id)
{
	struct emv_tlv_t* t = vp_malloc(sizeof(*t));
	VP_ASSUME(t != NULL);
	t->tag = tag; t->length = 1; t->flags = 0; t->next = NULL;
	t->value = vp_malloc(1);
	VP_ASSUME(t->value != NULL);
	t->value[0] = id;
	if (list->back) list->back->next = t; else list->front = t;
	list->back = t;
}

/* commands that are not part of the function under verification */
#if defined(V_REC) || defined(V_GPO)
int emv_ttl_select_by_df_name(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2) { t_args_ok = false; return -1; }
#endif
#ifndef V_AIDS
int emv_ttl_select_by_df_name_next(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2) { t_args_ok = false; return -1; }
#endif
#ifndef V_GPO
int emv_ttl_get_processing_options(struct emv_ttl_t* ctx, const void* data, size_t data_len, void* response, size_t* response_len, uint16_t* sw1sw2) { t_args_ok = false; return -1; }
#endif
#if !defined(V_REC) && !defined(V_PSE)
int emv_ttl_read_record(struct emv_ttl_t* ctx, uint8_t sfi, uint8_t record_number, void* data, size_t* data_len, uint16_t* sw1sw2) { t_args_ok = false; return -1; }
#endif
#ifndef V_REC
int emv_afl_itr_init(const void* afl, size_t afl_len, struct emv_afl_itr_t* itr) { t_args_ok = false; return -1; }
int emv_afl_itr_next(struct emv_afl_itr_t* itr, struct emv_afl_entry_t* entry) { t_args_ok = false; return -1; }
#endif

#ifdef V_REC
/* ---- reading of records ---- */
#ifndef CFG
#define CFG { 2, 1 }
#endif
#ifndef FIRST
#define FIRST 0
#endif
static const unsigned int cfg[] = CFG; /* records of each entry */
#define NENT (sizeof(cfg) / sizeof(cfg[0]))
#define NTOT 4
static struct emv_afl_entry_t ent[NENT];
static unsigned int n_ent, e_next;
static int e_init_r, e_end_r;
static const uint8_t a_afl[4];
static size_t a_len;
int emv_afl_itr_init(const void* afl, size_t afl_len, struct emv_afl_itr_t* itr)
{
	if (afl != a_afl || afl_len != a_len) t_args_ok = false;
	return e_init_r;
}
int emv_afl_itr_next(struct emv_afl_itr_t* itr, struct emv_afl_entry_t* entry)
{
	for (unsigned int i = 0; i < NENT; ++i) {
		if (i < n_ent && i == e_next) { *entry = ent[i]; ++e_next; return 4; }
	}
	return e_end_r;
}
static struct { uint8_t sfi, rec, first; uint16_t sw; int rr, dec_r, parse_r; size_t len; unsigned int tlen; } R[NTOT + 1];
static unsigned int n_read, n_parsed;
static const uint8_t* r_ptr;
int emv_ttl_read_record(struct emv_ttl_t* ctx, uint8_t sfi, uint8_t record_number, void* data, size_t* data_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl || *data_len < 256 || n_read >= NTOT) { t_args_ok = false; return -1; }
	if (sfi != R[n_read].sfi || record_number != R[n_read].rec) t_args_ok = false;
	r_ptr = data;
	((uint8_t*)data)[0] = R[n_read].first;
	*data_len = R[n_read].len;
	*sw1sw2 = R[n_read].sw;
	++n_read;
	return R[n_read - 1].rr;
}
int stub_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	unsigned int k = n_read ? n_read - 1 : 0;
	if (ptr != r_ptr || len != R[k].len || len == 0) { t_args_ok = false; return -1; }
	if (R[k].dec_r > 0) {
		tlv->tag = R[k].first; tlv->length = R[k].tlen; tlv->flags = 0;
		tlv->value = (const uint8_t*)ptr + (R[k].dec_r - R[k].tlen);
	}
	return R[k].dec_r;
}
int stub_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
{
	unsigned int k = n_read ? n_read - 1 : 0;
	if (ptr != r_ptr || len != R[k].len) t_args_ok = false;
	/* the fields that precede an error are there */
	field(list, 0xDF01 + k, k);
	++n_parsed;
	return R[k].parse_r;
}
void b_read_afl(void)
{
	struct emv_tlv_list_t list = EMV_TLV_LIST_INIT;
	unsigned int total = 0, want_read = 0, want_parsed = 0;
	int want = 0;
	bool oda = false, stop = false, either = false;

	a_len = 4;
	e_init_r = vp_int();
	n_ent = NENT;
	e_end_r = vp_bool() ? 0 : -1;
	for (unsigned int i = 0; i < NTOT; ++i) R[i].sfi = 0;
	for (unsigned int i = 0; i < NENT; ++i) {
		ent[i].sfi = 1 + vp_size(29);
		unsigned int more = cfg[i] - 1;
		ent[i].first_record = i == FIRST ? 255 - more : 2 * i + 1;
		ent[i].last_record = ent[i].first_record + more;
		ent[i].oda_record_count = vp_size(1 + more);
		for (unsigned int j = 0; j <= more; ++j) {
			{ R[total].sfi = ent[i].sfi; R[total].rec = ent[i].first_record + j; ++total; }
		}
	}
	if (e_init_r) { want = e_init_r < 0 ? EMV_TAL_ERROR_INTERNAL : EMV_TAL_ERROR_AFL_INVALID; stop = true; }
	for (unsigned int i = 0; i < NTOT; ++i) {
		R[i].rr = vp_bool() ? vp_int() : 0;
		R[i].sw = vp_bool() ? vp_u16() : 0x9000;
		R[i].len = vp_size(256);
		R[i].first = vp_bool() ? vp_u8() : 0x70;
		/* contract of decode: nothing, or one field of dec_r octets */
		R[i].dec_r = vp_int();
		R[i].tlen = vp_size(253);
		if (R[i].tlen < 0x80) VP_ASSUME(R[i].dec_r <= 0 || R[i].dec_r == (int)R[i].tlen + 2 || R[i].dec_r == (int)R[i].tlen + 3);
		else VP_ASSUME(R[i].dec_r <= 0 || R[i].dec_r == (int)R[i].tlen + 3);
		VP_ASSUME(R[i].dec_r <= 0 || (size_t)R[i].dec_r <= R[i].len);
		R[i].parse_r = vp_bool() ? vp_int() : 0;
		/* contract of parse: fails if the first field cannot be decoded, or if
		 * the remainder is too short for a field */
		if (R[i].len == 0) VP_ASSUME(R[i].parse_r == 0);
		else if (R[i].dec_r <= 0) VP_ASSUME(R[i].parse_r > 0);
		else if ((size_t)R[i].dec_r + 1 == R[i].len) VP_ASSUME(R[i].parse_r > 0);

		if (stop || i >= total) continue;
		++want_read;
		bool emv = R[i].sfi <= 10;
		if (R[i].rr) { want = EMV_TAL_ERROR_TTL_FAILURE; stop = true; }
		else if (R[i].sw != 0x9000) { want = EMV_TAL_ERROR_READ_RECORD_FAILED; stop = true; }
		else if (R[i].len == 0 || R[i].first != 0x70) {
			if (emv) { want = EMV_TAL_ERROR_READ_RECORD_INVALID; stop = true; }
			else oda = true;
		} else if (emv && (R[i].dec_r <= 0 || (size_t)R[i].dec_r != R[i].len)) {
			want = EMV_TAL_ERROR_READ_RECORD_INVALID; stop = true;
			/* one octet too many: rejected here or by the decoder */
			either = R[i].dec_r > 0 && (size_t)R[i].dec_r + 1 == R[i].len;
		} else {
			++want_parsed;
			if (R[i].parse_r) { want = R[i].parse_r < 0 ? EMV_TAL_ERROR_INTERNAL : EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED; stop = true; }
		}
	}
	if (!stop) want = e_end_r < 0 ? EMV_TAL_ERROR_AFL_INVALID : oda ? EMV_TAL_RESULT_ODA_RECORD_INVALID : 0;

	int r = emv_tal_read_afl_records(&ttl, a_afl, a_len, &list);
	VP_POST("outcome", r == want || (either && r == EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED));
	VP_POST("each record of each entry read once, in order, until an error", t_args_ok && n_read == want_read);
	VP_POST("accepted records only are decoded", n_parsed == want_parsed || (either && n_parsed == want_parsed + 1));
	/* the fields of all accepted records, in order */
	const struct emv_tlv_t* t = list.front;
	unsigned int next = 0, cnt = 0;
	for (unsigned int i = 0; i < NTOT; ++i) {
		if (i >= n_read || !t) continue;
		if (t->value[0] == i && t->tag == 0xDF01 + i) { ++cnt; t = t->next; }
		next = i;
	}
	VP_POST("fields in order of the records", t == NULL && cnt == n_parsed);
	(void)next;
	VP_COVER("all records", r == 0 && n_parsed == total);
	VP_COVER("record not used for authentication", r == EMV_TAL_RESULT_ODA_RECORD_INVALID && total == n_parsed + 1);
	VP_COVER("last record fails", r == EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED && n_read == total && R[total - 1].sfi > 10);
	VP_POST("NULL", emv_tal_read_afl_records(NULL, a_afl, a_len, &list) < 0 && emv_tal_read_afl_records(&ttl, NULL, a_len, &list) < 0 &&
		emv_tal_read_afl_records(&ttl, a_afl, 0, &list) < 0 && emv_tal_read_afl_records(&ttl, a_afl, a_len, NULL) < 0 && n_read == want_read);
}
#endif

#ifdef V_GPO
/* ---- processing options ---- */
static const uint8_t g_data[8];
static const uint8_t* g_dp;
static size_t g_dlen, g_rlen;
static uint8_t g_resp[16];
static const uint8_t* g_rp;
static int g_r, g_dec_r, g_parse_r;
static uint16_t g_sw;
static unsigned int g_tag, g_len, g_calls, g_n;
static unsigned int g_ft[3];
int emv_ttl_get_processing_options(struct emv_ttl_t* ctx, const void* data, size_t data_len, void* response, size_t* response_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl || data != g_dp || data_len != g_dlen || *response_len < 256) { t_args_ok = false; return -1; }
	++g_calls;
	g_rp = response;
	for (unsigned int i = 0; i < sizeof(g_resp); ++i) ((uint8_t*)response)[i] = g_resp[i];
	*response_len = g_rlen;
	*sw1sw2 = g_sw;
	return g_r;
}
int stub_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	if (ptr != g_rp || len != g_rlen) t_args_ok = false;
	tlv->tag = g_tag; tlv->length = g_len; tlv->value = (const uint8_t*)ptr + 2; tlv->flags = 0;
	return g_dec_r;
}
int stub_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
{
	if (ptr != g_rp + 2 || len != g_len) t_args_ok = false;
	for (unsigned int i = 0; i < 3; ++i) {
		if (i >= g_n) break;
		field(list, g_ft[i], i);
	}
	return g_parse_r;
}
void b_gpo(void)
{
	struct emv_tlv_list_t list = EMV_TLV_LIST_INIT;
	const struct emv_tlv_t *aip, *afl;
	bool old = vp_bool(), want_aip = vp_bool(), want_afl = vp_bool();
	unsigned int ia = 9, il = 9;
	int want;
	/* data of 2 to 255 octets, or none */
	g_dlen = vp_size(300);
	g_dp = vp_bool() ? g_data : NULL;
	bool valid = g_dp ? g_dlen >= 2 && g_dlen <= 255 : g_dlen == 0;
	if (old) field(&list, 0x84, 7);
	g_r = vp_bool() ? vp_int() : 0;
	g_sw = vp_bool() ? vp_u16() : 0x9000;
	g_rlen = vp_size(256);
	vp_fill(g_resp, sizeof(g_resp));
	g_dec_r = vp_int();
	unsigned int k = vp_size(2);
	g_tag = k == 0 ? 0x80 : k == 1 ? 0x77 : vp_u32();
	g_len = vp_size(14);
	VP_ASSUME(g_dec_r <= 0 || (g_rlen >= g_len + 2 && g_dec_r == (int)g_len + 2));
	g_parse_r = vp_bool() ? vp_int() : 0;
	g_n = vp_size(3);
	for (unsigned int i = 0; i < 3; ++i) {
		unsigned int m = vp_size(2);
		g_ft[i] = m == 0 ? 0x82 : m == 1 ? 0x94 : 0x9F10;
		if (i < g_n && g_ft[i] == 0x82 && ia == 9) ia = i;
		if (i < g_n && g_ft[i] == 0x94 && il == 9) il = i;
	}
	vp_alloc_may_fail = vp_bool();
	size_t live = vp_live_allocs;
	VP_POST("NULL", emv_tal_get_processing_options(NULL, g_dp, g_dlen, &list, NULL, NULL) < 0 && emv_tal_get_processing_options(&ttl, g_dp, g_dlen, NULL, NULL, NULL) < 0 && g_calls == 0);

	int r = emv_tal_get_processing_options(&ttl, g_dp, g_dlen, &list, want_aip ? &aip : NULL, want_afl ? &afl : NULL);

	bool fmt1 = g_tag == 0x80;
	if (!valid) want = EMV_TAL_ERROR_INVALID_PARAMETER;
	else if (g_r) want = EMV_TAL_ERROR_TTL_FAILURE;
	else if (g_sw == 0x6985) want = EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED;
	else if (g_sw != 0x9000) want = EMV_TAL_ERROR_GPO_FAILED;
	else if (g_dec_r <= 0) want = EMV_TAL_ERROR_GPO_PARSE_FAILED;
	else if (fmt1) want = g_len < 6 || (g_len - 2) % 4 ? EMV_TAL_ERROR_GPO_PARSE_FAILED : 0;
	else if (g_tag == 0x77) want = g_parse_r < 0 ? EMV_TAL_ERROR_INTERNAL : g_parse_r > 0 ? EMV_TAL_ERROR_GPO_PARSE_FAILED : ia == 9 || il == 9 ? EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND : 0;
	else want = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;

	VP_POST("command sent once, with the given data", t_args_ok && g_calls == (valid ? 1 : 0));
	VP_POST("outcome", vp_alloc_did_fail ? r < 0 : r == want);
	if (r) {
		VP_POST("fields of a failed command are not kept", vp_live_allocs == live && (old ? list.front == list.back && list.front->tag == 0x84 : !list.front && !list.back));
		VP_POST("no AIP, no AFL", !valid || ((!want_aip || !aip) && (!want_afl || !afl)));
		return;
	}
	const struct emv_tlv_t* t = list.front;
	if (old) { VP_POST("existing field kept", t->tag == 0x84 && t->value[0] == 7); t = t->next; }
	if (fmt1) {
		VP_POST("AIP", t && t->tag == 0x82 && t->length == 2 && t->value[0] == g_resp[2] && t->value[1] == g_resp[3]);
		VP_POST("AIP output", !want_aip || aip == t);
		t = t->next;
		VP_POST("AFL", t && t->tag == 0x94 && t->length == g_len - 2);
		for (unsigned int i = 0; i < 12; ++i) VP_POST("AFL octets", i >= t->length || t->value[i] == g_resp[4 + i]);
		VP_POST("AFL output", !want_afl || afl == t);
		VP_POST("no other field", !t->next && list.back == t);
	} else {
		for (unsigned int i = 0; i < 3; ++i) {
			if (i >= g_n) break;
			VP_POST("all fields in order", t && t->tag == g_ft[i] && t->value[0] == i);
			VP_POST("AIP output", !want_aip || (aip == t) == (i == ia));
			VP_POST("AFL output", !want_afl || (afl == t) == (i == il));
			if (i + 1 == g_n) VP_POST("end", list.back == t);
			t = t->next;
		}
		VP_POST("no other field", t == NULL);
	}
	VP_COVER("format 1", fmt1 && g_len == 14 && old);
	VP_COVER("format 2", !fmt1 && g_n == 3 && old && ia == 2);
}
#endif

#if defined(V_SEL) || defined(V_PSE) || defined(V_AIDS)
/* ---- applications by contract: an AID of 16 octets at most, owned ---- */
static unsigned int n_created;
static struct { bool ok, supp; unsigned int len; uint8_t v[2]; uint8_t id; struct emv_app_t* app; } A[8];
static const void* c_ptr;
static size_t c_len;
static const struct emv_tlv_list_t* c_pse;
static struct emv_app_t* create(unsigned int k)
{
	++n_created;
	if (k >= 8) { t_args_ok = false; return NULL; }
	if (!A[k].ok) return NULL;
	struct emv_app_t* a = vp_malloc(sizeof(*a));
	VP_ASSUME(a != NULL);
	a->tlv_list = EMV_TLV_LIST_INIT;
	a->next = NULL;
	a->priority = k + 1;
	a->confirmation_required = false;
	/* the list of fields is not looked at; the AID stays outside of it */
	static struct emv_tlv_t aid[8];
	static uint8_t v[8][16];
	aid[k].tag = 0x84; aid[k].length = A[k].len; aid[k].flags = 0; aid[k].next = NULL;
	aid[k].value = v[k];
	v[k][0] = A[k].v[0];
	v[k][4] = A[k].v[1];
	a->aid = &aid[k];
	A[k].app = a;
	return a;
}
#endif

#ifdef V_SEL
/* ---- final selection ---- */
static uint8_t s_aid[16];
static size_t s_len, s_flen;
static int s_r;
static uint16_t s_sw;
static unsigned int s_calls;
static const uint8_t* s_fci;
int emv_ttl_select_by_df_name(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl || df_name != s_aid || df_name_len != s_len || *fci_len < 256) { t_args_ok = false; return -1; }
	++s_calls;
	s_fci = fci;
	*fci_len = s_flen;
	*sw1sw2 = s_sw;
	return s_r;
}
struct emv_app_t* stub_from_fci(const void* fci, size_t fci_len)
{
	if (fci != s_fci || fci_len != s_flen) t_args_ok = false;
	return create(0);
}
void b_select(void)
{
	struct emv_app_t* app = (struct emv_app_t*)&ttl;
	int want;
	s_len = vp_size(20);
	memset(s_aid, 0, sizeof(s_aid));
	s_aid[0] = vp_u8();
	s_aid[4] = vp_u8();
	s_r = vp_bool() ? vp_int() : 0;
	s_sw = vp_bool() ? vp_u16() : 0x9000;
	s_flen = vp_size(256);
	A[0].ok = vp_bool();
	A[0].len = vp_size(16);
	A[0].v[0] = vp_u8();
	A[0].v[1] = vp_u8();
	size_t live = vp_live_allocs;

	int r = emv_tal_select_app(&ttl, s_aid, s_len, &app);

	bool valid = s_len >= 5 && s_len <= 16;
	if (!valid) want = EMV_TAL_ERROR_INVALID_PARAMETER;
	else if (s_r) want = EMV_TAL_ERROR_TTL_FAILURE;
	else if (s_sw == 0x6A81) want = EMV_TAL_ERROR_CARD_BLOCKED;
	else if (s_sw == 0x6A82) want = EMV_TAL_RESULT_APP_NOT_FOUND;
	else if (s_sw == 0x6283) want = EMV_TAL_RESULT_APP_BLOCKED;
	else if (s_sw != 0x9000) want = EMV_TAL_RESULT_APP_SELECTION_FAILED;
	else if (!A[0].ok) want = EMV_TAL_RESULT_APP_FCI_PARSE_FAILED;
	else want = A[0].len == s_len && A[0].v[0] == s_aid[0] && A[0].v[1] == s_aid[4] ? 0 : EMV_TAL_RESULT_APP_SELECTION_FAILED;
	VP_POST("selected once with the given AID", t_args_ok && s_calls == (valid ? 1 : 0));
	VP_POST("outcome", r == want);
	VP_POST("application exactly on success", !valid || app == (r ? NULL : A[0].app));
	VP_POST("application released on failure", r == 0 || vp_live_allocs == live);
	VP_COVER("mismatch in the last octet", r == EMV_TAL_RESULT_APP_SELECTION_FAILED && s_sw == 0x9000 && A[0].len == s_len && s_len == 5 && A[0].v[0] == s_aid[0]);
	VP_COVER("selected", r == 0 && s_len == 16);
	VP_POST("NULL", emv_tal_select_app(NULL, s_aid, 5, &app) < 0 && emv_tal_select_app(&ttl, NULL, 5, &app) < 0 && emv_tal_select_app(&ttl, s_aid, 5, NULL) < 0);
}
#endif

#ifdef V_PSE
/* ---- Payment System Environment ---- */
#ifndef CFG
#define CFG { 2, 0, 1 }
#endif
#ifndef ENDR
#define ENDR 0
#endif
static const unsigned int cfg[] = CFG; /* data elements of each record */
#define NR (sizeof(cfg) / sizeof(cfg[0]))
#ifndef NT
#define NT 2	/* templates per record */
#endif
static int p_sr, p_parse_r;
static uint16_t p_sw;
static size_t p_flen;
static const uint8_t* p_fci;
static unsigned int p_n, p_ft[2], p_fl[2], p_sfi_len;
static uint8_t p_sfi;
static unsigned int p_sel, p_reads;
static struct emv_tlv_list_t* p_list;
int emv_ttl_select_by_df_name(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2)
{
	static const uint8_t pse[] = { '1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1' };
	if (ctx != &ttl || df_name_len != sizeof(pse) || memcmp(df_name, pse, sizeof(pse)) || *fci_len < 256) { t_args_ok = false; return -1; }
	++p_sel;
	p_fci = fci;
	*fci_len = p_flen;
	*sw1sw2 = p_sw;
	return p_sr;
}
int stub_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
{
	if (ptr != p_fci || len != p_flen) t_args_ok = false;
	for (unsigned int i = 0; i < 2; ++i) {
		if (i >= p_n) break;
		field(list, p_ft[i], p_sfi);
		list->back->length = p_fl[i];
	}
	p_list = list;
	return p_parse_r;
}
static struct { int rr, dec_r; uint16_t sw; size_t len; unsigned int tag, n, itag[NT]; } D[NR];
static const uint8_t* d_ptr;
static unsigned int d_k, d_it;
static bool d_all;	/* the card never reports the end */
int emv_ttl_read_record(struct emv_ttl_t* ctx, uint8_t sfi, uint8_t record_number, void* data, size_t* data_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl || sfi != p_sfi || *data_len < 256 || record_number != p_reads + 1) t_args_ok = false;
	d_ptr = data;
	d_k = p_reads++;
	if (d_all) { *sw1sw2 = 0x6300; *data_len = 0; return 0; }
	if (d_k >= NR) { *sw1sw2 = 0x6A83; *data_len = 0; return 0; }
	*data_len = D[d_k].len;
	*sw1sw2 = D[d_k].sw;
	return D[d_k].rr;
}
int stub_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	if (ptr != d_ptr || d_k >= NR) { t_args_ok = false; return -1; }
	if (len != D[d_k].len) t_args_ok = false;
	tlv->tag = D[d_k].tag; tlv->length = 77; tlv->value = d_ptr + 2; tlv->flags = 0;
	return D[d_k].dec_r;
}
int stub_itr_init(const void* ptr, size_t len, struct iso8825_ber_itr_t* itr)
{
	if (ptr != d_ptr + 2 || len != 77) t_args_ok = false;
	d_it = 0;
	return 0;
}
int stub_itr_next(struct iso8825_ber_itr_t* itr, struct iso8825_tlv_t* tlv)
{
	if (d_k >= NR) { t_args_ok = false; return 0; }
	for (unsigned int i = 0; i < NT; ++i) {
		if (i == d_it && i < cfg[d_k]) {
			tlv->tag = D[d_k].itag[i]; tlv->length = 5 + i; tlv->value = d_ptr + 2 + i; tlv->flags = 0;
			++d_it;
			return 9;
		}
	}
	return ENDR; /* end or malformed remainder */
}
static const struct emv_tlv_list_t supp_list;
struct emv_app_t* stub_from_pse(const struct emv_tlv_list_t* pse_tlv_list, const void* pse_dir_entry, size_t pse_dir_entry_len)
{
	if (pse_tlv_list != p_list || d_it == 0 || pse_dir_entry != d_ptr + 2 + (d_it - 1) || pse_dir_entry_len != 5 + (d_it - 1)) t_args_ok = false;
	return d_it ? create(d_k * NT + d_it - 1) : NULL;
}
bool stub_supported(const struct emv_app_t* app, const struct emv_tlv_list_t* supported_aids)
{
	unsigned int k = app->priority - 1;
	if (supported_aids != &supp_list || d_it == 0 || k != d_k * NT + d_it - 1) { t_args_ok = false; return false; }
	return A[d_k * NT + d_it - 1].supp;
}
void b_pse(void)
{
	struct emv_app_list_t l;
	unsigned int want_n = 0, want_reads = 0, k = 0;
	unsigned int want_id[NR * NT];
	int want;
	bool stop = false, ended = false;
	l.front = l.back = NULL;
	p_sr = vp_bool() ? vp_int() : 0;
	p_sw = vp_bool() ? vp_u16() : 0x9000;
	p_flen = vp_size(256);
	p_parse_r = vp_bool() ? vp_int() : 0;
	p_n = vp_size(2);
	p_sfi = vp_u8();
	int isfi = -1;
	for (unsigned int i = 0; i < 2; ++i) {
		p_ft[i] = vp_bool() ? 0x88 : 0x84;
		p_fl[i] = vp_size(2);
		if (i < p_n && p_ft[i] == 0x88 && isfi < 0) isfi = i;
	}
	if (p_sr) want = EMV_TAL_ERROR_TTL_FAILURE;
	else if (p_sw == 0x6A81) want = EMV_TAL_ERROR_CARD_BLOCKED;
	else if (p_sw == 0x6A82) want = EMV_TAL_RESULT_PSE_NOT_FOUND;
	else if (p_sw == 0x6283) want = EMV_TAL_RESULT_PSE_BLOCKED;
	else if (p_sw != 0x9000) want = EMV_TAL_RESULT_PSE_SELECT_FAILED;
	else if (p_parse_r < 0) want = EMV_TAL_RESULT_PSE_FCI_PARSE_FAILED;
	else if (isfi < 0) want = EMV_TAL_RESULT_PSE_SFI_NOT_FOUND;
	else if (p_fl[isfi] != 1) want = EMV_TAL_RESULT_PSE_SFI_INVALID;
	else want = 0;
	if (want) stop = true;
	for (unsigned int i = 0; i < 8; ++i) { A[i].ok = vp_bool(); A[i].supp = vp_bool(); A[i].len = 5; A[i].v[0] = i; A[i].v[1] = i; }
	for (unsigned int i = 0; i < NR; ++i) {
		D[i].rr = vp_bool() ? vp_int() : 0;
		D[i].sw = vp_bool() ? vp_u16() : 0x9000;
		D[i].len = vp_size(256);
		D[i].dec_r = vp_int();
		D[i].tag = vp_bool() ? vp_u32() : 0x70;
		for (unsigned int j = 0; j < NT; ++j) D[i].itag[j] = vp_bool() ? vp_u32() : 0x61;
		if (stop || ended) continue;
		++want_reads;
		if (D[i].rr) { want = EMV_TAL_ERROR_TTL_FAILURE; stop = true; }
		else if (D[i].sw == 0x6A83) ended = true;
		else if (D[i].sw == 0x9000 && D[i].dec_r > 0 && D[i].tag == 0x70) {
			for (unsigned int j = 0; j < NT; ++j) {
				if (j < cfg[i] && D[i].itag[j] == 0x61) {
					unsigned int a = i * NT + j;
					if (A[a].ok && A[a].supp) want_id[want_n++] = a;
					++k;
				}
			}
		}
	}
	if (!stop && !ended) ++want_reads;	/* the card ends the list at record NR + 1 */
	size_t live = vp_live_allocs;

	int r = emv_tal_read_pse(&ttl, &supp_list, &l);
	VP_POST("outcome", r == want);
	VP_POST("records read in order from the first, until the end or failure", t_args_ok && p_sel == 1 && p_reads == want_reads);
	if (r) {
		VP_POST("no applications on failure", !l.front && !l.back && vp_live_allocs == live);
		return;
	}
	VP_POST("each application template of the directory taken once", n_created == k);
	VP_POST("only the applications of the list are kept", vp_live_allocs == live + want_n);
	const struct emv_app_t* a = l.front;
	const struct emv_app_t* last = NULL;
	for (unsigned int i = 0; i < NR * NT; ++i) {
		if (i >= want_n) break;
		VP_POST("supported applications in order of the directory", a && a == A[want_id[i]].app);
		last = a;
		a = a->next;
	}
	VP_POST("no other application", a == NULL && l.back == last);
	VP_COVER("all supported", k >= 2 && want_n == k && (NR == 1 || D[NR - 1].sw == 0x9000));
	VP_COVER("record skipped", want_n >= 1 && D[NR - 1].sw == 0x6300 && !ended);
}
void b_pse_all(void)
{
	struct emv_app_list_t l;
	l.front = l.back = NULL;
	d_all = true;
	p_sw = 0x9000;
	p_n = 1; p_ft[0] = 0x88; p_fl[0] = 1;
	p_sfi = vp_u8();
	int r = emv_tal_read_pse(&ttl, &supp_list, &l);
	VP_POST("outcome", r == 0);
	VP_POST("record numbers 1 to 255, each once", t_args_ok && p_sel == 1 && p_reads == 255);
	VP_COVER("done", p_reads == 255);
}
#endif

#ifdef V_AIDS
/* ---- list of AIDs ---- */
#ifndef NA
#define NA 2
#endif
#ifndef NS
#define NS 4	/* responses before the card reports "not found" */
#endif
static struct emv_tlv_t S[NA];
static uint8_t S_v[NA][4];
static struct { int rr; uint16_t sw; size_t flen; } Q[NS];
static struct { unsigned int aid; bool next; } W[NS + NA];	/* expected commands */
static unsigned int n_cmd, n_want;
static const uint8_t* q_fci;
static size_t q_flen;
static int cmd(const void* df_name, size_t df_name_len, bool next, void* fci, size_t* fci_len, uint16_t* sw1sw2)
{
	unsigned int i = n_cmd++;
	bool ok = false;
	if (*fci_len < 256 || i >= n_want) { t_args_ok = false; return -1; }
	for (unsigned int j = 0; j < NA; ++j) if (j == W[i].aid && df_name == S[j].value && df_name_len == S[j].length) ok = true;
	if (!ok || next != W[i].next) t_args_ok = false;
	q_fci = fci;
	if (i >= NS) { *sw1sw2 = 0x6A82; *fci_len = 0; return 0; }
	q_flen = Q[i].flen;
	*fci_len = Q[i].flen;
	*sw1sw2 = Q[i].sw;
	return Q[i].rr;
}
int emv_ttl_select_by_df_name(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl) t_args_ok = false;
	return cmd(df_name, df_name_len, false, fci, fci_len, sw1sw2);
}
int emv_ttl_select_by_df_name_next(struct emv_ttl_t* ctx, const void* df_name, size_t df_name_len, void* fci, size_t* fci_len, uint16_t* sw1sw2)
{
	if (ctx != &ttl) t_args_ok = false;
	return cmd(df_name, df_name_len, true, fci, fci_len, sw1sw2);
}
struct emv_app_t* stub_from_fci(const void* fci, size_t fci_len)
{
	if (fci != q_fci || fci_len != q_flen) t_args_ok = false;
	return n_cmd ? create(n_cmd - 1) : NULL;
}
void b_aids(void)
{
	struct emv_app_list_t l;
	struct emv_tlv_list_t sup;
	unsigned int n = vp_size(NA), want_n = 0, k = 0, cur = 0;
	unsigned int want_id[NS];
	int want = 0;
	bool stop = false, next = false;
	l.front = l.back = NULL;
	for (unsigned int i = 0; i < NA; ++i) {
		S[i].tag = 0x9F06; S[i].length = 5 + vp_size(11); S[i].value = S_v[i]; S[i].flags = vp_u8();
		S[i].next = i + 1 < n ? &S[i + 1] : NULL;
	}
	sup.front = n ? &S[0] : NULL;
	sup.back = n ? &S[n - 1] : NULL;
	for (unsigned int i = 0; i < NS; ++i) {
		Q[i].rr = vp_bool() ? vp_int() : 0;
		Q[i].sw = vp_bool() ? vp_u16() : 0x9000;
		Q[i].flen = vp_size(256);
		A[i].ok = vp_bool(); A[i].v[0] = 0; A[i].v[1] = 0;
		A[i].len = 5 + vp_size(11);
	}
	for (unsigned int i = 0; i < NS + NA; ++i) {
		if (stop || cur >= n) continue;
		W[i].aid = cur; W[i].next = next;
		++n_want;
		uint16_t sw = i < NS ? Q[i].sw : 0x6A82;
		if (i < NS && Q[i].rr) { want = EMV_TAL_ERROR_TTL_FAILURE; stop = true; }
		else if (!next && sw == 0x6A81) { want = EMV_TAL_ERROR_CARD_BLOCKED; stop = true; }
		else if (sw != 0x9000 && sw != 0x6283) { ++cur; next = false; }
		else if (i < NS) {
			unsigned int a = i;
			++k;
			/* contract of SELECT: the name starts with the given AID */
			VP_ASSUME(A[a].len >= S[cur].length);
			if (!A[a].ok) { ++cur; next = false; }
			else if (A[a].len == S[cur].length) {
				if (sw == 0x9000) want_id[want_n++] = a;
				++cur; next = false;
			} else if (S[cur].flags == EMV_ASI_PARTIAL_MATCH) {
				if (sw == 0x9000) want_id[want_n++] = a;
				next = true;
			} else { ++cur; next = false; }
		}
	}
	size_t live = vp_live_allocs;
	int r = emv_tal_find_supported_apps(&ttl, &sup, &l);
	VP_POST("outcome", r == want);
	VP_POST("each AID selected in turn, and the next application for a partial match", t_args_ok && n_cmd == n_want);
	VP_POST("each response used once", n_created == k);
	VP_POST("only the applications of the list are kept", vp_live_allocs == live + want_n || (r && vp_live_allocs == live && !l.front));
	if (!(r && !l.front)) {
		const struct emv_app_t* a = l.front;
		const struct emv_app_t* last = NULL;
		for (unsigned int i = 0; i < NS; ++i) {
			if (i >= want_n) break;
			VP_POST("supported applications in order", a && a == A[want_id[i]].app);
			last = a;
			a = a->next;
		}
		VP_POST("no other application", a == NULL && l.back == last);
	}
	VP_COVER("partial matches", want_n == NS && n == NA);
	VP_COVER("partial match refused", r == 0 && k == 1 && want_n == 0 && A[0].ok && Q[0].sw == 0x9000);
	VP_POST("NULL", emv_tal_find_supported_apps(NULL, &sup, &l) < 0 && emv_tal_find_supported_apps(&ttl, NULL, &l) < 0 && emv_tal_find_supported_apps(&ttl, &sup, NULL) < 0);
}
#endif
