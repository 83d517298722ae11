/* EMV applications: support, lists and creation */
#include "vp.h"
#include "iso8825_ber.h"
#include "iso8859.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "emv_app.h"

/* ---- support ---- */
#ifndef NAID
#define NAID 2
#endif
#ifndef AIDMAX
#define AIDMAX 8
#endif
void b_supported(void)
{
	struct emv_app_t app;
	struct emv_tlv_t aid, sup[NAID];
	struct emv_tlv_list_t list;
	unsigned int n = vp_size(NAID);
	uint8_t* v[NAID];
	bool want = false;
	memset(&app, 0, sizeof(app));
	aid.tag = vp_bool() ? 0x4F : 0x84;
	aid.length = vp_size(AIDMAX);
	aid.value = vp_buf(aid.length, AIDMAX);
	aid.flags = vp_u8();
	aid.next = NULL;
	app.aid = &aid;
	list.front = n ? &sup[0] : NULL;
	list.back = n ? &sup[n - 1] : NULL;
	for (unsigned int i = 0; i < NAID; ++i) {
		sup[i].tag = vp_u32();
		sup[i].length = vp_size(AIDMAX);
		sup[i].value = v[i] = vp_buf(sup[i].length, AIDMAX);
		sup[i].flags = vp_u8();
		sup[i].next = i + 1 < n ? &sup[i + 1] : NULL;
		bool prefix = sup[i].length <= aid.length;
		for (unsigned int k = 0; k < AIDMAX; ++k) if (k < sup[i].length && k < aid.length && sup[i].value[k] != aid.value[k]) prefix = false;
		if (i < n && prefix && ((sup[i].flags == 0 && sup[i].length == aid.length) || sup[i].flags == 1)) want = true;
	}
	bool r = emv_app_is_supported(&app, &list);
	VP_POST("supported exactly when a terminal AID matches as its selection indicator says", r == want);
	VP_POST("no list, no application", !emv_app_is_supported(&app, NULL) && !emv_app_is_supported(NULL, &list));
	VP_COVER("partial", r && n == NAID && sup[0].flags == 1 && sup[0].length < aid.length && sup[1].flags == 9);
	VP_COVER("exact", r && sup[0].flags == 0 && sup[1].flags == 9 && aid.length == AIDMAX);
	VP_COVER("not supported", !r && n == NAID && aid.length > 5);
	app.aid = NULL;
	VP_POST("no AID", !emv_app_is_supported(&app, &list));
}

/* ---- lists ---- */
#ifndef NAPP
#define NAPP 4
#endif
static struct emv_app_t* pool[NAPP + 1];

/* a list of n applications: pool[0..n-1] */
static unsigned int app_list(struct emv_app_list_t* l)
{
	unsigned int n = vp_size(NAPP);
#ifdef NFIX
	n = NFIX; /* concrete */
#endif
	l->front = NULL; l->back = NULL;
	for (unsigned int i = 0; i <= NAPP; ++i) {
		pool[i] = vp_malloc(sizeof(struct emv_app_t));
		VP_ASSUME(pool[i] != NULL);
		pool[i]->aid = NULL;
		pool[i]->tlv_list = EMV_TLV_LIST_INIT;
		pool[i]->priority = vp_u8();
		pool[i]->confirmation_required = vp_bool();
		pool[i]->next = NULL;
		if (i < n) {
			if (i) pool[i - 1]->next = pool[i]; else l->front = pool[i];
			l->back = pool[i];
		}
	}
	return n;
}
/* the list is exactly the sequence s of n applications */
static bool is_seq(const struct emv_app_list_t* l, struct emv_app_t** s, unsigned int n)
{
	struct emv_app_t* a = l->front;
	bool ok = true;
	for (unsigned int i = 0; i <= NAPP; ++i) {
		if (i < n) {
			if (a != s[i]) return false;
			a = a->next;
		}
	}
	if (a != NULL) ok = false;
	return ok && l->back == (n ? s[n - 1] : NULL);
}
void b_app_sort(void)
{
	struct emv_app_list_t l;
	unsigned int n = app_list(&l);
	struct emv_app_t* s[NAPP + 1];
	uint8_t prio[NAPP + 1];
	for (unsigned int i = 0; i < NAPP; ++i) { s[i] = pool[i]; prio[i] = pool[i]->priority; }
	int r = emv_app_list_sort_priority(&l);
	VP_POST("sorts", r == 0);
	/* stable: bubble sort on the key; zero is the lowest priority */
#define KEY(a) ((a)->priority ? (a)->priority : 256u)
	for (unsigned int k = 0; k + 1 < NAPP; ++k) for (unsigned int i = 0; i + 1 < NAPP - k; ++i) {
		if (i + 1 < n && KEY(s[i]) > KEY(s[i + 1])) { struct emv_app_t* t = s[i]; s[i] = s[i + 1]; s[i + 1] = t; }
	}
	VP_POST("same applications by priority, equal ones in their original order", is_seq(&l, s, n));
	for (unsigned int i = 0; i < NAPP; ++i) VP_POST("priority unchanged", pool[i]->priority == prio[i]);
	VP_COVER("all", n == NAPP && s[0] == pool[2] && s[NAPP - 1] == pool[1]);
	VP_POST("NULL", emv_app_list_sort_priority(NULL) < 0);
}
void b_app_list(void)
{
	struct emv_app_list_t l;
	unsigned int n = app_list(&l), op = vp_size(5), idx = vp_u32();
	struct emv_app_t* s[NAPP + 1];
	for (unsigned int i = 0; i <= NAPP; ++i) s[i] = pool[i];
	VP_POST("empty", emv_app_list_is_empty(&l) == (n == 0));
	switch (op) {
	case 0:
		VP_POST("push", emv_app_list_push(&l, pool[NAPP]) == 0);
		s[n] = pool[NAPP];
		VP_POST("pushed to the end", is_seq(&l, s, n + 1));
		VP_POST("NULL", emv_app_list_push(&l, NULL) < 0 && emv_app_list_push(NULL, pool[0]) < 0);
		break;
	case 1: {
		struct emv_app_t* a = emv_app_list_pop(&l);
		VP_POST("front removed", a == (n ? s[0] : NULL) && is_seq(&l, s + 1, n ? n - 1 : 0));
		VP_POST("detached", !a || a->next == NULL);
		VP_POST("NULL", emv_app_list_pop(NULL) == NULL);
		break;
	}
	case 2: {
		struct emv_app_t* a = emv_app_list_remove_index(&l, idx);
		VP_POST("element removed", a == (idx < n ? s[idx] : NULL));
		VP_POST("detached", !a || a->next == NULL);
		if (idx < n) { for (unsigned int i = 0; i < NAPP; ++i) if (i >= idx) s[i] = s[i + 1]; --n; }
		VP_POST("others remain in order", is_seq(&l, s, n));
		VP_POST("NULL", emv_app_list_remove_index(NULL, idx) == NULL);
		VP_COVER("last removed", a == pool[NAPP - 1]);
		break;
	}
	case 3: {
		bool any = false;
		for (unsigned int i = 0; i < NAPP; ++i) if (i < n && pool[i]->confirmation_required) any = true;
		VP_POST("selection required for more than one or on request of the card", emv_app_list_selection_is_required(&l) == (any || n > 1));
		VP_POST("list unchanged", is_seq(&l, s, n));
		VP_POST("NULL", !emv_app_list_selection_is_required(NULL) && emv_app_list_is_empty(NULL));
		break;
	}
	case 4: {
		size_t live = vp_live_allocs;
		emv_app_list_clear(&l);
		VP_POST("cleared", l.front == NULL && l.back == NULL && vp_live_allocs == live - n);
		VP_COVER("full list cleared", n == NAPP);
		break;
	}
	case 5: {
		size_t live = vp_live_allocs;
		bool linked = n > 1;
		if (n) {
			int r = emv_app_free(pool[0]);
			VP_POST("only an application outside of a list is released", linked ? r > 0 && vp_live_allocs == live : r == 0 && vp_live_allocs == live - 1);
		}
		VP_POST("NULL", emv_app_free(NULL) < 0);
		break;
	}
	}
}

/* ---- creation ---- */
#ifndef NF
#define NF 4
#endif
static const unsigned int tags[] = { 0x4F, 0x84, 0x50, 0x87, 0x9F12, 0x9F11, 0xBF0C };
static struct { unsigned int tag, len; uint8_t v[2]; } fld[NF];
static unsigned int nf;
static const uint8_t c_in[8], c_val[8];
static size_t c_len;
static int c_dec_r, c_parse_r;
static unsigned int c_dec_tag, c_dec_len;
static bool c_args_ok = true, c_supp, c_utf8_ok, c_ctrl_ok;
static unsigned int c_supp_arg, c_utf8_arg;
static bool c_fci;
static const uint8_t* c_hex_from;
static bool c_room_ok = true;
static int c_hex_r;

int stub_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	if (ptr != c_in || len != c_len) c_args_ok = false;
	tlv->tag = c_dec_tag; tlv->length = c_dec_len; tlv->value = c_val; tlv->flags = 0;
	return c_dec_r;
}
int stub_app_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
{
	if (c_fci ? (ptr != c_val || len != c_dec_len) : (ptr != c_in || len != c_len)) c_args_ok = false;
	for (unsigned int i = 0; i < NF; ++i) {
		if (i >= nf) break;
		/* the fields that precede an error are there */
		struct emv_tlv_t* t = vp_malloc(sizeof(*t));
		VP_ASSUME(t != NULL);
		t->tag = fld[i].tag; t->length = fld[i].len; t->flags = 0; t->next = NULL;
		t->value = vp_malloc(2);
		VP_ASSUME(t->value != NULL);
		t->value[0] = fld[i].v[0]; t->value[1] = fld[i].v[1];
		if (list->back) list->back->next = t; else list->front = t;
		list->back = t;
	}
	return c_parse_r;
}
bool stub_is_supported(unsigned int codepage) { c_supp_arg = codepage; return c_supp; }
static void put(char* str, size_t str_len, char c)
{
	/* contract: the whole of the given room may be written */
	str[str_len - 1] = 0;
	str[0] = c;
	str[1] = 0;
}
int stub_to_utf8(unsigned int codepage, const uint8_t* in, size_t in_len, char* utf8, size_t utf8_len)
{
	c_utf8_arg = codepage;
	if (in_len != 1 || in[0] != 'P') c_args_ok = false;
	if (!c_utf8_ok) return -1;
	put(utf8, utf8_len, 'U');
	return 0;
}
int stub_non_control(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
{
	if (buf_len && buf[0] != 0x12) c_args_ok = false;
	if (!c_ctrl_ok) return -1;
	put(str, str_len, 'P');
	return 0;
}
int stub_alnum(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
{
	if (buf_len && buf[0] != 0x50) c_args_ok = false;
	put(str, str_len, 'L');
	return 0;
}
int stub_b_to_str(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
{
	if (!buf_len) return -1;
	c_hex_from = buf;
	put(str, str_len, 'H');
	return 0;
}
void i_create(void)
{
	struct emv_app_t* app;
	struct emv_tlv_list_t pse = EMV_TLV_LIST_INIT;
	struct emv_tlv_t pse_icti;
	uint8_t pse_v[1];
	bool has_pse_list = vp_bool(), pse_has = vp_bool();
	int aid = -1, label = -1, prio = -1, pref = -1, icti = -1;

	c_fci = vp_bool();
	c_len = 1 + vp_size(7);
	c_dec_r = vp_int(); c_dec_tag = vp_bool() ? 0x6F : vp_u32(); c_dec_len = vp_u32();
	c_parse_r = vp_int();
	c_supp = vp_bool(); c_utf8_ok = vp_bool(); c_ctrl_ok = vp_bool();
	nf = vp_size(NF);
	for (unsigned int i = 0; i < NF; ++i) {
		unsigned int k = vp_size(6);
		fld[i].tag = tags[k];
		fld[i].len = vp_size(2);
		vp_fill(fld[i].v, 2);
		/* recognisable contents for the conversions */
		if (fld[i].tag == 0x50) fld[i].v[0] = 0x50;
		if (fld[i].tag == 0x9F12) fld[i].v[0] = 0x12;
		if (fld[i].tag == 0x9F11) VP_ASSUME(fld[i].v[0] != 0);
		if (i >= nf) continue;
		if (aid < 0 && fld[i].tag == (c_fci ? 0x84 : 0x4F)) aid = i;
		if (label < 0 && fld[i].tag == 0x50) label = i;
		if (prio < 0 && fld[i].tag == 0x87) prio = i;
		if (pref < 0 && fld[i].tag == 0x9F12) pref = i;
		if (icti < 0 && fld[i].tag == 0x9F11) icti = i;
	}
	pse_v[0] = vp_u8();
	VP_ASSUME(pse_v[0] != 0);
	pse_icti.tag = 0x9F11; pse_icti.length = vp_size(2); pse_icti.value = pse_v; pse_icti.flags = 0; pse_icti.next = NULL;
	if (pse_has) pse.front = pse.back = &pse_icti;
	vp_alloc_may_fail = vp_bool();

	app = c_fci ? emv_app_create_from_fci(c_in, c_len) : emv_app_create_from_pse(has_pse_list ? &pse : NULL, c_in, c_len);

	/* code table: of the directory if there is one, otherwise of the application */
	bool table = false;
	unsigned int code = 0;
	if (!c_fci && has_pse_list) { table = pse_has && pse_icti.length == 1; code = pse_v[0]; }
	else if (icti >= 0) { table = fld[icti].len == 1; code = fld[icti].v[0]; }
	bool use_pref = table && c_supp && pref >= 0 && c_ctrl_ok && c_utf8_ok;
	bool name_ok = use_pref || label >= 0 || (aid >= 0 && fld[aid].len);
	bool ok = (!c_fci || (c_dec_r > 0 && (size_t)c_dec_r == c_len && c_dec_tag == 0x6F)) && c_parse_r == 0 && aid >= 0 && name_ok;

	VP_POST("created exactly when the data is valid and memory suffices", vp_alloc_did_fail ? app == NULL : (app != NULL) == ok);
	if (!app) {
		VP_POST("nothing is kept on failure", vp_live_allocs == 0);
		VP_COVER("no AID", !vp_alloc_did_fail && aid < 0 && c_parse_r == 0);
		return;
	}
	VP_POST("decoded what was given", c_args_ok);
	VP_POST("AID", app->aid && app->aid->tag == fld[aid].tag && app->aid->length == fld[aid].len && app->aid->value[0] == fld[aid].v[0] && app->aid->value[1] == fld[aid].v[1]);
	VP_POST("display name source", app->display_name[0] == (use_pref ? 'U' : label >= 0 ? 'L' : 'H') && app->display_name[1] == 0);
	VP_POST("code table", !use_pref || (c_supp_arg == code && c_utf8_arg == code));
	VP_POST("AID as name", use_pref || label >= 0 || c_hex_from == app->aid->value);
	VP_POST("priority", app->priority == (prio >= 0 && fld[prio].len ? fld[prio].v[0] & 0x0F : 0));
	VP_POST("confirmation", app->confirmation_required == (prio >= 0 && fld[prio].len ? (fld[prio].v[0] & 0x80) != 0 : false));
	VP_POST("not in a list", app->next == NULL);
	const struct emv_tlv_t* t = app->tlv_list.front;
	for (unsigned int i = 0; i < NF; ++i) {
		if (i >= nf) break;
		VP_POST("all fields kept in order", t && t->tag == fld[i].tag && t->length == fld[i].len && t->value[0] == fld[i].v[0]);
		t = t->next;
	}
	VP_POST("no other fields", t == NULL);
	VP_COVER("preferred name", use_pref && !c_fci && has_pse_list && prio >= 0);
	VP_COVER("label", !use_pref && label >= 0 && pref >= 0);
	VP_COVER("AID name", c_fci && !use_pref && label < 0);
	VP_POST("release", emv_app_free(app) == 0 && vp_live_allocs == 0);
}

/* search for a failing input on the real code, with well-formed data */
void f_create(void)
{
	uint8_t d[64];
	size_t n = 0;
	bool fci = vp_bool();
	unsigned int k = vp_size(4);
	int label = -1, prio = -1, aid = -1;
	unsigned int order = 0;
	if (fci) { d[0] = 0x6F; n = 2; }
	for (unsigned int i = 0; i < 4; ++i) {
		if (i >= k) break;
		unsigned int w = vp_size(3);
		uint8_t v = vp_u8();
		(void)order;
		if (w == 0) { if (aid < 0) aid = n; d[n++] = fci ? 0x84 : 0x4F; d[n++] = 5; for (unsigned int j = 0; j < 5; ++j) d[n++] = vp_u8(); }
		if (w == 1) { if (label < 0) label = n; d[n++] = 0x50; d[n++] = 1; d[n++] = 'A' + v % 26; }
		if (w == 2) { unsigned int l = vp_size(2); if (prio < 0) prio = n; d[n++] = 0x87; d[n++] = l; for (unsigned int j = 0; j < l; ++j) d[n++] = v; }
		if (w == 3) { d[n++] = 0x5F; d[n++] = 0x2D; d[n++] = 1; d[n++] = v; }
	}
	if (fci) d[1] = n - 2;
	struct emv_app_t* app = fci ? emv_app_create_from_fci(d, n) : emv_app_create_from_pse(NULL, d, n);
	if (n == (fci ? 2 : 0)) { VP_POST("nothing to create from", app == NULL); return; }
	VP_POST("created exactly when there is an AID", (app != NULL) == (aid >= 0));
	if (!app) return;
	VP_POST("AID", app->aid && app->aid->length == 5 && memcmp(app->aid->value, d + aid + 2, 5) == 0);
	if (label >= 0) VP_POST("label", app->display_name[0] == d[label + 2] && app->display_name[1] == 0);
	else {
		char hex[11];
		for (unsigned int j = 0; j < 5; ++j) { hex[2 * j] = "0123456789ABCDEF"[d[aid + 2 + j] >> 4]; hex[2 * j + 1] = "0123456789ABCDEF"[d[aid + 2 + j] & 15]; }
		hex[10] = 0;
		VP_POST("AID as name", strcmp(hex, app->display_name) == 0);
	}
	uint8_t p = prio >= 0 && d[prio + 1] ? d[prio + 2] : 0;
	VP_POST("priority", app->priority == (p & 15) && app->confirmation_required == ((p & 0x80) != 0));
	VP_POST("release", emv_app_free(app) == 0);
}
