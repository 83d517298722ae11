/* EMV kernel: candidate list, final selection, initiation, application data.
 * The terminal application layer is the contract stubs below (verified in
 * tal.c); list handling is real. */
#include "vp.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_dol.h"
#include "emv_app.h"
#include "emv_ttl.h"
#include "emv_tal.h"
#include "emv.h"

static struct emv_ttl_t ttl;
static struct emv_ctx_t ctx;
static bool args_ok = true;
static unsigned int calls;

static struct emv_tlv_t* field(struct emv_tlv_list_t* list, unsigned int tag, unsigned int len, uint8_t v0)
{
	struct emv_tlv_t* t = vp_malloc(sizeof(*t));
	VP_ASSUME(t != NULL);
	t->tag = tag; t->length = len; t->flags = 0; t->next = NULL;
	t->value = vp_malloc(16);
	VP_ASSUME(t->value != NULL);
	t->value[0] = v0;
	if (list->back) list->back->next = t; else list->front = t;
	list->back = t;
	return t;
}
static struct emv_app_t* mkapp(unsigned int prio)
{
	struct emv_app_t* a = vp_malloc(sizeof(*a));
	VP_ASSUME(a != NULL);
	a->aid = NULL;
	a->tlv_list = EMV_TLV_LIST_INIT;
	a->priority = prio;
	a->confirmation_required = false;
	a->next = NULL;
	return a;
}
static void addapp(struct emv_app_list_t* l, struct emv_app_t* a)
{
	if (l->back) l->back->next = a; else l->front = a;
	l->back = a;
}
static void init(void)
{
	/* ctx is zero already, being static */
	ctx.ttl = &ttl;
}

/* stubs; each entry uses those of its callees */
static int s_pse_r, s_find_r;
static unsigned int s_pse_n, s_find_n, n_pse, n_find;
static struct emv_app_t *s_pse[2], *s_find[2];
static struct emv_app_list_t* s_l;
int emv_tal_read_pse(struct emv_ttl_t* t, const struct emv_tlv_list_t* supported_aids, struct emv_app_list_t* app_list)
{
	if (t != &ttl || supported_aids != &ctx.supported_aids || app_list != s_l || n_find) args_ok = false;
	++n_pse;
	if (s_pse_r) {
		/* contract: all applications are released on failure */
		emv_app_list_clear(app_list);
	} else {
		if (s_pse_n > 0) addapp(app_list, s_pse[0]);
		if (s_pse_n > 1) addapp(app_list, s_pse[1]);
	}
	return s_pse_r;
}
int emv_tal_find_supported_apps(struct emv_ttl_t* t, const struct emv_tlv_list_t* supported_aids, struct emv_app_list_t* app_list)
{
	if (t != &ttl || supported_aids != &ctx.supported_aids || app_list != s_l || !n_pse) args_ok = false;
	++n_find;
	if (s_find_n > 0) addapp(app_list, s_find[0]);
	if (s_find_n > 1) addapp(app_list, s_find[1]);
	return s_find_r;
}
static int s_sel_r;
static size_t s_aid_len;
static uint8_t s_aid[16];
static struct emv_app_t* s_sel_app;
static size_t s_live;
int emv_tal_select_app(struct emv_ttl_t* t, const uint8_t* aid, size_t aid_len, struct emv_app_t** selected_app)
{
	if (t != &ttl || aid_len != s_aid_len) args_ok = false;
	for (unsigned int i = 0; i < 16; ++i) if (i < aid_len && i < s_aid_len && aid[i] != s_aid[i]) args_ok = false;
	++calls;
	if (aid_len < 5 || aid_len > 16) return EMV_TAL_ERROR_INVALID_PARAMETER;
	*selected_app = NULL;
	if (s_sel_r == 0) *selected_app = s_sel_app;
	return s_sel_r;
}
static int g_r;
static unsigned int g_n, g_tags[2];
static uint8_t g_want[8];
static size_t g_want_len;
static bool g_pdol;
static uint8_t g_data[300];
static size_t g_data_len;
int emv_tal_get_processing_options(struct emv_ttl_t* t, const void* data, size_t data_len, struct emv_tlv_list_t* list, const struct emv_tlv_t** aip, const struct emv_tlv_t** afl)
{
	if (t != &ttl || !list) args_ok = false;
	++calls;
	g_data_len = data_len;
	if (!data) { if (data_len || g_pdol) args_ok = false; }
	else {
		if (data_len < 2 || data_len > 255 || !g_pdol) args_ok = false;
		else for (unsigned int i = 0; i < 6; ++i) if (i < data_len) g_data[i] = ((const uint8_t*)data)[i];
	}
	if (g_r == 0) {
		if (g_n > 0) field(list, g_tags[0], 2, 1);
		if (g_n > 1) field(list, g_tags[1], 4, 2);
	}
	return g_r;
}
static int d_len_r, d_r;
static uint8_t d_fill;
static unsigned int n_len, n_build;
static const struct emv_tlv_t* d_pdol;
static bool d_src_ok = true, d_term_ok = true;
static uint8_t w_pos, w_aid[16];
static size_t w_aid_len;
static bool terminal_ok(const struct emv_tlv_list_t* l)
{
	const struct emv_tlv_t* t = emv_tlv_list_find_const(l, 0x9F39);
	if (!t || t->length != 1 || t->value[0] != w_pos) return false;
	t = emv_tlv_list_find_const(l, 0x9F06);
	if (!t || t->length != w_aid_len) return false;
	for (unsigned int i = 0; i < 16; ++i) if (i < w_aid_len && t->value[i] != w_aid[i]) return false;
	t = emv_tlv_list_find_const(l, 0x9B);
	if (!t || t->length != 2 || t->value[0] || t->value[1]) return false;
	t = emv_tlv_list_find_const(l, 0x95);
	if (!t || t->length != 5 || t->value[0] || t->value[1] || t->value[2] || t->value[3] || t->value[4]) return false;
	unsigned int n = 0;
	t = l->front;
	for (unsigned int i = 0; i < 5; ++i) if (t) { ++n; t = t->next; }
	return n == 4;
}
int emv_dol_compute_data_length(const void* ptr, size_t len)
{
	if (!d_pdol || ptr != d_pdol->value || len != d_pdol->length) args_ok = false;
	++n_len;
	return d_len_r;
}
int emv_dol_build_data(const void* ptr, size_t len, const struct emv_tlv_list_t** sources, size_t sources_count, void* data, size_t* data_len)
{
	if (!d_pdol || ptr != d_pdol->value || len != d_pdol->length) args_ok = false;
	if (sources_count != 3 || sources[0] != &ctx.params || sources[1] != &ctx.config || sources[2] != &ctx.terminal) { d_src_ok = false; return -1; }
	d_term_ok = terminal_ok(sources[2]);
	++n_build;
	if (d_len_r < 0 || *data_len < (size_t)d_len_r) { args_ok = false; return -1; }
	/* contract: the whole of the given room may be written */
	if (*data_len > 0) { ((uint8_t*)data)[*data_len - 1] = 0x5A; ((uint8_t*)data)[0] = d_fill; }
	if (d_r == 0) *data_len = d_len_r;
	return d_r;
}
static int r_r;
static unsigned int r_n, r_tags[5];
static const struct emv_tlv_t* r_afl;
int emv_tal_read_afl_records(struct emv_ttl_t* t, const uint8_t* afl, size_t afl_len, struct emv_tlv_list_t* list)
{
	if (t != &ttl || !r_afl || afl != r_afl->value || afl_len != r_afl->length) args_ok = false;
	++calls;
	for (unsigned int i = 0; i < 5; ++i) {
		if (i >= r_n) break;
		field(list, r_tags[i], 1, i);
	}
	return r_r;
}

/* ---- candidate list ---- */
void b_candidates(void)
{
	struct emv_app_list_t l;
	struct emv_app_t* s[2];
	unsigned int p0 = 0, p1 = 0, n = 0, n_sup = vp_size(1);
	int want;
	init();
	if (n_sup) field(&ctx.supported_aids, 0x9F06, 5, 1);
	l.front = l.back = NULL;
	s_l = &l;
	s_pse_r = vp_bool() ? vp_int() : 0;
	s_find_r = vp_bool() ? vp_int() : 0;
	VP_ASSUME(s_find_r <= 0);
#ifdef PN
	s_pse_n = PN;
	s_find_n = FN;
#else
	s_pse_n = vp_size(2);
	s_find_n = vp_size(2);
#endif
	for (unsigned int i = 0; i < 2; ++i) { s_pse[i] = mkapp(vp_size(15)); s_find[i] = mkapp(vp_size(15)); }
	if (s_pse_r == 0 && s_pse_n) {
		n = s_pse_n; s[0] = s_pse[0]; s[1] = s_pse[1];
		want = 0;
	} else if (s_pse_r < 0) want = s_pse_r == EMV_TAL_ERROR_CARD_BLOCKED ? EMV_OUTCOME_CARD_BLOCKED : EMV_OUTCOME_CARD_ERROR;
	else {
		n = s_find_n; s[0] = s_find[0]; s[1] = s_find[1];
		want = s_find_r < 0 ? (s_find_r == EMV_TAL_ERROR_CARD_BLOCKED ? EMV_OUTCOME_CARD_BLOCKED : EMV_OUTCOME_CARD_ERROR) : n ? 0 : EMV_OUTCOME_NOT_ACCEPTED;
	}
	if (want == 0) { p0 = s[0]->priority ? s[0]->priority : 16; p1 = s[1]->priority ? s[1]->priority : 16; }

	int r = emv_build_candidate_list(&ctx, &l);
	VP_POST("outcome", r == want);
	VP_POST("PSE once, then the list of AIDs exactly if it gave no application", args_ok && n_pse == 1 && n_find == (s_pse_r < 0 || (s_pse_r == 0 && s_pse_n) ? 0 : 1));
	if (r == 0) {
		bool swap = n == 2 && p1 < p0;
		VP_POST("candidates by priority", l.front == s[swap ? 1 : 0] && (n == 1 ? l.back == s[0] && !l.front->next : l.front->next == s[swap ? 0 : 1] && l.back == s[swap ? 0 : 1] && !l.back->next));
	}
	VP_COVER("pse", r == 0 && n == s_pse_n && l.front == s_pse[1]);
	VP_COVER("aids", r == 0 && n == s_find_n && l.front == s_find[1]);
	VP_POST("NULL", emv_build_candidate_list(NULL, &l) < 0 && emv_build_candidate_list(&ctx, NULL) < 0);
}

/* ---- final selection ---- */
void b_select_application(void)
{
	struct emv_app_list_t l;
	struct emv_app_t* c[3];
	struct emv_app_t* old = NULL;
	unsigned int n = vp_size(3), idx = vp_bool() ? vp_u32() : vp_size(3);
	bool had = vp_bool();
	size_t live0;
	int want;
	init();
	l.front = l.back = NULL;
	if (had) { old = mkapp(1); ctx.selected_app = old; }
	for (unsigned int i = 0; i < 3; ++i) {
		c[i] = mkapp(1);
		c[i]->aid = field(&c[i]->tlv_list, 0x4F, i == 0 ? vp_size(18) : 5 + i, 0);
		if (i == 0) VP_ASSUME(c[0]->aid->length != 17);
		for (unsigned int k = 0; k < 16; ++k) c[i]->aid->value[k] = 16 * i + k;
		if (i < n) addapp(&l, c[i]);
		if (i == idx) {
			s_aid_len = c[i]->aid->length;
			for (unsigned int k = 0; k < 16; ++k) s_aid[k] = 16 * i + k;
		}
	}
	s_sel_r = vp_bool() ? vp_int() : 0;
	s_sel_app = mkapp(1);
	live0 = vp_live_allocs;
	bool valid = idx < n, too_long = valid && s_aid_len > 16;
	bool last = n == 1;

	int r = emv_select_application(&ctx, &l, idx);
	int tr = s_aid_len < 5 ? EMV_TAL_ERROR_INVALID_PARAMETER : s_sel_r;
	if (!valid) want = EMV_ERROR_INVALID_PARAMETER;
	else if (too_long || tr > 0) want = last ? EMV_OUTCOME_NOT_ACCEPTED : EMV_OUTCOME_TRY_AGAIN;
	else if (tr < 0) want = tr == EMV_TAL_ERROR_CARD_BLOCKED ? EMV_OUTCOME_CARD_BLOCKED : EMV_OUTCOME_CARD_ERROR;
	else want = 0;
	VP_POST("outcome", r == want);
	VP_POST("selected once with the AID of the chosen candidate", args_ok && calls == (valid && !too_long ? 1 : 0));
	VP_POST("selected application exactly on success", ctx.selected_app == (r == 0 ? s_sel_app : NULL));
	VP_POST("previous application and chosen candidate released", vp_live_allocs == live0 - (had ? 1 : 0) - (valid ? 3 : 0));
	const struct emv_app_t* a = l.front;
	const struct emv_app_t* b = NULL;
	for (unsigned int i = 0; i < 3; ++i) {
		if (i < n && i != idx) {
			VP_POST("other candidates remain", a == c[i]);
			b = a;
			a = a ? a->next : NULL;
		}
	}
	VP_POST("chosen candidate removed", a == NULL && l.back == b);
	VP_COVER("try again", r == EMV_OUTCOME_TRY_AGAIN && n == 3 && idx == 1 && had);
	VP_COVER("last one fails", r == EMV_OUTCOME_NOT_ACCEPTED && s_aid_len == 16);
	VP_COVER("selected", r == 0 && n == 3 && idx == 2);
	VP_POST("NULL", emv_select_application(NULL, &l, 0) < 0 && emv_select_application(&ctx, NULL, 0) < 0);
}

/* ---- initiation ---- */
void b_initiate(void)
{
	struct emv_app_t* app;
	bool pdol = vp_bool(), icc = vp_bool(), term = vp_bool();
	int want;
	init();
	if (icc) field(&ctx.icc, 0x9F10, 1, 0);
	if (term) field(&ctx.terminal, 0x9F39, 1, 0xEE);
	app = mkapp(1);
	app->aid = field(&app->tlv_list, 0x84, 5 + vp_size(11), 0);
	w_aid_len = app->aid->length;
	for (unsigned int k = 0; k < 16; ++k) w_aid[k] = app->aid->value[k] = vp_u8();
	g_pdol = pdol;
	struct emv_tlv_t* f = field(&app->tlv_list, pdol ? 0x9F38 : 0x50, 3, 9);
	d_pdol = pdol ? f : NULL;
	ctx.selected_app = app;
	w_pos = vp_u8();
	d_len_r = vp_int();
	d_r = vp_bool() ? vp_int() : 0;
	d_fill = vp_u8();
	g_r = vp_bool() ? vp_int() : 0;
	g_n = vp_size(2);
	g_tags[0] = 0x82; g_tags[1] = 0x94;
	vp_alloc_may_fail = vp_bool();
	size_t live = vp_live_allocs - (icc ? 2 : 0) - (term ? 2 : 0);

	int r = emv_initiate_application_processing(&ctx, w_pos);
	bool fits = d_len_r >= 0 && d_len_r <= 252;
	if (pdol && !fits) want = EMV_OUTCOME_CARD_ERROR;
	else if (pdol && d_r) want = EMV_ERROR_INTERNAL;
	else if (g_r == 0) want = 0;
	else if (g_r < 0) want = g_r == EMV_TAL_ERROR_INTERNAL || g_r == EMV_TAL_ERROR_INVALID_PARAMETER ? EMV_ERROR_INTERNAL : EMV_OUTCOME_CARD_ERROR;
	else want = g_r == EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED ? EMV_OUTCOME_GPO_NOT_ACCEPTED : EMV_OUTCOME_CARD_ERROR;
	if (vp_alloc_did_fail) {
		VP_POST("out of memory is reported", r < 0 && calls == 0);
		return;
	}
	VP_POST("outcome", r == want);
	VP_POST("arguments", args_ok && d_src_ok);
	VP_POST("terminal data of the transaction precedes the PDOL data", d_term_ok && terminal_ok(&ctx.terminal));
	VP_POST("one command, unless the PDOL is invalid", calls == (pdol && (!fits || d_r) ? 0 : 1));
	if (calls && pdol) {
		unsigned int h = d_len_r < 0x80 ? 2 : 3;
		VP_POST("command template", g_data_len == (size_t)d_len_r + h && g_data[0] == 0x83 && (h == 2 ? g_data[1] == d_len_r : g_data[1] == 0x81 && g_data[2] == d_len_r));
		VP_POST("PDOL data", d_len_r == 0 || g_data[h] == (d_len_r == (int)(255 - h) && d_len_r == 1 ? 0x5A : d_fill));
	}
	VP_POST("no PDOL, no data", !calls || pdol || (g_data_len == 0 && n_len == 0 && n_build == 0));
	VP_POST("application still selected", ctx.selected_app == app);
	if (r) {
		VP_POST("application data stays with the application", app->tlv_list.front == app->aid && app->aid->next == f && !ctx.icc.front && !ctx.icc.back);
		VP_POST("nothing else is kept", vp_live_allocs == live + 8);
	} else {
		VP_POST("application data is now card data", app->tlv_list.front == NULL && app->tlv_list.back == NULL && ctx.icc.front == app->aid && app->aid->next == f);
		const struct emv_tlv_t* t = f->next;
		VP_POST("AIP", g_n < 1 || (t && t->tag == 0x82));
		if (g_n > 0) t = t->next;
		VP_POST("AFL", g_n < 2 || (t && t->tag == 0x94 && ctx.icc.back == t));
		if (g_n > 1) t = t->next;
		VP_POST("nothing else", t == NULL && (g_n || ctx.icc.back == f) && vp_live_allocs == live + 8 + 2 * g_n);
		VP_POST("not initiated twice", emv_initiate_application_processing(&ctx, w_pos) < 0 && calls == 1 && ctx.icc.front == app->aid);
	}
	VP_COVER("long PDOL data", r == 0 && pdol && d_len_r == 252 && icc && term);
	VP_COVER("no PDOL", r == 0 && !pdol && g_n == 2);
	ctx.selected_app = NULL;
	VP_POST("NULL", emv_initiate_application_processing(NULL, w_pos) < 0 && emv_initiate_application_processing(&ctx, w_pos) < 0);
}

/* ---- application data ---- */
void b_read_data(void)
{
	static const unsigned int tags[] = { 0x5F24, 0x5A, 0x8C, 0x8D, 0x9F4A, 0x57 };
	bool afl = vp_bool(), dup = false;
	unsigned int have = 0;
	int want;
	init();
	struct emv_tlv_t* first = field(&ctx.icc, 0x84, 5, 1);
	r_afl = afl ? field(&ctx.icc, 0x94, 4 + vp_size(8), 3) : NULL;
	struct emv_tlv_t* last = ctx.icc.back;
	r_r = vp_bool() ? vp_int() : 0;
	r_n = vp_size(5);
	for (unsigned int i = 0; i < 5; ++i) {
		unsigned int k = vp_size(5);
		r_tags[i] = tags[k];
		if (i < r_n) {
			for (unsigned int j = 0; j < 5; ++j) if (j < i && r_tags[j] == r_tags[i]) dup = true;
			if (k < 4) have |= 1u << k;
		}
	}
	size_t live = vp_live_allocs;
	int r = emv_read_application_data(&ctx);
	if (!afl) want = EMV_OUTCOME_CARD_ERROR;
	else if (r_r == EMV_TAL_ERROR_INTERNAL || r_r == EMV_TAL_ERROR_INVALID_PARAMETER) want = EMV_ERROR_INTERNAL;
	else if (r_r && r_r != EMV_TAL_RESULT_ODA_RECORD_INVALID) want = EMV_OUTCOME_CARD_ERROR;
	else want = dup || have != 15 ? EMV_OUTCOME_CARD_ERROR : 0;
	VP_POST("outcome", r == want);
	VP_POST("AFL of the card data used once", args_ok && calls == (afl ? 1 : 0));
	VP_POST("card data kept", ctx.icc.front == first && (!afl || first->next == r_afl));
	const struct emv_tlv_t* t = last->next;
	if (r) {
		VP_POST("no record data is kept on failure", t == NULL && ctx.icc.back == last && vp_live_allocs == live);
	} else {
		const struct emv_tlv_t* b = last;
		for (unsigned int i = 0; i < 5; ++i) {
			if (i >= r_n) break;
			VP_POST("all record data added in order", t && t->tag == r_tags[i] && t->value[0] == i);
			b = t;
			t = t->next;
		}
		VP_POST("nothing else", t == NULL && ctx.icc.back == b && vp_live_allocs == live + 2 * r_n);
	}
	VP_COVER("read", r == 0 && r_n == 5);
	VP_COVER("read although not authenticated", r == 0 && r_n == 4 && r_r > 0);
	VP_COVER("duplicate of other field", r > 0 && r_r == 0 && afl && have == 15 && r_n == 5);
	VP_POST("NULL", emv_read_application_data(NULL) < 0);
}

/* ---- context ---- */
void b_ctx(void)
{
	struct emv_tlv_list_t* ls[5] = { &ctx.config, &ctx.supported_aids, &ctx.params, &ctx.icc, &ctx.terminal };
	bool has[5], app = vp_bool();
#ifdef CLEAR
	const bool clear = CLEAR;
#else
	const bool clear = false;
#endif
	size_t live;
	ctx.selected_app = (struct emv_app_t*)&ttl;
	VP_POST("init", emv_ctx_init(&ctx, &ttl) == 0 && ctx.ttl == &ttl && ctx.selected_app == NULL);
	for (unsigned int i = 0; i < 5; ++i) VP_POST("init empty", !ls[i]->front && !ls[i]->back);
	live = vp_live_allocs;
	for (unsigned int i = 0; i < 5; ++i) {
		has[i] = vp_bool();
		if (has[i]) field(ls[i], 0x9F02, 1, 1);
	}
	if (app) { ctx.selected_app = mkapp(1); if (vp_bool()) ctx.selected_app->aid = field(&ctx.selected_app->tlv_list, 0x84, 5, 0); }
	VP_POST("done", (clear ? emv_ctx_clear(&ctx) : emv_ctx_reset(&ctx)) == 0);
	for (unsigned int i = 0; i < 5; ++i) {
		bool kept = !clear && i < 2 && has[i];
		VP_POST("transaction data cleared, configuration kept by reset", (ls[i]->front != NULL) == kept && (ls[i]->back != NULL) == kept);
		if (kept) live += 2;
	}
	VP_POST("everything released", ctx.selected_app == NULL && vp_live_allocs == live);
	VP_POST("transport", ctx.ttl == (clear ? NULL : &ttl));
	VP_COVER("reset", !clear && has[0] && has[1] && has[3] && app);
	VP_POST("NULL", emv_ctx_init(NULL, &ttl) < 0 && emv_ctx_init(&ctx, NULL) < 0 && emv_ctx_reset(NULL) < 0 && emv_ctx_clear(NULL) < 0);
}
