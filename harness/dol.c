/* Data Object Lists: decoding, length and building of data */
#include "vp.h"
#include "iso8825_ber.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_dol.h"

/* ---- specification ---- */

static size_t spec_tag_len(const uint8_t* p, size_t len)
{
	if (len < 1) return 0;
	if ((p[0] & 0x1F) != 0x1F) return 1;
	if (len < 2) return 0;
	if (!(p[1] & 0x80)) return 2;
	if (len < 3) return 0;
	if (!(p[2] & 0x80)) return 3;
	if (len < 4) return 0;
	if (!(p[3] & 0x80)) return 4;
	return 0;
}
static unsigned int spec_tag(const uint8_t* p, size_t n)
{
	unsigned int t = p[0];
	if (n > 1) t = (t << 8) | p[1];
	if (n > 2) t = (t << 8) | p[2];
	if (n > 3) t = (t << 8) | p[3];
	return t;
}
/* octets of the entry at p, 0 if malformed */
static size_t spec_entry_len(const uint8_t* p, size_t len)
{
	size_t n = spec_tag_len(p, len);
	return n && n < len ? n + 1 : 0;
}
/* Terminal sourced data with format n: EMV 4.4 Book 3, Annex A1 */
static bool spec_terminal_n(unsigned int tag)
{
	static const unsigned int t[] = { 0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41 };
	bool r = false;
	for (unsigned int i = 0; i < sizeof(t) / sizeof(t[0]); ++i) if (t[i] == tag) r = true;
	return r;
}
/* octet k of a DOL entry of length elen; EMV 4.4 Book 3, 5.4 */
static uint8_t spec_octet(bool n, const uint8_t* v, unsigned int vlen, unsigned int elen, unsigned int k)
{
	if (!v) return 0;
	if (n) {
		/* right justified: leftmost octets truncated, zeros to the left */
		unsigned int from_end = elen - k; /* 1..elen */
		return from_end <= vlen ? v[vlen - from_end] : 0;
	}
	return k < vlen ? v[k] : 0;
}

#ifndef VP_NATIVE
#define TAG_CONTRACT \
int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag) \
__CPROVER_requires(ptr != NULL && len > 0 && __CPROVER_r_ok(ptr, len) && __CPROVER_w_ok(tag, sizeof(*tag))) \
__CPROVER_assigns(*tag) \
__CPROVER_ensures(__CPROVER_return_value != 0) \
__CPROVER_ensures((__CPROVER_return_value > 0) == (spec_tag_len(ptr, len) > 0)) \
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value == spec_tag_len(ptr, len)) \
__CPROVER_ensures(__CPROVER_return_value > 0 ==> *tag == spec_tag(ptr, spec_tag_len(ptr, len))) \
;

#ifdef P_DEC
TAG_CONTRACT
int emv_dol_decode(const void* ptr, size_t len, struct emv_dol_entry_t* entry)
__CPROVER_requires(__CPROVER_is_fresh(ptr, len) && __CPROVER_is_fresh(entry, sizeof(*entry)))
__CPROVER_assigns(*entry)
__CPROVER_ensures((__CPROVER_return_value == 0) == (len == 0))
__CPROVER_ensures((__CPROVER_return_value > 0) == (spec_entry_len(ptr, len) > 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value == spec_entry_len(ptr, len))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> entry->tag == spec_tag(ptr, spec_tag_len(ptr, len)))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> entry->length == ((const uint8_t*)ptr)[spec_tag_len(ptr, len)])
;
void p_dec(void)
{
	const void* ptr; size_t len; struct emv_dol_entry_t* entry;
	int r = emv_dol_decode(ptr, len, entry);
	VP_COVER("decoded", r == 5);
	VP_COVER("rejected", r < 0);
}
#endif

/* The length is the sum over all entries: ghost_sum is what the iterator has
 * handed out so far, for a DOL of any length */
#ifdef P_LEN
size_t ghost_sum, ghost_left;
int ghost_err;
int emv_dol_itr_init(const void* ptr, size_t len, struct emv_dol_itr_t* itr)
__CPROVER_requires(ptr != NULL && __CPROVER_w_ok(itr, sizeof(*itr)))
__CPROVER_assigns(*itr)
__CPROVER_ensures(__CPROVER_return_value == 0 && itr->ptr == ptr && itr->len == len)
;
int emv_dol_itr_next(struct emv_dol_itr_t* itr, struct emv_dol_entry_t* entry)
__CPROVER_requires(__CPROVER_w_ok(itr, sizeof(*itr)) && __CPROVER_w_ok(entry, sizeof(*entry)))
__CPROVER_requires(itr->len == ghost_left && ghost_err == 0)
__CPROVER_assigns(*itr, *entry, ghost_sum, ghost_left, ghost_err)
__CPROVER_ensures((__CPROVER_return_value == 0) == (__CPROVER_old(itr->len) == 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (__CPROVER_return_value >= 2 && __CPROVER_return_value <= 5 && (size_t)__CPROVER_return_value <= __CPROVER_old(itr->len)))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (itr->len == __CPROVER_old(itr->len) - (size_t)__CPROVER_return_value && entry->length <= 255))
__CPROVER_ensures(__CPROVER_return_value <= 0 ==> itr->len == __CPROVER_old(itr->len))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> ghost_sum == __CPROVER_old(ghost_sum) + entry->length)
__CPROVER_ensures(__CPROVER_return_value <= 0 ==> ghost_sum == __CPROVER_old(ghost_sum))
__CPROVER_ensures(ghost_left == itr->len && ghost_err == (__CPROVER_return_value < 0))
;
int emv_dol_compute_data_length(const void* ptr, size_t len)
__CPROVER_requires(len > 0 && len <= 0x800000 && __CPROVER_is_fresh(ptr, len))
__CPROVER_requires(ghost_sum == 0 && ghost_err == 0 && ghost_left == len)
__CPROVER_assigns(ghost_sum, ghost_left, ghost_err)
__CPROVER_ensures((__CPROVER_return_value < 0) == (ghost_err != 0))
__CPROVER_ensures(__CPROVER_return_value >= 0 ==> (ghost_left == 0 && (size_t)__CPROVER_return_value == ghost_sum))
;
void p_len(void)
{
	const void* ptr; size_t len;
	int r = emv_dol_compute_data_length(ptr, len);
	VP_COVER("length", r > 1000);
	VP_COVER("error", r < 0);
}
#endif
#endif

/* ---- decode, iterate, length: executable ---- */
#ifndef DLEN
#define DLEN 9
#endif
void b_dol(void)
{
	size_t len = vp_size(DLEN);
	uint8_t* p = vp_buf(len, DLEN);
	struct emv_dol_itr_t itr;
	struct emv_dol_entry_t e;
	size_t pos = 0, sum = 0;
	bool bad = false;
	VP_POST("NULL", emv_dol_decode(NULL, len, &e) < 0 && emv_dol_decode(p, len, NULL) < 0 && emv_dol_itr_init(NULL, len, &itr) < 0 &&
		emv_dol_itr_init(p, len, NULL) < 0 && emv_dol_itr_next(NULL, &e) < 0);
	VP_POST("init", emv_dol_itr_init(p, len, &itr) == 0);
	VP_POST("NULL entry", emv_dol_itr_next(&itr, NULL) < 0);
	for (unsigned int i = 0; i <= DLEN / 2; ++i) {
		size_t n = spec_entry_len(p + pos, len - pos);
		int r = emv_dol_itr_next(&itr, &e);
		if (pos == len) { VP_POST("end of list exactly when all entries were visited", r == 0); VP_COVER("three", i == 3); break; }
		if (n == 0) { VP_POST("malformed entry reported", r < 0); bad = true; VP_COVER("malformed", i == 2); break; }
		VP_POST("entry", r > 0 && (size_t)r == n && e.tag == spec_tag(p + pos, n - 1) && e.length == p[pos + n - 1]);
		sum += p[pos + n - 1];
		pos += n;
	}
	int total = emv_dol_compute_data_length(p, len);
	VP_POST("data length is the sum of the entry lengths", bad || len == 0 ? total < 0 : (total >= 0 && (size_t)total == sum));
	VP_POST("data length of nothing", emv_dol_compute_data_length(NULL, 1) < 0 && emv_dol_compute_data_length(p, 0) < 0);
}

/* ---- build data against the contracts of the iterator and of find ---- */
#ifndef NE
#define NE 2
#endif
#ifndef EL
#define EL 255      /* entry length */
#endif
#ifndef VL
#define VL 300      /* field length */
#endif
#ifndef NS
#define NS 2
#endif
#define OMAX (NE * EL + 1)
struct field { bool present; struct emv_tlv_t t; };
static unsigned int ge_n, ge_next; static int ge_end;
static struct { unsigned int tag, len; struct field f[NS]; } ge[NE];
static struct emv_tlv_list_t gl[NS];
static uint8_t g_mem[1];

static const struct emv_tlv_t* spec_source(unsigned int i)
{
	for (unsigned int s = 0; s < NS; ++s) if (ge[i].f[s].present) return &ge[i].f[s].t;
	return NULL;
}
int stub_dol_itr_init(const void* ptr, size_t len, struct emv_dol_itr_t* itr)
{
	VP_POST("iterates the given list", ptr == g_mem && len == 1);
	itr->ptr = ptr; itr->len = len;
	return 0;
}
int stub_dol_itr_next(struct emv_dol_itr_t* itr, struct emv_dol_entry_t* entry)
{
	if (ge_next >= NE || ge_next >= ge_n) return ge_end;
	entry->tag = ge[ge_next].tag;
	entry->length = ge[ge_next].len;
	++ge_next;
	return 2;
}
struct emv_tlv_t* stub_find(struct emv_tlv_list_t* list, unsigned int tag)
{
	unsigned int i = ge_next - 1;
	VP_POST("looks for the tag of the current entry", ge_next > 0 && tag == ge[i].tag);
	for (unsigned int s = 0; s < NS; ++s) if (list == &gl[s]) return ge[i].f[s].present ? &ge[i].f[s].t : NULL;
	VP_POST("looks in the given sources only", false);
	return NULL;
}
void i_build(void)
{
	const struct emv_tlv_list_t* src[NS];
	size_t ns = 1 + vp_size(NS - 1), dl = vp_size(OMAX), given, sum = 0;
	bool fits = true, done = false;
	VP_ASSUME(dl > 0);
	ge_n = vp_size(NE); ge_next = 0; ge_end = vp_bool() ? 0 : -3;
	for (unsigned int s = 0; s < NS; ++s) src[s] = &gl[s];
	for (unsigned int i = 0; i < NE; ++i) {
		ge[i].tag = vp_u32(); ge[i].len = vp_size(EL);
		for (unsigned int s = 0; s < NS; ++s) {
			struct field* f = &ge[i].f[s];
			f->present = s < ns && vp_bool();
			f->t.tag = ge[i].tag; f->t.length = vp_size(VL); f->t.flags = vp_u8();
			uint8_t* v = malloc(VL);
			VP_ASSUME(v != NULL);
			f->t.value = v + (VL - f->t.length);
		}
	}
	uint8_t* out = malloc(OMAX);
	VP_ASSUME(out != NULL);
	out += OMAX - dl;
	given = dl;
	/* probe: octet k of entry e, or an octet beyond the data */
	unsigned int e = vp_size(NE - 1), k = vp_size(EL), rest = vp_size(OMAX);
	VP_ASSUME(rest < dl);
	uint8_t was = out[rest];
	int r = emv_dol_build_data(g_mem, 1, src, ns, out, &dl);
	size_t at = 0;
	for (unsigned int i = 0; i < NE; ++i) {
		if (i < ge_n) {
			if (ge[i].len > given - sum) fits = false;
			if (fits) { if (i == e) at = sum; sum += ge[i].len; }
		}
	}
	if (!fits) { VP_POST("too small for an entry", r > 0); VP_COVER("too small for last", ge_n == NE && given > 1); return; }
	if (ge_end < 0) { VP_POST("malformed list", r < 0); return; }
	VP_POST("success", r == 0);
	VP_POST("data length", dl == sum);
	if (e < ge_n && k < ge[e].len) {
		const struct emv_tlv_t* t = spec_source(e);
		VP_POST("octet of the data", out[at + k] == spec_octet(spec_terminal_n(ge[e].tag), t ? t->value : NULL, t ? t->length : 0, ge[e].len, k));
		VP_COVER("numeric padded", e == NE - 1 && t && t == &ge[NE - 1].f[NS - 1].t && spec_terminal_n(t->tag) && t->length < ge[e].len && k >= ge[e].len - t->length);
		VP_COVER("truncated", e == NE - 1 && t && !spec_terminal_n(t->tag) && t->length > ge[e].len);
		VP_COVER("missing", e == NE - 1 && !t);
	}
	VP_POST("nothing written beyond the data", rest < sum || out[rest] == was);
}

/* ---- the real thing, small: real iterator and real lists ---- */
#ifndef BE
#define BE 2
#endif
#ifndef BV
#define BV 3
#endif
#ifndef BL
#define BL 5
#endif
void b_build(void)
{
	struct emv_tlv_list_t l[2] = { EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT };
	const struct emv_tlv_list_t* src[2] = { &l[0], &l[1] };
	struct { unsigned int tag, len; uint8_t v[BV]; bool present; } f[2][2];
	static const unsigned int tags[6] = { 0x9A, 0x9F02, 0x9F37, 0x95, 0x5F2A, 0x9F4E };
	uint8_t dol[3 * BE], tmp[BV]; size_t dolen = 0;
	unsigned int etag[BE], elen[BE], n = vp_size(BE);
	size_t ns = 1 + vp_size(1), sum = 0, dl, given;
	for (unsigned int s = 0; s < 2; ++s) for (unsigned int i = 0; i < 2; ++i) {
		f[s][i].present = vp_bool();
		f[s][i].tag = tags[vp_size(5)]; f[s][i].len = vp_size(BV);
		vp_fill(f[s][i].v, BV);
		if (f[s][i].present) {
			memcpy(tmp, f[s][i].v, BV);
			VP_ASSUME(emv_tlv_list_push(&l[s], f[s][i].tag, f[s][i].len, tmp, 0) == 0);
		}
	}
	for (unsigned int i = 0; i < BE; ++i) {
		etag[i] = tags[vp_size(5)]; elen[i] = vp_size(BL);
		if (i < n) {
			if (etag[i] > 0xFF) dol[dolen++] = etag[i] >> 8;
			dol[dolen++] = etag[i] & 0xFF;
			dol[dolen++] = elen[i];
		}
	}
	dl = vp_size(BL * BE + 1);
	uint8_t* out = malloc(BL * BE + 1);
	VP_ASSUME(out != NULL);
	memset(out, 0xEE, BL * BE + 1);
	out += BL * BE + 1 - dl;
	given = dl;
	int r = emv_dol_build_data(dol, dolen, src, ns, out, &dl);
	if (n == 0 || given == 0) { VP_POST("nothing to do is an error", r < 0); return; }
	bool fits = true;
	for (unsigned int i = 0; i < BE; ++i) {
		if (i >= n || !fits) continue;
		if (elen[i] > given - sum) { fits = false; continue; }
		const uint8_t* v = NULL; unsigned int vl = 0;
		for (unsigned int s = 0; s < 2; ++s) for (unsigned int j = 0; j < 2; ++j)
			if (!v && s < ns && f[s][j].present && f[s][j].tag == etag[i]) { v = f[s][j].v; vl = f[s][j].len; }
		if (r == 0) for (unsigned int k = 0; k < BL; ++k)
			if (k < elen[i]) VP_POST("octet of the data (real lists)", out[sum + k] == spec_octet(spec_terminal_n(etag[i]), v, vl, elen[i], k));
		sum += elen[i];
	}
	VP_POST("result", fits ? r == 0 : r > 0);
	VP_POST("length", r || dl == sum);
	for (unsigned int k = 0; k < BL * BE + 1; ++k) if (r == 0 && k >= sum && k < given) VP_POST("rest untouched", out[k] == 0xEE);
	dl = 1;
	VP_POST("missing arguments", emv_dol_build_data(NULL, 1, src, 1, out, &dl) < 0 && emv_dol_build_data(dol, 1, NULL, 1, out, &dl) < 0 &&
		emv_dol_build_data(dol, 1, src, 0, out, &dl) < 0 && emv_dol_build_data(dol, 1, src, 1, NULL, &dl) < 0 && emv_dol_build_data(dol, 1, src, 1, out, NULL) < 0);
	src[1] = NULL;
	VP_POST("missing source", emv_dol_build_data(dol, 2, src, 2, out, &dl) < 0);
}
static void build_long(unsigned int tag, unsigned int el, unsigned int vl)
{
	struct emv_tlv_t t = { 0 };
	struct emv_tlv_list_t l = { &t, &t };
	const struct emv_tlv_list_t* src = &l;
	uint8_t dol[3] = { tag >> 8, tag & 0xFF, el };
	uint8_t v[300], out[256];
	size_t dl = el ? el : 1;
	t.tag = tag; t.length = vl; t.value = v + 300 - vl;
#ifdef VP_NATIVE
	vp_fill(v, 300);
#endif
	uint8_t beyond = out[255];
	int r = emv_dol_build_data(dol, 3, &src, 1, out, &dl);
	VP_POST("long entry", r == 0 && dl == el);
	bool n = spec_terminal_n(tag), same = true;
	for (unsigned int k = 0; k < el; ++k) if (out[k] != spec_octet(n, t.value, vl, el, k)) same = false;
	VP_POST("octets of a long entry", same);
	VP_POST("nothing beyond", el == 256 || out[255] == beyond);
}
void b_build_long(void)
{
	build_long(0x9F02, 200, 255); build_long(0x9F02, 255, 200); build_long(0x9F02, 0, 300);
	build_long(0x9F4E, 200, 255); build_long(0x9F4E, 255, 200); build_long(0x9F4E, 130, 0);
	VP_COVER("done", true);
}
void b_terminal_n(void)
{
	unsigned int tag = vp_u32();
	VP_POST("terminal numeric tags", emv_tlv_is_terminal_format_n(tag) == spec_terminal_n(tag));
}
