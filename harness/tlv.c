/* EMV TLV lists, parsing and formats */
#include "vp.h"
#include "iso8825_ber.h"
#include "emv_tlv.h"
#include "emv_tags.h"

/* ================= C05: list operations against an abstract sequence ===== */
#ifndef NMAX
#define NMAX 3
#endif
#define VMAX 2

struct seq { unsigned int n; struct { unsigned int tag, len; uint8_t flags; uint8_t v[VMAX]; } e[2 * NMAX + 1]; };

static void seq_push(struct seq* s, unsigned int tag, unsigned int len, const uint8_t* v, uint8_t flags)
{
	s->e[s->n].tag = tag; s->e[s->n].len = len; s->e[s->n].flags = flags;
	for (unsigned int i = 0; i < VMAX; ++i) if (i < len) s->e[s->n].v[i] = v[i];
	++s->n;
}
static bool same_field(const struct emv_tlv_t* t, const struct seq* s, unsigned int i)
{
	if (t->tag != s->e[i].tag || t->length != s->e[i].len || t->flags != s->e[i].flags) return false;
	for (unsigned int k = 0; k < VMAX; ++k) if (k < t->length && t->value[k] != s->e[i].v[k]) return false;
	return true;
}
/* the list holds exactly the sequence, and is well-formed */
static bool same_list(const struct emv_tlv_list_t* l, const struct seq* s)
{
	const struct emv_tlv_t* t = l->front;
	const struct emv_tlv_t* last = NULL;
	for (unsigned int i = 0; i < 2 * NMAX + 1; ++i) {
		if (i < s->n) {
			if (!t || !same_field(t, s, i)) return false;
			last = t;
			t = t->next;
		}
	}
	return t == NULL && l->back == last;
}
/* a list of 0..NMAX fields, built with push; input buffers are scrubbed after
 * use such that a shallow copy would show */
static void build(struct emv_tlv_list_t* l, struct seq* s)
{
	uint8_t tmp[VMAX];
	unsigned int n = vp_size(NMAX);
	*l = EMV_TLV_LIST_INIT;
	s->n = 0;
	for (unsigned int i = 0; i < NMAX; ++i) {
		if (i < n) {
			unsigned int tag = vp_u32(), len = vp_size(VMAX);
			uint8_t flags = vp_u8();
			vp_fill(tmp, VMAX);
			int r = emv_tlv_list_push(l, tag, len, tmp, flags);
			VP_POST("push succeeds", r == 0);
			seq_push(s, tag, len, tmp, flags);
			memset(tmp, 0xA5, sizeof(tmp));
		}
	}
}

void b_push(void)
{
	struct emv_tlv_list_t l; struct seq s; uint8_t tmp[VMAX];
	build(&l, &s);
	VP_POST("pushed fields are in order, copied", same_list(&l, &s));
	VP_POST("is_empty", emv_tlv_list_is_empty(&l) == (s.n == 0));
	size_t live = vp_live_allocs;
	unsigned int tag = vp_u32(), len = vp_size(VMAX); uint8_t flags = vp_u8();
	vp_fill(tmp, VMAX);
	vp_alloc_may_fail = true;
	int r = emv_tlv_list_push(&l, tag, len, tmp, flags);
	vp_alloc_may_fail = false;
	if (r == 0) {
		seq_push(&s, tag, len, tmp, flags);
		memset(tmp, 0xA5, sizeof(tmp));
	} else {
		VP_POST("push only fails when memory is exhausted, with a negative result", r < 0 && vp_alloc_did_fail);
		VP_POST("failed push allocates nothing", vp_live_allocs == live);
	}
	VP_POST("push appends, or leaves the list unchanged on failure", same_list(&l, &s));
	VP_COVER("failed push on non-empty list", r < 0 && s.n > 1);
	VP_COVER("full", s.n == NMAX + 1);
	emv_tlv_list_clear(&l);
	VP_POST("clear releases everything", vp_live_allocs == 0 && emv_tlv_list_is_empty(&l) && l.front == NULL && l.back == NULL);
	VP_POST("NULL list rejected", emv_tlv_list_push(NULL, tag, len, tmp, flags) < 0);
}

void b_pop(void)
{
	struct emv_tlv_list_t l; struct seq s;
	build(&l, &s);
	size_t live = vp_live_allocs;
	struct emv_tlv_t* t = emv_tlv_list_pop(&l);
	VP_POST("pop releases nothing", vp_live_allocs == live);
	if (s.n == 0) {
		VP_POST("pop of empty list", t == NULL && same_list(&l, &s));
		return;
	}
	VP_POST("pop returns the front field, detached", t != NULL && same_field(t, &s, 0) && t->next == NULL);
	for (unsigned int i = 0; i + 1 < NMAX; ++i) s.e[i] = s.e[i + 1];
	--s.n;
	VP_POST("pop removes exactly the front field", same_list(&l, &s));
	VP_POST("freeing a detached field succeeds", emv_tlv_free(t) == 0);
	VP_POST("and releases it", vp_live_allocs == live - 2);
	VP_POST("a field that is in a list is not freed", s.n < 2 || (emv_tlv_free(l.front) != 0 && same_list(&l, &s)));
	/* usable afterwards */
	uint8_t tmp[VMAX] = { 1, 2 };
	VP_POST("push after pop", emv_tlv_list_push(&l, 0x9F02, 2, tmp, 7) == 0);
	seq_push(&s, 0x9F02, 2, tmp, 7);
	VP_POST("push after pop appends", same_list(&l, &s));
	VP_COVER("popped to empty then pushed", s.n == 1);
	VP_COVER("several", s.n == NMAX);
}

void b_find(void)
{
	struct emv_tlv_list_t l; struct seq s;
	build(&l, &s);
	unsigned int tag = vp_u32();
	struct emv_tlv_t* t = emv_tlv_list_find(&l, tag);
	const struct emv_tlv_t* tc = emv_tlv_list_find_const(&l, tag);
	unsigned int idx = NMAX;
	bool dup = false;
	struct emv_tlv_t* expect = NULL;
	for (unsigned int i = NMAX; i-- > 0;) if (i < s.n && s.e[i].tag == tag) idx = i;
	for (unsigned int i = 0; i < NMAX; ++i)
		for (unsigned int j = 0; j < i; ++j) if (i < s.n && s.e[i].tag == s.e[j].tag) dup = true;
	struct emv_tlv_t* e = l.front;
	for (unsigned int i = 0; i < NMAX; ++i) { if (i < s.n) { if (i == idx) expect = e; e = e->next; } }
	VP_POST("find returns the first field with the tag, or NULL", t == expect);
	VP_POST("find_const agrees", tc == expect);
	VP_POST("has_duplicate iff two fields share a tag", emv_tlv_list_has_duplicate(&l) == dup);
	VP_POST("find changes nothing", same_list(&l, &s));
	VP_COVER("found last of three", idx == NMAX - 1 && s.n == NMAX);
	VP_COVER("not found", s.n == NMAX && t == NULL);
	VP_COVER("duplicate of last", dup && s.n == NMAX && s.e[0].tag != s.e[1].tag);
}

void b_append(void)
{
	struct emv_tlv_list_t l, o; struct seq s, t, empty = { 0 };
	build(&l, &s);
	build(&o, &t);
	size_t live = vp_live_allocs;
	int r = emv_tlv_list_append(&l, &o);
	VP_POST("append succeeds", r == 0);
	for (unsigned int i = 0; i < NMAX; ++i) if (i < t.n) s.e[s.n++] = t.e[i];
	VP_POST("append moves all fields of the other list to the end, in order", same_list(&l, &s));
	VP_POST("the other list is empty", same_list(&o, &empty));
	VP_POST("nothing allocated or released", vp_live_allocs == live);
	/* both remain usable */
	uint8_t tmp[VMAX] = { 1, 2 };
	VP_POST("push after append", emv_tlv_list_push(&l, 0x9F02, 2, tmp, 7) == 0);
	seq_push(&s, 0x9F02, 2, tmp, 7);
	VP_POST("push after append goes to the end", same_list(&l, &s));
	VP_COVER("both non-empty", t.n == NMAX && s.n == 2 * NMAX + 1);
	VP_COVER("other empty", t.n == 0 && s.n == 3);
	emv_tlv_list_clear(&l);
	emv_tlv_list_clear(&o);
	VP_POST("clear releases everything", vp_live_allocs == 0);
	VP_POST("NULL rejected", emv_tlv_list_append(NULL, &o) < 0 && emv_tlv_list_append(&l, NULL) < 0);
}

/* value of any length, any contents (copy checked at an arbitrary index) */
#ifdef P_PUSH
size_t g_k;
int emv_tlv_list_push(struct emv_tlv_list_t* list, unsigned int tag, unsigned int length, const uint8_t* value, uint8_t flags)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(length > 0 && length <= 0x7FFFFFFF && g_k < length && __CPROVER_is_fresh(value, length))
__CPROVER_requires((list->front == NULL && list->back == NULL) ||
	(__CPROVER_is_fresh(list->front, sizeof(struct emv_tlv_t)) && __CPROVER_is_fresh(list->back, sizeof(struct emv_tlv_t)) && list->back->next == NULL))
__CPROVER_assigns(list->front == NULL: list->front, list->back; list->front != NULL: list->back, list->back->next)
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures(__CPROVER_return_value < 0 ==> (list->front == __CPROVER_old(list->front) && list->back == __CPROVER_old(list->back) && (list->back == NULL || list->back->next == NULL)))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (list->back->tag == tag && list->back->length == length && list->back->flags == flags && list->back->next == NULL))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (list->back->value != value && list->back->value[g_k] == value[g_k]))
__CPROVER_ensures((__CPROVER_return_value == 0 && __CPROVER_old(list->front) == NULL) ==> list->front == list->back)
__CPROVER_ensures((__CPROVER_return_value == 0 && __CPROVER_old(list->front) != NULL) ==> (list->front == __CPROVER_old(list->front) && __CPROVER_old(list->back)->next == list->back))
;
void p_push(void)
{
	struct emv_tlv_list_t* list; unsigned int tag, length; const uint8_t* value; uint8_t flags;
	int r = emv_tlv_list_push(list, tag, length, value, flags);
	VP_COVER("long value", r == 0 && length > 1000);
}
#endif

/* ================= C04: parse ========================================== */

/* One level of emv_tlv_parse(): the BER iterator is replaced by its contract
 * (an arbitrary series of fields followed by end of data or an error) and the
 * recursive call by its own contract (appends the primitive fields of the
 * contents in order, here one marker per constructed field, or fails). */
#ifndef PARSE_N
#define PARSE_N 4
#endif
struct field { unsigned int tag, len; uint8_t flags; uint8_t v[2]; int rec_r; };
static struct field pf[PARSE_N];
static unsigned int pf_n, pf_next, pf_rec;
static int pf_end;
static struct emv_tlv_list_t* pf_list;
static uint8_t pf_mem[1];

int late_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list);
#if defined(VP_LATE_PART) || defined(VP_NATIVE)
int late_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list) { return emv_tlv_parse(ptr, len, list); }
#endif
#ifndef VP_LATE_PART
int stub_parse(const void* ptr, size_t len, struct emv_tlv_list_t* list)
{
	unsigned int i = pf_next - 1;
	VP_POST("recursion into the contents of the constructed field", pf_next > 0 && (pf[i].flags & 0x20) && ptr == pf[i].v && len == pf[i].len && list == pf_list);
	++pf_rec;
	if (pf[i].rec_r) return pf[i].rec_r;
	uint8_t none = 0;
	return emv_tlv_list_push(list, 0xAAAA0000 + i, 0, &none, 0) ? -2 : 0;
}
int stub_itr_init(const void* ptr, size_t len, struct iso8825_ber_itr_t* itr)
{
	VP_POST("iterates over the given data", ptr == pf_mem && len == 1);
	itr->ptr = ptr; itr->len = len;
	return 0;
}
int stub_itr_next(struct iso8825_ber_itr_t* itr, struct iso8825_tlv_t* tlv)
{
	VP_POST("the iterator is not used after its end", pf_next <= pf_n);
	if (pf_next == pf_n) {
		++pf_next;
		return pf_end;
	}
	tlv->tag = pf[pf_next].tag; tlv->length = pf[pf_next].len; tlv->flags = pf[pf_next].flags; tlv->value = pf[pf_next].v;
	++pf_next;
	return 2 + tlv->length;
}
void i_parse(void)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	uint8_t pre = 0x55;
	bool has_pre = vp_bool();
	pf_next = pf_rec = 0;
	pf_n = vp_size(PARSE_N);
	pf_end = vp_bool() ? 0 : -7;
	pf_list = &l;
	for (unsigned int i = 0; i < PARSE_N; ++i) {
		pf[i].tag = vp_u32(); pf[i].len = vp_size(2); pf[i].flags = vp_u8() & 0xE0; vp_fill(pf[i].v, 2);
		pf[i].rec_r = vp_int();
	}
	if (has_pre) VP_ASSUME(emv_tlv_list_push(&l, 0x77777777, 1, &pre, 3) == 0);
	vp_alloc_may_fail = true;
	int r = late_parse(pf_mem, 1, &l);
	/* expected */
	int er = pf_end ? 1 : 0;
	unsigned int stop = pf_n;
	for (unsigned int i = PARSE_N; i-- > 0;) if (i < pf_n && (pf[i].flags & 0x20) && pf[i].rec_r) { stop = i; er = pf[i].rec_r; }
	const struct emv_tlv_t* t = l.front;
	if (has_pre) {
		VP_POST("existing fields stay in front", t && t->tag == 0x77777777 && t->length == 1 && t->value[0] == 0x55 && t->flags == 3);
		t = t->next;
	}
	if (vp_alloc_did_fail) {
		VP_POST("out of memory reported", r < 0);
		/* what was parsed before remains, in order */
		for (unsigned int i = 0; i < PARSE_N; ++i) {
			if (t) {
				VP_POST("prefix kept", i < stop && t->tag == ((pf[i].flags & 0x20) ? 0xAAAA0000 + i : pf[i].tag));
				t = t->next;
			}
		}
	} else {
		VP_POST("result", (er == 0) == (r == 0) && (er < 0) == (r < 0));
		for (unsigned int i = 0; i < PARSE_N; ++i) {
			if (i < stop) {
				VP_POST("a field for each field", t != NULL);
				if (pf[i].flags & 0x20) {
					VP_POST("constructed field replaced by its contents", t->tag == 0xAAAA0000 + i);
				} else {
					VP_POST("primitive field", t->tag == pf[i].tag && t->length == pf[i].len && t->flags == 0);
					VP_POST("deep copy of the value", t->value != pf[i].v && (t->length < 1 || t->value[0] == pf[i].v[0]) && (t->length < 2 || t->value[1] == pf[i].v[1]));
				}
				t = t->next;
			}
		}
		VP_POST("all fields consumed", er != 0 || pf_next == pf_n + 1);
	}
	VP_POST("nothing else in the list", t == NULL);
	VP_COVER("all four", r == 0 && pf_n == PARSE_N && pf_rec == 2);
	VP_COVER("out of memory", vp_alloc_did_fail && l.front);
	VP_COVER("malformed", r > 0);
	vp_alloc_may_fail = false;
	emv_tlv_list_clear(&l);
	VP_POST("clear releases everything", vp_live_allocs == 0);
}
#endif

/* replayable, whole function with the real decoder */
#define FMAX 24
static unsigned int fl_tag[FMAX], fl_off[FMAX], fl_len[FMAX], fl_n;
static size_t f_any(const uint8_t* p, size_t len, size_t* hdr, size_t* vlen, unsigned int* tag)
{
	size_t tl = 1, n, v;
	if (len < 1) return 0;
	if ((p[0] & 0x1F) == 0x1F) {
		do { if (tl >= len || tl >= 4) return 0; } while (p[tl++] & 0x80);
	}
	if (tl >= len) return 0;
	*tag = 0;
	for (size_t i = 0; i < tl; ++i) *tag = (*tag << 8) | p[i];
	if (p[tl] == 0x80) {
		size_t pos = tl + 1, h2, v2; unsigned int t2;
		if (!(p[0] & 0x20)) return 0;
		for (;;) {
			if (pos >= len) return 0;
			n = f_any(p + pos, len - pos, &h2, &v2, &t2);
			if (!n) return 0;
			if (t2 == 0) break;
			pos += n;
		}
		*hdr = tl + 1; *vlen = pos - tl - 1;
		return pos + n;
	}
	if (p[tl] < 0x80) { v = p[tl]; *hdr = tl + 1; }
	else {
		n = p[tl] & 0x7F;
		if (n > 4 || tl + 1 + n > len) return 0;
		v = 0;
		for (size_t i = 0; i < n; ++i) v = (v << 8) | p[tl + 1 + i];
		*hdr = tl + 1 + n;
	}
	if (v > len - *hdr) return 0;
	*vlen = v;
	return *hdr + v;
}
static bool f_flat(const uint8_t* base, size_t off, size_t len)
{
	size_t end = off + len;
	while (off < end) {
		size_t hdr, vlen, n; unsigned int tag;
		n = f_any(base + off, end - off, &hdr, &vlen, &tag);
		if (!n) return false;
		if (base[off] & 0x20) {
			if (!f_flat(base, off + hdr, vlen)) return false;
		} else {
			fl_tag[fl_n] = tag; fl_off[fl_n] = off + hdr; fl_len[fl_n] = vlen; ++fl_n;
		}
		off += n;
	}
	return true;
}
void f_parse(void)
{
	size_t len = vp_size(32);
	uint8_t* p = vp_buf(len, 32);
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	fl_n = 0;
	bool ok = f_flat(p, 0, len);
	int r = emv_tlv_parse(p, len, &l);
	VP_POST("well-formed data accepted, other data rejected", ok ? r == 0 : r > 0);
	const struct emv_tlv_t* t = l.front;
	uint8_t copy[32];
	memcpy(copy, p, len);
	memset(p, 0xEE, len);
	for (unsigned int i = 0; i < fl_n; ++i, t = t->next) {
		VP_POST("field present", t && t->tag == fl_tag[i] && t->length == fl_len[i] && t->flags == 0);
		for (unsigned int k = 0; k < fl_len[i]; ++k) VP_POST("value copied", t->value[k] == copy[fl_off[i] + k]);
	}
	VP_POST("no other fields", t == NULL);
	emv_tlv_list_clear(&l);
	VP_POST("clear releases everything", vp_live_allocs == 0);
}
