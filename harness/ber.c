/* ISO 8825 BER decoding: executable specification, contracts and harnesses */
#include "vp.h"
#include "iso8825_ber.h"

/* ---- specification (written from ISO 8825-1:2003, 8.1) ---- */

struct spec_tlv { unsigned int tag; unsigned int length; size_t hdr; size_t total; uint8_t flags; };

/* octets of the identifier (1..4), 0 if malformed or larger than 4 octets */
static size_t spec_tag_len(const uint8_t* p, size_t len)
{
	if (len < 1) return 0;
	if ((p[0] & 0x1F) != 0x1F) return 1;
	if (len < 2) return 0;
	if (!(p[1] & 0x80)) return 2;
	if (len < 3) return 0;
	if (!(p[2] & 0x80)) return 3;
	if (len < 4) return 0;
	if (!(p[3] & 0x80)) return 4;
	return 0;
}
static unsigned int spec_tag(const uint8_t* p, size_t n)
{
	unsigned int t = p[0];
	if (n > 1) t = (t << 8) | p[1];
	if (n > 2) t = (t << 8) | p[2];
	if (n > 3) t = (t << 8) | p[3];
	return t;
}
/* definite length form; false if malformed. tl is the length of the identifier */
static bool spec_definite(const uint8_t* p, size_t len, size_t tl, struct spec_tlv* out)
{
	size_t n, v;
	if (tl == 0 || tl >= len) return false;
	if (p[tl] < 0x80) {
		v = p[tl];
		out->hdr = tl + 1;
	} else {
		n = p[tl] & 0x7F;
		if (n == 0 || n > 4 || tl + 1 + n > len) return false;
		v = p[tl + 1];
		if (n > 1) v = (v << 8) | p[tl + 2];
		if (n > 2) v = (v << 8) | p[tl + 3];
		if (n > 3) v = (v << 8) | p[tl + 4];
		out->hdr = tl + 1 + n;
	}
	if (v > len - out->hdr) return false;
	out->tag = spec_tag(p, tl);
	out->length = (unsigned int)v;
	out->total = out->hdr + v;
	out->flags = p[0] & 0xE0;
	return true;
}

/* contract of the callee as used by callers; enforced in job tag_contract */
#define TAG_CONTRACT \
int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag) \
__CPROVER_requires(ptr != NULL && len > 0 && __CPROVER_r_ok(ptr, len) && __CPROVER_w_ok(tag, sizeof(*tag))) \
__CPROVER_assigns(*tag) \
__CPROVER_ensures(__CPROVER_return_value != 0) \
__CPROVER_ensures((__CPROVER_return_value > 0) == (spec_tag_len(ptr, len) > 0)) \
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value == spec_tag_len(ptr, len)) \
__CPROVER_ensures(__CPROVER_return_value > 0 ==> *tag == spec_tag(ptr, spec_tag_len(ptr, len))) \
;

#ifdef P_TAG
int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag)
__CPROVER_requires(__CPROVER_is_fresh(ptr, len) && __CPROVER_is_fresh(tag, sizeof(*tag)))
__CPROVER_assigns(*tag)
__CPROVER_ensures((__CPROVER_return_value == 0) == (len == 0))
__CPROVER_ensures((__CPROVER_return_value > 0) == (spec_tag_len(ptr, len) > 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value == spec_tag_len(ptr, len))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> *tag == spec_tag(ptr, spec_tag_len(ptr, len)))
;
void p_tag(void)
{
	const void* ptr; size_t len; unsigned int* tag;
	int r = iso8825_ber_tag_decode(ptr, len, tag);
	VP_COVER("tag decoded", r == 4);
	VP_COVER("tag rejected", r < 0);
}
#endif

#ifdef P_DEF
TAG_CONTRACT
static bool is_indefinite(const uint8_t* p, size_t len)
{
	size_t tl = spec_tag_len(p, len);
	return tl && tl < len && p[tl] == 0x80 && (p[0] & 0x20);
}
static bool post_definite(int r, const uint8_t* p, size_t len, const struct iso8825_tlv_t* tlv)
{
	struct spec_tlv s;
	if (len == 0) return r == 0;
	if (!spec_definite(p, len, spec_tag_len(p, len), &s)) return r < 0;
	return r > 0 && (size_t)r == s.total && tlv->tag == s.tag && tlv->length == s.length &&
		tlv->value == p + s.hdr && tlv->flags == s.flags;
}
/* recursive contract: the definite form is exact; the indefinite form stays
 * within the data and is followed by an end-of-contents tag */
int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
__CPROVER_requires(len <= 0x7FFFFFFF)
__CPROVER_requires(__CPROVER_is_fresh(ptr, len) && __CPROVER_is_fresh(tlv, sizeof(*tlv)))
__CPROVER_requires(!is_indefinite(ptr, len))
__CPROVER_assigns(tlv->tag, tlv->length, tlv->value, tlv->flags)
__CPROVER_ensures(post_definite(__CPROVER_return_value, ptr, len, tlv))
;
void p_def(void)
{
	const void* ptr; size_t len; struct iso8825_tlv_t* tlv;
	int r = iso8825_ber_decode(ptr, len, tlv);
	VP_COVER("field decoded", r > 300);
	VP_COVER("field rejected", r < 0);
}
#endif

#ifdef P_REC
TAG_CONTRACT
/* Any data of any size and nesting: the recursive calls are replaced by this
 * contract, and the loop over the contents has a loop contract */
static bool post_any(int r, const uint8_t* p, size_t len, const struct iso8825_tlv_t* tlv)
{
	size_t tl = spec_tag_len(p, len);
	if (len == 0) return r == 0;
	if (r <= 0) return r < 0;
	if ((size_t)r > len || r < 2 || tl == 0 || tl >= len) return false;
	if (tlv->tag != spec_tag(p, tl) || tlv->flags != (p[0] & 0xE0)) return false;
	if (p[tl] == 0x80) {
		/* the contents, followed by end-of-contents */
		return (p[0] & 0x20) && tlv->value == p + tl + 1 && (size_t)tlv->length + tl + 1 + 2 <= (size_t)r &&
			tlv->value[tlv->length] == 0;
	}
	return tlv->value >= p + 2 && tlv->value + tlv->length == p + r;
}
int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
__CPROVER_requires(len <= 0x7FFFFFFF)
__CPROVER_requires(__CPROVER_is_fresh(ptr, len) && __CPROVER_is_fresh(tlv, sizeof(*tlv)))
__CPROVER_assigns(tlv->tag, tlv->length, tlv->value, tlv->flags)
__CPROVER_ensures((len == 0) == (__CPROVER_return_value == 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> (size_t)__CPROVER_return_value <= len)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> __CPROVER_pointer_in_range_dfcc((const uint8_t*)ptr, tlv->value, (const uint8_t*)ptr + len))
__CPROVER_ensures(post_any(__CPROVER_return_value, ptr, len, tlv))
;
void p_rec(void)
{
	const void* ptr; size_t len; struct iso8825_tlv_t* tlv;
	int r = iso8825_ber_decode(ptr, len, tlv);
	VP_COVER("decoded", r > 300);
	VP_COVER("rejected", r < 0);
}
#endif

/* ---- bounded harnesses with replayable inputs ---- */

#ifndef MAXLEN
#define MAXLEN 12
#endif

void b_tag(void)
{
	size_t len = vp_size(6);
	uint8_t* p = vp_buf(len, 6);
	unsigned int tag = 0;
	int r = iso8825_ber_tag_decode(p, len, &tag);
	size_t n = spec_tag_len(p, len);
	VP_POST("zero only at end of data", (r == 0) == (len == 0));
	VP_POST("well-formed identifiers accepted, others rejected", (r > 0) == (n > 0));
	if (r > 0) {
		VP_POST("identifier octets consumed", (size_t)r == n);
		VP_POST("tag value", tag == spec_tag(p, n));
	}
	VP_COVER("4 octets", r == 4);
	VP_COVER("rejected", r < 0);
}

static void check_definite(const uint8_t* p, size_t len)
{
	struct iso8825_tlv_t tlv;
	struct spec_tlv s;
	size_t tl = spec_tag_len(p, len);
	VP_ASSUME(!(tl && tl < len && p[tl] == 0x80 && (p[0] & 0x20)));
	int r = iso8825_ber_decode(p, len, &tlv);
	if (len == 0) {
		VP_POST("end of data", r == 0);
	} else if (!spec_definite(p, len, tl, &s)) {
		VP_POST("malformed or truncated field rejected", r < 0);
	} else {
		VP_POST("well-formed field accepted", r > 0);
		VP_POST("octets consumed", (size_t)r == s.total);
		VP_POST("tag", tlv.tag == s.tag);
		VP_POST("length", tlv.length == s.length);
		VP_POST("value is in place, after the header", tlv.value == p + s.hdr);
		VP_POST("value within the data", (size_t)(tlv.value - p) + tlv.length <= len);
		VP_POST("class", iso8825_ber_get_class(&tlv) == (p[0] & 0xC0));
		VP_POST("constructed", iso8825_ber_is_constructed(&tlv) == !!(p[0] & 0x20));
		VP_COVER("accepted", true);
		VP_COVER("long form", s.hdr - tl > 1);
	}
	VP_COVER("rejected", r < 0);
}

void b_def(void)
{
	size_t len = vp_size(MAXLEN);
	uint8_t* p = vp_buf(len, MAXLEN);
	check_definite(p, len);
}

/* long fields: any header, up to 70000 octets of data (only the header is
 * unconstrained) */
void b_def_long(void)
{
	size_t len = vp_size(70000);
	VP_ASSUME(len >= 10);
	uint8_t* p = malloc(len);
	VP_ASSUME(p != NULL);
	vp_fill(p, 10);
	check_definite(p, len);
}

/* ---- indefinite form ---- */

/* ISO 8825-1, 8.1.3.6 and 8.1.5: contents are a series of complete encodings,
 * ended by the first end-of-contents octets 00 00 at the same level.
 * Returns octets of the whole field or 0 if malformed. */
#ifndef INDEF_DEPTH
#define INDEF_DEPTH 3
#endif
static size_t spec_any(const uint8_t* p, size_t len, struct spec_tlv* out, unsigned int depth)
{
	size_t tl = spec_tag_len(p, len);
	if (tl == 0 || tl >= len) return 0;
	if (p[tl] == 0x80) {
		size_t pos = tl + 1;
		if (!(p[0] & 0x20) || depth == 0) return 0;
		for (unsigned int i = 0; i < MAXLEN; ++i) {
			struct spec_tlv in;
			size_t n;
			if (pos >= len) return 0;
			n = spec_any(p + pos, len - pos, &in, depth - 1);
			if (n == 0) return 0;
			if (in.tag == 0) {
				out->tag = spec_tag(p, tl);
				out->hdr = tl + 1;
				out->length = pos - (tl + 1);
				out->total = pos + n;
				out->flags = p[0] & 0xE0;
				return out->total;
			}
			pos += n;
		}
		return 0;
	}
	if (!spec_definite(p, len, tl, out)) return 0;
	return out->total;
}

#ifdef P_IND
/* Induction on the size of the data: the contract says that the result is that
 * of the specification, which for the data remaining at each position i is
 * given by the (otherwise arbitrary) table ind[i], and which at position 0
 * follows from the rest of the table by 8.1.3.6. Enforced for the call by the
 * harness, and used in place of the calls that the decoder makes to itself. */
static const uint8_t* ind_base;
static size_t ind_len;
static struct { int r; unsigned int tag, length, hdr; uint8_t flags; } ind[MAXLEN + 1];
int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
__CPROVER_requires(len <= ind_len && (const uint8_t*)ptr == ind_base + (ind_len - len))
__CPROVER_requires(__CPROVER_w_ok(tlv, sizeof(*tlv)))
__CPROVER_assigns(tlv->tag, tlv->length, tlv->value, tlv->flags)
__CPROVER_ensures((__CPROVER_return_value == 0) == (len == 0))
__CPROVER_ensures((__CPROVER_return_value < 0) == (len != 0 && ind[ind_len - len].r < 0))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> __CPROVER_return_value == ind[ind_len - len].r)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> tlv->tag == ind[ind_len - len].tag)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> tlv->length == ind[ind_len - len].length)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> tlv->flags == ind[ind_len - len].flags)
__CPROVER_ensures(__CPROVER_return_value > 0 ==> __CPROVER_pointer_equals(tlv->value, (const uint8_t*)ptr + ind[ind_len - len].hdr))
;
void p_ind(void)
{
	struct iso8825_tlv_t tlv;
	size_t len = vp_size(MAXLEN);
	uint8_t* p = vp_buf(len, MAXLEN);
	ind_base = p;
	ind_len = len;
	for (size_t i = 1; i < MAXLEN; ++i) {
		int n = vp_int();
		VP_ASSUME(n < 0 || (n >= 2 && i < len && (size_t)n <= len - i));
		ind[i].r = n;
		ind[i].tag = vp_u32();
		ind[i].hdr = vp_u8();
		ind[i].length = vp_u32();
		ind[i].flags = vp_u8();
		VP_ASSUME(n < 0 || (ind[i].hdr >= 2 && ind[i].hdr <= n && ind[i].length <= n - ind[i].hdr));
	}
	size_t tl = spec_tag_len(p, len);
	VP_ASSUME(tl && tl < len && p[tl] == 0x80);
	size_t pos = tl + 1, n = 0;
	bool end = !(p[0] & 0x20);
	for (unsigned int i = 0; i < MAXLEN / 2; ++i) {
		if (!end && n == 0) {
			if (pos >= len || ind[pos].r < 0) end = true;
			else if (ind[pos].tag == 0) n = ind[pos].r;
			else pos += ind[pos].r;
		}
	}
	ind[0].r = n ? (int)(pos + n) : -1;
	ind[0].tag = spec_tag(p, tl);
	ind[0].hdr = tl + 1;
	ind[0].length = pos - (tl + 1);
	ind[0].flags = p[0] & 0xE0;
	int r = iso8825_ber_decode(p, len, &tlv);
	VP_COVER("several fields", r > 0 && tlv.length > 4 && ind[tl + 1].r == 2);
	VP_COVER("missing end-of-contents", r < 0 && (p[0] & 0x20));
}
#endif

void b_indef(void)
{
	struct iso8825_tlv_t tlv;
	struct spec_tlv s;
	size_t len = vp_size(MAXLEN);
	uint8_t* p = vp_buf(len, MAXLEN);
	int r = iso8825_ber_decode(p, len, &tlv);
	size_t n = spec_any(p, len, &s, INDEF_DEPTH);
	if (len) {
		VP_POST("well-formed fields accepted, others rejected", n ? r > 0 : r < 0);
	} else {
		VP_POST("end of data", r == 0);
	}
	if (n && r > 0) {
		VP_POST("octets consumed include the end-of-contents octets", (size_t)r == n);
		VP_POST("tag", tlv.tag == s.tag);
		VP_POST("length excludes the end-of-contents octets", tlv.length == s.length);
		VP_POST("value in place", tlv.value == p + s.hdr);
		VP_POST("flags", tlv.flags == s.flags);
		VP_COVER("nested indefinite", (p[0] & 0x20) && p[1] == 0x80 && (p[2] & 0x20) && p[3] == 0x80);
		VP_COVER("indefinite", (p[0] & 0x20) && p[1] == 0x80 && tlv.length > 4);
	}
	VP_COVER("rejected", r < 0);
}

/* ---- iterator ---- */

/* The iterator against the contract of the decoder: advances by exactly what
 * the decoder consumed, whatever that is, and not otherwise. With the contract
 * of the decoder this makes successive fields tile the data. */
static int itr_r; static struct iso8825_tlv_t itr_tlv; static const void* itr_ptr; static size_t itr_len; static unsigned int itr_calls;
int stub_itr_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	itr_ptr = ptr; itr_len = len; ++itr_calls;
	if (itr_r > 0) *tlv = itr_tlv;
	return itr_r;
}
void i_itr(void)
{
	static uint8_t mem[1];
	struct iso8825_ber_itr_t itr;
	struct iso8825_tlv_t tlv;
	size_t len = vp_size(0x7FFFFFFF);
	itr_calls = 0;
	VP_POST("init", iso8825_ber_itr_init(mem, len, &itr) == 0);
	VP_POST("init rejects NULL", iso8825_ber_itr_init(NULL, len, &itr) < 0 && iso8825_ber_itr_init(mem, len, NULL) < 0);
	itr_r = vp_int();
	VP_ASSUME(itr_r <= 0 || (size_t)itr_r <= len);
	VP_ASSUME((itr_r == 0) == (len == 0));
	itr_tlv.tag = vp_u32(); itr_tlv.length = vp_u32(); itr_tlv.flags = vp_u8(); itr_tlv.value = mem;
	int r = iso8825_ber_itr_next(&itr, &tlv);
	VP_POST("decoded at the current position, all remaining data", itr_calls == 1 && itr_ptr == mem && itr_len == len);
	VP_POST("result is that of the decoder", r == itr_r);
	if (r > 0) {
		VP_POST("field is that of the decoder", tlv.tag == itr_tlv.tag && tlv.length == itr_tlv.length && tlv.flags == itr_tlv.flags && tlv.value == mem);
	}
	size_t used = itr_r > 0 ? (size_t)itr_r : 0;
	int r1 = itr_r;
	itr_r = vp_int();
	r = iso8825_ber_itr_next(&itr, &tlv);
	VP_POST("next call continues directly after the field", itr_calls == 2 && (uintptr_t)itr_ptr == (uintptr_t)mem + used && itr_len == len - used);
	VP_COVER("advanced", r1 > 5 && r > 0);
}

void b_itr(void)
{
	struct iso8825_ber_itr_t itr;
	struct iso8825_tlv_t tlv;
	struct spec_tlv s;
	size_t len = vp_size(MAXLEN);
	uint8_t* p = vp_buf(len, MAXLEN);
	size_t pos = 0;
	int r = iso8825_ber_itr_init(p, len, &itr);
	VP_POST("init", r == 0);
	for (unsigned int i = 0; i <= MAXLEN / 2; ++i) {
		r = iso8825_ber_itr_next(&itr, &tlv);
		if (pos == len) {
			VP_POST("end of data exactly when all octets were consumed", r == 0);
			VP_COVER("three fields", i >= 3);
			break;
		}
		size_t n = spec_any(p + pos, len - pos, &s, INDEF_DEPTH);
		if (n == 0) {
			VP_POST("malformed remainder reported", r < 0);
			VP_COVER("malformed after first", i >= 1);
			/* and the iterator stays where it is */
			VP_POST("error is repeatable", iso8825_ber_itr_next(&itr, &tlv) < 0);
			break;
		}
		VP_POST("next field", r > 0 && (size_t)r == n && tlv.tag == s.tag && tlv.length == s.length &&
			tlv.value == p + pos + s.hdr && tlv.flags == s.flags);
		pos += n;
	}
}

/* ---- OID ---- */
#ifndef OIDLEN
#define OIDLEN 12
#endif
void b_oid(void)
{
	struct iso8825_oid_t oid;
	size_t len = vp_size(OIDLEN);
	uint8_t* p = vp_buf(len, OIDLEN);
	uint32_t v[OIDLEN + 3];
	unsigned int n = 0;
	bool complete = true, fits = true;
	int r = iso8825_ber_oid_decode(p, len, &oid);
	if (len == 0) {
		VP_POST("empty rejected", r < 0);
		return;
	}
	uint64_t cur = 0;
	for (size_t i = 0; i < OIDLEN; ++i) {
		if (i < len) {
			cur = (cur << 7) | (p[i] & 0x7F);
			if (cur > 0xFFFFFFFF) { fits = false; cur = 0; }
			if (p[i] & 0x80) {
				complete = false;
			} else {
				if (n == 0) {
					/* the first subidentifier holds two arcs */
					v[0] = cur < 80 ? (uint32_t)cur / 40 : 2;
					v[1] = (uint32_t)cur - 40 * v[0];
					n = 2;
				} else {
					v[n++] = (uint32_t)cur;
				}
				cur = 0;
				complete = true;
			}
		}
	}
	if (r == 0) {
		VP_POST("count within the structure", oid.length >= 2 && oid.length <= 10);
	}
	if (complete && fits) {
		VP_POST("accepted if it fits the structure", (r == 0) == (n <= 10));
		if (r == 0) {
			unsigned int k = vp_size(9);
			VP_POST("number of subidentifiers", oid.length == n);
			VP_POST("subidentifier", k >= n || oid.value[k] == v[k]);
			VP_COVER("multi octet subidentifier", n == 4 && v[3] > 0xFFFFFF);
			VP_COVER("multi octet first subidentifier", v[0] == 2 && v[1] > 0xFFFFFF);
		}
		VP_COVER("too many", r < 0);
	}
}
#ifdef P_OID
int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oid)
__CPROVER_requires(__CPROVER_is_fresh(ptr, len) && __CPROVER_is_fresh(oid, sizeof(*oid)))
__CPROVER_assigns(__CPROVER_object_whole(oid))
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures((len == 0 || len >= 40) ==> __CPROVER_return_value < 0)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (oid->length >= 2 && oid->length <= 10))
__CPROVER_ensures(__CPROVER_return_value == 0 && ((const uint8_t*)ptr)[0] < 0x80 ==> (oid->value[0] == (((const uint8_t*)ptr)[0] < 40 ? 0 : ((const uint8_t*)ptr)[0] < 80 ? 1 : 2)))
__CPROVER_ensures(__CPROVER_return_value == 0 && ((const uint8_t*)ptr)[0] < 0x80 ==> (oid->value[1] == ((const uint8_t*)ptr)[0] - 40 * oid->value[0]))
;
void p_oid(void)
{
	const void* ptr; size_t len; struct iso8825_oid_t* oid;
	int r = iso8825_ber_oid_decode(ptr, len, oid);
	VP_COVER("decoded", r == 0);
	VP_COVER("rejected", r < 0);
}
#endif
/* long OIDs never leave the structure (memory safety, checked by bounds obligations) */
void b_oid_long(void)
{
	struct iso8825_oid_t oid;
	size_t len = vp_size(48);
	VP_ASSUME(len > OIDLEN);
	uint8_t* p = vp_buf(len, 48);
	int r = iso8825_ber_oid_decode(p, len, &oid);
	VP_POST("too long rejected", len < 40 || r < 0);
	VP_POST("count within the structure", r != 0 || (oid.length >= 2 && oid.length <= 10));
	VP_COVER("accepted", r == 0);
}
