/* Reader access (pcsc.c) against the contract of the PC/SC functions that it calls */
#include "vp.h"
#include "pcsc.h"
#include <winscard.h>
#include <reader.h>

#ifndef NR
#define NR 1 /* readers */
#endif
#ifndef NF
#define NF 3 /* entries of the feature list */
#endif
#ifndef NP
#define NP 6 /* octets of properties */
#endif
#ifndef NATR
#define NATR 8
#endif
#ifndef NFEAT
#define NFEAT 0
#endif
#define CTX 0x1234
/* memcpy of the code under test, octet by octet */
void* pc_memcpy(void* d, const void* s, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		((uint8_t*)d)[i] = ((const uint8_t*)s)[i];
	}
	return d;
}

#define CARD 0x4321
#define REQ SCARD_CTL_CODE(3400)
const SCARD_IO_REQUEST g_rgSCardT0Pci = { 1, 0 }, g_rgSCardT1Pci = { 2, 0 }, g_rgSCardRawPci = { 4, 0 };

/* names of the readers, as the resource manager lists them */
#if NR == 0
static const char list[] = "";
#elif NR == 1
static const char list[] = "R1\0";
#else
static const char list[] = "R1\0Rd2\0";
#endif
static const size_t at[2] = { 0, 3 };
static bool same(const char* a, size_t i)
{
	size_t k = 0;
	for (; k < 4 && list[at[i] + k]; ++k) {
		if (a[k] != list[at[i] + k]) {
			return false;
		}
	}
	return a[k] == 0;
}

#ifndef FAIL_ALLOC
#define FAIL_ALLOC 0
#endif
static unsigned int allocs, live, calls;
static bool alloc_failed;
void* pc_malloc(size_t n)
{
	if (++allocs == FAIL_ALLOC) {
		alloc_failed = true;
		return NULL;
	}
	++live;
	return malloc(n);
}
void* pc_calloc(size_t n, size_t m)
{
	if (++allocs == FAIL_ALLOC) {
		alloc_failed = true;
		return NULL;
	}
	++live;
	return calloc(n, m);
}
void pc_free(void* p)
{
	live -= p != NULL;
	free(p);
}
static bool ctx_open, may_fail;
static int sessions; /* connected */
static DWORD mode, proto, final_proto;
static bool failed; /* something that the reader was asked for failed */
static uint8_t feat[NF * 6 + 1], props[NP + 1];
static size_t n_feat, n_props;
static uint16_t layout, chars, lines;
static uint8_t atr[MAX_ATR_SIZE];
static size_t n_atr;
static unsigned int transmits;

static LONG outcome(void)
{
#ifdef FAIL_CALL
	if (++calls == FAIL_CALL) {
#else
	if (may_fail && vp_bool()) {
#endif
		failed = true;
		return vp_bool() ? SCARD_E_NO_SERVICE : SCARD_F_COMM_ERROR;
	}
	return SCARD_S_SUCCESS;
}
#ifdef VP_NATIVE
#define S_POST VP_POST
#else
#define S_POST VP_POST
#endif
const char* pcsc_stringify_error(const LONG e) { return "e"; }
LONG SCardEstablishContext(DWORD scope, LPCVOID a, LPCVOID b, LPSCARDCONTEXT c)
{
	LONG r = outcome();
	S_POST("one_context", !ctx_open);
	if (!r) {
		ctx_open = true;
		*c = CTX;
	}
	return r;
}
LONG SCardReleaseContext(SCARDCONTEXT c)
{
	S_POST("context_released_once", ctx_open ? c == CTX : c == 0);
	S_POST("no_card_left_connected", sessions == 0);
	ctx_open = false;
	return SCARD_S_SUCCESS;
}
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR g, LPSTR buf, LPDWORD n)
{
	S_POST("context", ctx_open && c == CTX);
	LONG r = outcome();
	if (buf) {
		S_POST("list_size", *n >= sizeof(list));
		for (size_t i = 0; i < sizeof(list); ++i) {
			buf[i] = list[i];
		}
	}
	*n = sizeof(list);
	return r;
}
LONG SCardConnect(SCARDCONTEXT c, LPCSTR name, DWORD share, DWORD preferred, LPSCARDHANDLE card, LPDWORD p)
{
	S_POST("context", ctx_open && c == CTX);
	S_POST("one_session", sessions == 0);
	bool known = false;
	for (size_t i = 0; i < NR; ++i) {
		known |= same(name, i);
	}
	S_POST("reader_name", known);
	LONG r = outcome();
	if (!r) {
		*card = CARD;
		sessions = 1;
		mode = share;
		*p = share == SCARD_SHARE_DIRECT ? 0 : proto;
	}
	return r;
}
LONG SCardDisconnect(SCARDHANDLE card, DWORD d)
{
	S_POST("disconnect_connected", sessions == 1 && card == CARD);
	S_POST("disposition", d == (mode == SCARD_SHARE_DIRECT ? SCARD_LEAVE_CARD : SCARD_UNPOWER_CARD));
	sessions = 0;
	return outcome();
}
/* control code of the first entry of the feature list with this tag */
static bool code_of(uint8_t tag, DWORD* code)
{
	for (size_t i = 0; i < NF && (i + 1) * 6 <= n_feat; ++i) {
		if (feat[6 * i] == tag) {
			*code = (uint32_t)feat[6 * i + 2] << 24 | (uint32_t)feat[6 * i + 3] << 16 | (uint32_t)feat[6 * i + 4] << 8 | feat[6 * i + 5];
			return true;
		}
	}
	return false;
}
LONG SCardControl(SCARDHANDLE card, DWORD code, LPCVOID in, DWORD in_len, LPVOID out, DWORD out_len, LPDWORD got)
{
	DWORD k;
	uint8_t* p = out;
	S_POST("control_connected", sessions == 1 && card == CARD);
	*got = 0;
	LONG r = outcome();
	if (r) {
		return r;
	}
	if (code == REQ) {
		S_POST("feature_buffer", out_len >= MAX_BUFFER_SIZE);
		for (size_t i = 0; i < NF * 6 + 1; ++i) {
			if (i < n_feat) {
				p[i] = feat[i];
			}
		}
		*got = n_feat;
		return r;
	}
	if (code_of(0x0A, &k) && k == code) {
		S_POST("pin_buffer", out_len >= 4);
		PIN_PROPERTIES_STRUCTURE* q = out;
		q->wLcdLayout = layout;
		*got = sizeof(*q);
	} else if (code_of(0x11, &k) && k == code) {
		S_POST("display_buffer", out_len >= 4);
		p[0] = (uint8_t)chars; p[1] = (uint8_t)(chars >> 8); p[2] = (uint8_t)lines; p[3] = (uint8_t)(lines >> 8);
		*got = 4;
	} else {
		bool is_tlv = code_of(0x12, &k);
		S_POST("control_code", is_tlv && k == code);
		S_POST("property_buffer", out_len >= MAX_BUFFER_SIZE);
		for (size_t i = 0; i < NP; ++i) {
			if (i < n_props) {
				p[i] = props[i];
			}
		}
		*got = n_props;
	}
	return r;
}
LONG SCardStatus(SCARDHANDLE card, LPSTR name, LPDWORD n, LPDWORD state, LPDWORD p, LPBYTE a, LPDWORD a_len)
{
	S_POST("status_connected", sessions == 1 && card == CARD);
	S_POST("atr_buffer", *a_len >= MAX_ATR_SIZE);
	LONG r = outcome();
	if (!r) {
		for (size_t i = 0; i < NATR; ++i) {
			if (i < n_atr) {
				a[i] = atr[i];
			}
		}
		*a_len = n_atr;
		if (p) {
			*p = final_proto;
		}
	}
	return r;
}
static const uint8_t* want_tx;
static size_t want_tx_len;
static uint8_t rsp[12];
static size_t n_rsp;
static bool tx_ok;
LONG SCardTransmit(SCARDHANDLE card, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD tx_len, SCARD_IO_REQUEST* rp, LPBYTE rx, LPDWORD rx_len)
{
	S_POST("transmit_connected", sessions == 1 && card == CARD && mode == SCARD_SHARE_EXCLUSIVE);
	S_POST("protocol", pci == (final_proto == SCARD_PROTOCOL_T0 ? SCARD_PCI_T0 : SCARD_PCI_T1));
	S_POST("tx_length", tx_len == want_tx_len);
	for (size_t i = 0; i < 5; ++i) {
		S_POST("tx_octets", i >= want_tx_len || tx[i] == want_tx[i]);
	}
	++transmits;
	tx_ok = false;
	LONG r = outcome();
	if (!r) {
		tx_ok = true;
		n_rsp = vp_size(sizeof(rsp));
		VP_ASSUME(n_rsp <= *rx_len);
		for (size_t i = 0; i < sizeof(rsp); ++i) {
			rsp[i] = vp_u8();
			if (i < n_rsp) {
				rx[i] = rsp[i];
			}
		}
		*rx_len = n_rsp;
	}
	return r;
}
static bool selected[2], present[2];
static DWORD ev;
static LONG wait_result;
static DWORD want_current;
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD timeout, SCARD_READERSTATE* s, DWORD n)
{
	S_POST("context", ctx_open && c == CTX);
#ifdef V_STATE
	S_POST("one_reader", n == 1 && same(s[0].szReader, 0) && s[0].dwCurrentState == SCARD_STATE_UNAWARE);
	s[0].dwEventState = ev;
#else
	S_POST("all_readers", n == NR);
	S_POST("timeout", timeout == want_current);
	for (size_t i = 0; i < NR; ++i) {
		S_POST("reader_order", same(s[i].szReader, i));
		S_POST("watched", s[i].dwCurrentState == (selected[i] ? SCARD_STATE_EMPTY : SCARD_STATE_IGNORE));
		present[i] = selected[i] && vp_bool();
		s[i].dwEventState = (vp_u32() & ~(DWORD)SCARD_STATE_PRESENT) | (present[i] ? SCARD_STATE_PRESENT : 0);
	}
#endif
	return wait_result;
}

static pcsc_ctx_t start(void)
{
	pcsc_ctx_t ctx = NULL;
	may_fail = false;
	int r = pcsc_init(&ctx);
	VP_POST("init", r == 0 && ctx != NULL && pcsc_get_reader_count(ctx) == NR);
	VP_POST("not_connected", sessions == 0);
	return ctx;
}

static void features(void)
{
#ifdef FIXED
	static const uint8_t fixed[NF * 6] = FIXED;
	n_feat = sizeof(fixed);
	for (size_t i = 0; i < NF * 6; ++i) {
		feat[i] = fixed[i];
	}
#else
	n_feat = NFEAT;
	vp_fill(feat, NF * 6 + 1);
#endif
}

/* creation and release: any failure of a PC/SC function or allocation */
void b_init(void)
{
	pcsc_ctx_t ctx = NULL;
	may_fail = false;
#ifdef FIXED
	features();
	n_props = NP;
#endif
	int r = pcsc_init(&ctx);
	VP_POST("sessions_closed", sessions == 0);
	VP_COVER("done", true);
	VP_POST("failure_reported", !alloc_failed || r < 0);
	if (r) {
		VP_POST("negative", r < 0);
		VP_POST("failure_reason", failed || alloc_failed);
		VP_POST("no_context", ctx == NULL && !ctx_open);
	} else {
		VP_POST("count", pcsc_get_reader_count(ctx) == NR);
		for (size_t i = 0; i < NR; ++i) {
			pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, i);
			VP_POST("reader", rd != NULL);
			const char* name = pcsc_reader_get_name(rd);
			VP_POST("name", name && same(name, i));
		}
		size_t beyond = vp_u64();
		VP_POST("no_such_reader", beyond < NR || pcsc_get_reader(ctx, beyond) == NULL);
		pcsc_release(&ctx);
		VP_POST("released", ctx == NULL && !ctx_open);
	}
	VP_POST("freed", live == 0);
	r = pcsc_init(NULL);
	VP_POST("null_init", r < 0);
	pcsc_release(NULL);
	VP_POST("null", pcsc_get_reader_count(NULL) == 0 && pcsc_get_reader(NULL, 0) == NULL && pcsc_reader_get_name(NULL) == NULL);
}

/* features and properties, any list that the reader supplies */
void b_props(void)
{
	DWORD c[3];
	bool h[3], list_ok = true;
	pcsc_ctx_t ctx = NULL;
	features();
#ifdef NPROPS
	n_props = NPROPS;
#else
	n_props = vp_size(NP);
#endif
	vp_fill(props, NP);
	layout = vp_u16(); chars = vp_u16(); lines = vp_u16();
	for (size_t i = 0; i < NF; ++i) {
		list_ok &= (i + 1) * 6 > n_feat || feat[6 * i + 1] == 4;
	}
	list_ok &= n_feat % 6 == 0;
	h[0] = code_of(0x0A, &c[0]); h[1] = code_of(0x11, &c[1]); h[2] = code_of(0x12, &c[2]);
	for (size_t i = 0; i < 3; ++i) { /* control codes are distinct */
		VP_ASSUME(!h[i] || c[i] != REQ);
		VP_ASSUME(!(h[i] && h[(i + 1) % 3]) || c[i] != c[(i + 1) % 3]);
	}
	may_fail = false;
	/* SCardEstablishContext and SCardListReaders succeed, the reader may fail */
	int r = pcsc_init(&ctx);
	VP_ASSUME(r == 0);
	VP_POST("disconnected", sessions == 0);
	pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, 0);
	uint8_t f = vp_u8();
	bool has = pcsc_reader_has_feature(rd, f), listed = false;
	for (size_t i = 0; i < NF; ++i) {
		listed |= (i + 1) * 6 <= n_feat && feat[6 * i] == f;
	}
	VP_POST("feature", !list_ok || has == listed);
	VP_POST("feature_invented", !has || listed);

	/* expected property */
	unsigned int p = vp_bool() ? vp_u8() : vp_u32();
	size_t n = vp_size(6), m = n, at2 = 0, len = 0;
	uint8_t* v = vp_buf(n, 6);
	uint8_t want[256];
	bool found = false, bad = false;
	if (list_ok && h[2]) {
		for (size_t i = 0; i < NP / 2 && n_props - at2 >= 2; ++i) {
			if (props[at2 + 1] > n_props - at2 - 2) {
				found = bad = props[at2] == p;
				break;
			}
			if (props[at2] == p) {
				found = true;
				len = props[at2 + 1];
				for (size_t k = 0; k < NP; ++k) {
					if (k < len) {
						want[k] = props[at2 + 2 + k];
					}
				}
				break;
			}
			at2 += 2 + props[at2 + 1];
		}
	}
	if (!found && list_ok && p == 0x01 && h[0]) {
		found = true; len = 2; want[0] = (uint8_t)layout; want[1] = (uint8_t)(layout >> 8);
	}
	if (!found && list_ok && p == 0x04 && h[1]) {
		found = true; len = 2; want[0] = (uint8_t)chars; want[1] = (uint8_t)(chars >> 8);
	}
	if (!found && list_ok && p == 0x05 && h[1]) {
		found = true; len = 2; want[0] = (uint8_t)lines; want[1] = (uint8_t)(lines >> 8);
	}
	r = pcsc_reader_get_property(rd, p, v, &m);
	VP_COVER("property", r == 0 && len == 2);
	VP_COVER("none", r > 0);
	if (!list_ok) {
		VP_POST("invalid_list", r > 0 && m == 0);
		return;
	}
	if (!found) {
		VP_POST("not_found", r > 0 && m == 0);
	} else if (bad || len > n) {
		VP_POST("property_error", r < 0 && m == 0);
	} else {
		VP_POST("property_found", r == 0 && m == len);
		for (size_t k = 0; k < 6; ++k) {
			VP_POST("property_value", k >= len || v[k] == want[k]);
		}
	}
	VP_POST("null", pcsc_reader_get_property(NULL, p, v, &m) < 0 && !pcsc_reader_has_feature(NULL, f));
}

/* the life of a card in the reader */
void b_card(void)
{
	static const uint8_t get_uid[5] = { 0xFF, 0xCA, 0, 0, 0 };
	uint8_t a[MAX_ATR_SIZE], tx[5], rxb[12], saved[MAX_ATR_SIZE];
	size_t a_len = 0, m;
	pcsc_ctx_t ctx = start();
	pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, 0);
	int r = pcsc_reader_get_atr(rd, a, &a_len);
	VP_POST("no_atr_yet", r > 0);
	m = sizeof(rxb);
	r = pcsc_reader_trx(rd, get_uid, 5, rxb, &m);
	VP_POST("no_exchange_yet", r < 0 && transmits == 0);

	n_atr = vp_size(NATR);
	vp_fill(atr, NATR);
	for (size_t i = 0; i < NATR; ++i) {
		saved[i] = atr[i];
	}
	proto = vp_bool() ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1;
	final_proto = vp_bool() ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1;
	want_tx = get_uid;
	want_tx_len = 5;
	may_fail = true;
	failed = false;
	r = pcsc_reader_connect(rd);
	may_fail = false;
	bool artificial = n_atr > 4 && atr[0] == 0x3B && (atr[1] & 0x80) && atr[2] == 0x80 && atr[3] == 1 && n_atr == 5u + (atr[1] & 15);
	VP_POST("uid_requests", transmits <= artificial);
	if (r < 0) {
		VP_POST("connect_failure_reason", failed || artificial);
		VP_POST("left_connected", sessions == 0);
		VP_COVER("connect_failed", !failed);
		return;
	}
	VP_POST("connected", sessions == 1 && mode == SCARD_SHARE_EXCLUSIVE && !failed);
	VP_POST("uid_requested", transmits == artificial);
	int type = PCSC_CARD_TYPE_CONTACT;
	if (artificial) {
		VP_POST("uid_response", tx_ok && n_rsp >= 2);
		if (n_rsp >= 2) {
			uint8_t s1 = rsp[n_rsp - 2], s2 = rsp[n_rsp - 1];
			VP_POST("uid_status", (s1 == 0x90 && s2 == 0) || (s1 == 0x6A && s2 == 0x81));
			type = s1 == 0x90 ? PCSC_CARD_TYPE_CONTACTLESS : PCSC_CARD_TYPE_CONTACT;
		}
	}
	VP_POST("type", r == type);
	VP_COVER("contactless", type == PCSC_CARD_TYPE_CONTACTLESS);
	int t = pcsc_reader_get_atr(rd, a, &a_len);
	VP_POST("atr_available", (t == 0) == (type == PCSC_CARD_TYPE_CONTACT && n_atr != 0) && t >= 0);
	if (t == 0) {
		VP_POST("atr_length", a_len == n_atr);
		for (size_t i = 0; i < NATR; ++i) {
			VP_POST("atr_octets", i >= n_atr || a[i] == saved[i]);
		}
	}

	want_tx_len = 1 + vp_size(4);
	vp_fill(tx, 5);
	want_tx = tx;
	may_fail = vp_bool();
	size_t n = m = vp_size(12);
	uint8_t* rx = vp_buf(n, 12);
	transmits = 0;
	t = pcsc_reader_trx(rd, tx, want_tx_len, rx, &m);
	VP_POST("transmitted_once", transmits == 1);
	VP_POST("trx_result", tx_ok ? t == 0 : t < 0);
	if (t == 0) {
		VP_POST("rx_length", m == n_rsp);
		for (size_t i = 0; i < 12; ++i) {
			VP_POST("rx_octets", i >= n_rsp || rx[i] == rsp[i]);
		}
	}
	t = pcsc_reader_disconnect(rd);
	VP_POST("disconnected", sessions == 0);
	if (t == 0) {
		a_len = 0;
		t = pcsc_reader_get_atr(rd, a, &a_len);
		VP_POST("atr_cleared", t > 0);
		m = sizeof(rxb);
		transmits = 0;
		t = pcsc_reader_trx(rd, tx, 5, rxb, &m);
		VP_POST("no_exchange_any_more", t < 0 && transmits == 0);
		VP_COVER("disconnected", true);
	}
	VP_POST("null", pcsc_reader_connect(NULL) < 0 && pcsc_reader_disconnect(NULL) < 0 && pcsc_reader_trx(NULL, tx, 5, rxb, &m) < 0);
}

/* waiting for a card, possibly repeatedly */
void b_wait(void)
{
	pcsc_ctx_t ctx = start();
	for (int round = 0; round < 2; ++round) {
		size_t idx = vp_bool() ? PCSC_READER_ANY : vp_size(NR);
		unsigned int o = vp_size(2);
		wait_result = o == 0 ? SCARD_S_SUCCESS : o == 1 ? SCARD_E_TIMEOUT : SCARD_E_NO_SERVICE;
		want_current = vp_u32();
		for (size_t i = 0; i < NR; ++i) {
			selected[i] = idx == PCSC_READER_ANY || idx == i;
		}
		int r = pcsc_wait_for_card(ctx, want_current, &idx);
		size_t first = NR;
		for (size_t i = NR; i > 0; --i) {
			first = present[i - 1] ? i - 1 : first;
		}
		if (o == 2) {
			VP_POST("wait_failed", r < 0);
		} else if (o == 1 || first == NR) {
			VP_POST("wait_no_card", r > 0);
		} else {
			VP_POST("wait_card", r == 0 && idx == first);
			VP_COVER("second_reader", round == 1 && first == 1);
		}
	}
	VP_POST("null", pcsc_wait_for_card(NULL, 0, NULL) < 0);
}

/* state of a reader */
void b_state(void)
{
	pcsc_ctx_t ctx = start();
	pcsc_reader_ctx_t rd = pcsc_get_reader(ctx, 0);
	unsigned int state = 0;
	ev = vp_u32();
	wait_result = vp_bool() ? SCARD_S_SUCCESS : SCARD_E_NO_SERVICE;
	int r = pcsc_reader_get_state(rd, &state);
	VP_POST("state", wait_result ? r < 0 : r == 0 && state == ev);
	VP_POST("null", pcsc_reader_get_state(NULL, &state) < 0 && pcsc_reader_get_state(rd, NULL) < 0);
	VP_COVER("state", r == 0);
}
