/* Runtime of vp.h: compiled with the harness, for the verifier and natively */
#include "vp.h"
#include <stdarg.h>

bool vp_alloc_may_fail = false;
bool vp_alloc_did_fail = false;
size_t vp_live_allocs = 0;

void* vp_malloc(size_t n)
{
	if (vp_alloc_may_fail && vp_bool()) {
		vp_alloc_did_fail = true;
		return NULL;
	}
	void* p = malloc(n);
	VP_ASSUME(p != NULL);
	++vp_live_allocs;
	return p;
}

void* vp_calloc(size_t n, size_t m)
{
	if (vp_alloc_may_fail && vp_bool()) {
		vp_alloc_did_fail = true;
		return NULL;
	}
	void* p = calloc(n, m);
	VP_ASSUME(p != NULL);
	++vp_live_allocs;
	return p;
}

void vp_free(void* p)
{
	if (p) {
		--vp_live_allocs;
	}
	free(p);
}

/* octet-wise versions for jobs with small buffers (job option mem): much
 * cheaper for the solver than array copies of symbolic size. ISO C semantics:
 * both ranges must be valid, and must not overlap for memcpy. */
#ifdef VP_MEM
#undef memcpy
#undef memset
#undef memcmp
/* each range is checked as a whole, not again for each octet */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "conversion"
void* vp_memcpy(void* d, const void* s, size_t n)
{
	uint8_t* a = d; const uint8_t* b = s;
#ifndef VP_NATIVE
	VP_POST("memcpy ranges", n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)));
#else
	return memcpy(d, s, n);
#endif
	for (size_t i = 0; i < n; ++i) a[i] = b[i];
	return d;
}
void* vp_memset(void* d, int c, size_t n)
{
	uint8_t* a = d;
#ifndef VP_NATIVE
	VP_POST("memset range", n == 0 || __CPROVER_w_ok(d, n));
#else
	return memset(d, c, n);
#endif
	for (size_t i = 0; i < n; ++i) a[i] = (uint8_t)c;
	return d;
}
int vp_memcmp(const void* p, const void* q, size_t n)
{
	const uint8_t* a = p; const uint8_t* b = q;
#ifndef VP_NATIVE
	VP_POST("memcmp ranges", n == 0 || (__CPROVER_r_ok(p, n) && __CPROVER_r_ok(q, n)));
#else
	return memcmp(p, q, n);
#endif
	for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return 0;
}
#pragma CPROVER check pop
#endif

#ifndef VP_REAL_DEBUG
/* emv_debug_internal(): assumed contract "reads its arguments, assigns nothing" */
void emv_debug_internal(int source, int level, int type, const char* fmt, const void* buf, size_t buf_len, ...)
{
}
#endif

#ifdef VP_NATIVE
#ifdef VP_FUZZ
#include <setjmp.h>
static const uint8_t* vp_data;
static size_t vp_left;
static jmp_buf vp_jmp;
static FILE* vp_dump;
static void vp_log(uint64_t v)
{
	if (vp_dump) {
		fprintf(vp_dump, "%llu\n", (unsigned long long)v);
		fflush(vp_dump);
	}
}
uint64_t vp_draw(unsigned int bytes)
{
	uint64_t v = 0;
	while (bytes--) {
		v <<= 8;
		if (vp_left) {
			v |= *vp_data++;
			--vp_left;
		}
	}
	vp_log(v);
	return v;
}
uint64_t vp_draw_max(uint64_t max)
{
	unsigned int bytes = max < 0x100 ? 1 : max < 0x10000 ? 2 : max < 0x100000000 ? 4 : 8;
	uint64_t v = 0;
	while (bytes--) {
		v <<= 8;
		if (vp_left) {
			v |= *vp_data++;
			--vp_left;
		}
	}
	if (max + 1) {
		v %= max + 1;
	}
	vp_log(v);
	return v;
}
void vp_fail(const char* id)
{
	fprintf(stderr, "VP: POSTCONDITION VIOLATED: %s\n", id);
	fflush(NULL);
	abort();
}
void vp_assume_failed(void)
{
	longjmp(vp_jmp, 1);
}
void VP_ENTRY(void);
/* the static state of the harness (sections renamed by run.py) starts anew with each input */
extern char __start_vpdata[] __attribute__((weak)), __stop_vpdata[] __attribute__((weak));
extern char __start_vpbss[] __attribute__((weak)), __stop_vpbss[] __attribute__((weak));
static char vp_saved[1 << 20];
static size_t vp_nsaved;
__attribute__((no_sanitize("address", "undefined"), noinline))
static void vp_restore(void)
{
	volatile char* a = __start_vpdata; size_t na = a ? __stop_vpdata - __start_vpdata : 0;
	volatile char* b = __start_vpbss; size_t nb = b ? __stop_vpbss - __start_vpbss : 0;
	bool save = !vp_nsaved;
	if (na + nb > sizeof(vp_saved)) return;
	for (size_t i = 0; i < na; ++i) if (save) vp_saved[i] = a[i]; else a[i] = vp_saved[i];
	for (size_t i = 0; i < nb; ++i) if (save) vp_saved[na + i] = b[i]; else b[i] = vp_saved[na + i];
	vp_nsaved = na + nb;
}
int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	const char* n = getenv("VP_DUMP");
	vp_data = data;
	vp_left = size;
	vp_restore();
	vp_alloc_may_fail = false;
	vp_alloc_did_fail = false;
	vp_live_allocs = 0;
	if (n) {
		vp_dump = fopen(n, "w");
	}
	if (setjmp(vp_jmp) == 0) {
		VP_ENTRY();
	}
	if (vp_dump) {
		fclose(vp_dump);
		vp_dump = NULL;
	}
	return 0;
}
#else
static FILE* vp_file;
uint64_t vp_draw(unsigned int bytes)
{
	unsigned long long v;
	if (!vp_file) {
		const char* n = getenv("VP_REPLAY");
		vp_file = n ? fopen(n, "r") : NULL;
		if (!vp_file) { fprintf(stderr, "VP: no replay file\n"); _Exit(78); }
	}
	if (fscanf(vp_file, "%llu", &v) != 1) {
		/* past the recorded counterexample: remaining choices are irrelevant */
		return 0;
	}
	return v;
}
uint64_t vp_draw_max(uint64_t max)
{
	uint64_t v = vp_draw(8);
	VP_ASSUME(v <= max);
	return v;
}
void vp_fail(const char* id)
{
	fprintf(stderr, "VP: POSTCONDITION VIOLATED: %s\n", id);
	fflush(NULL);
	_Exit(66);
}
void vp_assume_failed(void)
{
	fprintf(stderr, "VP: precondition not met\n");
	_Exit(77);
}
void VP_ENTRY(void);
int main(void) { VP_ENTRY(); fprintf(stderr, "VP: all postconditions hold\n"); return 0; }
#endif
#else
uint64_t vp_rec;
uint64_t nondet_vp_u64(void);
uint64_t vp_draw(unsigned int bytes)
{
	uint64_t v = nondet_vp_u64();
	vp_rec = v;
	return v;
}
uint64_t vp_draw_max(uint64_t max)
{
	uint64_t v = nondet_vp_u64();
	__CPROVER_assume(v <= max);
	vp_rec = v;
	return v;
}
#endif
