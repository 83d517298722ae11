/*
 * Harness vocabulary shared by the verifier (CBMC) and the native replay.
 *
 * Every nondeterministic choice of a harness is drawn through vp_u8() and
 * friends. Under CBMC the choice is unconstrained and recorded in vp_rec, so
 * that the sequence of choices can be read back from a counterexample trace.
 * Natively the same sequence is read from the file named by VP_REPLAY, and the
 * same postconditions are then evaluated on the real, compiled code. Built
 * with VP_FUZZ the choices come from libFuzzer instead; that build only looks
 * for a failing input after the verifier has rejected an obligation.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_NATIVE
#include <stdio.h>
uint64_t vp_draw(unsigned int bytes);
uint64_t vp_draw_max(uint64_t max);
void vp_fail(const char* id);
void vp_assume_failed(void);
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(); } while (0)
#define VP_POST(id, c) do { if (!(c)) vp_fail(id); } while (0)
#define VP_COVER(id, c) do { } while (0)
#else
extern uint64_t vp_rec;
uint64_t vp_draw(unsigned int bytes);
uint64_t vp_draw_max(uint64_t max);
#define VP_ASSUME(c) __CPROVER_assume(c)
/* vacuity guard: the place must be reachable with c true, ie the negated
 * assertion must FAIL; the driver checks that it does */
#ifdef VP_COVER_ON
#define VP_POST(id, c) ((void)0)
#define VP_COVER(id, c) __CPROVER_assert(!(c), "COVER " id)
#else
#define VP_POST(id, c) __CPROVER_assert((c), "POST " id)
#define VP_COVER(id, c) ((void)0)
#endif
#endif

/* unconstrained values */
static inline uint8_t vp_u8(void) { return (uint8_t)vp_draw(1); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_draw(2); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_draw(4); }
static inline uint64_t vp_u64(void) { return vp_draw(8); }
static inline int vp_int(void) { return (int)vp_draw(4); }
static inline bool vp_bool(void) { return vp_draw(1) & 1; }
/* unconstrained value in [0, max] */
static inline size_t vp_size(size_t max) { return (size_t)vp_draw_max(max); }

/* unconstrained contents */
static inline void vp_fill(uint8_t* p, size_t len)
{
	for (size_t i = 0; i < len; ++i) {
		p[i] = vp_u8();
	}
}

/* len bytes of unconstrained contents at the very end of an object of max
 * bytes, such that any access beyond len leaves the object; max is constant */
static inline uint8_t* vp_buf(size_t len, size_t max)
{
	uint8_t* p = malloc(max ? max : 1);
	VP_ASSUME(p != NULL);
	vp_fill(p, max);
	return p + (max - len);
}

/* allocator given to the code under test (-Dmalloc=vp_malloc), so that
 * allocation failure is an explicit, replayable choice */
extern bool vp_alloc_may_fail;
extern bool vp_alloc_did_fail;
extern size_t vp_live_allocs;
void* vp_malloc(size_t n);
void* vp_calloc(size_t n, size_t m);
void vp_free(void* p);
#endif
