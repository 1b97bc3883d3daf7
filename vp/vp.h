/* Common support for the contract units under /verif/units.
 *
 * A unit is compiled in one of three ways from the same text:
 *   VP_PROOF    goto-cc, contracts attached and enforced by
 *               goto-instrument --dfcc, buffers of symbolic size with
 *               arbitrary content; decided by cbmc.
 *   VP_BOUNDED  goto-cc without dfcc: every value of the start state comes from
 *               vp_in(), so that a counterexample is a plain list of numbers.
 *   VP_NATIVE   gcc with ASan and UBSan: vp_in() reads that list (or the random
 *               one), so the counterexample is replayed on the real code.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#if !defined(VP_PROOF) && !defined(VP_BOUNDED) && !defined(VP_NATIVE)
#error "mode"
#endif

#ifdef VP_NATIVE
#include <stdio.h>
uint64_t vp_in_raw(void);
void vp_fail(const char *what, const char *file, int line);
void vp_reject(void);
#define vp_in() vp_in_raw()
#define vp_assume(c) do { if (!(c)) vp_reject(); } while (0)
#define vp_assert(c, what) do { if (!(c)) vp_fail(what, __FILE__, __LINE__); } while (0)
#define VP_COVER(label) do { } while (0)
#else
static inline uint64_t vp_in(void) {
	uint64_t vp_value; /* declared without a value: any value */
	__CPROVER_input("vp", vp_value);
	return vp_value;
}
#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, what) __CPROVER_assert((c), "post: " what)
#define VP_COVER(label) __CPROVER_assert(0, "VPCOVER " label)
#endif

#ifdef VP_PROOF
#define VP_CONTRACT(...) __VA_ARGS__
/* VP_ASSIGNS_DYN: used where the frame is in the contract. */
#else
#define VP_CONTRACT(...)
#endif

/* a value in lo..hi: by construction natively, by assumption in cbmc */
#ifdef VP_NATIVE
uint64_t vp_in_range(uint64_t lo, uint64_t hi);
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) { return vp_in_range(lo, hi); }
#else
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) {
	uint64_t v = vp_in();
	vp_assume(v >= lo && v <= hi);
	return v;
}
#endif
static inline bool vp_bool(void) { return (bool)vp_range(0, 1); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_in(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_in(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_in(); }
static inline uint64_t vp_u64(void) { return vp_in(); }
static inline int32_t vp_i32(void) { return (int32_t)(uint32_t)vp_in(); }

/* A fresh object of exactly n bytes (never NULL), for the harness' own use:
 * not subject to the simulated allocation failures. In proof mode its content
 * is arbitrary and n may be symbolic; otherwise content comes from vp_in. */
#ifndef VP_MAXFILL
#define VP_MAXFILL 64
#endif
static inline void *vp_new(size_t n) {
	void *p = malloc(n);
#ifndef VP_NATIVE
	__CPROVER_assume(p != NULL);
#endif
	return p;
}
static inline uint8_t *vp_bytes(size_t n) {
	uint8_t *p = (uint8_t*)vp_new(n);
#ifndef VP_PROOF
	vp_assume(n <= VP_MAXFILL);
	for (size_t i = 0; i < n; i++) p[i] = vp_u8();
#endif
	return p;
}

/* The allocator contract: malloc(n) either fails or returns a fresh object of
 * n bytes; free takes NULL or a live object. Failure is an input. */
extern int vp_live;          /* allocations made through the hooks, not freed */
extern bool vp_may_fail;     /* whether hook allocations may fail */
extern int vp_failed;        /* number of failed allocations */
void *vp_malloc(size_t n);
void *vp_malloc_aligned(int alignment, size_t n);
void vp_free(void *p);
void vp_use_allocator(void); /* points the library's allocator hooks at these */

#endif
