/* Harness vocabulary. The same harness text is compiled
 *   - by goto-cc (VF_CBMC): inputs are symbolic, vf_assume/vf_assert are the
 *     precondition / postcondition of the contract;
 *   - by gcc/clang (VF_NATIVE): inputs are popped from a byte stream, so that a
 *     counterexample of the verifier can be replayed against the real code.   */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
unsigned char      nondet_vf_u8(void);
unsigned long long nondet_vf_u64(void);
static inline uint8_t  vf_u8(void)  { uint8_t  x = nondet_vf_u8();  __CPROVER_input("vf_in1", x); return x; }
static inline uint64_t vf_u64(void) { uint64_t x = nondet_vf_u64(); __CPROVER_input("vf_in8", x); return x; }
#  define vf_assume(c)     __CPROVER_assume(c)
#  define vf_assert(c,msg) __CPROVER_assert((c), "VF:" msg)
#  define vf_reach(id)     __CPROVER_assert(0, "VF_REACH:" id)
#else
uint8_t  vf_u8(void);
uint64_t vf_u64(void);
void     vf_assume_(int c);
void     vf_assert_(int c, const char *msg, const char *file, int line);
#  define vf_assume(c)     vf_assume_(!!(c))
#  define vf_assert(c,msg) vf_assert_(!!(c), msg, __FILE__, __LINE__)
#  define vf_reach(id)     ((void)0)
#  define __CPROVER_assume(c) vf_assume(c)
#endif

static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vf_u64();
#ifdef VF_CBMC
	__CPROVER_assume(v >= lo && v <= hi);
#else
	if (v < lo || v > hi)
		v = (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
#endif
	return v;
}
static inline int      vf_bool(void) { return (int)(vf_u8() & 1); }
static inline uint32_t vf_u32(void)  { return (uint32_t)vf_u64(); }
static inline uint16_t vf_u16(void)  { return (uint16_t)vf_u64(); }

/* exact-size heap object of n<=max arbitrary bytes: one byte past it is out of bounds */
static inline uint8_t *vf_bytes(size_t n, size_t max)
{
	uint8_t *p = malloc(n ? n : 1);
	size_t   i;
	for (i = 0; i < max; i++)
		if (i < n) p[i] = vf_u8();
	return p;
}
/* object of n arbitrary bytes for unbounded (loop contract) harnesses */
static inline uint8_t *vf_blob(size_t n)
{
#ifdef VF_CBMC
	return malloc(n);
#else
	uint8_t *p = malloc(n ? n : 1);
	size_t   i;
	for (i = 0; i < n; i++) p[i] = vf_u8();
	return p;
#endif
}
#ifdef VF_CBMC
#  define VF_BIG(nat) ((uint64_t)1 << 40)
#else
#  define VF_BIG(nat) (nat)
#endif
/* NUL terminated string of length n<=max without embedded NUL */
static inline char *vf_str(size_t n, size_t max)
{
	char  *p = malloc(n + 1);
	size_t i;
	for (i = 0; i < max; i++)
		if (i < n) { uint8_t c = vf_u8(); vf_assume(c != 0); p[i] = (char)c; }
	p[n] = 0;
	return p;
}
#endif
