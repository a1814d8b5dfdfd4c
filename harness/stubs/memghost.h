/* Contracts of the allocator and of the bulk memory operations, for unbounded sizes: the caller owes
 * valid ranges; afterwards the destination object is arbitrary except for the first byte moved, one tracked byte
 * (any byte: the harness picks it) and, for a fill, one filled byte (any: g_j). */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include "vf.h"
#ifdef VF_CBMC
/*@VF_TRUST M_mem_copy/M_mem_move/M_mem_set and the allocator are replaced by their contracts (valid ranges required; one arbitrary tracked byte carried over); the allocator never fails @*/
static uint8_t *g_t; static uint8_t g_tv; static size_t g_j; static int g_realset; /* harness: the next fills are of small fixed objects, run memset itself */
#define INR(p, a, n) (__CPROVER_same_object((p), (a)) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(a) && __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(a) < (n))
void M_free(void *p) { if (p != NULL) free(p); }
void *M_malloc(size_t n) { return n == 0 ? NULL : malloc(n); }
void *M_malloc_zero(size_t n) { return n == 0 ? NULL : calloc(1, n); }
void *M_realloc(void *p, size_t n)
{
	uint8_t *r; size_t o;
	if (n == 0) { M_free(p); return NULL; }
	r = malloc(n);
	if (p != NULL) {
		o = __CPROVER_OBJECT_SIZE(p);
#ifdef VF_LIVE
		if (g_t != NULL) g_tv = *g_t;
#endif
		if (g_t != NULL && __CPROVER_same_object(g_t, p)) { size_t k = __CPROVER_POINTER_OFFSET(g_t); if (k < n) { g_t = r + k; *g_t = g_tv; } else g_t = NULL; }
		free(p); (void)o;
	}
	return r;
}
static void vf_move(uint8_t *d, const uint8_t *s, size_t n)
{
	uint8_t *t = g_t, f;
	if (n == 0) return;
#ifdef VF_SMALLCOPY /* short copies are the real thing */
	if (n <= VF_SMALLCOPY) { size_t i; if (t != NULL && INR(t, s, n)) g_t = d + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(s)); uint8_t b[VF_SMALLCOPY]; for (i = 0; i < VF_SMALLCOPY; i++) if (i < n) b[i] = s[i]; for (i = 0; i < VF_SMALLCOPY; i++) if (i < n) d[i] = b[i]; return; }
#endif
#ifdef VF_LIVE /* the tracked byte may have been written since */
	if (t != NULL) g_tv = *t;
#endif
	__CPROVER_assert(__CPROVER_r_ok(s, n), "VF:source range readable");
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VF:destination range writable");
	if (t != NULL && INR(t, s, n)) t = d + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(s));
	else if (t != NULL && INR(t, d, n)) t = NULL;
	f = s[0];
	__CPROVER_havoc_object(d);
	d[0] = f;
	if (t != NULL) *t = g_tv;
	g_t = t;
}
void *M_mem_copy(void *d, const void *s, size_t n)
{
	__CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s) || __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d) || __CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s), "VF:copied ranges don't overlap");
	vf_move(d, s, n); return d;
}
void *M_mem_move(void *d, const void *s, size_t n) { vf_move(d, s, n); return d; }
void *M_mem_set(void *d, int c, size_t n)
{
	if (n == 0) return d;
	if (g_realset) return memset(d, c, n);
#ifdef VF_REALN /* clearing of a whole struct of this size is the real thing */
	if (n == VF_REALN && c == 0) { if (g_t != NULL && INR(g_t, d, n)) g_t = NULL; return memset(d, 0, VF_REALN); }
#endif
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VF:filled range writable");
	if (g_t != NULL && INR(g_t, d, n)) g_t = NULL;
	__CPROVER_havoc_object(d);
	if (g_t != NULL) *g_t = g_tv;
	if (g_j < n) ((uint8_t *)d)[g_j] = (uint8_t)c;
	return d;
}
#define TRACK(p) (g_t = (p), g_tv = *(p))
#else
static size_t g_j; static int g_realset;
#define TRACK(p) ((void)(p))
#endif
