/* P14: the allocator and the memory functions, any size. libc's bulk operations and malloc/free are replaced by their
 * contracts; malloc may fail at every call. */
#include "m_config.h"
#include <stdlib.h>
#include <string.h>
#include <mstdlib/mstdlib.h>
#include "vf.h"
static size_t g_b0, g_q, g_i, g_w; static uint8_t g_b, g_s8; static uint16_t g_s16; static uint32_t g_s32; static size_t g_cnt; /* ghost */
static const uint8_t *g_h;
#ifdef VF_CBMC
/*@VF_TRUST libc malloc/free/memset/memmove/memchr/memcmp are replaced by their contracts (malloc may fail; valid ranges required; one arbitrary tracked byte carried over) @*/
static uint8_t *g_t; static uint8_t g_tv; static size_t g_fq; static unsigned g_frees, g_mallocs, g_fails; static size_t g_sz[4];
static void *raw_malloc(size_t n) { return malloc(n); }
static void *vf_malloc(size_t n)
{
	void *p;
	if (n > (size_t)1 << 48) return NULL;
	if (g_fails && vf_bool()) { g_fails--; return NULL; }
	p = malloc(n); __CPROVER_assume(((size_t)p & 15) == 0);
	if (g_mallocs < 4) g_sz[g_mallocs] = n; g_mallocs++;
	return p;
}
static void vf_free(void *p)
{
	size_t n = __CPROVER_OBJECT_SIZE(p);
	__CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0, "VF:what malloc gave is what is freed");
	if (g_fq < n) __CPROVER_assert(((uint8_t *)p)[g_fq] == 0xFF, "VF:the memory was cleared before it is given back");
	g_frees++; free(p);
}
#define RNG(p, a, n) (__CPROVER_same_object((p), (a)) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(a) && __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(a) < (n))
static void *vf_memmove(void *d, const void *s, size_t n)
{
	uint8_t *t = g_t;
	if (n == 0) return d;
	__CPROVER_assert(__CPROVER_r_ok(s, n), "VF:source range readable");
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VF:destination range writable");
	if (n == 8) { uint64_t v = *(const uint64_t *)s; if (t != NULL && RNG(t, (const uint8_t *)s, n)) g_t = (uint8_t *)d + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(s)); *(uint64_t *)d = v; return d; }
#ifdef SMALLMEM
	{ size_t k; __CPROVER_assert((uint8_t *)d < (const uint8_t *)s && n % sizeof(void *) == 0, "VF:slots moved down"); for (k = 0; k < n / sizeof(void *); k++) ((void **)d)[k] = ((void *const *)s)[k]; return d; }
#endif
	if (t != NULL && RNG(t, s, n)) t = (uint8_t *)d + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(s));
	else if (t != NULL && RNG(t, (uint8_t *)d, n)) t = NULL;
	{ uint64_t hd = 0; int keep = __CPROVER_POINTER_OFFSET(d) >= 16; if (keep) hd = *(uint64_t *)((uint8_t *)d - 16);
	__CPROVER_havoc_object(d);
	if (keep) *(uint64_t *)((uint8_t *)d - 16) = hd; } /* the word before a block isn't written by a move into it */
	if (t != NULL) *t = g_tv;
	g_t = t; return d;
}
static void *vf_memset(void *d, int c, size_t n)
{
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VF:filled range writable");
#ifdef SMALLMEM
	return memset(d, c, n);
#endif
	if (g_t != NULL && RNG(g_t, (uint8_t *)d, n)) g_t = NULL;
	{ uint64_t hd = 0; int keep = __CPROVER_POINTER_OFFSET(d) >= 16; size_t o = __CPROVER_POINTER_OFFSET(d); uint8_t *b = (uint8_t *)d - o; if (keep) hd = *(uint64_t *)b;
	__CPROVER_havoc_object(d);
	if (keep) *(uint64_t *)b = hd;
	if (g_t != NULL) *g_t = g_tv;
	if (g_fq >= o && g_fq - o < n) b[g_fq] = (uint8_t)c; }
	return d;
}
static void *vf_memchr(const void *s, int c, size_t n)
{
	size_t k = nondet_vf_u64();
	__CPROVER_assert(__CPROVER_r_ok(s, n), "VF:searched range readable");
	if (vf_bool()) { __CPROVER_assume(!(RNG(g_h, (const uint8_t *)s, n) && *g_h == (uint8_t)c)); return NULL; }
	__CPROVER_assume(k < n && ((const uint8_t *)s)[k] == (uint8_t)c);
	__CPROVER_assume(!(RNG(g_h, (const uint8_t *)s, k) && *g_h == (uint8_t)c));
	return (void *)((const uint8_t *)s + k);
}
#define malloc vf_malloc
#define free vf_free
#define memmove vf_memmove
#define memset vf_memset
#define memchr vf_memchr
#endif

#ifdef VF_CBMC
M_bool g_abort;
ssize_t M_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static size_t objsz(const void *p) { return __CPROVER_OBJECT_SIZE(p); }
#define TRACK(p) (g_t = (p), g_tv = *(p))
#define ALIVE(p, n) vf_assert(__CPROVER_w_ok((p), (n)), "as many bytes as asked for")
#else
static void *raw_malloc(size_t n) { return malloc(n); }
#define TRACK(p) ((void)(p))
#define ALIVE(p, n) ((n) ? (((volatile uint8_t *)(p))[0] = ((volatile uint8_t *)(p))[0], ((volatile uint8_t *)(p))[(n) - 1] = ((volatile uint8_t *)(p))[(n) - 1]) : 0)
static size_t g_fq; static unsigned g_frees, g_fails;
#endif
#define HDR 16
/* the published definitions of the CRCs, one byte at a time */
#define S8_ x = (uint8_t)(x & 0x80 ? (x << 1) ^ 0x07 : x << 1);
#define S16_ x = (uint16_t)(x & 0x8000 ? (x << 1) ^ 0x1021 : x << 1);
#define S32_ x = x & 1 ? (x >> 1) ^ 0xEDB88320u : x >> 1;
#define X8(a) a a a a a a a a
static uint8_t step8(uint8_t x) { X8(S8_) return x; }
static uint16_t step16(uint16_t x) { X8(S16_) return x; }
static uint32_t step32(uint32_t x) { X8(S32_) return x; }
static int g_m; static const uint8_t *g_needle; static size_t g_nl;
#ifdef SEARCH
M_bool M_mem_eq(const void *a, const void *b, size_t n)
{
	M_bool r = (M_bool)vf_bool();
	__CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n) && b == g_needle && n == g_nl, "VF:compared ranges readable");
	__CPROVER_assume(!(g_m && a == g_h) || r);
	__CPROVER_assume(!r || ((const uint8_t *)a)[g_b0] == ((const uint8_t *)b)[g_b0]);
	return r;
}
#endif
/*@VF_RENAME base/mem/m_mem.c M_mem_eq if SEARCH @*/
#include "base/mem/m_mem.c"
/* a block handed out earlier: its size is recorded in front of it */
static uint8_t *blk(size_t n)
{
	uint8_t *p = raw_malloc(n + HDR); size_t i;
	*(size_t *)p = n;
#ifndef VF_CBMC
	for (i = 0; i < n; i++) p[HDR + i] = vf_u8();
#endif
	(void)i; return p + HDR;
}
static size_t rec(const uint8_t *p) { return *(const size_t *)(p - HDR); }
#define BIGN VF_BIG(64)
static int g_log[4]; static unsigned g_nlog;
static M_bool cb1(void) { M_bool r = (M_bool)vf_bool(); if (g_nlog < 4) g_log[g_nlog] = 1; g_nlog++; return r; }
static M_bool cb2(void) { M_bool r = (M_bool)vf_bool(); if (g_nlog < 4) g_log[g_nlog] = 2; g_nlog++; return r; }
void mm_malloc(void)
{
	size_t n = vf_u64(); int z = vf_bool(), bad; uint8_t *p; g_fq = 0;
#ifdef VF_CBMC
	g_fails = (unsigned)vf_range(0, 3);
#else
	if (n > 100000) vf_assume(n > SIZE_MAX - HDR);
#endif
	bad = n == 0 || n > SIZE_MAX - HDR;
	M_malloc_register_errorcb(cb1); M_malloc_register_errorcb(cb2);
	g_q = vf_u64(); if (!bad) { vf_assume(g_q < n); g_fq = HDR + g_q; }
	p = z ? M_malloc_zero(n) : M_malloc(n);
	vf_assert((p == NULL) == bad, "refused exactly when the size is 0 or can't be recorded");
	if (p) {
		ALIVE(p, n); vf_assert(rec(p) == n, "the size is recorded");
		vf_assert(((uintptr_t)p & 15) == 0, "aligned for any type");
		if (z) vf_assert(p[g_q] == 0, "zeroed");
	}
	if (g_nlog > 0) vf_assert(g_log[0] == 2, "the newest callback first");
	if (g_nlog > 1) vf_assert(g_log[1] == 1, "then the one before");
	vf_assert(g_nlog <= 2, "each once");
	vf_reach("mm_malloc");
}
void mm_free(void)
{
	size_t n = vf_range(1, BIGN); uint8_t *p = blk(n); g_fq = vf_range(0, BIGN); vf_assume(g_fq < n + HDR);
	if (vf_bool()) { M_free(NULL); vf_assert(g_frees == 0, "nothing to free"); }
	M_free(p);
#ifdef VF_CBMC
	vf_assert(g_frees == 1, "given back once");
#endif
	vf_reach("mm_free");
}
void mm_realloc(void)
{
	size_t n = vf_range(1, BIGN), m = vf_range(0, BIGN), l = n < m ? n : m; int z = vf_bool(), null = 0; uint8_t *p, *r, v = 0, x;
#ifdef ZERO
	z = ZERO;
#endif
#if defined(NUL) || !defined(VF_CBMC)
	null = vf_bool();
#endif
#ifdef VF_CBMC
#ifdef NUL
	null = 1;
#endif
#endif
	p = null ? NULL : blk(n);
	g_q = vf_range(0, BIGN);
	if (!null && g_q < n) { v = p[g_q]; TRACK(p + g_q); }
	g_fq = g_q + HDR;
	r = z ? M_realloc_zero(p, m) : M_realloc(p, m);
	vf_assert((r == NULL) == (m == 0), "gives memory exactly when the size isn't 0");
#ifdef VF_CBMC
	vf_assert(g_frees == (null ? 0 : 1), "the old block is given back, once");
#endif
	if (r) {
		ALIVE(r, m); vf_assert(rec(r) == m, "the size is recorded");
		if (g_q < m) { x = r[g_q]; if (!null && g_q < n) vf_assert(x == v, "the content is kept"); else if (z) vf_assert(x == 0, "what is new is zero"); }
	}
	(void)l; vf_reach("mm_realloc");
}
void mm_dup(void)
{
	size_t n = vf_range(0, BIGN), m = vf_range(0, BIGN), w; int null = vf_bool(), mx = vf_bool(); uint8_t *s = null ? NULL : vf_blob(n), *r, v = 0;
	if (!mx) m = n;
	w = n > m ? n : m; g_q = vf_range(0, BIGN);
	if (!null && g_q < n) { v = s[g_q]; TRACK(s + g_q); }
	r = mx ? M_memdup_max(s, n, m) : M_memdup(s, n);
	if ((null && n > 0) || w == 0) vf_assert(r == NULL, "nothing to duplicate");
	else {
		vf_assert(r != NULL, "a copy"); ALIVE(r, w); vf_assert(rec(r) == w, "the size is recorded");
		if (!null && g_q < n) vf_assert(r[g_q] == v, "the same bytes");
	}
	vf_reach("mm_dup");
}
#define NCB 13
void mm_cbs(void)
{
	size_t i, n = vf_range(1, NCB), op = vf_range(0, 2), at = NCB; M_malloc_error_cb o[NCB], f; int ok;
	for (i = 1; i < NCB; i++) { uintptr_t a = vf_u8(); error_cbs[i] = NULL; if (i < n) { vf_assume(a != 0); error_cbs[i] = (M_malloc_error_cb)(a * 16); } }
	error_cbs_cnt = n; f = (M_malloc_error_cb)((uintptr_t)vf_u8() * 16);
	for (i = 0; i < NCB; i++) { o[i] = error_cbs[i]; }
	for (i = n; i-- > 1; ) if (o[i] == f) at = i;
	if (op == 0) {
		ok = M_malloc_register_errorcb(f);
		vf_assert(!ok == !(f != NULL && n < NCB), "registered while there is room");
		if (ok) { o[n] = f; n++; }
	} else if (op == 1) {
		ok = M_malloc_deregister_errorcb(f);
		vf_assert(!ok == !(f != NULL && at < NCB), "taken out exactly when it is registered");
		if (ok) { for (i = at; i + 1 < n; i++) o[i] = o[i + 1]; o[n - 1] = NULL; n--; }
	} else { M_malloc_clear_errorcb(); for (i = 1; i < NCB; i++) o[i] = NULL; n = 1; }
	vf_assert(error_cbs_cnt == n, "how many");
	for (i = 0; i < NCB; i++) vf_assert(error_cbs[i] == o[i], "which, in order; free slots empty");
	vf_reach("mm_cbs");
}
/* ---- comparison, search, counting, checksums: loops by invariants, any length */
#ifdef VF_CBMC
/*@VF_LOOP base/mem/m_mem.c M_mem_eq 1/1 if EQ
__CPROVER_assigns(i, result, g_w)
__CPROVER_loop_invariant(i <= size)
__CPROVER_loop_invariant(result == 0 ==> !(g_q < i && ((const unsigned char *)m1)[g_q] != ((const unsigned char *)m2)[g_q]))
__CPROVER_loop_invariant(result != 0 ==> (g_w < i && ((const unsigned char *)m1)[g_w] != ((const unsigned char *)m2)[g_w]))
__CPROVER_decreases(size - i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_eq 1/1 if EQ if (((const unsigned char *)m1)[i] != ((const unsigned char *)m2)[i]) g_w = i; @*/
/*@VF_LOOP base/mem/m_mem.c M_mem_count 1/1
__CPROVER_assigns(i, cnt, g_cnt, g_i)
__CPROVER_loop_invariant(i <= s_len && cnt <= i && cnt == g_cnt && g_i == i)
__CPROVER_decreases(s_len - i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_count 1/1 if (((const M_uint8 *)s)[g_i] == b) g_cnt++; g_i++; @*/
/*@VF_LOOP base/mem/m_mem.c M_mem_calc_lrc 1/1
__CPROVER_assigns(i, lrc, g_s8, g_i)
__CPROVER_loop_invariant(i <= s_len && (unsigned char)lrc == g_s8 && g_i == i)
__CPROVER_decreases(s_len - i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_calc_lrc 1/1 g_s8 ^= ((const unsigned char *)s)[g_i]; g_i++; @*/
/*@VF_LOOP base/mem/m_mem.c M_mem_calc_crc8_ccitt 1/1
__CPROVER_assigns(pos, val, g_s8, g_i)
__CPROVER_loop_invariant(__CPROVER_same_object(pos, s) && g_i <= s_len && __CPROVER_POINTER_OFFSET(pos) == g_i && val == g_s8)
__CPROVER_decreases(s_len - g_i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_calc_crc8_ccitt 1/1 g_s8 = step8(g_s8 ^ ((const unsigned char *)s)[g_i]); g_i++; @*/
/*@VF_LOOP base/mem/m_mem.c M_mem_calc_crc16_ccitt 1/1
__CPROVER_assigns(pos, val, g_s16, g_i)
__CPROVER_loop_invariant(__CPROVER_same_object(pos, s) && g_i <= s_len && __CPROVER_POINTER_OFFSET(pos) == g_i && val == g_s16)
__CPROVER_decreases(s_len - g_i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_calc_crc16_ccitt 1/1 g_s16 = step16((uint16_t)(g_s16 ^ ((const unsigned char *)s)[g_i] << 8)); g_i++; @*/
/*@VF_LOOP base/mem/m_mem.c M_mem_calc_crc32 1/1
__CPROVER_assigns(pos, val, g_s32, g_i)
__CPROVER_loop_invariant(__CPROVER_same_object(pos, s) && g_i <= s_len && __CPROVER_POINTER_OFFSET(pos) == g_i && val == g_s32)
__CPROVER_decreases(s_len - g_i)
@*/
/*@VF_GHOST base/mem/m_mem.c M_mem_calc_crc32 1/1 g_s32 = step32(g_s32 ^ ((const unsigned char *)s)[g_i]); g_i++; @*/
#else
static size_t dummy_;
#endif
/* a match at g_q; M_mem_eq answers by its contract (proved above): true only for ranges equal at every byte (seen at g_b), true for the match */
/*@VF_LOOP base/mem/m_mem.c M_mem_mem 1/1 if SEARCH
__CPROVER_assigns(i, pos, ret)
__CPROVER_loop_invariant(i <= haystack_len && ret == NULL && (g_m ==> i <= g_q))
__CPROVER_decreases(haystack_len - i)
@*/
/*@VF_LOOP base/mem/m_mem.c M_mem_rmem 1/1 if SEARCH
__CPROVER_assigns(i, ret)
__CPROVER_loop_invariant(i <= haystack_len - needle_len + 1 && ret == NULL && (g_m ==> i > g_q))
__CPROVER_decreases(i)
@*/

#ifdef EQ
void mm_eq(void)
{
	size_t n = vf_range(0, BIGN); uint8_t *a = vf_blob(n), *b = vf_bool() ? a : vf_blob(n); int k = (int)vf_range(0, 3), r;
	g_q = vf_range(0, BIGN); g_w = 0;
	r = M_mem_eq(k == 1 ? NULL : a, k == 2 ? NULL : b, n);
	if (k == 1 || k == 2) vf_assert(!r, "nothing equals no memory");
	else if (r) { if (g_q < n) vf_assert(a[g_q] == b[g_q], "equal at every byte"); }
	else {
#ifdef VF_CBMC
		vf_assert(g_w < n && a[g_w] != b[g_w], "different only when a byte differs");
#else
		vf_assert(memcmp(a, b, n) != 0, "different only when a byte differs");
#endif
	}
	vf_reach("mm_eq");
}
#endif
#ifdef SUM
void mm_sum(void)
{
	size_t n = vf_range(0, BIGN), i; uint8_t *a = vf_blob(n), c = vf_u8(); int null = vf_bool(); size_t N = null ? 0 : n;
	const uint8_t *s = null ? NULL : a;
	g_cnt = 0; g_s8 = 0; g_s16 = 0xFFFF; g_s32 = 0xFFFFFFFFu; g_i = 0;
#ifndef VF_CBMC
	for (i = 0; i < N; i++) { g_cnt += a[i] == c; g_s16 = step16((uint16_t)(g_s16 ^ a[i] << 8)); g_s32 = step32(g_s32 ^ a[i]); g_s8 = SUM == 1 ? g_s8 ^ a[i] : step8(g_s8 ^ a[i]); }
	g_i = N;
#endif
	(void)i;
#if SUM == 0
	vf_assert(M_mem_count(s, n, c) == g_cnt, "how many bytes are that byte");
#elif SUM == 1
	vf_assert(M_mem_calc_lrc(s, n) == g_s8, "exclusive or of all bytes");
#elif SUM == 2
	vf_assert(M_mem_calc_crc8_ccitt(s, n) == g_s8, "CRC-8 of all bytes");
#elif SUM == 3
	{ uint16_t r = M_mem_calc_crc16_ccitt(s, n); vf_assert(r == (N ? g_s16 : 0), "CRC-16 of all bytes"); }
#elif SUM == 4
	{ uint32_t r = M_mem_calc_crc32(s, n); vf_assert(r == (N ? ~g_s32 : 0), "CRC-32 of all bytes"); }
#endif
	vf_assert(g_i == N, "every byte, once, in order");
	vf_reach("mm_sum");
}
#endif
#ifdef SEARCH
void mm_find(void)
{
	size_t n = vf_range(1, BIGN), m = vf_range(1, BIGN), idx = 0; uint8_t *h = vf_blob(n), *d = vf_blob(m), *r;
	g_needle = d; g_nl = m; g_b0 = vf_range(0, BIGN); vf_assume(g_b0 < m); g_q = vf_range(0, BIGN); g_m = 0; g_h = NULL;
	if (m <= n && g_q <= n - m && vf_bool()) { g_m = 1; g_h = h + g_q; vf_assume(h[g_q] == d[0]); }
#if SEARCH == 1
	r = M_mem_mem(h, n, d, m);
	if (g_m) vf_assert(r != NULL && r <= h + g_q, "a match is found, and none later than the first");
#elif SEARCH == 2
	r = M_mem_rmem(h, n, d, m);
	if (g_m) vf_assert(r != NULL && r >= h + g_q, "a match is found, and none earlier than the last");
#else
	if (vf_bool()) { r = M_mem_mempos(h, n, d, m, &idx) ? h + idx : NULL; if (g_m) vf_assert(r != NULL && r <= h + g_q, "a match is found, and none later than the first"); }
	else { r = M_mem_contains(h, n, d, m) ? h : NULL; if (g_m) vf_assert(r != NULL, "a match is found"); r = NULL; }
#endif
	if (r) { vf_assert(r >= h && (size_t)(r - h) + m <= n, "inside"); vf_assert(r[g_b0] == d[g_b0], "what is found is what was looked for"); }
	vf_reach("mm_find");
}
#endif
void mm_misc(void)
{
	size_t n = vf_range(1, BIGN), i = vf_u64(), j = vf_u64(), q = vf_range(0, BIGN); uint8_t *a = vf_blob(n), v, x = 0, y = 0; int ok;
	vf_assume(q < n); v = a[q]; if (i < n) x = a[i]; if (j < n) y = a[j];
	ok = M_mem_swap_bytes(a, n, i, j);
	vf_assert(!ok == !(i < n && j < n), "bytes that exist");
	if (ok && q == i) v = y; else if (ok && q == j) v = x;
	vf_assert(a[q] == v, "those two are exchanged and nothing else changes");
	vf_reach("mm_misc");
}
#ifndef VF_CBMC
static int nd;
#endif
void mm_findn(void) /* native: searches against the definition */
{
	size_t n = vf_range(0, 24), m = vf_range(0, 4), i, f = 99, l = 99, idx = 77; uint8_t *h = vf_bytes(n, 24), *d = vf_bytes(m, 4); void *r;
	for (i = 0; i < n; i++) h[i] &= 1; for (i = 0; i < m; i++) d[i] &= 1;
	for (i = 0; m && i + m <= n; i++) if (memcmp(h + i, d, m) == 0) { if (f == 99) f = i; l = i; }
	if (n && !m) f = l = 0;
	r = M_mem_mem(h, n, d, m); vf_assert(r == (f == 99 ? NULL : h + f), "first");
	r = M_mem_rmem(h, n, d, m); vf_assert(r == (l == 99 ? NULL : h + l), "last");
	vf_assert(M_mem_mempos(h, n, d, m, &idx) == (f != 99) && idx == (f == 99 ? 77 : f), "where"); vf_assert(M_mem_contains(h, n, d, m) == (f != 99), "whether");
	vf_assert(M_mem_chr(h, 1, n) == memchr(h, 1, n), "byte");
	vf_assert((M_mem_cmpsort(h, n, d, m) < 0) == (n && m ? (n < m || (n == m && memcmp(h, d, n) < 0)) : (n == 0 && m > 0)), "order");
	free(h); free(d);
	vf_reach("mm_findn");
}
