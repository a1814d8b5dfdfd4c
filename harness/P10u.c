/* P10: one operation on a list of any length and capacity, anywhere in its storage.  Block moves are by contract: the ranges
 * must be valid, and afterwards the block is arbitrary except for one tracked element (any one: w) carried along. */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <stdlib.h>
#include "vf.h"
#ifndef MAXN
#define MAXN ((size_t)1 << 40)
#endif
#ifdef VF_CBMC
/*@VF_TRUST M_mem_move/M_mem_set on list storage and M_realloc are replaced by their contracts (valid whole-slot ranges required; one arbitrary tracked slot carried over, the rest arbitrary); the allocator never fails @*/
static void **g_t; static void *g_obj[4];
static void **g_base; static size_t g_cap;
#define SLOT(p) ((size_t)((void **)(p) - g_base))
void M_free(void *p) { free(p); }
void *M_malloc(size_t n) { return malloc(n); }
void *M_mem_move(void *d, const void *s, size_t n)
{
	size_t k, ds, ss, ts;
	if (n == 0) return d;
	vf_assert(__CPROVER_same_object(d, g_base) && __CPROVER_same_object(s, g_base) && n % sizeof(void *) == 0, "moves within the list");
	k = n / sizeof(void *); ds = SLOT(d); ss = SLOT(s);
	vf_assert(k <= g_cap && ds <= g_cap - k && ss <= g_cap - k, "moved range inside the storage");
	if (g_t != NULL) { ts = SLOT(g_t); if (ts >= ss && ts - ss < k) ts = ts - ss + ds; else if (ts >= ds && ts - ds < k) { g_t = NULL; } if (g_t != NULL) g_t = g_base + ts; }
	__CPROVER_havoc_object(d);
	if (g_t != NULL) *g_t = &g_obj[0];
	return d;
}
void *M_mem_set(void *d, int c, size_t n)
{
	size_t k = n / sizeof(void *), ds = SLOT(d);
	vf_assert(__CPROVER_same_object(d, g_base) && n % sizeof(void *) == 0 && k <= g_cap && ds <= g_cap - k && c == 0, "cleared range inside the storage");
	if (g_t != NULL && SLOT(g_t) >= ds && SLOT(g_t) - ds < k) g_t = NULL;
	__CPROVER_havoc_object(d); if (g_t != NULL) *g_t = &g_obj[0];
	return d;
}
void *M_realloc(void *p, size_t n)
{
	void **r; size_t k = n / sizeof(void *), ts;
	vf_assert(p == g_base && n % sizeof(void *) == 0 && k > 0, "the storage changes size");
	r = malloc(sizeof(void *) * (size_t)k);
	if (g_t != NULL) { ts = SLOT(g_t); if (ts < k) { g_t = r + ts; *g_t = &g_obj[0]; } else g_t = NULL; }
	free(p); g_base = r; g_cap = k; return r;
}
#include "base/list/m_list.c"
#ifdef TRACK
#define vf_also(c, m) ((void)0)
#else
#define vf_also vf_assert
#endif
static M_list_t g; static size_t n, w; static unsigned g_freed, g_dups; static void *g_lastfree;
static void *dupi(const void *v) { vf_assert(v == &g_obj[1], "the value given is copied"); g_dups++; return &g_obj[2]; }
static void *dupc(const void *v) { vf_assert(0, "not a copy of a list"); return NULL; }
static void vfree(void *v) { g_freed++; g_lastfree = v; }
static size_t lg(size_t i, size_t cnt) { return (FLAGS & M_LIST_STACK) ? cnt - 1 - i : i; }
static int build(void)
{
	size_t off; g_cap = vf_range(1, MAXN); n = vf_range(0, MAXN); off = vf_range(0, MAXN); w = vf_range(0, MAXN);
	vf_assume(g_cap >= 4 && n <= g_cap && off <= g_cap - n);
#ifdef CAP
	vf_assume(g_cap == (size_t)CAP);
#endif
	g_base = malloc(sizeof(void *) * (size_t)g_cap);
	g.base = g_base; g.start = g_base + off; g.elements = n; g.allocated = g_cap; g.flags = FLAGS; g.duplicate_insert = dupi; g.duplicate_copy = dupc; g.value_free = vfree; g_freed = g_dups = 0; g_t = NULL;
	#ifdef TRACK
	vf_assume(w < n); g_t = g.start + w; *g_t = &g_obj[0]; return 1;
#else
	return 0;
#endif
}
static void inv(size_t cnt)
{
	vf_also(g.base == g_base && g.allocated == g_cap, "storage and its capacity"); vf_also(g.elements == cnt, "number of values");
	vf_also(__CPROVER_same_object(g.start, g.base) && (size_t)(g.start - g.base) <= g_cap && cnt <= g_cap - (size_t)(g.start - g.base), "values inside the storage");
}
/* the four places a tracked element can be relative to what is taken out of slots a..b (each its own unit) */
#ifndef CASE
#define CASE 0
#endif
static void which(size_t a, size_t b)
{
	if (CASE == 1) vf_assume(a == 0); if (CASE == 2) vf_assume(a > 0 && b == n - 1); if (CASE == 3) vf_assume(a > 0 && b < n - 1 && w < a); if (CASE == 4) vf_assume(a > 0 && b < n - 1 && w >= a);
}
static void still(size_t at) { vf_assert(M_list_at(&g, lg(at, g.elements)) == &g_obj[0], "every other value keeps its place in the order"); }
void li_insert_at(void)
{
	size_t i = vf_range(0, 2*MAXN), k; int h = build();
	k = i > n ? n : i; if (FLAGS & M_LIST_STACK) k = n - k;
	M_bool ok = M_list_insert_at(&g, &g_obj[1], i); vf_also(ok, "put in"); inv(n + 1); vf_also(M_list_at(&g, i > n ? n : i) == &g_obj[2] && g_dups == 1 && g_freed == 0, "a copy at the position asked for"); if (h) still(w >= k ? w + 1 : w);
	vf_reach("li_insert_at");
}
void li_insert(void) { int h = build(); M_bool ok = M_list_insert(&g, &g_obj[1]); vf_also(ok, "put in"); inv(n + 1); vf_also(M_list_at(&g, lg(n, n + 1)) == &g_obj[2] && g_dups == 1, "a copy at the end (of a stack: on top)"); if (h) still(w); vf_reach("li_insert"); }
void li_take_at(void)
{
	size_t i = vf_range(0, 2*MAXN); int h = build(); void *v, *r; vf_assume(n > 0);
	if (CASE) { vf_assume(i < n); which(lg(i, n), lg(i, n)); }
	v = i < n ? g.start[lg(i, n)] : NULL; r = M_list_take_at(&g, i); vf_also(r == v && g_freed == 0, "handed over"); inv(i < n ? n - 1 : n);
	if (i >= n) { if (h) still(w); } else if (h && w != lg(i, n)) still(w > lg(i, n) ? w - 1 : w);
	if (h && i < n && w == lg(i, n)) vf_also(r == &g_obj[0], "the value there");
	vf_reach("li_take_at");
}
#ifndef LEN
#define LEN 1
#endif
void li_remove(void)
{
	size_t i = vf_range(0, 2*MAXN), j, a, b; int h = build(); M_bool r; void *v; vf_assume(i <= (MAXN)); j = i + LEN - 1;
	if (CASE) { vf_assume(i < n); a = lg(i, n); b = lg(j < n ? j : n - 1, n); if (a > b) { size_t t = a; a = b; b = t; } which(a, b); }
	v = i < n ? g.start[lg(i, n)] : NULL;
	r = LEN == 1 && vf_bool() ? M_list_remove_at(&g, i) : M_list_remove_range(&g, i, j); vf_also(!r == (i >= n), "removed when there");
	if (i >= n) { inv(n); vf_also(g_freed == 0, "nothing released"); if (h) still(w); }
	else {
		if (j >= n) j = n - 1; inv(n - (j - i + 1)); vf_also(g_freed == j - i + 1, "each value of the range is released"); if (LEN == 1) vf_also(g_lastfree == v, "the value released is the one there");
		a = lg(i, n); b = lg(j, n); if (FLAGS & M_LIST_STACK) { size_t t = a; a = b; b = t; }
		if (h && (w < a || w > b)) still(w > b ? w - (b - a + 1) : w);
	}
	vf_reach("li_remove");
}
void li_replace(void)
{
	size_t i = vf_range(0, 2*MAXN); int h = build(); void *v = i < n ? g.start[lg(i, n)] : NULL; M_bool r;
	r = M_list_replace_at(&g, &g_obj[1], i); vf_also(!r == (i >= n), "replaced when there"); inv(n);
	if (i < n) { vf_also(M_list_at(&g, i) == &g_obj[2] && g_dups == 1 && g_freed == 1 && g_lastfree == v, "a copy in place of the released value"); if (h && w != lg(i, n)) still(w); } else { vf_also(g_freed == 0 && g_dups == 0, "nothing done"); if (h) still(w); }
	vf_reach("li_replace");
}
void li_swap(void)
{
	size_t i = vf_range(0, 2*MAXN), j = vf_range(0, 2*MAXN); int h = build(); void *v = i < n ? g.start[lg(i, n)] : NULL, *u = j < n ? g.start[lg(j, n)] : NULL; M_bool r;
	r = M_list_swap(&g, i, j); vf_also(!r == (i >= n || j >= n || i == j), "swapped when both are there"); inv(n);
	if (i < n && j < n) { vf_also(M_list_at(&g, i) == u && M_list_at(&g, j) == v, "each in the other's place"); if (h && w != lg(i, n) && w != lg(j, n)) still(w); } else if (h) still(w);
	vf_reach("li_swap");
}
#endif
