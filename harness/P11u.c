/* P11: sorting and binary search for arrays of any length, over an abstract comparison: element contents are never looked at,
 * an oracle answers every comparison with any value consistent with the order the property quantifies over. */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <stdlib.h>
#include "vf.h"
#ifdef VF_CBMC
#ifndef E
#define E 8
#endif
#ifndef MAXN
#define MAXN ((size_t)1 << 40)
#endif
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
static unsigned char *g_b; static size_t g_n; static int g_one_obj;
static int sign(int s) { int r = (int)vf_u32(); if (s < 0) vf_assume(r < 0); if (s == 0) vf_assume(r == 0); if (s > 0) vf_assume(r > 0); return r; }

#ifdef BIN
/*@VF_TRUST comparisons are answered by an oracle: any function consistent with a sorted array (first equal at lo, first greater at hi) @*/
static size_t lo, hi; static char g_key;
static int ora(const void *k, const void *x, void *t)
{
	size_t i = OFF(x) / E;
	vf_assert(k == &g_key && t == &g_one_obj, "compares the key with the thunk given"); vf_assert(__CPROVER_same_object(x, g_b) && OFF(x) % E == 0 && i < g_n, "compares elements of the array only");
	return sign(i < lo ? 1 : i < hi ? 0 : -1);
}
#define compar(a, b, t) ora(a, b, t)
#include "base/sort/m_sort_binary.c"
#undef compar
/*@VF_LOOP base/sort/m_sort_binary.c M_sort_binary_idx 1/3
__CPROVER_assigns(left, right, mid, eq)
__CPROVER_loop_invariant(left >= 0 && right >= -1 && right < (ssize_t)nmemb && left <= right + 1 && (size_t)left <= lo && (ssize_t)hi <= right + 1)
__CPROVER_loop_invariant((left == 0 && right == (ssize_t)nmemb - 1) || (eq > 0 && mid < lo && (ssize_t)mid == left - 1) || (eq < 0 && mid >= hi && (ssize_t)mid == right + 1))
__CPROVER_decreases(right - left + 1)
@*/
/*@VF_LOOP base/sort/m_sort_binary.c M_sort_binary_idx 2/3
__CPROVER_assigns(mid, eq)
__CPROVER_loop_invariant(lo <= mid && mid < hi)
__CPROVER_decreases(mid)
@*/
/*@VF_LOOP base/sort/m_sort_binary.c M_sort_binary_idx 3/3
__CPROVER_assigns(mid, eq)
__CPROVER_loop_invariant((eq == 0 && lo <= mid && mid < hi) || (eq != 0 && mid == hi))
__CPROVER_decreases(nmemb - mid)
@*/
void bin(void)
{
	size_t i = 7; M_bool st = vf_bool(), r; g_n = vf_range(0, MAXN); lo = vf_range(0, MAXN); hi = vf_range(0, MAXN); vf_assume(lo <= hi && hi <= g_n); g_b = malloc(E * g_n + 1);
	if (vf_bool()) {
		i = M_sort_binary_insert_idx(g_b, g_n, E, &g_key, st, ora, &g_one_obj);
		vf_assert(i >= lo && i <= hi, "a place where the array stays sorted"); if (st) vf_assert(i == hi, "after all equal elements");
	} else {
		r = M_sort_binary_search(g_b, g_n, E, &g_key, st, ora, &g_one_obj, &i);
		vf_assert(!r == (lo == hi), "found exactly when it is there"); if (r) vf_assert(i >= lo && i < hi, "the index of an equal element"); if (r && st) vf_assert(i == lo, "the first equal element");
	}
	vf_reach("bin");
}
#endif

#ifdef MERGE
/* two arbitrary elements: A (half SA, index g_a once its half is sorted) and B.  cmp(left i, right j) is monotone in both */
/*@VF_TRUST mergesort: the halves are sorted by induction on the length (the recursive call by its contract); allocation succeeds; copies are counted, element contents are not modelled @*/
static unsigned char *g_l, *g_r; static size_t g_ls, g_rs, g_a, g_c, pa, pc; static int na, nc, g_ph, g_sl, g_sr; static int g_le;
void M_free(void *p) { free(p); }
void *M_malloc(size_t n) { return malloc(n); }
void *M_mem_copy(void *d, const void *s, size_t n)
{
	if (!g_sl && !g_sr) {
		vf_assert(__CPROVER_same_object(s, g_b) && n % E == 0 && !__CPROVER_same_object(d, g_b) && OFF(d) == 0, "takes the halves out");
		if (g_ph == 0) { vf_assert(OFF(s) == 0 && n <= g_n * E, "the left half"); g_l = d; g_ls = n / E; } else { vf_assert(OFF(s) == g_ls * E && n == (g_n - g_ls) * E && d != g_l, "the right half"); g_r = d; g_rs = n / E; }
		g_ph++;
	} else {
		size_t k = OFF(d) / E, i = OFF(s) / E;
		vf_assert(g_sl && g_sr && g_ph == 2, "both halves sorted"); vf_assert(__CPROVER_same_object(d, g_b) && OFF(d) % E == 0 && k < g_n && n == E && OFF(s) % E == 0, "one element into the array");
		vf_assert((__CPROVER_same_object(s, g_l) && i < g_ls) || (__CPROVER_same_object(s, g_r) && i < g_rs), "an element of a half");
		if (__CPROVER_same_object(s, SA ? g_r : g_l) && i == g_a) { pa = k; na++; }
		if (__CPROVER_same_object(s, SC ? g_r : g_l) && i == g_c) { pc = k; nc++; }
	}
	return d;
}
static int ora(const void *x, const void *y, void *t)
{
	size_t i = OFF(x) / E, j = OFF(y) / E; int r = (int)vf_u32();
	vf_assert(t == &g_one_obj, "thunk given"); vf_assert(__CPROVER_same_object(x, g_l) && __CPROVER_same_object(y, g_r) && OFF(x) % E == 0 && OFF(y) % E == 0 && i < g_ls && j < g_rs, "compares an element of the left half with one of the right");
#if SA == 0 && SC == 1
	if (g_le && i <= g_a && j >= g_c) vf_assume(r <= 0);
	if (!g_le && i >= g_a && j <= g_c) vf_assume(r > 0);
#endif
	return r;
}
/* the recursive call, by its contract */
static void rec(void *b, size_t n, size_t e, M_sort_compar_t c, void *t)
{
	vf_assert(g_ph == 2 && e == E && c == ora && t == &g_one_obj && n < g_n, "a shorter array of the same kind"); vf_assert((b == g_l && n == g_ls) || (b == g_r && n == g_rs), "a whole half");
	if (b == g_l) g_sl = 1; else g_sr = 1;
}
#define compar(a, b, t) ora(a, b, t)
void vf_real_M_sort_mergesort(void *base, size_t nmemb, size_t esize, M_sort_compar_t compar_, void *thunk);
#define M_sort_mergesort(b, n, e, c, t) rec(b, n, e, c, t)
#if SA
#define IA j
#else
#define IA i
#endif
#if SC
#define IC j
#else
#define IC i
#endif
#define ONE(n, p, x, q) ((x > q && n == 1 && p < k) || (x <= q && n == 0))
#if SA == SC
#define REL (!(IA > g_a && IC > g_c) || pa < pc)
#else
#define REL (!(g_a < ls && g_c < rs) || ((!(IA > g_a && IC <= g_c) || g_le) && (!(IA <= g_a && IC > g_c) || !g_le) && (!(IA > g_a && IC > g_c) || (pa != pc && (pa < pc) == (g_le != 0)))))
#endif
#define INVP (ONE(na, pa, IA, g_a) && ONE(nc, pc, IC, g_c) && REL && ls == g_ls && rs == g_rs && g_ph == 2 && g_sl && g_sr && g_l == left && g_r == right && left != right)
#include "base/sort/m_sort_mergesort.c"
#undef compar
#undef M_sort_mergesort
/*@VF_RENAME base/sort/m_sort_mergesort.c M_sort_mergesort if MERGE @*/
/*@VF_LOOP base/sort/m_sort_mergesort.c M_sort_mergesort 1/3
__CPROVER_assigns(i, j, k, pa, pc, na, nc)
__CPROVER_loop_invariant(i <= ls && j <= rs && k == i + j && INVP)
__CPROVER_decreases(ls + rs - k)
@*/
/*@VF_LOOP base/sort/m_sort_mergesort.c M_sort_mergesort 2/3
__CPROVER_assigns(i, k, pa, pc, na, nc)
__CPROVER_loop_invariant(i <= ls && j <= rs && k == i + j && (i == ls || j == rs) && INVP)
__CPROVER_decreases(ls - i)
@*/
/*@VF_LOOP base/sort/m_sort_mergesort.c M_sort_mergesort 3/3
__CPROVER_assigns(j, k, pa, pc, na, nc)
__CPROVER_loop_invariant(i <= ls && j <= rs && k == i + j && i == ls && INVP)
__CPROVER_decreases(rs - j)
@*/
void ms(void)
{
	g_n = vf_range(2, MAXN); g_a = vf_range(0, MAXN); g_c = vf_range(0, MAXN); g_b = malloc(E * g_n); g_le = vf_bool(); na = nc = g_ph = g_sl = g_sr = 0; g_l = g_r = NULL; g_ls = g_rs = 0;
	if (SA == SC) vf_assume(g_a < g_c);
	vf_real_M_sort_mergesort(g_b, g_n, E, ora, &g_one_obj);
	vf_assume(g_a < (SA ? g_rs : g_ls) && g_c < (SC ? g_rs : g_ls));
	vf_assert(g_ls + g_rs == g_n, "the halves are the array"); vf_assert(na == 1 && nc == 1, "each element is in the result once"); vf_assert(pa < g_n && pc < g_n && pa != pc, "in a place of its own");
	vf_assert(!(pa < pc) == !(SA == SC || g_le), "two elements end up in order, equal ones in the order they were");
	vf_reach("ms");
}
#endif

#ifdef QS
/* an arbitrary element, at byte offset t1 now; c1: how it compares with the pivot */
/*@VF_TRUST qsort: the sub-ranges are sorted by induction on the length (recursive call, next round of the loop and insertion sort by contract); swaps are tracked for one arbitrary element (they are permutations, so elements stay distinct), contents are not modelled @*/
static size_t t1, tp, a1, n1, a2, n2, SZ; static int c1, g_ph, g_done; static size_t g_w;
#define NOW ((size_t)-1)
/* g_w: an element found greater than the pivot since the last exchange; asked again, it still is */
static void move(size_t *t, size_t a, size_t b, size_t n) { if (*t >= a && *t - a < n) *t = *t - a + b; else if (*t >= b && *t - b < n) *t = *t - b + a; }
static void my_swap(void *a, void *b, size_t n)
{
	size_t x = OFF(a), y = OFF(b);
	vf_assert(__CPROVER_same_object(a, g_b) && __CPROVER_same_object(b, g_b) && n % E == 0 && x % E == 0 && y % E == 0 && n <= SZ && x <= SZ - n && y <= SZ - n, "exchanges elements of the array");
	if (x != y) { vf_assert(x + n <= y || y + n <= x, "exchanges disjoint ranges"); move(&t1, x, y, n); }
	if ((g_w >= x && g_w - x < n) || (g_w >= y && g_w - y < n)) g_w = NOW;
	if (g_ph == 0) { g_ph = 1; tp = 0; if (t1 == 0) vf_assume(c1 == 0); } else if (x != y) move(&tp, x, y, n);
}
static int ora(const void *x, const void *y, void *t)
{
	size_t i = OFF(x), j = OFF(y);
	vf_assert(t == &g_one_obj, "thunk given"); vf_assert(__CPROVER_same_object(x, g_b) && __CPROVER_same_object(y, g_b) && i % E == 0 && j % E == 0 && i < SZ && j < SZ, "compares elements of the array");
	if (g_ph == 1 && j == tp) {
		int r = i == t1 ? sign(c1) : (int)vf_u32();
		if (i == g_w) vf_assume(r > 0);
		if (r > 0 && g_w == NOW) g_w = i;
		return r;
	}
	if (g_ph == 1 && i == tp && j == t1) return sign(-c1);
	return (int)vf_u32();
}
static void finish(void)
{
	g_done = 1;
	vf_assert(t1 < SZ, "still in the array");
	if (g_ph == 0) { vf_assert(a2 == 0 && n2 == g_n, "a short array is sorted as a whole"); return; }
	vf_assert(n1 == 0 || a1 == 0, "the first part sorted is at the start"); vf_assert(n2 == 0 || a2 + n2 * E == SZ, "the other part is at the end"); vf_assert(n1 < g_n && n2 <= g_n - n1, "the parts are disjoint");
	if (c1 < 0) vf_assert(n1 ? t1 / E < n1 : t1 == 0, "smaller elements are sorted at the start");
	if (c1 == 0) vf_assert(t1 / E >= n1 && t1 / E < g_n - n2, "elements equal to the pivot lie between");
	if (c1 > 0) vf_assert(n2 ? t1 / E >= g_n - n2 : t1 == SZ - E, "greater elements are sorted at the end");
}
static void sub(void *b, size_t n, size_t e, M_sort_compar_t c, void *t)
{
	vf_assert(g_ph == 1 && n1 == 0 && e == E && c == ora && t == &g_one_obj && n < g_n && __CPROVER_same_object(b, g_b) && OFF(b) % E == 0 && n <= g_n && OFF(b) <= SZ - n * E, "sorts a shorter part"); a1 = OFF(b); n1 = n;
}
static void tail(void *b, size_t n) { vf_assert(__CPROVER_same_object(b, g_b) && OFF(b) % E == 0 && n <= g_n && OFF(b) <= SZ - n * E && (g_ph == 0 || n < g_n), "sorts a shorter part"); a2 = OFF(b); n2 = n; finish(); }
static void insertion(void *b, size_t n, size_t e, M_sort_compar_t c, void *t) { vf_assert(e == E && c == ora && t == &g_one_obj && n < 7, "sorts a few elements"); tail(b, n); }
static unsigned char *my_pivot(void *b, size_t n, size_t e, M_sort_compar_t c, void *t)
{
	size_t k = vf_range(0, MAXN);
	if (g_ph == 1) { tail(b, n); vf_assume(0); }
	vf_assert(b == g_b && n == g_n && e == E, "of the whole array"); vf_assume(k < g_n); return g_b + k * E;
}
#define sort_swap(a, b, n, t) my_swap(a, b, n)
#define M_sort_insertion(b, n, e, c, t) insertion(b, n, e, c, t)
#define qsort_choose_pivot(b, n, e, c, t) my_pivot(b, n, e, c, t)
#define M_sort_qsort(b, n, e, c, t) sub(b, n, e, c, t)
#define compar(a, b, t) ora(a, b, t)
#define O(p) __CPROVER_POINTER_OFFSET(p)
#define ZONE(t, c) (t < SZ && (t & (E - 1)) == 0 && (!(t < O(left1)) || c == 0) && (!(t >= O(left1) && t < O(left2)) || c < 0) && (!(t > O(right1) && t <= O(right2)) || c > 0) && (!(t > O(right2)) || c == 0))
#define INVQ (__CPROVER_same_object(left1, base) && __CPROVER_same_object(left2, base) && __CPROVER_same_object(right1, base) && __CPROVER_same_object(right2, base) && E <= O(left1) && O(left1) <= O(left2) && O(left2) <= O(right1) + E && O(right1) <= O(right2) && O(right2) <= SZ - E && (O(left1) & (E - 1)) == 0 && (O(left2) & (E - 1)) == 0 && (O(right1) & (E - 1)) == 0 && (O(right2) & (E - 1)) == 0 && tp == 0 && ZONE(t1, c1))
void vf_real_M_sort_qsort(void *base, size_t nmemb, size_t esize, M_sort_compar_t compar_, void *thunk);
#include "base/sort/m_sort_qsort.c"
/*@VF_RENAME base/sort/m_sort_qsort.c sort_swap if QS @*/
/*@VF_RENAME base/sort/m_sort_qsort.c M_sort_insertion if QS @*/
/*@VF_RENAME base/sort/m_sort_qsort.c qsort_choose_pivot if QS @*/
/*@VF_RENAME base/sort/m_sort_qsort.c M_sort_qsort if QS @*/
/*@VF_LOOP base/sort/m_sort_qsort.c M_sort_qsort 1/3
__CPROVER_assigns(left1, left2, right1, right2, rv, t1, tp, g_w)
__CPROVER_loop_invariant(INVQ && g_w == NOW)
__CPROVER_decreases(O(right1) + E - O(left2))
@*/
/*@VF_LOOP base/sort/m_sort_qsort.c M_sort_qsort 2/3
__CPROVER_assigns(left1, left2, rv, t1, tp, g_w)
__CPROVER_loop_invariant(INVQ && g_w == NOW && O(left2) >= O(__CPROVER_loop_entry(left2)))
__CPROVER_decreases(O(right1) + E - O(left2))
@*/
/*@VF_LOOP base/sort/m_sort_qsort.c M_sort_qsort 3/3
__CPROVER_assigns(right1, right2, rv, t1, tp, g_w)
__CPROVER_loop_invariant(INVQ && ((g_w == O(left2) && (t1 != g_w || c1 > 0)) || O(left2) > O(right1)) && O(right1) <= O(__CPROVER_loop_entry(right1)))
__CPROVER_decreases(O(right1) + E - O(left2))
@*/
void qs(void)
{
	g_n = vf_range(0, MAXN); SZ = g_n * E; g_b = malloc(SZ + 1); t1 = vf_range(0, MAXN * E); vf_assume(t1 < SZ && t1 % E == 0);
	c1 = (int)vf_range(0, 2) - 1;
#ifdef CL
	c1 = CL;
#endif
	 g_ph = g_done = 0; tp = 0; g_w = NOW; a1 = n1 = a2 = n2 = 0;
	vf_real_M_sort_qsort(g_b, g_n, E, ora, &g_one_obj);
	if (!g_done) finish();
	vf_reach("qs");
}
#endif

#ifdef PIVOT
static int ora(const void *x, const void *y, void *t)
{
	vf_assert(__CPROVER_same_object(x, g_b) && __CPROVER_same_object(y, g_b) && OFF(x) % E == 0 && OFF(y) % E == 0 && OFF(x) < g_n * E && OFF(y) < g_n * E && t == &g_one_obj, "compares elements of the array");
	return (int)vf_u32();
}
#define compar(a, b, t) ora(a, b, t)
#include "base/sort/m_sort_qsort.c"
void pivot(void)
{
	unsigned char *p; g_n = vf_range(7, MAXN); g_b = malloc(E * g_n); p = qsort_choose_pivot(g_b, g_n, E, ora, &g_one_obj);
	vf_assert(__CPROVER_same_object(p, g_b) && OFF(p) % E == 0 && OFF(p) < g_n * E, "the pivot is an element of the array"); vf_reach("pivot");
}
#endif

#ifdef INS
#include "base/sort/m_sort_qsort.c"
typedef struct { unsigned char k[ES - 1], i; } el_t;
static el_t a[6] __attribute__((aligned(8)));
static int cmpk(const void *x, const void *y, void *t) { const el_t *p = x, *q = y; return (int)p->k[0] - (int)q->k[0]; }
void ins(void)
{
	size_t i, j, n = vf_range(0, 6), q = vf_range(0, 5); unsigned char k[6], seen = 0;
	for (i = 0; i < 6; i++) { k[i] = vf_u8(); for (j = 0; j < ES - 1; j++) a[i].k[j] = k[i]; a[i].i = (unsigned char)i; }
	M_sort_insertion(a, n, sizeof(el_t), cmpk, NULL);
	for (i = 0; i < 6; i++) { vf_assert(a[i].i < 6, "an element of the array"); seen |= (unsigned char)(1u << a[i].i); for (j = 0; j < ES - 1; j++) vf_assert(a[i].k[j] == k[a[i].i], "whole elements are moved"); if (i + 1 < n) vf_assert(a[i].k[0] < a[i + 1].k[0] || (a[i].k[0] == a[i + 1].k[0] && a[i].i < a[i + 1].i), "in order"); if (i >= n) vf_assert(a[i].i == i, "nothing else is touched"); }
	vf_assert(seen == 63, "none lost"); (void)q; vf_reach("ins");
}
#endif

#ifdef SWAP
#include "base/sort/m_sort_qsort.c"
static unsigned char buf[48] __attribute__((aligned(8)));
void swp(void)
{
	size_t x = 0, y = 24, n = vf_range(0, 24), i, q = vf_range(0, 47), e = SWAP; unsigned char o[48];
	for (i = 0; i < 48; i++) o[i] = buf[i] = vf_u8();
	vf_assume(n % e == 0);
	if (vf_bool()) { vf_assume(n == e); sort_swap(buf + x, buf + y, e, M_sort_swaptype(buf, e)); } else sort_swap_multiple(buf + x, buf + y, n, M_sort_swaptype(buf, e));
	vf_assert(buf[q] == (q >= x && q < x + n ? o[q - x + y] : q >= y && q < y + n ? o[q - y + x] : o[q]), "exactly the two ranges are exchanged"); vf_reach("swp");
}
#endif

#ifdef CMP
#include "base/sort/m_sort_compar.c"
static int sg(int r) { return r < 0 ? -1 : r > 0; }
void cmp(void)
{
	M_uint64 a = vf_u64(), b = vf_u64(), *p = &a, *q = &b; char o[8]; void *u = o + vf_range(0, 7), *v = o + vf_range(0, 7);
	vf_assert(sg(M_sort_compar_u64(&p, &q, NULL)) == (a < b ? -1 : a > b), "orders by value"); vf_assert(sg(M_sort_compar_u64_desc(&p, &q, NULL)) == (a > b ? -1 : a < b), "descending is the reverse");
	vf_assert(sg(M_sort_compar_vp(&u, &v, NULL)) == (u < v ? -1 : u > v), "orders by address"); vf_assert(sg(M_sort_compar_vp_desc(&u, &v, NULL)) == (u > v ? -1 : u < v), "descending is the reverse"); vf_reach("cmp");
}
#endif
#endif
