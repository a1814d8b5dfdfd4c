/* P13: one link operation on an unsorted or circular list of any length.  Up to K of the list's nodes are materialised, at
 * any increasing positions of a list of n elements (slot X holds the node operated on, Y the other one); a link to a node that is not is a pointer nobody may
 * follow.  Every pair of neighbours after the operation is among some choice of materialised nodes that holds all the nodes
 * the operation looks at, so what is asserted about every materialised pair holds of every pair. */
#include "stubs/mem.h"
#include "vf.h"
#ifdef VF_CBMC
static void *vf_zero(size_t sz);
#define M_malloc_zero vf_zero
#endif
/*@VF_TRUST the union members for sorted and for unsorted lists are given storage of their own (the verifier loses writes through a pointer read from a union); a list is never both @*/
#define union struct
#include "base/list/m_llist.c"
#undef union
#ifdef VF_CBMC
/* the only zeroed block these operations ask for is a node */
static void *vf_zero(size_t sz) { M_llist_node_t *x = malloc(sizeof(*x)); vf_assert(sz == sizeof(*x), "a node is asked for"); x->parent = NULL; x->val = NULL; x->links.unsorted.next = NULL; x->links.unsorted.prev = NULL; return x; }
#define NONE 0xFFFFFFFFu /* position of a slot not in use */
static M_llist_t g; static M_llist_node_t *nd[K + 1], *nw; static M_uint32 p[K + 1], q[K + 1], n, n2; static int lo, hi, gone[K + 1];
static char g_obj[4]; static unsigned g_freed, g_dups; static void *g_lastfree;
static void *dupi(const void *v) { vf_assert(v == &g_obj[0], "the value given is copied"); g_dups++; return &g_obj[1]; }
static void *dupc(const void *v) { vf_assert(0, "not a copy of a list"); return NULL; }
static void vfree(void *v) { g_freed++; g_lastfree = v; }
/* addresses nobody may follow: of the head, of the tail, and of others that are not materialised */
static char g_bad[3];
#define BAD ((M_llist_node_t *)&g_bad[0])
static int in_(M_uint32 x) { int i; for (i = 0; i < K; i++) if (p[i] == x) return 1; return 0; }
static void need(M_uint32 x) { vf_assume(in_(x)); }
/* the neighbours of the node at x are materialised, if it has any */
static void around(M_uint32 x) { if (x > 0) need(x - 1); else if (CIRC) need(n - 1); if (x < n - 1) need(x + 1); else if (CIRC) need(0); }
static void build(void)
{
	int i; M_llist_node_t *H = (M_llist_node_t *)&g_bad[1], *T = (M_llist_node_t *)&g_bad[2];
	n = vf_range(0, 0x7FFFFFFFu); lo = (int)vf_range(0, K); hi = (int)vf_range(0, K); if (n == 1) T = H;
	g.flags = CIRC ? M_LLIST_CIRCULAR : M_LLIST_NONE; g.elements = n; g.duplicate_insert = dupi; g.duplicate_copy = dupc; g.value_free = vfree; g_freed = g_dups = 0;
	for (i = 0; i < K; i++) { nd[i] = malloc(sizeof(M_llist_node_t)); nd[i]->parent = &g; nd[i]->val = &nd[i]; gone[i] = 0; p[i] = NONE; if (i >= lo && i < hi) { p[i] = vf_range(0, 0x7FFFFFFFu); vf_assume(p[i] < n && (i == lo || p[i] > p[i-1])); } }
	for (i = 0; i < K; i++) { if (p[i] == 0) H = nd[i]; if (p[i] == n - 1 && n > 0) T = nd[i]; }
	for (i = 0; i < K; i++) if (p[i] != NONE) {
		nd[i]->links.unsorted.next = p[i] == n - 1 ? (CIRC ? H : NULL) : i < K - 1 && p[i+1] == p[i] + 1 ? nd[i+1] : BAD;
		nd[i]->links.unsorted.prev = p[i] == 0 ? (CIRC ? T : NULL) : i > 0 && p[i-1] == p[i] - 1 ? nd[i-1] : BAD;
	}
	g.head.unsorted.head = n ? H : NULL; g.tail = n ? T : NULL; n2 = n; for (i = 0; i < K; i++) q[i] = p[i];
}
static void m_rem(M_uint32 x) { int i; for (i = 0; i < K; i++) if (p[i] != NONE) { if (p[i] == x) gone[i] = 1; else if (p[i] > x) q[i] = p[i] - 1; } n2 = n - 1; }
static void m_ins(M_uint32 x) { int i; for (i = 0; i < K; i++) if (p[i] != NONE && p[i] >= x) q[i] = p[i] + 1; n2 = n + 1; nd[K] = nw; q[K] = x; vf_assert(nw != NULL && nw->val == &g_obj[1] && nw->parent == &g && g_dups == 1, "the new node holds a copy"); }
static void m_rot(M_uint32 x) { int i; for (i = 0; i < K; i++) if (p[i] != NONE) q[i] = p[i] >= x ? p[i] - x : p[i] + (n - x); }
/* element at x moves to x' of the list without it */
static void m_mov(M_uint32 x, M_uint32 y) { int i; M_uint32 r; for (i = 0; i < K; i++) if (p[i] != NONE) { if (p[i] == x) q[i] = y; else { r = p[i] > x ? p[i] - 1 : p[i]; q[i] = r >= y ? r + 1 : r; } } }
static int live(int i) { return i == K ? nw != NULL : p[i] != NONE && !gone[i]; }
static void post(void)
{
	int i, j;
	vf_assert(g.elements == n2, "number of elements");
	if (n2 == 0) vf_assert(g.head.unsorted.head == NULL && g.tail == NULL, "empty");
	i = (int)vf_range(0, K); j = (int)vf_range(0, K); vf_assume(live(i) && live(j));
	if (q[i] == 0) { vf_assert(g.head.unsorted.head == nd[i], "the first"); if (!CIRC) vf_assert(nd[i]->links.unsorted.prev == NULL, "nothing before the first"); }
	if (q[i] == n2 - 1) { vf_assert(g.tail == nd[i], "the last"); if (!CIRC) vf_assert(nd[i]->links.unsorted.next == NULL, "nothing after the last"); }
	vf_assert(nd[i]->parent == &g, "belongs to the list");
	if (i < K) vf_assert(nd[i]->val == &nd[i], "keeps its value");
	if (q[j] == q[i] + 1 || (CIRC && q[i] == n2 - 1 && q[j] == 0)) {
		vf_assert(nd[i]->links.unsorted.next == nd[j], "the next in order");
		vf_assert(nd[j]->links.unsorted.prev == nd[i], "the previous in order");
	}
	vf_assert(M_llist_first(&g) == g.head.unsorted.head && M_llist_last(&g) == g.tail && M_llist_len(&g) == n2, "first, last, how many");
}
#ifndef VF_SAN
void ll_op(void)
{
	M_uint32 x, y; void *v; build(); nw = NULL; x = p[X]; y = p[Y];
	if (OP > 1) { vf_assume(x != NONE); }
	if (OP == 0) { if (n) need(n - 1); if (CIRC && n) need(0); nw = M_llist_insert(&g, &g_obj[0]); m_ins(n); }
	if (OP == 1) { if (n) need(0); if (CIRC && n) need(n - 1); nw = M_llist_insert_first(&g, &g_obj[0]); m_ins(0); }
	if (OP == 2) { if (x) need(x - 1); else if (CIRC) { need(n - 1); } nw = M_llist_insert_before(nd[X], &g_obj[0]); m_ins(CIRC && x == 0 ? n : x); }
	if (OP == 3) { if (x < n - 1) need(x + 1); else if (CIRC) need(0); nw = M_llist_insert_after(nd[X], &g_obj[0]); m_ins(x + 1); }
	if (OP == 4) { around(x); v = nd[X]->val; vf_assert(M_llist_remove_node(nd[X]), "removed"); vf_assert(g_freed == 1 && g_lastfree == v, "its value is released, once"); m_rem(x); }
	if (OP == 5) { around(x); v = nd[X]->val; vf_assert(M_llist_take_node(nd[X]) == v, "its value is handed over"); vf_assert(g_freed == 0, "not released"); m_rem(x); }
	if (OP == 6) { around(x); need(0); M_llist_set_first(nd[X]); if (CIRC) m_rot(x); else m_mov(x, 0); }
	if (OP == 7) { around(x); need(n - 1); M_llist_set_last(nd[X]); if (CIRC) m_rot(x + 1 == n ? 0 : x + 1); else m_mov(x, n - 1); }
	if (OP == 8 || OP == 9) {
		int done, same = x == y; M_bool r; vf_assume(y != NONE); around(x); around(y); done = OP == 8 ? (CIRC ? (x + 1 == n ? 0 : x + 1) == y : x + 1 == y) : (CIRC ? (y + 1 == n ? 0 : y + 1) == x : y + 1 == x);
		r = OP == 8 ? M_llist_move_before(nd[X], nd[Y]) : M_llist_move_after(nd[X], nd[Y]); vf_assert(!r == same, "moved, unless it is the same");
		if (!same && !done) { M_uint32 r2 = y > x ? y - 1 : y; m_mov(x, OP == 8 ? r2 : r2 + 1); }
	}
	post();
	vf_reach("ll_op");
}
#endif
#endif
