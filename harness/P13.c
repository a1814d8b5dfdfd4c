/* P13: linked lists and queues against the sequence they stand for (histories) */
#include "stubs/mem.h"
#include "vf.h"
#include <stdio.h>
#define MX 48
typedef struct { int id, uid; } obj_t;
static int g_live, g_uid;
static void *dup_(const void *p) { obj_t *o = malloc(sizeof(*o)); g_live++; o->id = ((const obj_t *)p)->id; o->uid = ++g_uid; return o; }
static void fre_(void *p) { if (p == NULL) return; g_live--; free(p); }
static int g_rev;
static int cmp_(const void *a, const void *b, void *t) { int x = (*(obj_t *const *)a)->id, y = (*(obj_t *const *)b)->id; int r = x < y ? -1 : x > y; return t ? -r : r; }
typedef struct { M_llist_node_t *nd[MX]; int id[MX]; int n; } model_t;
static model_t ma; static M_uint32 g_fl;
static void ins(model_t *m, int at, M_llist_node_t *nd, int id) { int j; for (j = m->n; j > at; j--) { m->nd[j] = m->nd[j-1]; m->id[j] = m->id[j-1]; } m->nd[at] = nd; m->id[at] = id; m->n++; }
static void rem(model_t *m, int at) { int j; for (j = at; j + 1 < m->n; j++) { m->nd[j] = m->nd[j+1]; m->id[j] = m->id[j+1]; } m->n--; }
/* take the order of the list itself, after checking it is sorted and holds exactly the nodes expected */
static void check(const M_llist_t *d, model_t *m)
{
	int i, j, so = (g_fl & M_LLIST_SORTED) != 0, ci = (g_fl & M_LLIST_CIRCULAR) != 0; M_llist_node_t *p, *prev = NULL; int seen[MX] = { 0 };
	vf_assert(M_llist_len(d) == (size_t)m->n, "number of elements");
	p = M_llist_first(d); vf_assert((p == NULL) == (m->n == 0), "first, when there is one");
	for (i = 0; i < m->n; i++) {
		vf_assert(p != NULL, "every element");
		if (so) {
			for (j = 0; j < m->n; j++) if (m->nd[j] == p) break;
			vf_assert(j < m->n && !seen[j], "each element once"); seen[j] = 1; vf_assert(((obj_t *)M_llist_node_val(p))->id == m->id[j], "its value");
			if (i) vf_assert(g_rev ? ((obj_t *)M_llist_node_val(prev))->id >= m->id[j] : ((obj_t *)M_llist_node_val(prev))->id <= m->id[j], "sorted");
		} else { vf_assert(p == m->nd[i], "in their order"); vf_assert(((obj_t *)M_llist_node_val(p))->id == m->id[i], "its value"); }
		if (i || !ci) vf_assert(M_llist_node_prev(p) == prev, "backward is the reverse");
		prev = p; p = M_llist_node_next(p);
	}
	vf_assert(M_llist_last(d) == prev, "last");
	if (ci && m->n) { vf_assert(p == M_llist_first(d), "closed"); vf_assert(M_llist_node_prev(p) == prev, "closed backward"); } else vf_assert(p == NULL, "ends");
	if (so) { p = M_llist_first(d); for (i = 0; i < m->n; i++) { m->nd[i] = p; m->id[i] = ((obj_t *)M_llist_node_val(p))->id; p = M_llist_node_next(p); } }
}
static M_llist_t *mk(void)
{
	struct M_llist_callbacks cb; M_llist_t *d; memset(&cb, 0, sizeof(cb)); cb.equality = cmp_; cb.duplicate_insert = cb.duplicate_copy = dup_; cb.value_free = fre_;
	d = M_llist_create(&cb, g_fl);
	if (g_rev) vf_assert(M_llist_change_sorting(d, NULL, &g_rev), "sorting changes while empty");
	return d;
}
static void op(M_llist_t *d, model_t *m)
{
	int o = (int)vf_range(0, 13), i = m->n ? (int)vf_range(0, m->n - 1) : 0, k = (int)vf_range(1, 5), j, so = (g_fl & M_LLIST_SORTED) != 0, ci = (g_fl & M_LLIST_CIRCULAR) != 0; obj_t v = { k, 0 }; M_llist_node_t *p, *q; size_t c;
	switch (o) {
		case 0: case 1: if (m->n >= MX) break; p = M_llist_insert(d, &v); vf_assert(p != NULL, "inserted"); ins(m, m->n, p, k); break;
		case 2: if (m->n >= MX) break; p = M_llist_insert_first(d, &v); vf_assert((p == NULL) == so, "inserted"); if (p) ins(m, 0, p, k); break;
		case 3: if (m->n >= MX || !m->n) break; p = M_llist_insert_before(m->nd[i], &v); vf_assert((p == NULL) == so, "inserted"); if (p) ins(m, ci && i == 0 ? m->n : i, p, k); break;
		case 4: if (m->n >= MX || !m->n) break; p = M_llist_insert_after(m->nd[i], &v); vf_assert((p == NULL) == so, "inserted"); if (p) ins(m, i + 1, p, k); break;
		case 5: if (!m->n) break; vf_assert(M_llist_remove_node(m->nd[i]), "removed"); rem(m, i); break;
		case 6: if (!m->n) break; { obj_t *t = M_llist_take_node(m->nd[i]); vf_assert(t && t->id == m->id[i], "taken"); fre_(t); rem(m, i); } break;
		case 7: if (!m->n || so) break; M_llist_set_first(m->nd[i]); p = m->nd[i]; if (ci) { while (m->nd[0] != p) { q = m->nd[0]; j = m->id[0]; rem(m, 0); ins(m, m->n, q, j); } } else { j = m->id[i]; rem(m, i); ins(m, 0, p, j); } break;
		case 8: if (!m->n || so) break; M_llist_set_last(m->nd[i]); p = m->nd[i]; if (ci) { while (m->nd[m->n - 1] != p) { q = m->nd[0]; j = m->id[0]; rem(m, 0); ins(m, m->n, q, j); } } else { j = m->id[i]; rem(m, i); ins(m, m->n, p, j); } break;
		case 9: case 10: if (!m->n || so) break; j = (int)vf_range(0, m->n - 1); q = m->nd[j]; p = m->nd[i]; { int r = o == 9 ? M_llist_move_before(p, q) : M_llist_move_after(p, q), id = m->id[i], at; vf_assert(!r == (i == j), "moved");
			if (i != j) { if (ci && (o == 9 ? (i + 1) % m->n == j : (j + 1) % m->n == i)) break; rem(m, i); for (at = 0; m->nd[at] != q; ) at++; ins(m, o == 9 ? at : at + 1, p, id); } } break;
		case 11: { M_uint32 t = vf_bool() ? M_LLIST_MATCH_ALL : 0; c = M_llist_remove_val(d, &v, t); 
			for (i = 0, j = 0; i < m->n; ) if (m->id[i] == k && ((t & M_LLIST_MATCH_ALL) || j == 0)) { rem(m, i); j++; } else i++;
			vf_assert(c == (size_t)j, "how many were removed"); break; }
		case 12: for (j = 0, i = 0, p = NULL; i < m->n; i++) if (m->id[i] == k) { if (!j) p = m->nd[i]; j++; }
			vf_assert(M_llist_count(d, &v, M_LLIST_MATCH_VAL) == (size_t)j, "how many there are");
			q = M_llist_find(d, &v, M_LLIST_MATCH_VAL); vf_assert(q == p, "the first of them");
			if (m->n) { i = (int)vf_range(0, m->n - 1); q = M_llist_find(d, M_llist_node_val(m->nd[i]), M_LLIST_MATCH_PTR); vf_assert(q == m->nd[i], "the very value"); vf_assert(M_llist_count(d, M_llist_node_val(m->nd[i]), M_LLIST_MATCH_PTR) == 1, "once"); } break;
		case 13: M_llist_remove_duplicates(d, M_LLIST_MATCH_VAL); for (i = 0; i < m->n; i++) for (j = i + 1; j < m->n; ) if (m->id[i] == m->id[j]) rem(m, j); else j++; break;
	}
}
static void fl(void) { int k = (int)vf_range(0, 3); g_fl = k == 0 ? M_LLIST_NONE : k == 1 ? M_LLIST_CIRCULAR : M_LLIST_SORTED; g_rev = k == 3; ma.n = 0; g_live = 0; g_uid = 0; }
void seq(void)
{
	M_llist_t *d; int i, n; fl(); n = (int)vf_range(0, 60); d = mk();
	for (i = 0; i < n; i++) { op(d, &ma); check(d, &ma); vf_assert(g_live == ma.n, "owns one copy of each"); }
	M_llist_destroy(d, M_TRUE); vf_assert(g_live == 0, "everything is released, once");
	vf_reach("seq");
}
void two(void)
{
	M_llist_t *d, *e; int i, n, j, all; model_t mb; M_llist_node_t *p; fl(); n = (int)vf_range(0, 20); d = mk();
	for (i = 0; i < n; i++) { op(d, &ma); check(d, &ma); }
	if (vf_bool()) { e = M_llist_duplicate(d); vf_assert(M_llist_len(e) == (size_t)ma.n, "as many"); for (p = M_llist_first(e), i = 0; i < ma.n; i++, p = M_llist_node_next(p)) vf_assert(((obj_t *)M_llist_node_val(p))->id == ma.id[i], "the same"); vf_assert(g_live == 2 * ma.n, "copies"); M_llist_destroy(d, M_TRUE); M_llist_destroy(e, M_TRUE); }
	else {
		mb = ma; ma.n = 0; e = mk(); n = (int)vf_range(0, 20); for (i = 0; i < n; i++) { op(e, &ma); check(e, &ma); } all = vf_bool();
		vf_assume(mb.n + ma.n <= MX);
		for (i = 0; i < mb.n; i++) { for (j = 0; j < ma.n; j++) if (ma.id[j] == mb.id[i]) break; if (all || j == ma.n) { ma.nd[ma.n] = NULL; ma.id[ma.n++] = mb.id[i]; } }
		M_llist_merge(&e, d, all, M_LLIST_MATCH_VAL); vf_assert(M_llist_len(e) == (size_t)ma.n, "all of both");
		for (i = 0, p = M_llist_first(e); i < ma.n; i++, p = M_llist_node_next(p)) { if (!(g_fl & M_LLIST_SORTED)) vf_assert(((obj_t *)M_llist_node_val(p))->id == ma.id[i], "those of the one, then those of the other"); else { for (j = 0; j < ma.n; j++) if (ma.id[j] == ((obj_t *)M_llist_node_val(p))->id) break; vf_assert(j < ma.n, "from either"); ma.id[j] = -1; ma.nd[j] = p; ma.id[j] = -1; } }
		vf_assert(g_live == ma.n, "the others are released"); M_llist_destroy(e, M_TRUE);
	}
	vf_assert(g_live == 0, "everything is released, once");
	vf_reach("two");
}
/* queues */
void que(void)
{
	obj_t *o[8]; int in[8], ord[8], n = 0, i, j, k, s = vf_bool(), ops = (int)vf_range(0, 40); M_queue_t *q = M_queue_create(s ? cmp_ : NULL, fre_); M_queue_foreach_t *fe = NULL; void *mem;
	g_live = 0;
	for (i = 0; i < 8; i++) { o[i] = malloc(sizeof(obj_t)); o[i]->id = i; in[i] = 0; g_live++; }
	while (ops--) {
		k = (int)vf_range(0, 7);
		switch (vf_range(0, 6)) {
			case 0: case 1: case 2: if (o[k] == NULL) break; vf_assert(M_queue_insert(q, o[k]) == !in[k], "a member is in once"); if (!in[k]) { in[k] = 1; j = n; if (s) for (; j > 0 && ord[j-1] > k; j--) ord[j] = ord[j-1]; ord[j] = k; n++; } break;
			case 3: if (o[k] == NULL) break; vf_assert(M_queue_remove(q, o[k]) == in[k], "removed when in"); if (in[k]) { in[k] = 0; o[k] = NULL; for (j = 0; ord[j] != k; j++) ; for (; j + 1 < n; j++) ord[j] = ord[j+1]; n--; } break;
			case 4: if (o[k] == NULL) break; vf_assert(M_queue_take(q, o[k]) == in[k], "taken when in"); if (in[k]) { in[k] = 0; for (j = 0; ord[j] != k; j++) ; for (; j + 1 < n; j++) ord[j] = ord[j+1]; n--; } break;
			case 5: { obj_t *t = M_queue_take_first(q); if (!n) { vf_assert(t == NULL, "empty"); break; } vf_assert(t == o[ord[0]], "the first"); in[ord[0]] = 0; for (j = 0; j + 1 < n; j++) ord[j] = ord[j+1]; n--; } break;
			case 6: if (o[k]) vf_assert(M_queue_exists(q, o[k]) == in[k], "in or not"); break;
		}
		vf_assert(M_queue_len(q) == (size_t)n, "how many"); vf_assert(M_queue_first(q) == (n ? o[ord[0]] : NULL), "first"); vf_assert(M_queue_last(q) == (n ? o[ord[n-1]] : NULL), "last");
		fe = NULL; j = 0; while (M_queue_foreach(q, &fe, &mem)) { vf_assert(j < n && mem == o[ord[j]], "each in order"); j++; } vf_assert(j == n, "every member");
	}
	M_queue_destroy(q); for (i = 0; i < 8; i++) if (o[i] && !in[i]) fre_(o[i]);
	vf_assert(g_live == 0, "members are released with the queue, once");
	vf_reach("que");
}
