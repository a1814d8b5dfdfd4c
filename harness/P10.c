/* P10: a list against the sequence it stands for (histories) */
#include "stubs/mem.h"
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#define MX 64
typedef struct { int id; } obj_t;
static int g_live, g_ptrs; static obj_t g_pool[8];
static void *dup_(const void *p) { obj_t *o; if (g_ptrs) return (void *)p; o = malloc(sizeof(*o)); g_live++; o->id = ((const obj_t *)p)->id; return o; }
static void fre_(void *p) { if (p == NULL || g_ptrs) return; g_live--; free(p); }
static int g_rev;
static int cmp_(const void *a, const void *b, void *t) { int x = (*(obj_t *const *)a)->id, y = (*(obj_t *const *)b)->id; int r = x < y ? -1 : x > y; vf_assert(t == (g_rev ? &g_rev : NULL), "the thunk given"); return t ? -r : r; }
typedef struct { const void *p[MX]; int id[MX]; int st[MX]; int n; } model_t; /* in storage order: a stack's index counts from the end */
static model_t ma; static M_uint32 g_fl; static int g_stamp, g_multi;
#define SORTED ((g_fl & M_LIST_SORTED) && !g_multi)
static int lg(const model_t *m, int i) { return g_fl & M_LIST_STACK ? m->n - 1 - i : i; }
static void ins(model_t *m, int at, const void *p, int id) { int j; for (j = m->n; j > at; j--) { m->p[j] = m->p[j-1]; m->id[j] = m->id[j-1]; m->st[j] = m->st[j-1]; } m->p[at] = p; m->id[at] = id; m->st[at] = ++g_stamp; m->n++; }
static void rem(model_t *m, int at) { int j; for (j = at; j + 1 < m->n; j++) { m->p[j] = m->p[j+1]; m->id[j] = m->id[j+1]; m->st[j] = m->st[j+1]; } m->n--; }
static int ord(int a, int b) { return g_rev ? a >= b : a <= b; }
/* fill: values put in since the last check whose address is not known yet have p == NULL */
static void check(const M_list_t *d, model_t *m)
{
	int i, j, seen[MX] = { 0 }; model_t o = *m; const obj_t *v;
	vf_assert(M_list_len(d) == (size_t)m->n, "number of values"); vf_assert(M_list_at(d, m->n) == NULL, "nothing after the last");
	for (i = 0; i < m->n; i++) {
		v = M_list_at(d, (size_t)lg(m, i)); vf_assert(v != NULL, "every value");
		if (!SORTED) { vf_assert((m->p[i] == NULL || m->p[i] == v) && m->id[i] == v->id, "in their order"); m->p[i] = v; continue; }
		if (i) vf_assert(ord(o.id[i-1], v->id), "sorted");
		for (j = 0; j < m->n; j++) if (!seen[j] && m->p[j] == v) break;
		if (j == m->n) for (j = 0; j < m->n; j++) if (!seen[j] && m->p[j] == NULL && m->id[j] == v->id) break;
		vf_assert(j < m->n, "each value put in, once"); seen[j] = 1;
		o.p[i] = v; o.id[i] = v->id; o.st[i] = m->st[j];
		if (!g_ptrs && (g_fl & M_LIST_STABLE) && i && o.id[i-1] == o.id[i]) vf_assert(o.st[i-1] < o.st[i], "equal values in the order they were put in");
	}
	if (SORTED) *m = o;
	vf_assert(M_list_first(d) == (m->n ? M_list_at(d, 0) : NULL) && M_list_last(d) == (m->n ? M_list_at(d, (size_t)m->n - 1) : NULL), "first and last");
	}
static M_list_t *mk(void)
{
	struct M_list_callbacks cb; M_list_t *d; memset(&cb, 0, sizeof(cb)); cb.equality = cmp_; cb.duplicate_insert = cb.duplicate_copy = dup_; cb.value_free = fre_;
	d = M_list_create(&cb, g_fl); vf_assert(d != NULL, "created");
	if (g_rev) M_list_change_sorting(d, cmp_, g_fl & (M_LIST_SORTED | M_LIST_STABLE), &g_rev);
	return d;
}
static obj_t *pick(obj_t *t) { int k = (int)vf_range(0, 7); if (g_ptrs) return &g_pool[k]; t->id = k / 2 + 1; return t; }
static int has(const model_t *m, const void *p, int id, int byp) { int i, c = 0; for (i = 0; i < m->n; i++) if (byp ? m->p[i] == p : m->id[i] == id) c++; return c; }
static int setdup(const model_t *m, const obj_t *v) { return (g_fl & M_LIST_SET_PTR) ? has(m, v, 0, 1) : (g_fl & M_LIST_SET_VAL) ? has(m, NULL, v->id, 0) : 0; }
static void put(M_list_t *d, model_t *m, obj_t *v) { int dup = setdup(m, v); if (m->n >= MX) return; vf_assert(M_list_insert(d, v) == !dup, "put in, unless a set has it"); if (!dup) ins(m, m->n, g_ptrs ? v : NULL, v->id); }
static void op(M_list_t *d, model_t *m)
{
	int o = (int)vf_range(0, 15), i = m->n ? (int)vf_range(0, m->n - 1) : 0, j, c, byp; obj_t t, t2, *v = pick(&t), *w; size_t x; void *q; M_uint32 ty;
	byp = g_ptrs && vf_bool(); ty = byp ? M_LIST_MATCH_PTR : M_LIST_MATCH_VAL;
	if (getenv("DBG")) { fprintf(stderr, "fl %x ptrs %d rev %d multi %d n %d op %d v %d i %d:", g_fl, g_ptrs, g_rev, g_multi, m->n, o, v->id, i); for (j = 0; j < m->n; j++) fprintf(stderr, " %d/%d", m->id[j], m->st[j]); fprintf(stderr, "\n"); }
	switch (o) {
		case 0: case 1: case 2: put(d, m, v); break;
		case 3: if (m->n >= MX) break; i = (int)vf_range(0, m->n + 2); j = !SORTED && !setdup(m, v); vf_assert(M_list_insert_at(d, v, (size_t)i) == j, "put in at a position"); if (i > m->n) i = m->n; if (j) ins(m, g_fl & M_LIST_STACK ? m->n - i : i, g_ptrs ? v : NULL, v->id); break;
		case 4: if (!m->n) break; vf_assert(M_list_remove_at(d, lg(m, i)), "removed"); rem(m, i); break;
		case 5: if (!m->n) break; q = M_list_take_at(d, lg(m, i)); vf_assert(q == m->p[i], "taken"); fre_(q); rem(m, i); break;
		case 6: if (!m->n) break; c = vf_bool(); i = c ? 0 : m->n - 1; q = c ? M_list_take_first(d) : M_list_take_last(d); i = lg(m, i); vf_assert(q == m->p[i], "taken"); fre_(q); rem(m, i); break;
		case 7: if (!m->n) break; j = (int)vf_range(0, m->n + 3); c = m->n; { int a = i, b = j; vf_assert(M_list_remove_range(d, a, b) == (a <= b), "a range is removed"); if (a > b) break; if (b >= c) b = c - 1; for (; b >= a; b--) rem(m, g_fl & M_LIST_STACK ? c - 1 - a : a), c--; } break;
		case 8: { int all = vf_bool(), k; c = has(m, v, v->id, byp); x = M_list_remove_val(d, v, ty | (all ? M_LIST_MATCH_ALL : 0)); vf_assert(x == (size_t)(all ? c : c > 0), "how many were removed");
			if (all) { for (i = 0; i < m->n; ) if (byp ? m->p[i] == v : m->id[i] == v->id) rem(m, i); else i++; }
			else if (c) { /* any one of them */ for (i = 0; i + 1 < m->n; i++) if (M_list_at(d, (size_t)(g_fl & M_LIST_STACK ? m->n - 2 - i : i)) != m->p[i]) break; for (k = i; !(byp ? m->p[k] == v : m->id[k] == v->id); ) { vf_assert(k > 0 && m->p[k-1] == m->p[k], "the one removed matches"); k--; } rem(m, i); } } break;
		case 9: w = pick(&t2); c = has(m, v, v->id, byp); j = byp ? v == w : v->id == w->id; { int sd = setdup(m, w); x = M_list_replace_val(d, v, w, ty | M_LIST_MATCH_ALL); vf_assert(x == (size_t)(j ? 0 : c), "how many were replaced"); if (j) break;
			if ((g_fl & (M_LIST_SET_VAL | M_LIST_SET_PTR)) && sd) { for (i = 0; i < m->n; ) if (byp ? m->p[i] == v : m->id[i] == v->id) rem(m, i); else i++; }
			else for (i = 0; i < m->n; i++) if (byp ? m->p[i] == v : m->id[i] == v->id) { if (m->st[i] > 0) { m->p[i] = g_ptrs ? w : NULL; m->id[i] = w->id; m->st[i] = ++g_stamp; } } } break;
		case 10: if (!m->n) break; if (g_fl & (M_LIST_SET_VAL | M_LIST_SET_PTR)) break; j = !SORTED; vf_assert(M_list_replace_at(d, v, lg(m, i)) == j, "replaced"); if (j) { m->p[i] = g_ptrs ? v : NULL; m->id[i] = v->id; m->st[i] = ++g_stamp; } break;
		case 11: { int a = (int)vf_range(0, m->n + 1), b = (int)vf_range(0, m->n + 1); j = !(g_fl & M_LIST_SORTED) && a != b && a < m->n && b < m->n; vf_assert(M_list_swap(d, a, b) == j, "swapped"); if (j) { a = lg(m, a); b = lg(m, b); q = (void *)m->p[a]; m->p[a] = m->p[b]; m->p[b] = q; c = m->id[a]; m->id[a] = m->id[b]; m->id[b] = c; } } break;
		case 12: M_list_remove_duplicates(d, ty); for (i = 0; i < m->n; i++) for (j = i + 1; j < m->n; ) if (byp ? m->p[i] == m->p[j] : m->id[i] == m->id[j]) rem(m, j); else j++; break;
		case 13: c = has(m, v, v->id, byp); vf_assert(M_list_count(d, v, ty) == (size_t)c, "how many there are"); x = 99; j = M_list_index_of(d, v, ty, &x); vf_assert(j == (c > 0), "found or not"); if (c) { vf_assert(x < (size_t)m->n, "a position"); i = lg(m, (int)x); vf_assert(byp ? m->p[i] == v : m->id[i] == v->id, "where it is"); } break;
		case 14: if (g_multi) { M_list_insert_end(d); g_multi = 0; for (i = 0; i < m->n; i++) m->st[i] = ++g_stamp; } else { M_list_insert_begin(d); g_multi = 1; } break;
		case 15: if (g_fl & M_LIST_STACK || g_multi) break; c = (int)vf_range(0, 2); g_fl &= ~(M_uint32)(M_LIST_SORTED | M_LIST_STABLE); ty = g_fl; g_fl |= c == 0 ? 0 : c == 1 ? M_LIST_SORTED : M_LIST_SORTED | M_LIST_STABLE; g_rev = vf_bool(); M_list_change_sorting(d, cmp_, g_fl & (M_LIST_SORTED | M_LIST_STABLE), g_rev ? &g_rev : NULL); for (i = 0; i < m->n; i++) m->st[i] = ++g_stamp; break;
	}
}
static void fl(void)
{
	static const M_uint32 F[] = { M_LIST_NONE, M_LIST_NEVERSHRINK, M_LIST_SORTED, M_LIST_SORTED | M_LIST_STABLE, M_LIST_STACK, M_LIST_SET_VAL, M_LIST_SET_VAL | M_LIST_SORTED, M_LIST_SET_PTR, M_LIST_STACK | M_LIST_NEVERSHRINK };
	int i; g_fl = F[vf_range(0, 8)]; g_ptrs = vf_bool(); g_rev = vf_bool() && (g_fl & M_LIST_SORTED); ma.n = 0; g_live = g_stamp = g_multi = 0; for (i = 0; i < 8; i++) g_pool[i].id = i / 2 + 1;
}
void seq(void)
{
	M_list_t *d; int i, n; fl(); n = (int)vf_range(0, 80); d = mk();
	for (i = 0; i < n; i++) { op(d, &ma); check(d, &ma); vf_assert(g_ptrs || g_live == ma.n, "owns one copy of each"); }
	M_list_destroy(d, M_TRUE); vf_assert(g_live == 0, "everything is released, once");
	vf_reach("seq");
}
void two(void)
{
	M_list_t *d, *e; int i, j, n, all; model_t mb; obj_t t; fl(); n = (int)vf_range(0, 20); d = mk();
	for (i = 0; i < n; i++) { put(d, &ma, pick(&t)); check(d, &ma); }
	if (vf_bool()) { e = M_list_duplicate(d); mb = ma; for (i = 0; i < mb.n; i++) { if (!g_ptrs) mb.p[i] = NULL; mb.st[i] = i + 1; } check(e, &mb); check(d, &ma); vf_assert(g_ptrs || g_live == 2 * ma.n, "copies"); M_list_destroy(d, M_TRUE); M_list_destroy(e, M_TRUE); }
	else {
		mb = ma; ma.n = 0; e = mk(); n = (int)vf_range(0, 20); for (i = 0; i < n; i++) { put(e, &ma, pick(&t)); check(e, &ma); } all = vf_bool();
		if (!all && (g_fl & M_LIST_SORTED)) { M_list_remove_duplicates(d, M_LIST_MATCH_VAL); for (i = 0; i < mb.n; i++) for (j = i + 1; j < mb.n; ) if (mb.id[i] == mb.id[j]) rem(&mb, j); else j++; check(d, &mb); }
		if (g_fl & M_LIST_SET_VAL) all = 0;
		n = ma.n; for (i = 0; i < mb.n; i++) { if (g_fl & M_LIST_SET_PTR) { if (!has(&ma, mb.p[i], 0, 1)) ins(&ma, ma.n, mb.p[i], mb.id[i]); } else if (all || n == 0 || !has(&ma, NULL, mb.id[i], 0)) ins(&ma, ma.n, mb.p[i], mb.id[i]); }
		M_list_merge(&e, d, all, M_LIST_MATCH_VAL); check(e, &ma); vf_assert(g_ptrs || g_live == ma.n, "the others are released"); M_list_destroy(e, M_TRUE);
	}
	vf_assert(g_live == 0, "everything is released, once");
	vf_reach("two");
}
