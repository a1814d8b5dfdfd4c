/* P12: a hashtable against the association list it stands for */
#include "stubs/mem.h"
#include "vf.h"
#include <stdio.h>
#ifndef NOPS
#  ifdef VF_CBMC
#    define NOPS 2
#  else
#    define NOPS 40
#  endif
#endif
#ifndef MAXK
#define MAXK 16
#define MAXV 64
#endif
typedef struct { int id; } obj_t;
static int g_live; static unsigned g_mask;
static obj_t *mk(int id) { obj_t *o = malloc(sizeof(*o)); o->id = id; return o; }
static void *dup_(const void *p) { if (p == NULL) return NULL; g_live++; return mk(((const obj_t *)p)->id); }
static void fre_(void *p) { if (p == NULL) return; g_live--; free(p); }
static M_uint32 hash_(const void *k, M_uint32 seed) { (void)seed; return ((M_uint32)((const obj_t *)k)->id * 7u + 3u) & g_mask; }
static int cmp_(const void *a, const void *b, void *t) { int x = (*(obj_t *const *)a)->id, y = (*(obj_t *const *)b)->id; (void)t; return x < y ? -1 : x > y; }
typedef struct { int k[MAXK]; int nv[MAXK]; int v[MAXK][MAXV]; int n; } model_t;
static model_t ma, mb; static M_uint32 g_fl;
static int find(const model_t *m, int k) { int i; for (i = 0; i < m->n; i++) if (m->k[i] == k) return i; return -1; }
static int full(const model_t *m, int k) { int i = find(m, k); return i < 0 ? m->n >= MAXK : (g_fl & M_HASHTABLE_MULTI_VALUE) && m->nv[i] >= MAXV; }
static void put(model_t *m, int k, int v)
{
	int i = find(m, k), j;
	if (i < 0) {
		i = m->n; if (g_fl & M_HASHTABLE_KEYS_SORTED) for (i = 0; i < m->n && m->k[i] < k; ) i++;
		for (j = m->n; j > i; j--) { m->k[j] = m->k[j - 1]; m->nv[j] = m->nv[j - 1]; memcpy(m->v[j], m->v[j - 1], sizeof(m->v[j])); }
		m->n++; m->k[i] = k; m->nv[i] = 0;
	}
	if (!(g_fl & M_HASHTABLE_MULTI_VALUE)) { m->nv[i] = 1; m->v[i][0] = v; return; }
	j = m->nv[i]++;
	if (g_fl & M_HASHTABLE_MULTI_SORTED) for (; j > 0 && m->v[i][j - 1] > v; j--) m->v[i][j] = m->v[i][j - 1];
	m->v[i][j] = v;
}
static void delv(model_t *m, int i, int x) { int j; for (j = x; j + 1 < m->nv[i]; j++) m->v[i][j] = m->v[i][j + 1]; m->nv[i]--; }
static void del(model_t *m, int i)
{
	int j; for (j = i; j + 1 < m->n; j++) { m->k[j] = m->k[j + 1]; m->nv[j] = m->nv[j + 1]; memcpy(m->v[j], m->v[j + 1], sizeof(m->v[j])); }
	m->n--;
}
static int vals(const model_t *m) { int i, c = 0; for (i = 0; i < m->n; i++) c += m->nv[i]; return c; }
static int vid(const void *p) { return p == NULL ? -1 : ((const obj_t *)p)->id; }
static void look(const M_hashtable_t *h, const model_t *m, int k)
{
	obj_t key = { k }; void *v = NULL; int i = find(m, k), ok, j; size_t l = 77;
	ok = M_hashtable_get(h, &key, &v);
	vf_assert(!ok == (i < 0), "a key is found exactly when it was put in");
	if (i >= 0) vf_assert(vid(v) == m->v[i][g_fl & M_HASHTABLE_MULTI_GETLAST ? m->nv[i] - 1 : 0], "with its value");
	ok = M_hashtable_multi_len(h, &key, &l);
	if (!(g_fl & M_HASHTABLE_MULTI_VALUE)) vf_assert(!ok && l == 0, "not a multi table");
	else {
		vf_assert(!ok == (i < 0) && l == (size_t)(i < 0 ? 0 : m->nv[i]), "how many values");
		j = (int)vf_range(0, 4); ok = M_hashtable_multi_get(h, &key, (size_t)j, &v);
		vf_assert(!ok == !(i >= 0 && j < m->nv[i]), "the values there are"); if (ok) vf_assert(vid(v) == m->v[i][j], "in their order");
	}
}
static void walk(const M_hashtable_t *h, const model_t *m)
{
	M_hashtable_enum_t e; const void *k = NULL, *v = NULL; int seen[MAXK] = { 0 }, at = 0, c = 0, tot = vals(m), i;
	vf_assert(M_hashtable_num_keys(h) == (size_t)m->n, "number of keys");
	vf_assert(M_hashtable_enumerate(h, &e) == (size_t)tot, "number of values to come");
	while (c <= tot && M_hashtable_enumerate_next(h, &e, &k, &v)) {
		i = find(m, vid(k)); vf_assert(i >= 0, "only keys that were put in");
		vf_assert(seen[i] < m->nv[i], "each value once"); vf_assert(m->v[i][seen[i]] == vid(v), "values in their order"); seen[i]++; c++;
		if (g_fl & M_HASHTABLE_KEYS_ORDERED) { vf_assert(i == at, "keys in their order"); if (seen[i] == m->nv[i]) at++; }
	}
	vf_assert(c == tot, "every value");
}
static M_hashtable_t *mkt(unsigned size, unsigned fill)
{
	struct M_hashtable_callbacks cb; memset(&cb, 0, sizeof(cb));
	cb.key_duplicate_insert = cb.key_duplicate_copy = cb.value_duplicate_insert = cb.value_duplicate_copy = dup_; cb.key_free = cb.value_free = fre_; cb.value_equality = cmp_;
	return M_hashtable_create(size, (M_uint8)fill, hash_, cmp_, g_fl, &cb);
}
static int owned(const model_t *m) { return m->n + vals(m); }
static void op(M_hashtable_t *h, model_t *m, int o, int k, int v)
{
	obj_t key = { k }, val = { v }; int i = find(m, k), ok, j, l = g_live;
	switch (o) {
		case 0: if (full(m, k)) break; ok = M_hashtable_insert(h, &key, &val); vf_assert(ok, "inserted"); put(m, k, v); break;
		case 1: ok = M_hashtable_remove(h, &key, M_TRUE); vf_assert(!ok == (i < 0), "removed exactly when there"); if (ok) del(m, i); break;
		case 2: j = (int)vf_range(0, 3); ok = M_hashtable_multi_remove(h, &key, (size_t)j, M_TRUE);
			vf_assert(!ok == !(i >= 0 && (g_fl & M_HASHTABLE_MULTI_VALUE) && j < m->nv[i]), "removed exactly when there");
			if (ok) { if (m->nv[i] == 1) del(m, i); else delv(m, i, j); } break;
		case 3: look(h, m, k); break;
		case 4: ok = M_hashtable_insert(h, NULL, &val) || M_hashtable_insert(NULL, &key, &val) || M_hashtable_remove(h, NULL, M_TRUE) || M_hashtable_get(h, NULL, NULL); vf_assert(!ok, "no key, nothing"); break;
	}
	(void)l;
}
static void flags(void)
{
#ifdef FL
	g_fl = FL;
#else
	uint8_t f = vf_u8(); g_fl = f & 0x1f;
	if (g_fl & M_HASHTABLE_KEYS_SORTED) g_fl |= M_HASHTABLE_KEYS_ORDERED;
	if (g_fl & (M_HASHTABLE_MULTI_SORTED|M_HASHTABLE_MULTI_GETLAST)) g_fl |= M_HASHTABLE_MULTI_VALUE;
#endif
	ma.n = mb.n = 0; g_live = 0;
#ifdef VF_CBMC
	g_fl |= M_HASHTABLE_STATIC_SEED;
#endif
}
#ifndef SIZE
#define SIZE vf_range(1, 4)
#define FILL vf_range(0, 99)
#endif
void seq(void)
{
	M_hashtable_t *h; int i, n;
	flags(); g_mask = vf_u8(); n = (int)vf_range(0, NOPS); h = mkt((unsigned)SIZE, (unsigned)FILL);
	for (i = 0; i < n; i++) { int o = (int)vf_range(0, 7); op(h, &ma, o > 4 ? 0 : o, (int)vf_range(1, MAXK), (int)vf_range(1, 5)); vf_assert(g_live == owned(&ma), "owns one copy of each key and value"); }
	walk(h, &ma); look(h, &ma, (int)vf_range(1, MAXK));
	M_hashtable_destroy(h, M_TRUE); vf_assert(g_live == 0, "everything is released, once");
	vf_reach("seq");
}
void two(void) /* duplicate and merge */
{
	M_hashtable_t *a, *b; int i, j, n; flags(); g_mask = vf_u8(); n = (int)vf_range(0, NOPS / 2); a = mkt((unsigned)SIZE, (unsigned)FILL);
	for (i = 0; i < n; i++) op(a, &ma, vf_u8() & 3 ? 0 : 1, (int)vf_range(1, 8), (int)vf_range(1, 5));
	if (vf_bool()) { b = M_hashtable_duplicate(a); walk(b, &ma); walk(a, &ma); vf_assert(g_live == 2 * owned(&ma), "a copy of each"); M_hashtable_destroy(a, M_TRUE); walk(b, &ma); M_hashtable_destroy(b, M_TRUE); }
	else {
		n = (int)vf_range(0, NOPS / 2); b = mkt((unsigned)SIZE, (unsigned)FILL);
		for (i = 0; i < n; i++) op(b, &mb, vf_u8() & 3 ? 0 : 1, (int)vf_range(1, 8), (int)vf_range(6, 9));
		M_hashtable_merge(&a, b);
		{ M_bool un = !(g_fl & M_HASHTABLE_KEYS_ORDERED); (void)un; }
		for (i = 0; i < mb.n; i++) for (j = 0; j < mb.nv[i]; j++) put(&ma, mb.k[i], mb.v[i][j]);
		if (getenv("DBG")) fprintf(stderr, "fl %x live %d own %d a.n %d b.n %d\n", g_fl, g_live, owned(&ma), ma.n, mb.n);
		walk(a, &ma); vf_assert(g_live == owned(&ma), "one copy of each, the others released"); M_hashtable_destroy(a, M_TRUE);
	}
	vf_assert(g_live == 0, "everything is released, once");
	vf_reach("two");
}
/* any flags, any keys, any hash: one operation on a table of K keys, every answer about any key after it */
#ifndef K
#define K 2
#endif
#ifndef O
#define O 0
#endif
void step(void)
{
	M_hashtable_t *h; int i, k = (int)vf_range(1, 3); flags(); g_mask = vf_bool() ? 1 : 0; h = mkt(2, FILL);
	for (i = 0; i < K; i++) op(h, &ma, 0, (int)vf_range(1, 3), (int)vf_range(1, 2));
	op(h, &ma, O, k, (int)vf_range(1, 2));
	walk(h, &ma); look(h, &ma, (int)vf_range(1, 3));
	vf_assert(g_live == owned(&ma), "owns one copy of each key and value");
	M_hashtable_destroy(h, M_TRUE); vf_assert(g_live == 0, "everything is released, once");
	vf_reach("step");
}
