/* P24: one cache operation with any number of entries; list and hashtable by their contracts (P13, P12) */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <stdlib.h>
#include "vf.h"
#ifdef VF_CBMC
/*@VF_TRUST M_llist_* and M_hashtable_* are replaced by their contracts over an arbitrary number of entries: only the entry of the key, the last entry and a new one exist; every call records what it does @*/
struct M_llist_node { void *val; int in; };
static struct M_llist_node f, l, w; static M_llist_node_t *front; static size_t n, g_evict; static char key, val, okey, oval, lkey, lval, dkey, dval; static int found, alias;
static const void *tr_key, *ti_key, *ti_val; static int trm, tin, kf, vf_, kd, vd; static const void *kfree_p, *vfree_p;
void M_free(void *p) { free(p); } void *M_malloc_zero(size_t z) { return calloc(1, z); } void *M_mem_set(void *p, int c, size_t z) { size_t i; for (i = 0; i < z; i++) ((char *)p)[i] = (char)c; return p; }
static void *kdup(const void *p) { vf_assert(p == &key, "copies the key given"); kd++; return &dkey; } static void *vdup(const void *p) { vf_assert(p == &val, "copies the value given"); vd++; return &dval; }
static void kfr(void *p) { vf_assert(p == &okey || p == &lkey, "a key of the cache"); kf++; kfree_p = p; } static void vfr(void *p) { vf_assert(p == &oval || p == &lval, "a value of the cache"); vf_++; vfree_p = p; }
M_bool M_hashtable_get(const M_hashtable_t *h, const void *k, void **o) { vf_assert(k == &key, "looks for the key given"); if (found) *o = &f; return found; }
M_bool M_hashtable_remove(M_hashtable_t *h, const void *k, M_bool d) { vf_assert(!d && trm == 0 && (k == &okey || k == &lkey || (k == &key && found)), "the entry's key leaves the table"); vf_assert(kfree_p != k, "not released yet"); trm++; tr_key = k; return M_TRUE; }
M_bool M_hashtable_insert(M_hashtable_t *h, const void *k, const void *v) { vf_assert(tin == 0, "once"); tin++; ti_key = k; ti_val = v; return M_TRUE; }
size_t M_llist_len(const M_llist_t *d) { return n; } M_llist_node_t *M_llist_last(const M_llist_t *d) { return n ? (found && alias ? &f : &l) : NULL; }
void *M_llist_node_val(const M_llist_node_t *x) { return x->val; }
M_llist_node_t *M_llist_insert_first(M_llist_t *d, const void *v) { vf_assert(!w.in, "one new entry"); w.in = 1; w.val = (void *)v; n++; front = &w; return &w; }
void M_llist_set_first(M_llist_node_t *x) { vf_assert(x->in, "an entry of the list"); front = x; }
void *M_llist_take_node(M_llist_node_t *x) { vf_assert(x->in, "an entry of the list"); x->in = 0; n--; return x->val; }
#include "base/cache/m_cache.c"
static M_cache_t c; static M_cache_value_t *fv, *lv;
static void build(void)
{
	n = vf_range(0, (size_t)1 << 60); c.max_size = vf_range(0, (size_t)1 << 60); vf_assume(n <= c.max_size); found = vf_bool(); alias = vf_bool(); if (n == 0) found = 0; if (n == 1 && found) alias = 1;
	c.kv_table = (M_hashtable_t *)&c; c.value_list = (M_llist_t *)&c; c.key_duplicate = kdup; c.key_free = kfr; c.value_duplicate = vdup; c.value_free = vfr;
	fv = calloc(1, sizeof(*fv)); lv = calloc(1, sizeof(*lv)); fv->key = &okey; fv->value = &oval; lv->key = &lkey; lv->value = &lval; f.val = fv; f.in = 1; l.val = lv; l.in = n > 0; w.in = 0; front = NULL; trm = tin = kf = vf_ = kd = vd = 0; kfree_p = vfree_p = NULL;
}
void ca_insert(void)
{
	size_t o; M_bool r; build(); o = n; r = M_cache_insert(&c, &key, &val); vf_assert(!r == (c.max_size == 0), "put in, unless nothing may be kept");
	vf_assert(n <= c.max_size, "never more entries than allowed");
	if (!r) vf_assert(n == o && !trm && !tin && !kf && !vf_, "nothing done");
	else if (found) { vf_assert(n == o && front == &f && !trm && !kf && vf_ == 1 && vfree_p == &oval && vd == 1 && fv->value == &dval, "the value is replaced by a copy, the entry becomes the hottest"); if (tin) vf_assert(ti_val == &f, "same entry"); }
	else if (o < c.max_size) vf_assert(n == o + 1 && front == &w && !trm && !kf && !vf_ && tin == 1 && ti_val == &w && ti_key == &dkey && kd == 1 && vd == 1 && ((M_cache_value_t *)w.val)->key == &dkey && ((M_cache_value_t *)w.val)->value == &dval, "a new entry with copies, the hottest");
	else vf_assert(n == o && trm == 1 && tr_key == &lkey && kf == 1 && kfree_p == &lkey && vf_ == 1 && vfree_p == &lval && tin == 1 && kd == 1 && vd == 1 && ti_key == &dkey && ((M_cache_value_t *)front->val)->key == &dkey && ((M_cache_value_t *)front->val)->value == &dval && ti_val == front && (front == &l || (front == &w && !l.in)), "the coldest entry gives way");
	vf_reach("ca_insert");
}
void ca_get(void)
{
	void *v = &w; M_bool r, p = vf_bool(); build(); r = M_cache_get(&c, &key, p ? &v : NULL); vf_assert(!r == !found, "found exactly when kept"); vf_assert(v == (r && p ? (void *)&oval : (void *)&w), "its value, or nothing written"); vf_assert(r ? front == &f : front == NULL, "found: the hottest");
	vf_assert(!trm && !tin && !kf && !vf_, "nothing else"); vf_assert(M_cache_size(&c) == n && M_cache_max_size(&c) == c.max_size, "number and limit"); vf_reach("ca_get");
}
void ca_remove(void)
{
	size_t o; M_bool r; build(); o = n; r = M_cache_remove(&c, &key); vf_assert(!r == !found, "removed when there"); if (r) vf_assert(n == o - 1 && !f.in && trm == 1 && kf == 1 && kfree_p == &okey && vf_ == 1 && vfree_p == &oval && (tr_key == &key || tr_key == &okey), "out of list and table, key and value released once"); else vf_assert(n == o && !trm && !kf && !vf_, "nothing done"); vf_reach("ca_remove");
}
void ca_resize(void)
{
	size_t o, x = vf_range(0, (size_t)1 << 60); build(); found = 0; o = n; vf_assume(x + 1 >= n);
	vf_assert(M_cache_set_max_size(&c, x) && c.max_size == x, "the new limit"); if (x >= o) vf_assert(n == o && !trm && !kf && !vf_, "nothing removed"); else vf_assert(n == x && !l.in && trm == 1 && tr_key == &lkey && kf == 1 && kfree_p == &lkey && vf_ == 1 && vfree_p == &lval, "the coldest entry goes"); vf_reach("ca_resize");
}
#endif
