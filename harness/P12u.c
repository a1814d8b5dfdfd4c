/* P12: one operation on a table of any size, in any state of the bucket concerned, by the contract of the chain search
 * (an entry of the chain whose key is that key, or none when there is none; bounded units run the search itself) */
#include "stubs/mem.h"
#include "vf.h"
void *M_mem_set(void *d, int c, size_t n);
void *M_mem_copy(void *d, const void *s, size_t n);
/*@VF_RENAME base/hash/m_hashtable.c M_hashtable_get_match @*/
struct M_hashtable; struct M_hashtable_bucket;
#ifdef VF_CBMC
static struct M_hashtable_bucket *g_hit; static size_t g_idx; static const void *g_key;
static struct M_hashtable_bucket *M_hashtable_get_match(const struct M_hashtable *h, size_t idx, const void *key)
{
	vf_assert(idx == g_idx && key == g_key, "the key's bucket is searched");
	return g_hit;
}
/*@VF_TRUST M_hashtable_get_match by its contract: the chain's entry with that key or NULL when none has it @*/
#endif
#include "base/hash/m_hashtable.c"
#ifdef VF_CBMC
/* struct sized fills and copies are assignments */
void *M_mem_set(void *d, int c, size_t n) { static const struct M_hashtable_bucket z; vf_assert(c == 0 && n == sizeof(z), "an entry is cleared"); *(struct M_hashtable_bucket *)d = z; return d; }
void *M_mem_copy(void *d, const void *s, size_t n) { vf_assert(n == sizeof(struct M_hashtable_bucket), "an entry is copied"); *(struct M_hashtable_bucket *)d = *(const struct M_hashtable_bucket *)s; return d; }
static char g_obj[8]; static M_uint32 g_hv; static unsigned g_kf, g_vf, g_kd, g_vd; static void *g_lastvf, *g_lastkf;
static M_uint32 hsh(const void *k, M_uint32 s) { vf_assert(k == g_key, "the key is hashed"); return g_hv; }
static void *kdup(const void *k) { vf_assert(k == g_key, "the key is copied"); g_kd++; return &g_obj[1]; }
static void *vdup(const void *v) { g_vd++; return v == NULL ? NULL : &g_obj[2]; }
static void kfree(void *k) { g_kf++; g_lastkf = k; }
static void vfree(void *v) { g_vf++; g_lastvf = v; }
static int eq(const void *a, const void *b, void *t) { return 0; }
typedef struct M_hashtable_bucket B;
static M_hashtable_t *h; static B *hd, *n1, *n2; static B o0, o1, o2; static unsigned len; static size_t g_q; static B *oq; static B oqv;
static void world(void)
{
	size_t lg = vf_range(0, 24);
	h = malloc(sizeof(*h)); memset(h, 0, sizeof(*h)); h->size = (M_uint32)1 << lg; h->buckets = malloc(sizeof(B) * (size_t)h->size);
	h->key_hash = hsh; h->key_equality = eq; h->key_duplicate_insert = h->key_duplicate_copy = kdup; h->value_duplicate_insert = h->value_duplicate_copy = vdup; h->key_free = kfree; h->value_free = vfree;
	h->key_hash_seed = vf_u32(); h->num_keys = vf_range(4, 1000000); h->num_values = h->num_keys; h->fillpct = 0;
	g_hv = vf_u32(); g_idx = g_hv & (h->size - 1); g_key = &g_obj[0];
	hd = &h->buckets[g_idx]; n1 = malloc(sizeof(B)); n2 = malloc(sizeof(B)); len = (unsigned)vf_range(0, 3);
	hd->key = len ? (void *)&g_obj[3] : NULL; hd->value.value = len ? (vf_bool() ? (void *)&g_obj[5] : NULL) : NULL; hd->next = len > 1 ? n1 : NULL;
	n1->key = &g_obj[4]; n1->value.value = &g_obj[6]; n1->next = len > 2 ? n2 : NULL;
	n2->key = &g_obj[4]; n2->value.value = &g_obj[7]; n2->next = NULL;
	o0 = *hd; o1 = *n1; o2 = *n2; g_q = vf_range(0, 1 << 24); vf_assume(g_q < h->size && g_q != g_idx); oqv = h->buckets[g_q];
	switch (vf_range(0, 3)) { case 1: vf_assume(len > 0); g_hit = hd; break; case 2: vf_assume(len > 1); g_hit = n1; break; case 3: vf_assume(len > 2); g_hit = n2; break; default: g_hit = NULL; }
}
#define SAME(a, b) ((a).key == (b).key && (a).value.value == (b).value.value && (a).next == (b).next)
#define KV(a, b) ((a)->key == (b).key && (a)->value.value == (b).value.value)
static void other(void) { vf_assert(SAME(h->buckets[g_q], oqv), "other buckets aren't touched"); vf_assert(hd == &h->buckets[g_idx], "same table"); }
void ht_insert(void)
{
	size_t k0, v0; int ok; void *v = vf_bool() ? &g_obj[7] : NULL, *w; world(); w = v ? &g_obj[2] : NULL; k0 = h->num_keys; v0 = h->num_values;
	B hit0; if (g_hit) hit0 = *g_hit;
	ok = M_hashtable_insert(h, g_key, v); vf_assert(ok, "inserted"); other();
	if (g_hit) {
		vf_assert(h->num_keys == k0 && h->num_values == v0, "no more keys"); vf_assert(g_hit->key == hit0.key && g_hit->value.value == w && g_hit->next == hit0.next, "its value is replaced, nothing else");
		vf_assert(g_kd == 0 && g_kf == 0, "the key is kept"); if (hit0.value.value != w) vf_assert(g_vf == 1 && g_lastvf == hit0.value.value, "the old value is released");
		if (g_hit != hd) vf_assert(SAME(*hd, o0), "the others stay"); if (len > 1 && g_hit != n1) vf_assert(SAME(*n1, o1), "the others stay"); if (len > 2 && g_hit != n2) vf_assert(SAME(*n2, o2), "the others stay");
	} else {
		B *e = len ? hd->next : hd;
		vf_assert(h->num_keys == k0 + 1 && h->num_values == v0 + 1, "one more key"); vf_assert(e->key == &g_obj[1] && e->value.value == w && g_kd == 1 && g_kf == 0 && g_vf == 0, "copies of the key and the value are in the chain");
		vf_assert(e->next == (len ? o0.next : NULL), "and the rest of the chain after it"); if (len) vf_assert(KV(hd, o0), "the first stays");
		if (len > 1) vf_assert(SAME(*n1, o1), "the others stay"); if (len > 2) vf_assert(SAME(*n2, o2), "the others stay");
	}
	vf_assert(g_vd == 1, "one copy of the value");
	vf_reach("ht_insert");
}
void ht_get(void)
{
	void *v = NULL; int ok, want = vf_bool(); world();
	ok = M_hashtable_get(h, g_key, want ? &v : NULL);
	vf_assert(!ok == !g_hit, "found exactly when it is there"); if (ok && want) vf_assert(v == g_hit->value.value, "its value");
	other(); vf_assert(SAME(*hd, o0) && (len < 2 || SAME(*n1, o1)) && (len < 3 || SAME(*n2, o2)), "nothing changes"); vf_assert(g_kd + g_vd + g_kf + g_vf == 0, "nothing is copied or released");
	vf_reach("ht_get");
}
void ht_remove(void)
{
	int ok, dv = vf_bool(); size_t k0, v0; B hit0; unsigned at = 9, i, j; B c[3], *p; world(); k0 = h->num_keys; v0 = h->num_values; if (g_hit) { hit0 = *g_hit; at = g_hit == hd ? 0 : g_hit == n1 ? 1 : 2; }
	c[0] = o0; c[1] = o1; c[2] = o2;
	ok = M_hashtable_remove(h, g_key, dv ? M_TRUE : M_FALSE);
	vf_assert(!ok == !g_hit, "removed exactly when it is there"); other();
	if (ok) {
		vf_assert(h->num_keys == k0 - 1 && h->num_values == v0 - 1, "one key less"); vf_assert(g_kf == 1 && g_lastkf == hit0.key, "the key is released");
		vf_assert(g_vf == (dv ? 1 : 0) && (!dv || g_lastvf == hit0.value.value), "the value is released, when asked to");
		for (i = 0, j = 0, p = hd; i < len; i++) { if (i == at) continue; vf_assert(p != NULL && p->key == c[i].key && p->value.value == c[i].value.value, "the others stay, in order"); p = p->next; j++; }
		if (j == 0) vf_assert(hd->key == NULL && hd->next == NULL, "the bucket is empty"); else vf_assert(p == NULL, "and nothing more");
	} else vf_assert(h->num_keys == k0 && h->num_values == v0 && SAME(*hd, o0) && g_kf + g_vf == 0, "nothing changes");
	vf_reach("ht_remove");
}
#endif
