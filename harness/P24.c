/* P24: a cache against the list of its entries, most recently used first (histories) */
#include "stubs/mem.h"
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#define MX 40
static int g_kl, g_vl, g_own; typedef struct { int id; } val_t; static val_t g_pool[16];
static void *kdup(const void *p) { g_kl++; return strdup(p); }
static void kfree(void *p) { vf_assert(p != NULL, "a key"); g_kl--; free(p); }
static void *vdup(const void *p) { val_t *v; if (p == NULL) return NULL; v = malloc(sizeof(*v)); vf_assert((const val_t *)p >= g_pool && (const val_t *)p < g_pool + 16, "the value given is what is copied"); *v = *(const val_t *)p; g_vl++; return v; }
static void vfree(void *p) { if (p == NULL) return; if (!g_own) return; g_vl--; free(p); }
typedef struct { char k[8]; int v; } ent_t;
static ent_t m[MX + 1]; static int n, mx;
static void del(int i) { for (; i + 1 < n; i++) m[i] = m[i + 1]; n--; }
static void front(int i) { ent_t t = m[i]; for (; i > 0; i--) m[i] = m[i - 1]; m[0] = t; }
static int find(const char *k, int cs) { int i; for (i = 0; i < n; i++) if (cs ? !strcasecmp(m[i].k, k) : !strcmp(m[i].k, k)) return i; return -1; }
static void key(char *k) { unsigned x = vf_u8() % 24; k[0] = (char)((x & 1 ? 'A' : 'a') + (x >> 1)); k[1] = x % 5 == 0 ? 'x' : 0; k[2] = 0; }
void lru(void)
{
	struct M_cache_callbacks cb = { kdup, kfree, vdup, vfree }; M_cache_t *c; M_cache_strvp_t *sc = NULL; int i, r, steps = 0, cs = vf_bool(), str = vf_bool(); char k[4]; void *v; val_t *nv;
	g_kl = g_vl = n = 0; mx = vf_u8() % 7; if (vf_u8() % 8 == 0) mx = MX; g_own = vf_bool(); if (!g_own) { cb.value_duplicate = NULL; if (vf_bool()) cb.value_free = NULL; }
	for (i = 0; i < 16; i++) g_pool[i].id = i;
	if (str) { sc = M_cache_strvp_create((size_t)mx, cs ? M_CACHE_STRVP_CASECMP : M_CACHE_STRVP_NONE, g_own ? vfree : NULL); c = (M_cache_t *)sc; }
	else c = M_cache_create((size_t)mx, cs ? M_hash_func_hash_str_casecmp : M_hash_func_hash_str, cs ? M_sort_compar_str_casecmp : M_sort_compar_str, M_CACHE_NONE, &cb);
	vf_assert(c != NULL, "created");
	for (steps = (int)vf_range(0, 120); steps > 0; steps--) {
		int o = vf_u8() % 12; key(k); i = find(k, cs);
		if (o < 5) {
			int id = vf_u8() % 17; nv = id == 16 ? NULL : &g_pool[id]; v = nv; if (str && g_own) { v = vdup(nv); }
			r = str ? M_cache_strvp_insert(sc, k, v) : M_cache_insert(c, k, v); vf_assert(r == (mx > 0), "put in, unless nothing may be kept"); if (!r && str) vfree(v);
			if (r) { if (i >= 0) { m[i].v = id; front(i); } else { if (n == mx) n--; strcpy(m[n].k, k); m[n].v = id; n++; front(n - 1); } }
		} else if (o < 8) {
			v = &k; r = str ? M_cache_strvp_get(sc, k, &v) : M_cache_get(c, k, &v); vf_assert(r == (i >= 0), "found exactly when it is kept");
			if (r) { vf_assert(v == NULL ? m[i].v == 16 : ((val_t *)v)->id == m[i].v, "the value last put in"); if (!g_own && v) vf_assert(v == &g_pool[m[i].v], "the pointer given"); front(i); } else vf_assert(v == (void *)&k, "nothing written");
		} else if (o == 8) { r = M_cache_get(c, k, NULL); vf_assert(r == (i >= 0), "found exactly when it is kept"); if (r) front(i); }
		else if (o < 11) { r = str ? M_cache_strvp_remove(sc, k) : M_cache_remove(c, k); vf_assert(r == (i >= 0), "removed when there"); if (r) del(i); }
		else { mx = vf_u8() % 7; vf_assert(M_cache_set_max_size(c, (size_t)mx), "resized"); if (n > mx) n = mx; }
		vf_assert(M_cache_size(c) == (size_t)n && M_cache_max_size(c) == (size_t)mx, "number of entries and limit"); if (!str) vf_assert(g_kl == n, "one copy of each key");
		if (g_own) { int w = 0; for (i = 0; i < n; i++) w += m[i].v != 16; vf_assert(g_vl == w, "values released exactly when they go"); }
	}
	for (i = 0; i < n; i++) if (vf_u8() % 2) { int q = i; vf_assert(M_cache_get(c, m[q].k, &v), "every entry is there"); vf_assert(v == NULL ? m[q].v == 16 : ((val_t *)v)->id == m[q].v, "with its value"); front(q); }
	M_cache_destroy(c); vf_assert(g_kl == 0 && g_vl == 0, "everything is released once");
}
