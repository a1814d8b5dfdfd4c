/* P11 native: sorting and searching real arrays */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
static int g_one; static size_t g_es; static const unsigned char *g_lo, *g_hi; static unsigned char g_key[64]; static int g_desc;
static unsigned key(const unsigned char *p) { return p[0]; }
static void chk(const void *p) { const unsigned char *q = p; vf_assert(q == g_key || (q >= g_lo && q + g_es <= g_hi) || g_lo == NULL, "compares elements of the array"); }
static int cmpk(const void *a, const void *b, void *t) { int r; vf_assert(t == &g_one, "thunk given"); chk(a); chk(b); r = (int)key(a) - (int)key(b); return g_desc ? -r : r; }
static void fillel(unsigned char *p, unsigned k, unsigned id) { size_t j; for (j = 0; j < g_es; j++) p[j] = (unsigned char)(j == 0 ? k : j == 1 ? id : j == 2 ? id >> 8 : k * 3 + id * 7 + j); }
void sort(void)
{
	static const unsigned char ES[] = { 1, 2, 3, 4, 7, 8, 12, 16, 24, 40 }; size_t i, n, off; unsigned op, spread, pat, seed = vf_u32(); unsigned char *m, *a, *o; size_t cnt[256] = { 0 };
	g_es = ES[vf_u8() % sizeof(ES)]; op = vf_u8() % 3; spread = 1u + vf_u8(); pat = vf_u8() % 5; n = vf_u8() % 4 ? vf_u8() % 24 : vf_u16() % 700; off = vf_u8() % 2 ? 0 : vf_u8() % 8; g_desc = vf_u8() % 2;
	m = malloc(n * g_es + 32); a = m + 8 + off; memset(m, 0xA5, n * g_es + 32); o = malloc(n * g_es + 1); g_lo = a; g_hi = a + n * g_es; if (op == 1) g_lo = NULL;
	for (i = 0; i < n; i++) { unsigned k; seed = seed * 1103515245u + 12345u; k = (seed >> 16) % spread; if (n < 24) k = vf_u8() % spread; if (pat == 1) k = (unsigned)(i * spread / (n + 1)); if (pat == 2) k = (unsigned)((n - i) * spread / (n + 1)); if (pat == 3) k = (unsigned)(i < n / 2 ? i : n - i) % 256; k &= 255; fillel(a + i * g_es, k, (unsigned)i); cnt[k]++; }
	memcpy(o, a, n * g_es);
	if (op == 0) M_sort_qsort(a, n, g_es, cmpk, &g_one); else if (op == 1) M_sort_mergesort(a, n, g_es, cmpk, &g_one);
	if (op < 2) {
		for (i = 0; i < n; i++) {
			unsigned char *p = a + i * g_es; unsigned k = key(p); vf_assert(cnt[k]-- > 0, "the same elements"); if (i) { unsigned q = key(p - g_es); vf_assert(g_desc ? q >= k : q <= k, "in order"); }
			if (g_es > 2) { unsigned id = p[1] | p[2] << 8; vf_assert(id < n && memcmp(p, o + id * g_es, g_es) == 0, "whole elements are moved"); if (op == 1 && i && key(p - g_es) == k) vf_assert((unsigned)(p[1 - (long)g_es] | p[2 - (long)g_es] << 8) < id, "equal elements keep their order"); }
		}
		for (i = 0; i < 8 + off; i++) vf_assert(m[i] == 0xA5, "nothing else is touched"); for (i = 0; i < 32 - 8 - off; i++) vf_assert(a[n * g_es + i] == 0xA5, "nothing else is touched");
	}
	/* search in what is now sorted */
	if (op == 2) M_sort_mergesort(a, n, g_es, ((g_lo = NULL), cmpk), &g_one);
	{
		size_t lo, hi, x = 12345; M_bool st = vf_bool(), r; unsigned k = vf_u8() % (spread + 1); g_lo = a; fillel(g_key, k & 255, 9); k &= 255;
		for (lo = 0; lo < n && (g_desc ? key(a + lo * g_es) > k : key(a + lo * g_es) < k); lo++) ; for (hi = lo; hi < n && key(a + hi * g_es) == k; hi++) ;
		r = M_sort_binary_search(a, n, g_es, g_key, st, cmpk, &g_one, vf_bool() ? &x : NULL); vf_assert(!r == (lo == hi), "found exactly when it is there"); if (r && x != 12345) { vf_assert(x >= lo && x < hi, "the index of an equal element"); if (st) vf_assert(x == lo, "the first equal element"); }
		x = M_sort_binary_insert_idx(a, n, g_es, g_key, st, cmpk, &g_one); vf_assert(x >= lo && x <= hi, "a place where the array stays sorted"); if (st) vf_assert(x == hi, "after all equal elements");
	}
	free(m); free(o);
}
static int sg(int r) { return r < 0 ? -1 : r > 0; }
void strs(void)
{
	char a[8], b[8], *p = a, *q = b; size_t i, n = vf_u8() % 7, k = vf_u8() % 7; char la[8], lb[8];
	for (i = 0; i < n; i++) a[i] = vf_u8() % 4 ? "aAbB"[vf_u8() % 4] : (char)(vf_u8() | 1); a[n] = 0; for (i = 0; i < k; i++) b[i] = vf_u8() % 4 ? "aAbB"[vf_u8() % 4] : (char)(vf_u8() | 1); b[k] = 0;
	if (vf_bool()) { memcpy(b, a, 8); b[vf_u8() % (n + 1)] = 0; }
	vf_assert(sg(M_sort_compar_str(&p, &q, NULL)) == sg(strcmp(a, b)), "strings by their bytes"); vf_assert(sg(M_sort_compar_str_desc(&p, &q, NULL)) == -sg(strcmp(a, b)), "descending is the reverse");
	for (i = 0; i < 8; i++) { la[i] = a[i] >= 'A' && a[i] <= 'Z' ? a[i] + 32 : a[i]; if (!a[i]) break; } for (i = 0; i < 8; i++) { lb[i] = b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i]; if (!b[i]) break; }
	vf_assert(sg(M_sort_compar_str_casecmp(&p, &q, NULL)) == sg(strcmp(la, lb)), "ignoring case"); vf_assert(sg(M_sort_compar_str_casecmp_desc(&p, &q, NULL)) == -sg(strcmp(la, lb)), "descending is the reverse");
}
