/* P02: UTF-8 */
#include "stubs/mem.h"
#include "vf.h"
#ifndef N
#define N 5
#endif
static int validcp(uint64_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && !(c >= 0xFDD0 && c <= 0xFDEF) && (c & 0xFFFF) != 0xFFFE && (c & 0xFFFF) != 0xFFFF; }
/* RFC 3629 table 3-7: length of the well-formed sequence at s (0 if none), its code point in *cp */
static int seq(const uint8_t *s, uint32_t *cp)
{
	*cp = 0;
	if (s[0] < 0x80) { *cp = s[0]; return 1; }
	if (s[0] >= 0xC2 && s[0] <= 0xDF) { if ((s[1] & 0xC0) != 0x80) return 0; *cp = (uint32_t)(s[0] - 0xC0) * 64 + (s[1] - 0x80); return 2; }
	if (s[0] >= 0xE0 && s[0] <= 0xEF) {
		if ((s[1] & 0xC0) != 0x80 || (s[2] & 0xC0) != 0x80) return 0;
		if (s[0] == 0xE0 && s[1] < 0xA0) return 0;
		if (s[0] == 0xED && s[1] > 0x9F) return 0;
		*cp = (uint32_t)(s[0] - 0xE0) * 4096 + (uint32_t)(s[1] - 0x80) * 64 + (s[2] - 0x80);
		return validcp(*cp) ? 3 : 0;
	}
	if (s[0] >= 0xF0 && s[0] <= 0xF4) {
		if ((s[1] & 0xC0) != 0x80 || (s[2] & 0xC0) != 0x80 || (s[3] & 0xC0) != 0x80) return 0;
		if (s[0] == 0xF0 && s[1] < 0x90) return 0;
		if (s[0] == 0xF4 && s[1] > 0x8F) return 0;
		*cp = (uint32_t)(s[0] - 0xF0) * 262144 + (uint32_t)(s[1] - 0x80) * 4096 + (uint32_t)(s[2] - 0x80) * 64 + (s[3] - 0x80);
		return validcp(*cp) ? 4 : 0;
	}
	return 0;
}
void cp_valid(void) { uint32_t c = vf_u32(); vf_assert(!!M_utf8_is_valid_cp(c) == validcp(c), "exactly the Unicode characters are valid"); vf_reach("cp_valid"); }
void from_cp(void)
{
	uint32_t c = vf_u32(), back; size_t cap, len, w = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	for (cap = 0; cap <= 5; cap++) {
		char *b = malloc(cap ? cap : 1); int rc; uint8_t t[5] = { 0 }; size_t i;
		len = 77;
		rc = M_utf8_from_cp(b, cap, &len, c);
		vf_assert((rc == M_UTF8_ERROR_SUCCESS) == (validcp(c) && w <= cap), "encodes exactly valid code points that fit");
		if (rc == M_UTF8_ERROR_SUCCESS) {
			vf_assert(len == w, "shortest form");
			for (i = 0; i < 4; i++) if (i < len && i < cap) t[i] = (uint8_t)b[i];
			vf_assert(seq(t, &back) == (int)w && back == c, "encodes the code point");
		}
		free(b);
	}
	vf_reach("from_cp");
}
/* any string whose first character is examined: at most 4 bytes matter, all of them symbolic */
void get_cp(void)
{
	size_t n;
	for (n = 1; n <= 5; n++) {
		uint8_t *s = (uint8_t *)vf_str(n, n); uint32_t c, want; const char *next = NULL; int w, rc;
		w  = seq(s, &want);
		rc = M_utf8_get_cp((char *)s, &c, &next);
		vf_assert((rc == M_UTF8_ERROR_SUCCESS) == (w > 0), "accepts exactly well formed characters");
		if (w > 0) vf_assert(c == want && next == (char *)s + w, "code point and position");
		vf_assert((M_utf8_get_cp((char *)s, NULL, NULL) == M_UTF8_ERROR_SUCCESS) == (w > 0), "outputs are optional");
		next = M_utf8_next_chr((char *)s);
		vf_assert(next > (char *)s && next <= (char *)s + n, "next character inside the string");
		free(s);
	}
	vf_reach("get_cp");
}
void get_chr(void)
{
	size_t n, cap;
	for (n = 1; n <= 4; n++) {
		uint8_t *s = (uint8_t *)vf_str(n, n); uint32_t want; int w = seq(s, &want);
		for (cap = 1; cap <= 5; cap++) {
			char *b = malloc(cap); const char *next = NULL; size_t len = 0, i; int rc;
			rc = M_utf8_get_chr((char *)s, b, cap, &len, &next);
			vf_assert((rc == M_UTF8_ERROR_SUCCESS) == (w > 0 && (size_t)w <= cap), "copies exactly well formed characters that fit");
			if (rc == M_UTF8_ERROR_SUCCESS) {
				vf_assert(len == (size_t)w && next == (char *)s + w, "length of the character");
				for (i = 0; i < 4; i++) if (i < len) vf_assert(b[i] == (char)s[i], "bytes of the character");
			}
			free(b);
		}
		free(s);
	}
	vf_reach("get_chr");
}
static void whole_1(size_t n)
{
	uint8_t    *s = (uint8_t *)vf_str(n, n);
	const char *e = NULL, *p;
	uint32_t    want[N + 1], c;
	size_t      i = 0, cnt = 0, st[N + 1], k;
	int         ok = 1, rc;
	for (k = 0; k < n; k++) {
		int w;
		if (!ok || i >= n) continue;
		w = seq(s + i, &want[cnt]);
		if (w == 0) { ok = 0; continue; }
		st[cnt] = i; cnt++; i += (size_t)w;
	}
	vf_assert(!!M_utf8_is_valid((char *)s, &e) == ok, "valid exactly if every character is");
	vf_assert(e == (char *)s + i, "end: terminator or the first bad character");
	vf_assert(!!M_utf8_is_valid((char *)s, NULL) == ok, "end is optional");
	vf_assert(M_utf8_cnt((char *)s) == (ok ? cnt : 0), "number of characters");
	for (k = 0; k <= n; k++) {
		c  = 0;
		rc = M_utf8_cp_at((char *)s, k, &c);
		vf_assert((rc == M_UTF8_ERROR_SUCCESS) == (k < cnt), "there is a character at exactly the valid indices");
		if (k < cnt) vf_assert(c == want[k], "character at an index");
	}
	(void)p; (void)st;
	free(s);
}
void whole(void) { size_t n; for (n = 0; n <= N; n++) whole_1(n); vf_reach("whole"); }
