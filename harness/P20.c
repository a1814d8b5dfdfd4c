/* P20 native: JSON trees, written and read again, and a strict RFC 8259 reader next to the library's */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#include <stdlib.h>
#include "vf.h"
static void utf(char *o, uint32_t c) { if (c < 0x80) { o[0] = (char)c; o[1] = 0; } else if (c < 0x800) { o[0] = (char)(0xC0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); o[2] = 0; } else if (c < 0x10000) { o[0] = (char)(0xE0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); o[3] = 0; } else { o[0] = (char)(0xF0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63)); o[4] = 0; } }
static uint32_t cp(void)
{
	static const uint32_t E[] = { 1, 8, 9, 10, 12, 13, 27, 31, 32, '"', '\\', '/', 'u', '{', ']', 127, 128, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFD };
	uint32_t c; switch (vf_u8() % 5) { case 0: return E[vf_u8() % 26]; case 1: return 1 + vf_u8() % 126; case 2: return 'a' + vf_u8() % 26; case 3: c = 0x80 + vf_u16() % 0xF000; break; default: c = 0x10000 + vf_u32() % 0x100000; }
	if ((c >= 0xD800 && c < 0xE000) || (c & 0xFFFE) == 0xFFFE || (c >= 0xFDD0 && c <= 0xFDEF)) c = 'x';
	return c;
}
static void text(char *s) { unsigned n = vf_u8() % 7; *s = 0; while (n--) utf(s + strlen(s), cp()); }
static M_int64 big(void) { M_int64 v = (M_int64)vf_u64(); switch (vf_u8() % 5) { case 0: return v; case 1: return v % 1000; case 2: return 9007199254740991LL - 2 + vf_u8() % 5; case 3: return -9007199254740991LL - 2 + vf_u8() % 5; default: return v < 0 ? M_INT64_MIN + vf_u8() % 2 : M_INT64_MAX - vf_u8() % 2; } }
static M_json_node_t *tree(unsigned d)
{
	M_json_node_t *n, *k; char s[64]; unsigned t = vf_u8() % (d ? 8 : 6), i; M_decimal_t dec;
	switch (t) {
	case 0: case 1: n = M_json_node_create(M_JSON_TYPE_STRING); text(s); M_json_set_string(n, s); return n;
	case 2: n = M_json_node_create(M_JSON_TYPE_INTEGER); M_json_set_int(n, big()); return n;
	case 3: n = M_json_node_create(M_JSON_TYPE_DECIMAL); { M_int64 m = (M_int64)vf_u64() % 9007199254740991LL; M_decimal_from_int(&dec, vf_bool() ? m : m % 1000, (M_uint8)(1 + vf_u8() % 9)); } M_json_set_decimal(n, &dec); return n;
	case 4: n = M_json_node_create(M_JSON_TYPE_BOOL); M_json_set_bool(n, vf_bool()); return n;
	case 5: return M_json_node_create(M_JSON_TYPE_NULL);
	case 6: n = M_json_node_create(M_JSON_TYPE_ARRAY); i = vf_u8() % 5; while (i--) vf_assert(M_json_array_insert(n, tree(d - 1)), "added"); return n;
	default: n = M_json_node_create(M_JSON_TYPE_OBJECT); i = vf_u8() % 5; while (i--) { text(s); k = tree(d - 1); if (*s == 0) strcpy(s, "k"); if (M_json_object_value(n, s) != NULL) { M_json_node_destroy(k); continue; } if (getenv("DBG")) fprintf(stderr, "key %s\n", s); vf_assert(M_json_object_insert(n, s, k), "added"); } return n;
	}
}
static void same(const M_json_node_t *a, const M_json_node_t *b, unsigned f)
{
	M_json_type_t t = M_json_node_type(a), u = M_json_node_type(b); size_t i;
	if (t == M_JSON_TYPE_INTEGER && !(f & M_JSON_WRITER_NUMBER_NOCOMPAT) && (M_json_get_int(a) > 9007199254740991LL || M_json_get_int(a) < -9007199254740991LL)) { char x[32]; snprintf(x, sizeof(x), "%lld", (long long)M_json_get_int(a)); vf_assert(u == M_JSON_TYPE_STRING && !strcmp(M_json_get_string(b), x), "a number beyond JavaScript's is a string"); return; }
	if (t == M_JSON_TYPE_DECIMAL) { if (u == M_JSON_TYPE_INTEGER) { M_decimal_t d; M_decimal_from_int(&d, M_json_get_int(b), 0); vf_assert(M_decimal_cmp(M_json_get_decimal(a), &d) == 0, "the same number"); return; } vf_assert(u == t && M_decimal_cmp(M_json_get_decimal(a), M_json_get_decimal(b)) == 0, "the same decimal"); return; }
	vf_assert(t == u, "the same kind of value");
	switch (t) {
	case M_JSON_TYPE_STRING: vf_assert(!strcmp(M_json_get_string(a), M_json_get_string(b)), "the same text"); break;
	case M_JSON_TYPE_INTEGER: vf_assert(M_json_get_int(a) == M_json_get_int(b), "the same integer"); break;
	case M_JSON_TYPE_BOOL: vf_assert(M_json_get_bool(a) == M_json_get_bool(b), "the same truth"); break;
	case M_JSON_TYPE_ARRAY: vf_assert(M_json_array_len(a) == M_json_array_len(b), "as many values"); for (i = 0; i < M_json_array_len(a); i++) same(M_json_array_at(a, i), M_json_array_at(b, i), f); break;
	case M_JSON_TYPE_OBJECT: vf_assert(M_json_object_num_children(a) == M_json_object_num_children(b), "as many members"); { M_list_str_t *l = M_json_object_keys(a); for (i = 0; i < M_list_str_len(l); i++) { const char *k = M_list_str_at(l, i); M_json_node_t *v = M_json_object_value(b, k); vf_assert(v != NULL, "every member"); same(M_json_object_value(a, k), v, f); } M_list_str_destroy(l); } break;
	default: break;
	}
}
/* RFC 8259; z: bytes below 32 in strings are refused, \v and \f are no whitespace */
typedef const unsigned char *P; static int g_lax; /* the library reads numbers with leading zeros, and two more kinds of white space */
static P ws(P p, P e) { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || (g_lax && (*p == 11 || *p == 12)))) p++; return p; }
static int hx(P p) { int i; for (i = 0; i < 4; i++) if (!((p[i] >= '0' && p[i] <= '9') || ((p[i] | 32) >= 'a' && (p[i] | 32) <= 'f'))) return 0; return 1; }
static P jstr(P p, P e) { if (p >= e || *p != '"') return NULL; for (p++; p < e && *p != '"'; p++) { if (*p < 32) return NULL; if (*p == '\\') { if (++p >= e || *p == 0 || !strchr("\"\\/bfnrtu", *p)) return NULL; if (*p == 'u') { if (e - p < 5 || !hx(p + 1)) return NULL; p += 4; } } } return p < e ? p + 1 : NULL; }
static P dig(P p, P e) { P s = p; while (p < e && *p >= '0' && *p <= '9') p++; return p == s ? NULL : p; }
static P jval(P p, P e, int d)
{
	p = ws(p, e); if (p >= e || d > 50) return NULL;
	if (*p == '"') return jstr(p, e);
	if (*p == '{' || *p == '[') { int o = *p == '{', n = 0; for (p++;;) { p = ws(p, e); if (p >= e) return NULL; if (*p == (o ? '}' : ']') && !n) return p + 1; if (o) { p = jstr(p, e); if (!p) return NULL; p = ws(p, e); if (p >= e || *p++ != ':') return NULL; } p = jval(p, e, d + 1); if (!p) return NULL; p = ws(p, e); if (p >= e) return NULL; if (*p == (o ? '}' : ']')) return p + 1; if (*p++ != ',') return NULL; n = 1; } }
	if (e - p >= 4 && (!memcmp(p, "true", 4) || !memcmp(p, "null", 4))) return p + 4; if (e - p >= 5 && !memcmp(p, "false", 5)) return p + 5;
	if (*p == '-') p++; if (p >= e) return NULL; if (*p == '0' && !g_lax) p++; else if (!(p = dig(p, e))) return NULL;
	if (p < e && *p == '.') { if (!(p = dig(p + 1, e))) return NULL; } if (p < e && (*p | 32) == 'e') { p++; if (p < e && (*p == '+' || *p == '-')) p++; p = dig(p, e); }
	return p;
}
static int valid(const char *s, size_t n) { P p = ws((P)s, (P)s + n), e = (P)s + n; if (p >= e || (*p != '{' && *p != '[')) return 0; p = jval(p, e, 0); return p != NULL && ws(p, e) == e; }
static M_json_node_t *root(void) { M_json_node_t *n = tree(3), *r; if (M_json_node_type(n) == M_JSON_TYPE_ARRAY || M_json_node_type(n) == M_JSON_TYPE_OBJECT) return n; r = M_json_node_create(M_JSON_TYPE_ARRAY); M_json_array_insert(r, n); return r; }
void round(void)
{
	unsigned f = vf_u8() & (M_JSON_WRITER_PRETTYPRINT_SPACE | M_JSON_WRITER_PRETTYPRINT_TAB | M_JSON_WRITER_PRETTYPRINT_WINLINEEND | M_JSON_WRITER_DONT_ENCODE_UNICODE | M_JSON_WRITER_NUMBER_NOCOMPAT); M_json_node_t *a = root(), *b; size_t n = 0, k; char *s = M_json_write(a, f, &n), *x; M_json_error_t e;
	vf_assert(s != NULL && strlen(s) == n, "written"); if (getenv("DBG")) fprintf(stderr, "%s\n", s); vf_assert(valid(s, n), "what is written is JSON");
	x = malloc(n); memcpy(x, s, n); k = 0; b = M_json_read(x, n, vf_bool() ? M_JSON_READER_NONE : M_JSON_READER_DISALLOW_COMMENTS, vf_bool() ? &k : NULL, &e, NULL, NULL); if (getenv("DBG") && !b) fprintf(stderr, "err %d\n", e);
	vf_assert(b != NULL && (k == 0 || k == n), "what is written is read"); same(a, b, f); M_json_node_destroy(b); free(x); M_free(s); M_json_node_destroy(a);
}
/* texts of JSON pieces, and written trees with a few bytes changed */
void rd(void)
{
	static const char *T[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"", "1", "-2", "0.5", "true", "false", "null", " ", "\n", "\\u00e9", "\\n", "\\", "\"\\u20AC\"", "tru", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "{\"k\":1}", "[]", "{}", "\"\\u00", "-", "\xC3\xA9", "12345678901234567890" };
	char s[400]; size_t n, i, m = vf_u8() % 12, el, ep; M_json_node_t *b; char *x; unsigned f = vf_bool() ? M_JSON_READER_REPLACE_BAD_CHARS : 0; M_json_error_t e; int v;
	*s = 0; if (vf_bool()) { strcpy(s, vf_bool() ? "[" : "{\"z\":"); for (i = 0; i < m; i++) strcat(s, T[vf_u8() % 31]); strcat(s, vf_bool() ? "]" : "}"); n = strlen(s); }
	else { M_json_node_t *a = root(); char *w = M_json_write(a, vf_u8() & 15, &n); M_json_node_destroy(a); if (w == NULL) return; if (n > 380) n = 380; memcpy(s, w, n); M_free(w); m = vf_u8() % 4; while (m-- && n) { size_t p = vf_u16() % n; switch (vf_u8() % 3) { case 0: s[p] = (char)vf_u8(); break; case 1: memmove(s + p, s + p + 1, n - p - 1); n--; break; default: n = p; } } }
	if (!n) return;
	x = malloc(n); memcpy(x, s, n); b = M_json_read(x, n, f | M_JSON_READER_DISALLOW_COMMENTS, NULL, &e, vf_bool() ? &el : NULL, vf_bool() ? &ep : NULL); g_lax = 1; v = valid(s, n); g_lax = 0;
	if (getenv("DBG")) { for (i = 0; i < n; i++) fprintf(stderr, (unsigned char)x[i] < 32 || (unsigned char)x[i] > 126 ? "<%02x>" : "%c", (unsigned char)x[i]); fprintf(stderr, " : %d err %d valid %d\n", b != NULL, b ? 0 : (int)e, v); }
	if (!f && b != NULL) vf_assert(v, "what is accepted is JSON");
	if (b != NULL) { char *w = M_json_write(b, M_JSON_WRITER_REPLACE_BAD_CHARS, NULL); vf_assert(w != NULL && valid(w, strlen(w)), "what was read can be written"); M_free(w); } else vf_assert(e != M_JSON_ERROR_SUCCESS, "an error is given");
	M_json_node_destroy(b); free(x);
}
