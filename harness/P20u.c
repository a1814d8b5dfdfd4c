/* P20: one JSON text written and read, by the contracts of buffer and parser (P06, P07) */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include "formats/json/m_json_int.h"
#include "vf.h"
#ifndef N
#define N 4
#endif
/* a buffer is the sequence of what was added */
static unsigned char g_o[4]; static size_t g_n, g_q; static unsigned g_open; static unsigned char g_b, e_b;
static void put(unsigned char c) { if (g_n == g_q) g_b = c; g_n++; } /* any one place of the sequence is watched */
#ifdef VF_CBMC
void M_buf_add_byte(M_buf_t *b, unsigned char c) { put(c); }
void M_buf_add_str(M_buf_t *b, const char *s) { size_t i; for (i = 0; i < 6 && s[i]; i++) put((unsigned char)s[i]); vf_assert(s[i] == 0, "short"); }
void M_buf_add_bytes(M_buf_t *b, const void *s, size_t n) { size_t i; vf_assert(n <= 4, "short"); for (i = 0; i < 4 && i < n; i++) put(((const unsigned char *)s)[i]); }
void M_buf_add_fill(M_buf_t *b, unsigned char c, size_t n) { vf_assert(0, "no indent in text"); }
#endif
static char hexd(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + v - 10); }
static size_t e_n;
static void ep(unsigned char c) { if (e_n == g_q) e_b = c; e_n++; }
static void eu(unsigned v) { ep('\\'); ep('u'); ep((unsigned char)hexd(v >> 12 & 15)); ep((unsigned char)hexd(v >> 8 & 15)); ep((unsigned char)hexd(v >> 4 & 15)); ep((unsigned char)hexd(v & 15)); }
#ifdef WR
#ifdef VF_CBMC
#undef M_snprintf
#define M_snprintf(b, z, f, v) hex4(b, z, (unsigned)(v))
static size_t hex4(char *b, size_t z, unsigned v) { unsigned d = v > 0xFFFFF ? 6 : v > 0xFFFF ? 5 : 4, i; vf_assert(z > d, "room for the digits"); for (i = 0; i < d; i++) b[i] = hexd(v >> 4 * (d - 1 - i) & 15); b[d] = 0; return d; }
/*@VF_TRUST M_snprintf("%04X") writes at least four upper case hex digits; M_buf_add_* append (P06); M_utf8_get_cp by the real code (P02) @*/
#endif
#include "formats/json/m_json_writer.c"
size_t M_str_len(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
void wr(void)
{
	char s[N + 1]; size_t i, l = N; M_json_node_t nd; unsigned f = vf_bool() ? M_JSON_WRITER_DONT_ENCODE_UNICODE : 0; M_bool r, ok = M_TRUE; unsigned rep = vf_bool();
	for (i = 0; i < N; i++) s[i] = (char)vf_u8(); s[N] = 0;
#ifdef LEAD
	vf_assume((unsigned char)s[0] >= LEAD);
#endif
	if (rep) f |= M_JSON_WRITER_REPLACE_BAD_CHARS;
	nd.type = M_JSON_TYPE_STRING; nd.data.json_string = s; g_q = vf_range(0, 63); r = M_json_write_node_string(&nd, (M_buf_t *)&nd, f);
	for (l = 0; l < N && s[l]; l++) ;
	ep('"');
	for (i = 0; i < l && ok;) {
		unsigned char c = (unsigned char)s[i]; M_uint32 cp; const char *p;
		if (c >= 128) { if (M_utf8_get_cp(s + i, &cp, &p) != M_UTF8_ERROR_SUCCESS) { if (rep) ep('?'); else { ok = M_FALSE; break; } } else { if (f & M_JSON_WRITER_DONT_ENCODE_UNICODE) { const char *q; for (q = s + i; q < p; q++) ep((unsigned char)*q); } else if (cp > 0xFFFF) { eu(0xD800 + (cp - 0x10000) / 1024); eu(0xDC00 + (cp - 0x10000) % 1024); } else eu(cp); i = (size_t)(p - s); continue; } }
		else if (c == '"' || c == '\\' || c == '/') { ep('\\'); ep(c); } else if (c == 8) { ep('\\'); ep('b'); } else if (c == 12) { ep('\\'); ep('f'); } else if (c == 10) { ep('\\'); ep('n'); } else if (c == 13) { ep('\\'); ep('r'); } else if (c == 9) { ep('\\'); ep('t'); } else if (c < 32) eu(c); else ep(c);
		if (rep && c >= 128) { i = l; f = 0; g_open = 1; break; } /* what follows a bad character is the library's choice */
		i++;
	}
	vf_assert(!r == !ok, "written unless a character is bad");
	if (ok && !g_open) { ep('"'); vf_assert(g_n == e_n, "as long as its escapes"); if (g_q < e_n) vf_assert(g_b == e_b, "every character escaped as it must be"); }
	vf_reach("wr");
}
void num(void)
{
	M_json_node_t nd; unsigned f = vf_bool() ? M_JSON_WRITER_NUMBER_NOCOMPAT : 0; M_int64 v = (M_int64)vf_u64(); int q; g_q = vf_range(0, 63); nd.type = M_JSON_TYPE_INTEGER; nd.data.json_integer = v; q = !f && (v > 9007199254740991LL || v < -9007199254740991LL);
	vf_assert(M_json_write_node_integer(&nd, (M_buf_t *)&nd, f), "written"); vf_assert(g_n == 1 + 2 * (size_t)q && (g_q > 2 * (size_t)q || g_b == (g_q == (size_t)q ? 'I' : '"')), "the digits, in quotes when beyond JavaScript's integers"); vf_reach("num");
}
#ifdef VF_CBMC
void M_buf_add_int(M_buf_t *b, M_int64 v) { put('I'); }
/*@VF_TRUST M_buf_add_int adds the digits of the integer (native search) @*/
#endif
#endif
#ifdef RD
/* a parser is what is left of the data */
static const unsigned char *g_p; static size_t g_l; static char g_dummy[8]; static int g_fin, g_cancel, g_set; static const char *g_val;
#ifdef VF_CBMC
size_t M_parser_len(const M_parser_t *p) { return g_l; }
const unsigned char *M_parser_peek(const M_parser_t *p) { return g_l ? g_p : NULL; }
M_bool M_parser_consume(M_parser_t *p, size_t n) { if (n > g_l) return M_FALSE; g_p += n; g_l -= n; return M_TRUE; }
M_bool M_parser_peek_byte(const M_parser_t *p, unsigned char *c) { if (!g_l) return M_FALSE; *c = *g_p; return M_TRUE; }
M_buf_t *M_buf_create(void) { g_n = 0; g_fin = 1; return (M_buf_t *)g_dummy; }
void M_buf_cancel(M_buf_t *b) { vf_assert(g_fin == 1, "once"); g_fin = 2; }
char *M_buf_finish_str(M_buf_t *b, size_t *n) { vf_assert(g_fin == 1, "once"); g_fin = 3; return (char *)g_o; }
void M_free(void *p) { }
const char *M_str_safe(const char *s) { return s == NULL ? "" : s; }
M_json_node_t *M_json_node_create(M_json_type_t t) { static M_json_node_t nd; vf_assert(t == M_JSON_TYPE_STRING, "a text"); nd.type = t; return &nd; }
M_bool M_json_set_string(M_json_node_t *nd, const char *s) { g_set = 1; g_val = s; return M_TRUE; }
static int hv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
M_bool M_str_ishex_max(const char *s, size_t n) { size_t i; vf_assert(n == 4, "four digits"); for (i = 0; i < 4; i++) { if (s[i] == 0) return M_TRUE; if (hv((unsigned char)s[i]) < 0) return M_FALSE; } return M_TRUE; }
M_bool M_chr_ishex(char c) { return hv((unsigned char)c) >= 0; }
void *M_mem_chr(const void *m, M_uint8 b, size_t n) { size_t i; for (i = 0; i < 8 && i < n; i++) if (((const unsigned char *)m)[i] == b) return (void *)((const unsigned char *)m + i); return NULL; }
M_str_int_retval_t M_str_to_uint32_ex(const char *s, size_t n, unsigned char base, M_uint32 *v, const char **e) { size_t i; M_uint32 r = 0; vf_assert(n == 4 && base == 16 && e == NULL, "four hex digits"); for (i = 0; i < 4; i++) { int h = hv((unsigned char)s[i]); if (h < 0) break; r = r * 16 + (M_uint32)h; } *v = r; return i ? M_STR_INT_SUCCESS : M_STR_INT_INVALID; }
/*@VF_TRUST M_parser_* and M_buf_* by their contracts (P06, P07), M_str_to_uint32_ex (P03), M_str_ishex_max, M_mem_chr (P14) by theirs; M_utf8_from_cp by the real code (P02) @*/
#endif
#include "formats/json/m_json_reader.c"
void rd(void)
{
	unsigned char d[N + 1]; size_t i, l = N + 1; static unsigned char h[N + 1]; M_json_error_t er = M_JSON_ERROR_SUCCESS; M_json_node_t *nd; int bad = 0, end = 0; uint32_t cp, lo; size_t k, at = 0;
	d[0] = '"'; for (i = 1; i <= N; i++) d[i] = vf_u8(); for (i = 0; i <= N; i++) if (i < l) h[i] = d[i]; g_p = h; g_l = l;
	g_q = vf_range(0, 63); nd = M_json_read_string((M_parser_t *)g_dummy, 0, &er);
	for (i = 1; i < l && !bad && !end;) {
		unsigned char c = d[i];
		if (c == '"') { end = 1; i++; break; } if (c < 32) { bad = 1; break; }
		if (c != '\\') { ep(c); i++; continue; }
		if (i + 1 >= l) { bad = 1; break; } c = d[i + 1];
		if (c == '"' || c == '\\' || c == '/') ep(c); else if (c == 'b') ep(8); else if (c == 'f') ep(12); else if (c == 'n') ep(10); else if (c == 'r') ep(13); else if (c == 't') ep(9);
		else if (c == 'u') {
			if (i + 6 > l) { bad = 1; break; } for (cp = 0, k = 2; k < 6; k++) { if (hv(d[i + k]) < 0) bad = 1; cp = cp * 16 + (uint32_t)hv(d[i + k]); } if (bad) break;
			if (cp >= 0xD800 && cp < 0xDC00) { if (i + 12 > l || d[i + 6] != '\\' || d[i + 7] != 'u') { bad = 1; break; } for (lo = 0, k = 8; k < 12; k++) { if (hv(d[i + k]) < 0) bad = 1; lo = lo * 16 + (uint32_t)hv(d[i + k]); } if (bad || lo < 0xDC00 || lo > 0xDFFF) { bad = 1; break; } cp = 0x10000 + (cp - 0xD800) * 1024 + (lo - 0xDC00); i += 6; }
			{ char u[8]; size_t ul; if (M_utf8_from_cp(u, sizeof(u), &ul, cp) != M_UTF8_ERROR_SUCCESS) { bad = 1; break; } for (k = 0; k < ul; k++) ep((unsigned char)u[k]); } i += 4;
		} else { bad = 1; break; }
		i += 2;
	}
	vf_assert((nd != NULL) == (end && !bad), "a text is read exactly when it is well formed and closed");
	if (nd == NULL) vf_assert(er != M_JSON_ERROR_SUCCESS && g_fin == 2, "an error is given and the buffer let go");
	else { vf_assert(g_set && g_val == (char *)g_o && g_fin == 3 && g_l == l - i, "the parser is after the quote"); vf_assert(g_n == e_n, "as long as what it stands for"); if (g_q < e_n) vf_assert(g_b == e_b, "every escape is the character it stands for"); }
	vf_reach("rd");
}
#endif
