/* P07: searches, integer reads and splits over a parser positioned inside its data; the data length (NB) and the
 * operation (K) are enumerated, contents are symbolic, results are compared with the definition of the operation. */
#include "stubs/mem.h"
#include "vf.h"
#include "stubs/str.h"
#ifndef NB
#define NB 3
#endif
#ifndef K
#define K 0
#endif
#define PRE 2
static uint8_t *all; static const uint8_t *d; static size_t n = NB;
static M_parser_t *st(M_uint32 fl)
{
	M_parser_t *p;
	all = vf_bytes(PRE + n, PRE + n); d = all + PRE;
#ifdef DYN
	p = M_parser_create(fl); M_parser_append(p, all, PRE + n);
#else
	p = M_parser_create_const(all, PRE + n, fl);
#endif
	M_parser_consume(p, PRE);
	return p;
}
/* the next c bytes are gone, the others are what is left */
static void gone(M_parser_t *p, size_t c)
{
	size_t i; const uint8_t *r = M_parser_peek(p);
	vf_assert(M_parser_len(p) == n - c, "how much is left"); vf_assert(M_parser_current_offset(p) == PRE + c, "offset");
	for (i = 0; i < NB; i++) if (i < n - c) vf_assert(r[i] == d[c + i], "what is left");
}
static void cut(M_parser_t *p, size_t c)
{
	size_t i; const uint8_t *r = M_parser_peek(p);
	vf_assert(M_parser_len(p) == n - c, "how much is left"); vf_assert(M_parser_current_offset(p) == PRE, "offset");
	for (i = 0; i < NB; i++) if (i < n - c) vf_assert(r[i] == d[i], "what is left");
}
static int sp(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static M_bool odd(unsigned char c) { return (c & 1) != 0; }
#define FIRST(v, cond) do { for (v = 0; v < n; v++) if (cond) break; } while (0)
void srch(void)
{
	M_parser_t *p = st(0); uint8_t s[2]; size_t i, r = 0, w = 0, m; M_bool eat = vf_bool(), fnd = 7; int hit = 0; unsigned fl;
	s[0] = vf_u8(); s[1] = vf_u8();
	switch (K) {
		case 0: case 1: case 2: case 3: /* whitespace; 1: spaces only, 2: to newline, 3: both */
			fl = (K & 1 ? M_PARSER_WHITESPACE_SPACEONLY : 0) | (K & 2 ? M_PARSER_WHITESPACE_TO_NEWLINE : 0);
			r = M_parser_consume_whitespace(p, fl);
			for (w = 0; w < n; w++) { if ((K & 2) && d[w] == '\n') { w++; break; } if ((K & 1) ? d[w] != ' ' : !sp(d[w])) break; }
			vf_assert(r == w, "how much"); gone(p, w); break;
		case 4: /* until a two byte pattern */
			r = M_parser_consume_until(p, s, 2, eat);
			for (w = 0; w < n; w++) if (w + 1 < n && d[w] == s[0] && d[w + 1] == s[1]) { hit = 1; break; }
			w = hit ? w + (eat ? 2 : 0) : 0;
			vf_assert(r == w, "how much"); gone(p, w); break;
		case 5: /* boundary: the pattern, or the start of it at the end of the data */
			r = M_parser_consume_boundary(p, s, 2, eat, &fnd);
			for (w = 0; w < n; w++) { if (w + 1 < n) { if (d[w] == s[0] && d[w + 1] == s[1]) { hit = 1; break; } } else if (d[w] == s[0]) break; }
			w += hit && eat ? 2 : 0;
			vf_assert(r == w && !fnd == !hit, "how much, and whether it was there"); gone(p, w); break;
		case 6: r = M_parser_consume_charset(p, s, 2); FIRST(w, d[w] != s[0] && d[w] != s[1]); vf_assert(r == w, "how much"); gone(p, w); break;
		case 7: r = M_parser_consume_not_charset(p, s, 2); FIRST(w, d[w] == s[0] || d[w] == s[1]); vf_assert(r == w, "how much"); gone(p, w); break;
		case 8: m = vf_range(0, 4); r = M_parser_consume_predicate_max(p, odd, m); FIRST(w, w >= m || !odd(d[w])); vf_assert(r == w, "how much"); gone(p, w); break;
		case 9: r = M_parser_consume_eol(p); FIRST(w, d[w] == '\n'); if (w < n) w++; vf_assert(r == w, "how much"); gone(p, w); break;
		case 10: case 11: case 12: case 13:
			fl = (K == 11 || K == 13 ? M_PARSER_WHITESPACE_SPACEONLY : 0) | (K >= 12 ? M_PARSER_WHITESPACE_TO_NEWLINE : 0);
			r = M_parser_truncate_whitespace(p, fl);
			w = 0; if (K >= 12 && n && d[n - 1] == '\n') w = 1;
			for (; w < n; w++) { uint8_t c = d[n - 1 - w]; if (K >= 12 && c == '\n') break; if (K == 11 || K == 13 ? c != ' ' : !sp(c)) break; }
			vf_assert(r == w, "how much"); cut(p, w); break;
		case 14: /* from the last pattern on */
			r = M_parser_truncate_until(p, s, 2, eat);
			for (w = n; w-- > 0; ) if (w + 1 < n && d[w] == s[0] && d[w + 1] == s[1]) { hit = 1; break; }
			w = hit ? n - w - (eat ? 0 : 2) : n >= 2 ? n : 0; /* nothing is kept when it isn't there */
			vf_assert(r == w, "how much"); cut(p, w); break;
		case 15: r = M_parser_truncate_charset(p, s, 2); FIRST(w, d[n - 1 - w] != s[0] && d[n - 1 - w] != s[1]); vf_assert(r == w, "how much"); cut(p, w); break;
		case 16: m = vf_range(0, 4); r = M_parser_truncate_predicate_max(p, odd, m); FIRST(w, w >= m || !odd(d[n - 1 - w])); vf_assert(r == w, "how much"); cut(p, w); break;
		case 17: m = vf_range(0, 4); r = M_parser_is_predicate(p, m, odd); FIRST(w, w >= m || !odd(d[w])); vf_assert(!r == !(m > 0 && w >= (m < n ? m : n)), "all of them"); gone(p, 0); break;
		case 18: m = vf_range(0, 4); r = M_parser_is_charset(p, m, s, 2); FIRST(w, w >= m || (d[w] != s[0] && d[w] != s[1])); vf_assert(!r == !(m > 0 && w >= (m < n ? m : n)), "all of them"); gone(p, 0); break;
		case 19: r = M_parser_compare(p, s, 2); vf_assert(!r == !(n >= 2 && d[0] == s[0] && d[1] == s[1]), "same bytes"); gone(p, 0); break;
	}
	(void)i; M_parser_destroy(p); free(all);
	vf_reach("srch");
}
/* reads into buffers, strings, M_buf and new parsers take exactly what the matching consume takes */
static void took(const uint8_t *g, size_t got, size_t w) { size_t i; vf_assert(got == w, "how much was read"); for (i = 0; i < NB + 2; i++) if (i < w) vf_assert(g[i] == d[i], "what was read"); }
void rd(void)
{
	M_parser_t *p = st(0), *q; uint8_t s[2], b[NB + 3]; char *t; size_t i, r, w = 0, m; M_bool eat = vf_bool(), fnd = 0; int hit = 0; M_buf_t *u = M_buf_create();
	s[0] = vf_u8(); s[1] = vf_u8(); m = vf_range(0, 5);
	if (K % 4 == 0) { for (w = 0; w < n; w++) if (d[w] == s[0]) { hit = 1; break; } w = hit ? w + (eat ? 1 : 0) : 0; }
	if (K % 4 == 1) { for (w = 0; w < n; w++) if (d[w] == s[0]) { hit = 1; break; } w += hit && eat ? 1 : 0; }
	if (K % 4 == 2) FIRST(w, !odd(d[w]));
	if (K % 4 == 3) FIRST(w, d[w] != s[0] && d[w] != s[1]);
	switch (K) {
		case 0: r = M_parser_read_bytes_until(p, b, sizeof(b), s, 1, eat); took(b, r, w); break;
		case 1: r = M_parser_read_bytes_boundary(p, b, sizeof(b), s, 1, eat, &fnd); took(b, r, w); vf_assert(!fnd == !hit, "found"); break;
		case 2: r = M_parser_read_bytes_predicate(p, odd, b, sizeof(b)); took(b, r, w); break;
		case 3: r = M_parser_read_bytes_charset(p, s, 2, b, sizeof(b)); took(b, r, w); break;
		case 4: r = M_parser_read_buf_until(p, u, s, 1, eat); took((const uint8_t *)M_buf_peek(u), r, w); vf_assert(M_buf_len(u) == w, "how much was added"); break;
		case 5: r = M_parser_read_buf_boundary(p, u, s, 1, eat, &fnd); took((const uint8_t *)M_buf_peek(u), r, w); vf_assert(M_buf_len(u) == w, "how much was added"); break;
		case 6: r = M_parser_read_buf_predicate(p, u, odd); took((const uint8_t *)M_buf_peek(u), r, w); vf_assert(M_buf_len(u) == w, "how much was added"); break;
		case 7: r = M_parser_read_buf_charset(p, u, s, 2); took((const uint8_t *)M_buf_peek(u), r, w); vf_assert(M_buf_len(u) == w, "how much was added"); break;
		case 8: q = M_parser_read_parser_until(p, s, 1, eat); took(M_parser_peek(q), M_parser_len(q), w); vf_assert(!q == !w, "a parser when there is data"); M_parser_destroy(q); break;
		case 9: q = M_parser_read_parser_boundary(p, s, 1, eat, &fnd); took(M_parser_peek(q), M_parser_len(q), w); M_parser_destroy(q); break;
		case 10: q = M_parser_read_parser_predicate(p, odd); took(M_parser_peek(q), M_parser_len(q), w); M_parser_destroy(q); break;
		case 11: q = M_parser_read_parser_charset(p, s, 2); took(M_parser_peek(q), M_parser_len(q), w); M_parser_destroy(q); break;
		case 12: w = m <= n ? m : 0; q = M_parser_read_parser(p, m); took(M_parser_peek(q), M_parser_len(q), w); M_parser_destroy(q); break;
		case 13: w = m <= n ? m : 0; t = M_parser_read_strdup(p, m); vf_assert(!t == !w, "a string when there is that much"); took((uint8_t *)t, w, w); if (t) vf_assert(t[w] == 0, "terminated"); free(t); break;
		case 14: w = m <= n ? m : 0; r = M_parser_read_buf(p, u, m); vf_assert(!r == !(m <= n), "exactly when there is that much"); took((const uint8_t *)M_buf_peek(u), M_buf_len(u), w); break;
		case 15: w = m <= n ? m : n; r = M_parser_read_buf_max(p, u, m); took((const uint8_t *)M_buf_peek(u), r, w); vf_assert(M_buf_len(u) == w, "how much was added"); break;
		case 16: M_parser_mark(p); w = m <= n ? m : 0; M_parser_consume(p, m); q = M_parser_read_parser_mark(p); took(M_parser_peek(q), M_parser_len(q), w); M_parser_destroy(q); break;
		case 17: M_parser_mark(p); w = m <= n ? m : 0; M_parser_consume(p, m); t = M_parser_read_strdup_mark(p); vf_assert(!t == !w, "a string when there is data"); took((uint8_t *)t, w, w); if (t) vf_assert(t[w] == 0, "terminated"); free(t); break;
		case 18: M_parser_mark(p); w = m <= n ? m : 0; M_parser_consume(p, m); r = M_parser_read_buf_mark(p, u); took((const uint8_t *)M_buf_peek(u), r, w); break;
	}
	gone(p, w); (void)i;
	M_buf_cancel(u); M_parser_destroy(p); free(all);
	vf_reach("rd");
}
void num(void)
{
	M_parser_t *p = st(0); size_t l, i, w = 0; int64_t v = 5; uint64_t x = 0, u = 5; M_bool ok; int good = 1;
	for (l = 0; l <= 9; l++) {
		M_parser_destroy(p); p = M_parser_create_const(all, PRE + n, 0); M_parser_consume(p, PRE); x = 0;
		w = l >= 1 && l <= 8 && l <= n ? l : 0;
		switch (K) {
			case 0: ok = M_parser_read_int(p, M_PARSER_INTEGER_BIGENDIAN, l, 0, &v); for (i = 0; i < w; i++) x = x << 8 | d[i]; vf_assert(!ok == !w, "exactly when there is that much"); if (ok) vf_assert((uint64_t)v == x, "value"); break;
			case 1: ok = M_parser_read_uint(p, M_PARSER_INTEGER_LITTLEENDIAN, l, 0, &u); for (i = w; i-- > 0; ) x = x << 8 | d[i]; vf_assert(!ok == !w, "exactly when there is that much"); if (ok) vf_assert(u == x, "value"); break;
			case 2: w = l >= 1 && l <= 9 && l <= n ? l : 0; ok = M_parser_read_uint_bcd(p, l, &u); good = 1; for (i = 0; i < w; i++) { x = x * 100 + (d[i] >> 4) * 10 + (d[i] & 15); if ((d[i] >> 4) > 9 || (d[i] & 15) > 9) good = 0; } vf_assert(!ok == !w, "exactly when there is that much"); if (ok && good) vf_assert(u == x, "value"); break;
		}
		gone(p, w);
	}
	M_parser_destroy(p); free(all);
	vf_reach("num");
}
/* the text of at most m bytes that is a decimal number is taken, and no more */
void numtext(void)
{
	M_parser_t *p = st(0); size_t m = vf_range(0, NB), i, lim, dg = 0; uint64_t x = 0, u = 9; M_bool ok;
	lim = m ? m : n;
	for (i = 0; i < lim; i++) { vf_assume(d[i] == 'x' || (d[i] >= '0' && d[i] <= '9')); }
	for (i = 0; i < lim; i++) { if (d[i] == 'x') break; x = x * 10 + (d[i] - '0'); dg++; }
	ok = M_parser_read_uint(p, M_PARSER_INTEGER_ASCII, m, 10, &u);
	if (ok) { vf_assert(dg > 0 && u == x, "value"); gone(p, dg); }
	else { vf_assert(dg == 0, "digits are a number"); gone(p, 0); }
	M_parser_destroy(p); free(all);
	vf_reach("numtext");
}
/* line and column are those of the position, forwards and after a rewind */
void lines(void)
{
	M_parser_t *p; size_t c = vf_range(0, NB), k = vf_range(0, NB), i, l = 1, col = 1;
	all = vf_bytes(NB + 1, NB + 1) + 1; vf_assume(c <= NB && k <= c); /* the scan for the line start goes one before the data */
	p = M_parser_create_const(all, NB, M_PARSER_FLAG_TRACKLINES);
	M_parser_consume(p, k); M_parser_mark(p); M_parser_consume(p, c - k);
	for (i = 0; i < c; i++) if (all[i] == '\n') { l++; col = 1; } else col++;
	vf_assert(M_parser_current_line(p) == l && M_parser_current_column(p) == col, "line and column of the position");
	M_parser_mark_rewind(p); l = col = 1;
	for (i = 0; i < k; i++) if (all[i] == '\n') { l++; col = 1; } else col++;
	vf_assert(M_parser_current_line(p) == l && M_parser_current_column(p) == col, "line and column after rewinding");
	M_parser_destroy(p); free(all - 1);
	vf_reach("lines");
}
/* the parts joined with the delimiter are the data */
void split(void)
{
	M_parser_t *p, **v; size_t cnt = 99, max = K, i, pos = 0, parts = 1, k, e; uint8_t s = vf_u8(); unsigned keep = vf_bool() ? M_PARSER_SPLIT_FLAG_DONT_TRIM_LAST : 0;
	all = vf_bytes(n, n);
	p = M_parser_create_const(all, n, 0);
	for (i = 0; i < n; i++) if (all[i] == s && (max == 0 || parts < max)) parts++;
	v = M_parser_split(p, s, max, keep, &cnt);
	vf_assert(v != NULL && M_parser_len(p) == 0, "all of it is taken");
	vf_assert(cnt == parts || (cnt + 1 == parts && !keep), "as many parts as delimiters and one more");
	for (k = 0; k < NB + 1; k++) if (k < parts) {
		for (e = pos; e < n && (all[e] != s || k + 1 == parts); e++) ;
		if (k < cnt) {
			vf_assert(M_parser_len(v[k]) == e - pos, "size of the part");
			for (i = 0; i < NB; i++) if (i < e - pos) vf_assert(M_parser_peek(v[k])[i] == all[pos + i], "the part");
		} else vf_assert(e == pos, "only an empty last part is left out");
		pos = e + 1;
	}
	if (cnt == parts && !keep) vf_assert(M_parser_len(v[cnt - 1]) > 0, "no empty last part");
	M_parser_split_free(v, cnt ? cnt : 1); M_parser_destroy(p); free(all);
	vf_reach("split");
}
/* STX text ETX LRC */
void frame(void)
{
	M_parser_t *p = st(0), *o = NULL; size_t e, i; uint8_t x = 0; int r; unsigned fl = vf_u8() & 3;
	FIRST(e, d[e] == 3);
	r = M_parser_read_stxetxlrc_message(p, &o, (fl & 1 ? M_PARSER_FRAME_STX : 0) | (fl & 2 ? M_PARSER_FRAME_ETX : 0));
	if (fl & 1) x ^= 2; if (fl & 2) x ^= 3;
	for (i = 1; i < NB; i++) if (i < e) x ^= d[i];
	if (n < 4) vf_assert(r == M_PARSER_FRAME_ERROR_INVALID, "too short");
	else if (d[0] != 2) vf_assert(r == M_PARSER_FRAME_ERROR_NO_STX, "no STX");
	else if (e == n) vf_assert(r == M_PARSER_FRAME_ERROR_NO_ETX, "no ETX");
	else if (e + 1 == n) vf_assert(r == M_PARSER_FRAME_ERROR_NO_LRC, "no LRC");
	else {
		vf_assert(r == (d[e + 1] == x ? M_PARSER_FRAME_ERROR_SUCCESS : M_PARSER_FRAME_ERROR_LRC_CALC_FAILED), "LRC of the message");
		vf_assert(M_parser_len(o) == e - 1, "size of the message");
		for (i = 1; i < NB; i++) if (i < e) vf_assert(M_parser_peek(o)[i - 1] == d[i], "the message");
		gone(p, e + 2); M_parser_destroy(o);
		M_parser_destroy(p); free(all);
		return;
	}
	gone(p, 0);
	M_parser_destroy(p); free(all);
	vf_reach("frame");
}
