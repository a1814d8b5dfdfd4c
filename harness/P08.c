/* P08, bounded: every adding, reading and searching operation against a plain array of bits; the number of bits
 * before (NB), the operation (K) and its size (S) are enumerated, all bit values are symbolic. */
#include "stubs/mem.h"
#include "vf.h"
#include "stubs/str.h"
#ifndef NB
#define NB 5
#endif
#ifndef S
#define S 9
#endif
#ifndef K
#define K 0
#endif
#define MX 100
static uint8_t ref[MX + 1]; static size_t rl;
static uint8_t src[12], src2[12]; static char *str_;
static void rb(int b) { ref[rl++] = (uint8_t)(b != 0); }
static void rbytes(const uint8_t *p, size_t n) { size_t i; for (i = 0; i < n; i++) rb(p[i / 8] >> (7 - i % 8) & 1); }
static void same(M_bit_buf_t *u)
{
	size_t i; const uint8_t *d = M_bit_buf_peek(u);
	vf_assert(M_bit_buf_len(u) == rl && M_bit_buf_len_bytes(u) == (rl + 7) / 8, "number of bits and bytes");
	for (i = 0; i < (rl + 7) / 8 * 8; i++) vf_assert((d[i / 8] >> (7 - i % 8) & 1) == (i < rl ? ref[i] : 0), "each bit, and zeros after the last");
}
void put(void)
{
	M_bit_buf_t *u = M_bit_buf_create(); size_t i, pad = 0; M_uint64 v = vf_u64(); uint8_t c = vf_u8(), f = vf_u8();
	for (i = 0; i < 12; i++) { src[i] = vf_u8(); src2[i] = vf_u8(); }
	rl = 0; 	M_bit_buf_add_bytes(u, src, NB); rbytes(src, NB);
	if ((rl + S) % 8) pad = 8 - (rl + S) % 8;
	switch (K) {
		case 0: case 1: case 2: if (K == 1) for (i = 0; i < pad; i++) rb(0);
			for (i = S; i-- > 0; ) rb(v >> i & 1);
			M_bit_buf_add(u, v, S, K == 0 ? M_BIT_BUF_PAD_NONE : K == 1 ? M_BIT_BUF_PAD_BEFORE : M_BIT_BUF_PAD_AFTER);
			if (K == 2) for (i = 0; i < pad; i++) rb(0);
			break;
		case 3: M_bit_buf_add_bytes(u, src2, S); rbytes(src2, S); break;
		case 4: M_bit_buf_fill(u, f, S); for (i = 0; i < S; i++) rb(f); break;
		case 5: M_bit_buf_set_bit(u, c, S, f); if (S < rl) ref[S] = c != 0; else { while (rl < S) rb(f); rb(c); } break;
		case 6: { char *t = vf_kstr(2); size_t n = 0; int bad = 0; M_bool ok; (void)n;
			for (i = 0; i < 2; i++) { vf_assume(t[i] == '0' || t[i] == '1' || t[i] == ' ' || t[i] == 'x'); if (t[i] == 'x') bad = 1; if (!bad && t[i] != ' ') rb(t[i] == '1'); }
			ok = M_bit_buf_add_bitstr(u, t, M_BIT_BUF_PAD_NONE); vf_assert(!ok == bad, "refused when something else than bits is in it"); free(t);
			vf_assert(M_bit_buf_len(u) == rl, "number of bits"); for (i = 0; i < NB + 3; i++) if (i < rl) vf_assert((M_bit_buf_peek(u)[i / 8] >> (7 - i % 8) & 1) == ref[i], "each bit");
			goto done; }
	}
	same(u);
	M_bit_buf_add_bit(u, c); rb(c); same(u);
	done: M_bit_buf_destroy(u);
	vf_reach("put");
}
#define BIT(i) (src[(i) / 8] >> (7 - (i) % 8) & 1)
void get(void)
{
	M_bit_parser_t *p; size_t i, n = vf_range(0, S + 1), off = NB, k = 0, c; uint8_t b = 7, want = (uint8_t)vf_bool(), d[4]; M_bit_buf_t *u = M_bit_buf_create(); M_buf_t *B; M_bool ok; char *t; uint8_t *ex;
	ex = vf_bytes((NB + S + 7) / 8, (NB + S + 7) / 8);
	for (i = 0; i < (NB + S + 7) / 8; i++) src[i] = ex[i];
	p = M_bit_parser_create_const(ex, NB + S);
	M_bit_parser_consume(p, NB);
	switch (K) {
		case 0: c = 0; for (i = 0; i < S; i++) c += BIT(off + i) == want; vf_assert(M_bit_parser_count(p, want) == c, "how many bits have that value"); break;
		case 1: M_bit_buf_add(u, 5, 3, M_BIT_BUF_PAD_NONE); ok = M_bit_parser_read_bit_buf(p, u, n); vf_assert(!ok == !(n <= S), "exactly when there are that many"); k = ok ? n : 0;
			vf_assert(M_bit_buf_len(u) == 3 + k, "how many bits"); for (i = 0; i < S; i++) if (i < k) vf_assert((M_bit_buf_peek(u)[(i + 3) / 8] >> (7 - (i + 3) % 8) & 1) == BIT(off + i), "the bits"); break;
		case 2: B = M_buf_create(); ok = M_bit_parser_read_buf(p, B, n); vf_assert(!ok == !(n <= S), "exactly when there are that many"); k = ok ? n : 0; vf_assert(M_buf_len(B) == (k + 7) / 8, "how many bytes");
			for (i = 0; i < S; i++) if (i < k) vf_assert(((uint8_t)M_buf_peek(B)[i / 8] >> (7 - i % 8) & 1) == BIT(off + i), "the bits"); if (k % 8) vf_assert(((uint8_t)M_buf_peek(B)[k / 8] & (0xFF >> (k % 8))) == 0, "zeros after the last"); M_buf_cancel(B); break;
		case 3: t = M_bit_parser_read_strdup(p, n); k = n > 0 && n <= S ? n : 0; vf_assert(!t == !k, "exactly when there are that many"); for (i = 0; i < S; i++) if (i < k) vf_assert(t[i] == '0' + BIT(off + i), "the bits"); if (k) vf_assert(t[k] == 0, "terminated"); M_free(t); break;
		case 4: ok = M_bit_parser_read_range(p, &b, &c, n); for (k = 0; k < S; k++) if (k >= n || BIT(off + k) != BIT(off)) break; vf_assert(!ok == !k && c == k, "how many alike"); if (k) vf_assert(b == BIT(off), "which"); break;
		case 5: ok = M_bit_parser_consume_to_next(p, want, n); for (k = 0; k < S; k++) if (k >= n || BIT(off + k) == want) break; vf_assert(!ok == !(k < S && k < n), "whether one is there"); if (k < S && k < n) k++; break;
		case 6: c = sizeof(d); ok = M_bit_parser_read_bytes(p, d, &c, n); vf_assert(!ok == !(n <= S), "exactly when there are that many"); k = ok ? n : 0; vf_assert(c == (k + 7) / 8, "how many bytes");
			for (i = 0; i < S; i++) if (i < k) vf_assert((d[i / 8] >> (7 - i % 8) & 1) == BIT(off + i), "the bits"); break;
	}
	vf_assert(M_bit_parser_len(p) == S - k && M_bit_parser_current_offset(p) == off + k, "position");
	M_bit_buf_destroy(u); M_bit_parser_destroy(p); free(ex);
	vf_reach("get");
}
/* appending to a parser, wherever its cursor is */
void app(void)
{
	M_bit_parser_t *p; size_t i; M_uint64 v = vf_u64();
	rl = 0;
	for (i = 0; i < 12; i++) { src[i] = vf_u8(); src2[i] = vf_u8(); }
	p = K & 1 ? M_bit_parser_create(src, NB) : M_bit_parser_create_const(src, NB); rbytes(src, NB);
	M_bit_parser_consume(p, 1); M_bit_parser_mark(p);
	if (K < 2) { M_bit_parser_append(p, src2, S); rbytes(src2, S); }
	else if (K < 4) { M_bit_parser_append_uint(p, v, S); for (i = S; i-- > 0; ) rb(v >> i & 1); }
	else { M_bit_parser_reset(p, src2, S); rl = 0; rbytes(src2, S); vf_assert(M_bit_parser_len(p) == S && M_bit_parser_mark_len(p) == 0 && M_bit_parser_current_offset(p) == 0, "at the start"); }
	M_bit_parser_rewind_to_start(p);
	vf_assert(M_bit_parser_len(p) == rl, "number of bits");
	for (i = 0; i < rl; i++) { uint8_t b = 9; vf_assert(M_bit_parser_read_bit(p, &b) && b == ref[i], "what was there, then what was appended"); }
	vf_assert(M_bit_parser_len(p) == 0, "no more");
	M_bit_parser_destroy(p);
	vf_reach("app");
}
