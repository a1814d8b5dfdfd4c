/* P01: codecs, unbounded data length, loop contracts.  One arbitrary output position q
 * stands for all of them: symbol g_s, after g_l line breaks. */
#include "stubs/mem.h"
#include "vf.h"
#ifndef WRAP
#define WRAP 0
#endif
#ifndef CODEC
#define CODEC 16
#endif
#include "P01_spec.h"
#undef VF_BIG
#ifdef VF_CBMC
#  define VF_BIG(nat) ((uint64_t)1 << 32)
#else
#  define VF_BIG(nat) (nat)
#endif
static size_t g_len;
static size_t g_q;   /* ghost: any output position */
static char   g_c;   /* the character specified there */
/* pos characters written for d symbols: (pos - d) line breaks, c symbols on the current line */
#if WRAP == 0
#  define LINES(pos, d, c) ((pos) == (d))
#  define LINES0(pos, d)   ((pos) == (d))
#else
#  define LINES(pos, d, c) ((pos) >= (d) && (pos) <= 2 * (d) && (c) < WRAP && ((pos) - (d)) * WRAP + (c) == (d))
#  define LINES0(pos, d)   ((pos) >= (d) && (pos) <= 2 * (d) && ((pos) - (d)) * WRAP <= (d) && (d) < ((pos) - (d)) * WRAP + WRAP)
#endif

#ifdef VF_DFCC
#  if CODEC == 16
#    include "base/bincodec/m_hex.c"
#  elif CODEC == 64
#    include "base/bincodec/m_base64.c"
#  else
#    include "base/bincodec/m_base32.c"
#  endif
#endif
/*@VF_LOOP base/bincodec/m_hex.c M_hex_encode 1/1 if ENC
__CPROVER_assigns(i, pos, linelen, __CPROVER_object_whole(out))
__CPROVER_loop_invariant(i <= inLen)
__CPROVER_loop_invariant(i < inLen ==> LINES(pos, 2 * i, linelen))
__CPROVER_loop_invariant(i == inLen ==> pos == g_len)
__CPROVER_loop_invariant(g_q < pos ==> out[g_q] == g_c)
__CPROVER_decreases(inLen - i)
@*/
/*@VF_LOOP base/bincodec/m_base64.c M_base64_encode 1/1 if ENC
__CPROVER_assigns(i, pos, len, tmp, __CPROVER_object_whole(out))
__CPROVER_loop_invariant(i <= inlen3 && (len & 3) == 0 && 3 * (len >> 2) == i && LINES0(pos, len))
__CPROVER_loop_invariant((WRAP == 0 && pos > 0) ==> out[pos - 1] != '\n')
__CPROVER_loop_invariant(g_q < pos ==> out[g_q] == g_c)
__CPROVER_decreases(inlen3 - i)
@*/
/*@VF_LOOP base/bincodec/m_base32.c M_base32_encode 1/3 if ENC
__CPROVER_assigns(i, cnt, datalen, __CPROVER_object_whole(out))
__CPROVER_loop_invariant((datalen & 7) == 0 && 5 * (datalen >> 3) == i && i <= in_len + 4)
__CPROVER_loop_invariant(datalen == 0 ==> cnt == 0)
__CPROVER_loop_invariant(datalen > 0 ==> LINES0(cnt - 1, datalen - 1))
__CPROVER_loop_invariant(g_q < cnt ==> out[g_q] == g_c)
@*/
/* symbol s of the encoding, from the two bytes it is made of */
static char sym2(const uint8_t *in, size_t n, size_t s)
{
	size_t b = s * BITS, y = b >> 3, r = b & 7;
	unsigned w;
	if (b >= n * 8) return '=';
	w = (unsigned)in[y] << 8;
	if (y + 1 < n) w |= in[y + 1];
	return alphabet[(w >> (16 - BITS - r)) & ((1u << BITS) - 1)];
}
void encode_u(void)
{
	size_t   n  = vf_range(1, VF_BIG(40)), sz, T, nl, l, c, s, len;
	uint8_t *in = vf_blob(n);
	char    *out;
	sz  = M_bincodec_encode_size(n, WRAP, TAG);
	out = malloc(sz);
	/* T symbols, nl line breaks, by their defining inequalities (no division) */
#ifdef VF_CBMC
	{ size_t g = vf_u64(); nl = vf_u64();
	  vf_assume(g >= 1 && g <= 2 * n && BITS * GRP / 8 * (g - 1) < n && n <= BITS * GRP / 8 * g); T = g * GRP;
	  if (WRAP == 0) vf_assume(nl == 0); else vf_assume(nl < T && nl * WRAP < T && T <= (nl + 1) * WRAP); }
#else
	T = nsym(n); nl = WRAP ? (T - 1) / (WRAP ? WRAP : 1) : 0;
#endif
	g_len = T + nl;
	vf_assert(sz >= g_len && sz <= g_len + 2, "encode_size");
	/* any position: line l, column c */
	l = vf_range(0, nl); c = vf_range(0, WRAP ? WRAP : T - 1);
	s = l * WRAP + c; g_q = l * (WRAP + 1) + c;
	vf_assume(g_q < g_len);
	g_c = (WRAP && c == WRAP) ? '\n' : sym2(in, n, s);
#ifdef VF_DFCC
#  if CODEC == 16
	len = M_hex_encode(in, n, out, sz, WRAP);
#  elif CODEC == 64
	len = M_base64_encode(out, sz, in, n, WRAP);
#  else
	len = M_base32_encode(out, sz, in, n, WRAP);
#  endif
#else
	len = M_bincodec_encode(out, sz, in, n, WRAP, TAG);
#endif
	vf_assert(len == g_len, "encoded length");
	vf_assert(out[g_q] == g_c, "character at any position");
	vf_assert(len == sz || out[len] == 0, "terminated");
	vf_reach("encode_u");
}
