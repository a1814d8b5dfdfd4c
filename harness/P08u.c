/* P08, any size: bit buffer and bit parser operations from any state (whole bytes plus a zero padded last one;
 * any offset into any number of bits), observed at an arbitrary bit. */
#define VF_LIVE
#include "stubs/memghost.h"
#include "vf.h"
static size_t g_q; static uint8_t g_v, g_m; /* ghost: any output byte, its specified bits */
#ifdef ABSBUF
/* the byte buffer by its contract (proved in P06): its content is the content before plus what was added, elsewhere in memory */
struct M_buf { unsigned char *data; size_t data_length; };
#ifdef VF_CBMC
/*@VF_TRUST M_buf operations under the bit buffer are replaced by the contracts proved by P06 @*/
static void vf_grow(M_buf_t *b, const void *s, size_t n)
{
	uint8_t *t = g_t, *d = malloc(b->data_length + n + 1), last = 0; size_t o;
	if (n == 0) return;
	if (b->data_length) last = b->data[b->data_length - 1];
	if (t != NULL) g_tv = *t;
	if (t != NULL && b->data != NULL && INR(t, b->data, b->data_length)) g_t = d + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(b->data));
	else if (t != NULL && INR(t, (const uint8_t *)s, n)) g_t = d + b->data_length + (__CPROVER_POINTER_OFFSET(t) - __CPROVER_POINTER_OFFSET(s));
	if (b->data_length) d[b->data_length - 1] = last;
	if (g_t != NULL) *g_t = g_tv;
	__CPROVER_assert(__CPROVER_r_ok(s, n), "VF:added range readable");
	o = b->data_length; if (n == 1) d[o] = *(const uint8_t *)s;
	b->data = d; b->data_length += n; d[b->data_length] = 0;
}
void M_buf_add_bytes(M_buf_t *b, const void *s, size_t n) { vf_grow(b, s, n); }
void M_buf_add_byte(M_buf_t *b, unsigned char c) { vf_grow(b, &c, 1); }
size_t M_buf_len(const M_buf_t *b) { return b->data_length; }
char *M_buf_peek(const M_buf_t *b) { return (char *)b->data; }
void M_buf_truncate(M_buf_t *b, size_t n) { if (n < b->data_length) { b->data_length = n; b->data[n] = 0; } }
M_buf_t *M_buf_create(void) { return M_malloc_zero(sizeof(M_buf_t)); }
void M_buf_cancel(M_buf_t *b) { M_free(b); }
#endif
#else
#include "base/data/m_buf.c"
#endif
#include "base/data/m_bit_buf.c"
#include "base/data/m_bit_parser.c"
/* ---- bit buffer */
static size_t NB0; /* bits in the buffer */
static int bit_(const uint8_t *p, size_t i) { return p[i / 8] >> (7 - i % 8) & 1; }
static M_bit_buf_t *st(void)
{
	M_bit_buf_t *u = M_malloc_zero(sizeof(*u)); M_buf_t *b = M_malloc_zero(sizeof(*b)); size_t i;
	u->bits = b; NB0 = u->nbits = vf_range(0, VF_BIG(64));
#ifdef ABSBUF
	b->data_length = (NB0 + 7) / 8;
#ifdef VF_CBMC
	b->data = malloc(b->data_length + 1);
#else
	M_buf_t *B = M_buf_create(); u->bits = B; for (i = 0; i < (NB0 + 7) / 8; i++) M_buf_add_byte(B, vf_u8()); b = NULL;
#endif
	if (NB0 % 8) { uint8_t *l = (uint8_t *)M_buf_peek(u->bits) + M_buf_len(u->bits) - 1; vf_assume((*l & (0xFF >> (NB0 % 8))) == 0); }
	(void)i; return u;
#else
	b->data_length = (NB0 + 7) / 8; b->data_size = vf_range(0, VF_BIG(64)); b->data_consumed = vf_range(0, VF_BIG(64));
	vf_assume(b->data_consumed + b->data_length <= b->data_size);
	b->data = b->data_size ? M_malloc(b->data_size + 1) : NULL;
#ifndef VF_CBMC
	for (i = 0; i < b->data_size; i++) b->data[i] = vf_u8();
#endif
	(void)i;
	if (b->data) b->data[b->data_consumed + b->data_length] = 0;
	if (NB0 % 8) { uint8_t *l = b->data + b->data_consumed + b->data_length - 1; vf_assume((*l & (0xFF >> (NB0 % 8))) == 0); }
	return u;
#endif
}
static uint8_t *dat(M_bit_buf_t *u) { return (uint8_t *)M_buf_peek(u->bits); }
static int g_pad = 1;
static void inv(M_bit_buf_t *u, size_t n)
{
	vf_assert(M_bit_buf_len(u) == n, "number of bits");
	vf_assert(M_bit_buf_len_bytes(u) == (n + 7) / 8, "number of bytes");
	if (g_pad && n % 8) vf_assert((M_bit_buf_peek(u)[n / 8] & (0xFF >> (n % 8))) == 0, "unused bits are zero");
}
static size_t idx(size_t n) { size_t q = vf_range(0, VF_BIG(160)); vf_assume(q < n); return q; }
static int old(M_bit_buf_t *u, size_t q) { TRACK(dat(u) + q / 8); return bit_(dat(u), q); }
void bb_add(void)
{
	M_bit_buf_t *u = st(); uint8_t c = vf_u8(); size_t q = idx(NB0 + 1); int v = c != 0;
	if (q < NB0) v = old(u, q); else if (NB0 % 8) old(u, NB0 - 1);
	M_bit_buf_add_bit(u, c);
	inv(u, NB0 + 1); vf_assert(bit_(M_bit_buf_peek(u), q) == v, "the bits there were, then the new one");
	vf_reach("bb_add");
}
void bb_update(void)
{
	M_bit_buf_t *u = st(); uint8_t c = vf_u8(); size_t i = vf_u64(), q; int v, ok; vf_assume(NB0 > 0); q = idx(NB0); v = bit_(dat(u), q);
	ok = M_bit_buf_update_bit(u, i, c);
	vf_assert(!ok == !(i < NB0), "exactly bits there are");
	if (ok && q == i) v = c != 0;
	inv(u, NB0); vf_assert(bit_(M_bit_buf_peek(u), q) == v, "that bit and no other");
	vf_reach("bb_update");
}
void bb_trunc(void)
{
	M_bit_buf_t *u = st(); size_t n = vf_u64(), l = n < NB0 ? n : NB0, q = 0; int v = 0;
	if (l) { q = idx(l); v = old(u, q); }
	M_bit_buf_truncate(u, n);
	inv(u, l); if (l) vf_assert(bit_(M_bit_buf_peek(u), q) == v, "the bits before");
	vf_reach("bb_trunc");
}
void bb_bytes(void) /* onto whole bytes */
{
	M_bit_buf_t *u = st(); size_t n = vf_range(1, VF_BIG(64)), q, nb = NB0 / 8, w = (n + 7) / 8; uint8_t *s = vf_blob(w), v, *p;
	vf_assume(NB0 % 8 == 0); q = idx(nb + w); p = q < nb ? dat(u) + q : s + (q - nb); v = *p; TRACK(p);
	if (q == nb + w - 1 && n % 8) v &= (uint8_t)(0xFF00 >> (n % 8));
	M_bit_buf_add_bytes(u, s, n);
	g_pad = q == nb + w - 1; inv(u, NB0 + n); vf_assert(M_bit_buf_peek(u)[q] == v, "the bytes there were, then the new ones, the rest of the last one zero");
	vf_reach("bb_bytes");
}
void bb_reserve(void)
{
	M_bit_buf_t *u = st(); size_t n = vf_range(1, VF_BIG(64)), q; int v; vf_assume(NB0 > 0); q = idx(NB0); v = old(u, q);
	M_bit_buf_reserve(u, n);
	g_pad = q / 8 == (NB0 - 1) / 8; inv(u, NB0); vf_assert(bit_(M_bit_buf_peek(u), q) == v, "nothing changes");
	vf_reach("bb_reserve");
}
/* ---- bit parser */
static size_t NBT, OFF, MARK; static uint8_t *src;
static M_bit_parser_t *ps(void)
{
	M_bit_parser_t *p; NBT = vf_range(0, VF_BIG(96)); OFF = vf_range(0, VF_BIG(96)); MARK = vf_range(0, VF_BIG(96));
	vf_assume(OFF <= NBT && MARK <= OFF);
	src = vf_blob((NBT + 7) / 8);
	p = M_malloc(sizeof(*p)); p->bytes = src; p->nbits = NBT; p->offset = OFF; p->marked_offset = MARK; p->bbuf = NULL;
	return p;
}
static void pinv(M_bit_parser_t *p, size_t took)
{
	vf_assert(M_bit_parser_len(p) == NBT - OFF - took && M_bit_parser_current_offset(p) == OFF + took, "position");
	vf_assert(M_bit_parser_mark_len(p) == OFF + took - MARK, "distance from the mark");
}
void bp_uint(void)
{
	M_bit_parser_t *p = ps(); size_t n = vf_u64(), b; M_uint64 r = 1; int ok, fit = n <= 64 && n <= NBT - OFF;
	ok = M_bit_parser_read_uint(p, n, &r);
	vf_assert(!ok == !fit, "exactly when there are that many bits");
	pinv(p, fit ? n : 0);
	if (fit && n > 0) { b = idx(n); vf_assert((r >> (n - 1 - b) & 1) == (M_uint64)bit_(src, OFF + b), "each bit, the first is the highest"); if (n < 64) vf_assert(r >> n == 0, "no other bits"); }
	else vf_assert(r == 0, "zero");
	vf_reach("bp_uint");
}
void bp_int(void)
{
	M_bit_parser_t *p = ps(), *o; size_t n = vf_u64(); int f = (int)vf_range(0, 2); M_int64 r = 5; M_uint64 w = 0; int ok, fit = n >= 2 && n <= 64 && n <= NBT - OFF;
	o = M_malloc(sizeof(*o)); *o = *p;
	ok = M_bit_parser_read_int(p, n, f == 0 ? M_BIT_PARSER_SIGN_MAG : f == 1 ? M_BIT_PARSER_ONES_COMP : M_BIT_PARSER_TWOS_COMP, &r);
	vf_assert(!ok == !fit, "exactly when there are that many bits");
	pinv(p, fit ? n : 0);
	if (fit) {
		M_uint64 top, low; M_bit_parser_read_uint(o, n, &w); /* proved by bp_uint */
		top = w >> (n - 1) & 1; low = w & (((M_uint64)1 << (n - 1)) - 1);
		if (f == 0) vf_assert((M_uint64)r == (top ? (M_uint64)0 - low : low), "sign and magnitude");
		if (f == 1) vf_assert((M_uint64)r == (top ? (M_uint64)0 - (~low & (((M_uint64)1 << (n - 1)) - 1)) : low), "one's complement");
		if (f == 2) vf_assert((M_uint64)r == (top ? low - ((M_uint64)1 << (n - 1)) : low), "two's complement");
	} else vf_assert(r == 0, "zero");
	vf_reach("bp_int");
}
void bp_small(void)
{
	M_bit_parser_t *p = ps(); int k = (int)vf_range(0, 4); uint8_t b = 9; size_t n = vf_u64(), took = 0; int ok;
	switch (k) {
		case 0: ok = M_bit_parser_peek_bit(p, &b); vf_assert(!ok == !(OFF < NBT), "exactly when there is one"); if (ok) vf_assert(b == bit_(src, OFF), "the next bit"); break;
		case 1: ok = M_bit_parser_read_bit(p, &b); vf_assert(!ok == !(OFF < NBT), "exactly when there is one"); if (ok) { vf_assert(b == bit_(src, OFF), "the next bit"); took = 1; } break;
		case 2: ok = M_bit_parser_consume(p, n); vf_assert(!ok == !(n <= NBT - OFF), "exactly when there are that many"); took = ok ? n : 0; break;
		case 3: vf_assert(M_bit_parser_mark_rewind(p) == OFF - MARK, "how far"); vf_assert(M_bit_parser_current_offset(p) == MARK, "back at the mark"); OFF = MARK; break;
		case 4: M_bit_parser_mark(p); MARK = OFF; break;
	}
	pinv(p, took);
	vf_reach("bp_small");
}
/* any number of bits copied out as bytes, first at the top, padded with zero bits */
/*@VF_LOOP base/data/m_bit_parser.c peek_next_bytes 1/1
__CPROVER_assigns(i, __CPROVER_object_whole(dest))
__CPROVER_loop_invariant(i <= nbytes)
__CPROVER_loop_invariant(g_q < i ==> (dest[g_q] & g_m) == g_v)
__CPROVER_decreases(nbytes - i)
@*/
void bp_bytes(void)
{
	M_bit_parser_t *p = ps(); size_t n = vf_range(0, VF_BIG(96)), dl = vf_range(1, VF_BIG(12)), w, b; uint8_t *d = vf_blob(dl), x = 0; int ok, fit; size_t got = dl, end, k;
	w = (n + 7) / 8;
	fit = n <= NBT - OFF && w <= dl;
	if (fit && n) {
		g_q = idx(w); end = g_q + 1 < w || n % 8 == 0 ? 8 : n % 8; g_m = (uint8_t)(0xFF << (8 - end));
		for (k = 0; k < 8; k++) x = (uint8_t)(x << 1 | (k < end ? bit_(src, OFF + 8 * g_q + k) : 0));
		g_v = x;
		TRACK(src + OFF / 8 + g_q);
	}
	ok = M_bit_parser_read_bytes(p, d, &got, n);
	vf_assert(!ok == !fit, "exactly when there are that many bits and room for them");
	vf_assert(got == (fit ? w : 0), "how many bytes");
	if (fit && n) vf_assert(d[g_q] == g_v, "the bits, padded with zero");
	pinv(p, fit ? n : 0); (void)b;
	vf_reach("bp_bytes");
}
