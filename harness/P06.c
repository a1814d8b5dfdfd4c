/* P06: buffer = byte sequence.  Fill sizes straddling the growth step and dropped prefixes are
 * enumerated, contents are symbolic, the result is compared with a model sequence at any index. */
#include "stubs/mem.h"
#ifndef A
#define A 4
#endif
#include "vf.h"
#include "stubs/str.h"
#ifndef NB
#define NB 0
#endif
#ifndef K
#define K 0
#endif
#if A > 100
static uint8_t ref[2300];
#else
static uint8_t ref[64];
#endif
 static size_t rlen;
static void r_add(const uint8_t *p, size_t n) { if (n) memcpy(ref + rlen, p, n); rlen += n; }
static uint8_t *b_add(M_buf_t *b, size_t n) { uint8_t *p = vf_blob(n ? n : 1); M_buf_add_bytes(b, p, n); r_add(p, n); return p; }
static void same(M_buf_t *b)
{
	size_t q; const uint8_t *d = (const uint8_t *)M_buf_peek(b);
	vf_assert(M_buf_len(b) == rlen, "length");
	if (rlen > 0 || d != NULL) { vf_assert(d != NULL, "has data"); vf_assert(d[rlen] == 0, "terminated"); }
	if (rlen > 0) { q = vf_range(0, rlen - 1); vf_assert(d[q] == ref[q], "content at any index"); }
}
static void fin(M_buf_t *b)
{
	size_t n = 77, q; uint8_t *d;
	d = M_buf_finish(b, &n);
	vf_assert(n == rlen, "finished length");
	if (rlen > 0) { q = vf_range(0, rlen - 1); vf_assert(d[q] == ref[q], "finished content at any index"); vf_assert(d[rlen] == 0, "finished data is terminated"); }
	M_free(d);
}
#ifndef DROP
#define DROP 3
#endif
/* bytes added, some dropped: any reachable layout */
static M_buf_t *state(void)
{
	M_buf_t *b = M_buf_create(); uint8_t *p;
	rlen = 0;
	p = b_add(b, A); free(p);
	M_buf_drop(b, DROP);
	if (DROP >= rlen) rlen = 0; else { memmove(ref, ref + DROP, rlen - DROP); rlen -= DROP; }
	return b;
}
void ops(void)
{
	size_t k;
	for (k = 0; k < 9; k++) {
		M_buf_t *b = state(); uint8_t c = vf_u8(); uint8_t t[4]; size_t i;
		switch (k) {
			case 0: same(b); break;
			case 1: M_buf_add_byte(b, c); r_add(&c, 1); M_buf_add_char(b, (char)c); r_add(&c, 1); break;
			case 2: M_buf_add_fill(b, c, 3); for (i = 0; i < 3; i++) r_add(&c, 1); break;
			case 3: { uint8_t *p = b_add(b, 5); free(p); break; }
			case 4: { size_t n = rlen / 2; M_buf_truncate(b, n); rlen = n; M_buf_truncate(b, n + 1); break; }
			case 5: { /* direct write, part of it kept */
				size_t n = 3; uint8_t *p = M_buf_direct_write_start(b, &n);
				vf_assert(p != NULL && n >= 3, "room for the write");
				for (i = 0; i < 3; i++) { t[i] = vf_u8(); p[i] = t[i]; }
				M_buf_direct_write_end(b, 2); r_add(t, 2); break; }
			case 6: { /* merge of a buffer that has dropped data */
				M_buf_t *s = M_buf_create();
				for (i = 0; i < 4; i++) t[i] = vf_u8();
				M_buf_add_bytes(s, t, 4); M_buf_drop(s, 1); M_buf_merge(b, s); r_add(t + 1, 3); break; }
			case 7: { /* justified */
				size_t w = 6; uint8_t m[6];
				for (i = 0; i < 2; i++) t[i] = vf_u8();
				M_buf_add_bytes_just(b, t, 2, M_STR_JUSTIFY_RIGHT, c, w);
				for (i = 0; i < 4; i++) m[i] = c; m[4] = t[0]; m[5] = t[1]; r_add(m, 6); break; }
			case 8: { size_t n = 3; uint8_t *p = M_buf_direct_write_start(b, &n); p[0] = 1; M_buf_direct_write_end(b, 0); break; }
		}
		same(b);
		if (k & 1) { M_buf_add_byte(b, c); r_add(&c, 1); fin(b); } else M_buf_cancel(b);
	}
	vf_reach("ops");
}
static int sp(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static uint8_t up(uint8_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static uint8_t lo(uint8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* small buffers: contents fully checked */
#ifndef N
#define N 4
#endif
static M_buf_t *small(void) { M_buf_t *b = M_buf_create(); uint8_t z[3]; int i; rlen = 0; for (i = 0; i < 3; i++) z[i] = vf_u8(); M_buf_add_bytes(b, z, 3); M_buf_drop(b, 1); r_add(z + 1, 2); return b; }
static void all(M_buf_t *b) { size_t i; const uint8_t *d = (const uint8_t *)M_buf_peek(b); vf_assert(M_buf_len(b) == rlen, "length"); for (i = 0; i < 24; i++) if (i < rlen) vf_assert(d[i] == ref[i], "content"); if (d) vf_assert(d[rlen] == 0, "terminated"); }
/* one size (NB) and one operation (K) per unit */
void transform(void)
{
	size_t n = NB, i; char *s = vf_kstr(n); M_buf_t *b = small(); uint8_t c; size_t a = 0, e = n;
	switch (K) {
		case 0: M_buf_add_str_upper(b, s); for (i = 0; i < n; i++) { c = up((uint8_t)s[i]); r_add(&c, 1); } break;
		case 1: M_buf_add_str_lower(b, s); for (i = 0; i < n; i++) { c = lo((uint8_t)s[i]); r_add(&c, 1); } break;
		case 2: M_buf_add_str_transform(b, M_BUF_TRANSFORM_LTRIM | M_BUF_TRANSFORM_RTRIM | M_BUF_TRANSFORM_UPPER, s);
			while (a < n && sp((uint8_t)s[a])) a++; while (e > a && sp((uint8_t)s[e - 1])) e--;
			for (i = 0; i < n; i++) if (i >= a && i < e) { c = up((uint8_t)s[i]); ref[rlen++] = c; } break;
		case 3: M_buf_add_str_max(b, s, 2); r_add((uint8_t *)s, n < 2 ? n : 2); break;
		case 4: M_buf_add_str(b, s); r_add((uint8_t *)s, n); break;
		case 5: rlen = 0; M_buf_truncate(b, 0); M_buf_add_str(b, s); M_buf_trim(b);
			while (a < n && sp((uint8_t)s[a])) a++; while (e > a && sp((uint8_t)s[e - 1])) e--;
			for (i = 0; i < n; i++) if (i >= a && i < e) ref[rlen++] = (uint8_t)s[i]; break;
	}
	all(b); M_buf_cancel(b); free(s);
	vf_reach("transform");
}
void replace(void)
{
	size_t n = NB, i, j = K; uint8_t *s = vf_bytes(n, n), f[2], r[3]; M_buf_t *b = small(); size_t i2; int ok;
	f[0] = vf_u8(); f[1] = vf_u8(); r[0] = vf_u8(); r[1] = vf_u8(); r[2] = vf_u8();
	ok = M_buf_add_bytes_replace(b, s, n, f, j, r, 3);
	vf_assert(ok, "replace succeeds");
	for (i = 0, i2 = 0; i < n; i++) {
		if (i < i2) continue;
		if (s[i] == f[0] && (j == 1 || (i + 1 < n && s[i + 1] == f[1]))) { ref[rlen] = r[0]; ref[rlen + 1] = r[1]; ref[rlen + 2] = r[2]; rlen += 3; i2 = i + j; }
		else { ref[rlen++] = s[i]; i2 = i + 1; }
	}
	all(b); M_buf_cancel(b); free(s);
	vf_reach("replace");
}
void quoted(void)
{
	size_t n = NB, i; int al = K; char *s = vf_kstr(n); M_buf_t *b = small(); int req = al; uint8_t q = vf_u8(), e = vf_u8(); char rs[2];
	vf_assume(q && e);
	rs[0] = ','; rs[1] = 0;
	M_buf_add_str_quoted(b, (char)q, (char)e, rs, al, s);
	for (i = 0; i < n; i++) { if (s[i] == ',') req = 1; if ((uint8_t)s[i] == q || (uint8_t)s[i] == e) req = 1; }
	if (req) ref[rlen++] = q;
	for (i = 0; i < n; i++) { if ((uint8_t)s[i] == q || (uint8_t)s[i] == e) ref[rlen++] = e; ref[rlen++] = (uint8_t)s[i]; }
	if (req) ref[rlen++] = q;
	all(b); M_buf_cancel(b); free(s);
	vf_reach("quoted");
}
void join(void)
{
	char *s[3]; M_buf_t *b, *bs[2]; size_t i, k; uint8_t sep = vf_u8(); char ss[3]; int m = K;
	vf_assume(sep);
	b = small();
	for (i = 0; i < 3; i++) s[i] = vf_kstr(i);
	ss[0] = '+'; ss[1] = '-'; ss[2] = 0;
	if (m & 1) sep = '+';
	if (m >= 2) { for (i = 0; i < 2; i++) { bs[i] = M_buf_create(); M_buf_add_bytes(bs[i], s[2], 2); if (i) M_buf_drop(bs[i], 1); } }
	if (m == 0) M_buf_bjoin_str(b, sep, (const char **)s, 3);
	if (m == 1) M_buf_sjoin_str(b, ss, (const char **)s, 3);
	if (m == 2) M_buf_bjoin_buf(b, sep, bs, 2);
	if (m == 3) M_buf_sjoin_buf(b, ss, bs, 2);
	for (i = 0; i < (m < 2 ? 3 : 2); i++) {
		if (i) { ref[rlen++] = sep; if (m & 1) ref[rlen++] = '-'; }
		if (m < 2) for (k = 0; k < i; k++) ref[rlen++] = (uint8_t)s[i][k];
		else for (k = i; k < 2; k++) ref[rlen++] = (uint8_t)s[2][k];
	}
	all(b); M_buf_cancel(b); for (i = 0; i < 3; i++) free(s[i]);
	vf_reach("join");
}
void bin(void)
{
	size_t w, i; int big; uint64_t v = vf_u64();
	for (w = 0; w <= 9; w++) for (big = 0; big < 2; big++) {
		M_buf_t *b = small(); int fit = w >= 1 && w <= 8 && (w == 8 || (v >> (8 * w)) == 0), ok;
		ok = M_buf_add_uintbin(b, v, w, big ? M_ENDIAN_BIG : M_ENDIAN_LITTLE);
		vf_assert(ok == fit, "exactly values that fit are written");
		if (fit) for (i = 0; i < w; i++) ref[rlen++] = (uint8_t)(v >> (8 * (big ? w - 1 - i : i)));
		all(b); M_buf_cancel(b);
	}
	vf_reach("bin");
}
void bcd(void)
{
	size_t w, i; uint64_t v = vf_u64(); vf_assume(v < 1000000);
	for (w = NB; w <= NB; w++) {
		M_buf_t *b = small(); uint64_t top = 1, x = v; int ok; uint8_t d[8];
		for (i = 0; i < w; i++) top *= 100;
		ok = M_buf_add_uintbcd(b, v, w);
		vf_assert(ok == (w > 0 && v < top), "exactly values that fit are written");
		if (ok) {
			vf_assert(M_buf_len(b) == rlen + w, "packed width");
			for (i = 0; i < w; i++) { uint8_t c = ((const uint8_t *)M_buf_peek(b))[rlen + i]; vf_assert((c >> 4) < 10 && (c & 15) < 10, "packed digits"); x = (i ? x : 0) * 100 + (c >> 4) * 10 + (c & 15); }
			vf_assert(x == v, "packed value");
			for (i = 0; i < w; i++) { ref[rlen] = ((const uint8_t *)M_buf_peek(b))[rlen]; rlen++; }
		}
		all(b); M_buf_cancel(b);
	}
	(void)0;
	vf_reach("bcd");
}
void encdec(void)
{
	size_t n, i; static const char X[] = "0123456789ABCDEF";
	for (n = NB; n <= NB; n++) {
		uint8_t *s = vf_bytes(n, n); M_buf_t *b = small(); uint8_t z[2]; char bad[4] = { 'A', '1', 'x', 'y' };
		M_buf_add_str_hex(b, s, n);
		for (i = 0; i < n; i++) { ref[rlen++] = (uint8_t)X[s[i] >> 4]; ref[rlen++] = (uint8_t)X[s[i] & 15]; }
		all(b);
		vf_assert(!M_buf_add_decode(b, bad, 4, M_BINCODEC_HEX), "malformed text is refused");
		all(b);
		z[0] = ref[0]; z[1] = ref[1];
		M_buf_drop(b, 2); memmove(ref, ref + 2, rlen - 2); rlen -= 2;
		vf_assert(M_buf_decode(b, M_BINCODEC_HEX), "decodes");
		rlen = 0; r_add(s, n); all(b);
		vf_assert(M_buf_encode(b, 0, M_BINCODEC_HEX), "encodes");
		rlen = 0; for (i = 0; i < n; i++) { ref[rlen++] = (uint8_t)X[s[i] >> 4]; ref[rlen++] = (uint8_t)X[s[i] & 15]; }
		all(b);
		(void)z; M_buf_cancel(b); free(s);
	}
	vf_reach("encdec");
}
