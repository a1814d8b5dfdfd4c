/* P01: binary <-> text codecs (hex, base64, base32) */
#include "stubs/mem.h"
#include "vf.h"
#ifndef CODEC
#define CODEC 64
#endif
#ifndef N
#define N 7
#endif
#include "P01_spec.h"
#ifndef W
#define W 9
#endif
/* sizes and wrap widths are enumerated, contents are symbolic */
static size_t text_len(size_t T, size_t wrap) { return T + (wrap == 0 ? 0 : (T - 1) / wrap); }
/* encode: exact text, exact size bound, terminator */
static void encode_1(const uint8_t *in, size_t n, size_t wrap)
{
	size_t   sz   = M_bincodec_encode_size(n, wrap, TAG);
	size_t   T    = nsym(n), len, j, p, c;
	char    *out;
	vf_assert(sz >= text_len(T, wrap) && sz <= text_len(T, wrap) + 2, "encode_size is the text plus at most a line break and a terminator");
	out = malloc(sz + 1);
	out[sz] = 0x55;
	len = M_bincodec_encode(out, sz, in, n, wrap, TAG);
	vf_assert(len == text_len(T, wrap), "encoded length");
	for (j = 0, p = 0, c = 0; j < T; j++) {
		if (wrap != 0 && c == wrap) { vf_assert(out[p] == '\n', "line break after every wrap characters"); p++; c = 0; }
		vf_assert(out[p] == sym(in, n, j), "encoded character"); p++; c++;
	}
	vf_assert(len == sz || out[len] == 0, "terminated when there is room");
	vf_assert(out[sz] == 0x55, "nothing past the stated size");
	free(out);
}
void encode(void)
{
	size_t n, w;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		for (w = 0; w <= W; w++) encode_1(in, n, w);
		free(in);
	}
	vf_reach("encoded");
}
/* too small a buffer: nothing is written and 0 returned */
void encode_small(void)
{
	size_t n, w;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		for (w = 0; w <= W; w++) {
			size_t have = vf_u64(), len;
			char  *out;
			vf_assume(have < M_bincodec_encode_size(n, w, TAG));
			out = malloc(have ? have : 1);
			len = M_bincodec_encode(out, have, in, n, w, TAG);
			vf_assert(len == 0, "a buffer below encode_size is refused");
			free(out);
		}
		free(in);
	}
	vf_reach("small");
}
static void roundtrip_1(const uint8_t *in, size_t n, size_t wrap)
{
	size_t   sz   = M_bincodec_encode_size(n, wrap, TAG), len, dsz, dl, i, T = nsym(n);
	char    *txt  = malloc(sz);
	uint8_t *back;
	len  = M_bincodec_encode(txt, sz, in, n, wrap, TAG);
	len  = text_len(T, wrap); /* shown by encode; keeps the length concrete */
	dsz  = M_bincodec_decode_size(len, TAG);
	back = malloc(dsz ? dsz : 1);
	dl   = M_bincodec_decode(back, dsz, txt, len, TAG);
	vf_assert(dl == n, "decoding an encoding returns the original length");
	for (i = 0; i < n; i++) vf_assert(back[i] == in[i], "decoding an encoding returns the original bytes");
	free(txt); free(back);
}
void roundtrip(void)
{
	size_t n, w;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		for (w = 0; w <= W; w++) roundtrip_1(in, n, w);
		free(in);
	}
	vf_reach("roundtrip");
}
static size_t ref_decode(const char *in, size_t n, uint8_t *out)
{
	size_t i, cnt = 0, pad = 0, o = 0; unsigned acc = 0; int nb = 0;
	for (i = 0; i < n; i++) {
		if (space(in[i])) continue;
		if (BITS != 4 && in[i] == '=') { pad++; cnt++; continue; }
		if (val(in[i]) < 0 || pad > 0) return 0;
		cnt++;
		acc = ((acc << BITS) | (unsigned)val(in[i])) & 0xFFFF; nb += BITS;
		if (nb >= 8) { nb -= 8; out[o++] = (uint8_t)(acc >> nb); }
	}
	if (cnt % GRP != 0) return 0;
	if (CODEC == 64 && pad > 2) return 0;
	if (CODEC == 32 && !(pad == 0 || pad == 1 || pad == 3 || pad == 4 || pad == 6)) return 0;
	return o;
}
#ifndef M
#define M 9
#endif
static size_t dec_any(size_t n, size_t cap)
{
	char    *in  = (char *)vf_bytes(n, n);
	size_t   dsz = M_bincodec_decode_size(n, TAG);
	size_t   got, want, i;
	uint8_t  ref[16];
	uint8_t *out = malloc(cap ? cap : 1);
	vf_assert(dsz <= n, "decode_size does not exceed the input");
	got  = M_bincodec_decode(out, cap, in, n, TAG);
	want = ref_decode(in, n, ref);
	vf_assert(want <= dsz, "decode_size bounds the decoded length");
	vf_assert(got <= cap, "decoded length within the buffer");
	vf_assert(got == 0 || got == want, "decoded length");
	if (cap > 0 && cap >= dsz) vf_assert(got == want, "exactly the well formed inputs are accepted");
	for (i = 0; i < n; i++) if (i < got) vf_assert(out[i] == ref[i], "decoded byte");
	free(in); free(out);
	return got;
}
#define DEC(n) void dec##n(void) { dec_any(n, M_bincodec_decode_size(n, TAG)); vf_reach("decode"); }
#define DECA(n) void dec##n(void) { if (dec_any(n, M_bincodec_decode_size(n, TAG)) > 0) vf_reach("decode accepts"); vf_reach("decode"); }
void decsmall(void)
{
	size_t n, c;
	for (n = GRP; n <= 2 * GRP; n += GRP)
		for (c = 0; c < M_bincodec_decode_size(n, TAG); c++) dec_any(n, c);
	vf_reach("decode into a small buffer");
}
DEC(1)
#if CODEC == 16
DECA(2) DECA(3)
#else
DEC(2) DEC(3)
#endif
#if CODEC == 32
DEC(4) DEC(5) DEC(6) DEC(7)
#else
DECA(4) DECA(5) DECA(6) DECA(7)
#endif
DECA(8) DECA(9) DECA(10) DECA(11)
#ifndef WA
#define WA 0
#endif
/* the allocating front ends */
void alloc(void)
{
	size_t   n, wrap, i;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		for (wrap = 0; wrap <= WA; wrap++) {
			size_t   L = text_len(nsym(n), wrap), ol = 0;
			uint8_t *d;
			char    *e = M_bincodec_encode_alloc(in, n, wrap, TAG);
			vf_assert(e != NULL, "encode_alloc succeeds");
			vf_assert(e[L] == 0 && e[L - 1] != 0, "encode_alloc terminates the text");
			d = M_bincodec_decode_alloc(e, L, &ol, TAG);
			vf_assert(d != NULL && ol == n, "decode_alloc inverts encode_alloc");
			for (i = 0; i < n; i++) vf_assert(d[i] == in[i], "decode_alloc bytes");
			vf_assert(d[n] == 0, "decode_alloc terminates");
			M_free(e); M_free(d);
		}
		free(in);
	}
	vf_reach("alloc");
}
void autodetect(void)
{
	/* unwrapped hex of any data is recognised as hex, base64 with any non-hex character as base64 */
	size_t   n, ol, i, len, k;
	int      hex;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n), *d;
		for (hex = 0; hex < 2; hex++) {
			char *e = M_bincodec_encode_alloc(in, n, 0, hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64), *x;
			len = hex ? 2 * n : (n + 2) / 3 * 4;
			if (!hex) {
				k = vf_range(0, len - 1);
				vf_assume(!((e[k] >= '0' && e[k] <= '9') || (e[k] >= 'a' && e[k] <= 'f') || (e[k] >= 'A' && e[k] <= 'F')));
			}
			/* exact copy: nothing after the input may be looked at */
			x = malloc(len);
			for (i = 0; i < len; i++) x[i] = e[i];
			d = M_bincodec_decode_alloc(x, len, &ol, M_BINCODEC_BASE64ORHEX);
			vf_assert(d != NULL && ol == n, "auto-detected decode returns the original length");
			for (i = 0; i < n; i++) vf_assert(d[i] == in[i], "auto-detected decode returns the original");
			M_free(e); M_free(d); free(x);
		}
		free(in);
	}
	vf_reach("autodetect");
}
void convert(void)
{
	size_t   n, wrap, i, len, c;
	int      s, m;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		for (s = 0; s < 2; s++) for (wrap = 0; wrap <= 2; wrap++) for (m = 0; m < 2; m++) {
			M_bincodec_codec_t a = s ? M_BINCODEC_HEX : M_BINCODEC_BASE64;
			char    *e = M_bincodec_encode_alloc(in, n, 0, a), *o;
			size_t   el = s ? 2 * n : (n + 2) / 3 * 4, T = nsym(n), sz = M_bincodec_encode_size(n, wrap, TAG), ol;
			if (m) {
				o = malloc(sz);
				ol = M_bincodec_convert(o, sz, wrap, TAG, e, el, a);
				vf_assert(ol == text_len(T, wrap), "converted length");
			} else {
				o = M_bincodec_convert_alloc(e, el, wrap, a, TAG);
				vf_assert(o != NULL && o[text_len(T, wrap)] == 0, "converted length");
			}
			for (i = 0, len = 0, c = 0; i < T; i++) {
				if (wrap != 0 && c == wrap) { vf_assert(o[len] == '\n', "converted line break"); len++; c = 0; }
				vf_assert(o[len] == sym(in, n, i), "converted character"); len++; c++;
			}
			if (m) free(o); else M_free(o);
			M_free(e);
		}
		free(in);
	}
	vf_reach("convert");
}
void str_alloc(void)
{
	/* text containing a NUL is refused, otherwise the string is returned */
	size_t   n, i;
	for (n = 1; n <= N; n++) {
		uint8_t *in = vf_bytes(n, n);
		int      nul = 0;
		char    *e = M_bincodec_encode_alloc(in, n, 0, TAG), *d;
		for (i = 0; i < n; i++) if (in[i] == 0) nul = 1;
		d = M_bincodec_decode_str_alloc(e, TAG);
		vf_assert((d == NULL) == nul, "decode_str_alloc refuses exactly data with NUL");
		if (d != NULL) {
			for (i = 0; i < n; i++) vf_assert(d[i] == (char)in[i], "decode_str_alloc content");
			vf_assert(d[n] == 0, "decode_str_alloc terminated");
		}
		M_free(e); M_free(d); free(in);
	}
	vf_reach("str_alloc");
}
