/* P03: text to integer */
#include "stubs/mem.h"
#include "vf.h"
#ifndef N
#define N 4
#endif
#ifndef BASE
#define BASE 10
#endif
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned dig(char c) { if (c >= '0' && c <= '9') return (unsigned)(c - '0'); if (c >= 'a' && c <= 'z') return (unsigned)(c - 'a') + 10; if (c >= 'A' && c <= 'Z') return (unsigned)(c - 'A') + 10; return 99; }
/* the specification: rc, magnitude (saturated with ov), sign, end */
struct r { int rc, neg, ov; uint64_t mag; size_t end; };
static struct r spec(const char *s, size_t n, unsigned base)
{
	struct r  r = { 2, 0, 0, 0, 0 };
	__uint128_t v = 0;
	size_t    i, st = 0, b;
	int       go = 1;
	for (i = 0; i < n; i++) { if (go && sp(s[i])) st = i + 1; else go = 0; }
	if (st < n && (s[st] == '-' || s[st] == '+')) { r.neg = s[st] == '-'; st++; }
	if (base == 0) { base = 10; if (st < n && s[st] == '0') { base = 8; if (st + 1 < n && (s[st + 1] | 32) == 'x') base = 16; } }
	if (base == 16 && st + 1 < n && s[st] == '0' && (s[st + 1] | 32) == 'x') st += 2;
	b = st;
	for (i = 0, go = 1; i < n; i++) if (i >= st) {
		unsigned d = dig(s[i]);
		if (go && d < base) {
#if BASE == 2
			v = v << 1 | d;
#else
			v = v * base + d;
#endif
			if (v >> 64) { r.ov = 1; v = (uint64_t)v; }
			b = i + 1;
		} else go = 0;
	}
	r.mag = (uint64_t)v; r.end = b;
	if (b > st) r.rc = r.ov ? 1 : 0;
	return r;
}
static void conv(size_t n)
{
	char       *s = (char *)vf_str(n, n), *x = malloc(n ? n : 1);
	size_t      i;
	struct r    r;
	const char *e = NULL;
	M_uint64    u = 7; M_int64 v = 7; M_uint32 u4 = 7; M_int32 v4 = 7;
	int         rc;
	/* exact-size copy: nothing at or past len may be read */
	for (i = 0; i < n; i++) x[i] = s[i];
	r  = spec(x, n, BASE);
	rc = M_str_to_uint64_ex(x, n, BASE, &u, &e);
	if (n > 0) {
		vf_assert(rc == r.rc, "unsigned 64: result code");
		vf_assert(e == x + r.end, "end of the digits");
		if (r.rc == 1) vf_assert(u == UINT64_MAX, "unsigned 64 saturates");
		if (r.rc == 0) vf_assert(u == (r.neg ? -r.mag : r.mag), "unsigned 64 value");
	} else vf_assert(rc == 2, "empty is invalid");
#ifndef ONLY64
	rc = M_str_to_int64_ex(x, n, BASE, &v, &e);
	if (r.rc != 2) {
		int ov = r.ov || r.mag > (uint64_t)INT64_MAX + (r.neg ? 1 : 0);
		vf_assert(rc == (ov ? 1 : 0), "signed 64: result code");
		vf_assert(v == (ov ? (r.neg ? INT64_MIN : INT64_MAX) : r.neg ? (int64_t)(0 - r.mag) : (int64_t)r.mag), "signed 64 value");
		vf_assert(e == x + r.end, "end of the digits, signed");
	} else vf_assert(rc == 2, "signed 64: invalid");
	rc = M_str_to_int32_ex(x, n, BASE, &v4, &e);
	if (r.rc != 2) {
		int ov = r.ov || r.mag > (uint64_t)INT32_MAX + (r.neg ? 1 : 0);
		vf_assert(rc == (ov ? 1 : 0), "signed 32: result code");
		vf_assert(v4 == (ov ? (r.neg ? INT32_MIN : INT32_MAX) : (int32_t)(r.neg ? 0 - (int64_t)r.mag : (int64_t)r.mag)), "signed 32 value");
	} else vf_assert(rc == 2, "signed 32: invalid");
	rc = M_str_to_uint32_ex(x, n, BASE, &u4, &e);
	if (r.rc != 2 && !r.neg) {
		int ov = r.ov || r.mag > UINT32_MAX;
		vf_assert(rc == (ov ? 1 : 0), "unsigned 32: result code");
		vf_assert(u4 == (ov ? UINT32_MAX : (uint32_t)r.mag), "unsigned 32 value");
	} else if (r.rc == 2) vf_assert(rc == 2, "unsigned 32: invalid");
#endif
	free(x); free(s);
}
void any(void) { size_t n; for (n = 0; n <= N; n++) conv(n); vf_reach("any text"); }
/* digits only, long enough to reach and pass the top of 64 bits */
void digits(void)
{
	char       *s = malloc(N);
	size_t      i;
	struct r    r;
	const char *e;
	M_uint64    u = 7; M_int64 v = 7;
	int         rc;
	for (i = 0; i < N; i++) { uint8_t c = vf_u8(); vf_assume(dig((char)c) < BASE && !(c >= 'A' && c <= 'Z')); s[i] = (char)c; }
	r = spec(s, N, BASE);
	rc = M_str_to_uint64_ex(s, N, BASE, &u, &e);
	vf_assert(rc == (r.ov ? 1 : 0), "overflow is reported exactly");
	vf_assert(u == (r.ov ? UINT64_MAX : r.mag), "value, saturated");
	vf_assert(e == s + N, "every digit is consumed");
	rc = M_str_to_int64_ex(s, N, BASE, &v, &e);
	vf_assert(rc == (r.ov || r.mag > INT64_MAX ? 1 : 0), "signed overflow is reported exactly");
	vf_assert(v == (r.ov || r.mag > INT64_MAX ? INT64_MAX : (int64_t)r.mag), "signed value, saturated");
	free(s);
	vf_reach("digits");
}
/* the convenience forms */
void simple(void)
{
	size_t n;
	for (n = 0; n <= N; n++) {
		char    *s = vf_str(n, n);
		struct r r = spec(s, n, 10);
		if (r.rc == 2) vf_assert(M_str_to_int32(s) == 0 && M_str_to_uint32(s) == 0 && M_str_to_int64(s) == 0 && M_str_to_uint64(s) == 0, "no number is 0");
		else {
			vf_assert(M_str_to_int32(s) == (int32_t)(r.neg ? -(int64_t)r.mag : (int64_t)r.mag), "int32");
			vf_assert(M_str_to_int64(s) == (r.neg ? -(int64_t)r.mag : (int64_t)r.mag), "int64");
			if (!r.neg) vf_assert(M_str_to_uint32(s) == r.mag && M_str_to_uint64(s) == r.mag, "unsigned");
		}
		free(s);
	}
	vf_reach("simple");
}
void badbase(void)
{
	unsigned b = vf_u8(); M_uint64 u = 9; const char *e = NULL;
	vf_assume(b == 1 || b > 36);
	vf_assert(M_str_to_uint64_ex("12", 2, (unsigned char)b, &u, &e) == M_STR_INT_INVALID && u == 0, "no such base");
	vf_reach("badbase");
}
/* the top of the range: leading digits from a table, the last SYM symbolic */
#ifndef SYM
#define SYM 3
#endif
void edge(void)
{
	static const char *const T[] = {
#if BASE == 10
		"18446744073709551615", "18446744073709551999", "9223372036854775807", "9223372036854775999", "30000000000000000000", "99999999999999999999", "55340232221128654848", "2147483647", "4294967295", "2147483999", "100000000000000000000", "27670116110564327424"
#else
		"3w5e11264sgsf", "1y2p0ij32e8e7", "zzzzzzzzzzzzz", "7sas2258d3dz", "3w5e11264szzz", "10000000000000000"
#endif
	};
	size_t k, i;
	for (k = 0; k < sizeof(T) / sizeof(*T); k++) {
		size_t n = strlen(T[k]); char *s = malloc(n + 1); int neg;
		for (neg = 0; neg < 2; neg++) {
			M_uint64 u; M_int64 v; M_uint32 u4; M_int32 v4; const char *e; int rc, ov; struct r r;
			s[0] = neg ? '-' : '+';
			for (i = 0; i < n; i++) { s[i + 1] = T[k][i]; if (i + SYM >= n) { uint8_t c = vf_u8(); vf_assume(c >= '0' && c <= '9'); s[i + 1] = (char)c; } }
			r = spec(s, n + 1, BASE);
			rc = M_str_to_uint64_ex(s, n + 1, BASE, &u, &e);
			vf_assert(rc == r.ov && e == s + n + 1, "overflow is reported exactly");
			vf_assert(u == (r.ov ? UINT64_MAX : neg ? 0 - r.mag : r.mag), "value, saturated");
			rc = M_str_to_int64_ex(s, n + 1, BASE, &v, &e);
			ov = r.ov || r.mag > (uint64_t)INT64_MAX + (unsigned)neg;
			vf_assert(rc == ov, "signed overflow is reported exactly");
			vf_assert(v == (ov ? (neg ? INT64_MIN : INT64_MAX) : neg ? (int64_t)(0 - r.mag) : (int64_t)r.mag), "signed value, saturated");
			rc = M_str_to_int32_ex(s, n + 1, BASE, &v4, &e);
			ov = r.ov || r.mag > (uint64_t)INT32_MAX + (unsigned)neg;
			vf_assert(rc == ov && v4 == (ov ? (neg ? INT32_MIN : INT32_MAX) : (int32_t)(neg ? -(int64_t)r.mag : (int64_t)r.mag)), "signed 32 bit");
			if (!neg) { rc = M_str_to_uint32_ex(s, n + 1, BASE, &u4, &e); ov = r.ov || r.mag > UINT32_MAX; vf_assert(rc == ov && u4 == (ov ? UINT32_MAX : (uint32_t)r.mag), "unsigned 32 bit"); }
		}
		free(s);
	}
	vf_reach("edge");
}
