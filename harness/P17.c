/* P17: integer helpers */
#include "stubs/mem.h"
#include "vf.h"
#define REV(n, v) (((n) >> 8 * 0 & 255) << 0)
static uint64_t rev(uint64_t v, int bytes) { uint64_t r = 0; int i; for (i = 0; i < bytes; i++) r |= ((v >> (8 * i)) & 255) << (8 * (bytes - 1 - i)); return r; }
static uint64_t be(const void *p, int bytes) { const uint8_t *b = p; uint64_t r = 0; int i; for (i = 0; i < bytes; i++) r = (r << 8) | b[i]; return r; }
void endian(void)
{
	uint64_t v = vf_u64(); uint32_t v4 = (uint32_t)v, n4; uint16_t v2 = (uint16_t)v, n2; uint64_t n8;
	vf_assert(M_swap16(v2) == (uint16_t)rev(v2, 2), "swap16 reverses the bytes");
	vf_assert(M_swap32(v4) == (uint32_t)rev(v4, 4), "swap32 reverses the bytes");
	vf_assert(M_swap64(v) == rev(v, 8), "swap64 reverses the bytes");
	n2 = M_hton16(v2); n4 = M_hton32(v4); n8 = M_hton64(v);
	vf_assert(be(&n2, 2) == v2 && be(&n4, 4) == v4 && be(&n8, 8) == v, "network order is big endian");
	vf_assert(M_ntoh16(n2) == v2 && M_ntoh32(n4) == v4 && M_ntoh64(n8) == v, "ntoh inverts hton");
	n2 = M_htol16(v2); n4 = M_htol32(v4); n8 = M_htol64(v);
	vf_assert(be(&n2, 2) == rev(v2, 2) && be(&n4, 4) == rev(v4, 4) && be(&n8, 8) == rev(v, 8), "htol is little endian");
	vf_assert(M_ltoh16(n2) == v2 && M_ltoh32(n4) == v4 && M_ltoh64(n8) == v, "ltoh inverts htol");
	vf_reach("endian");
}
static int bits(uint64_t v) { int i, c = 0; for (i = 0; i < 64; i++) c += (int)((v >> i) & 1); return c; }
void pow2(void)
{
	uint64_t v = vf_u64(), u, d; uint32_t w = (uint32_t)v, x, y;
	vf_assert(!!M_uint64_is_power_of_two(v) == (bits(v) == 1), "is_power_of_two 64");
	vf_assert(!!M_size_t_is_power_of_two(v) == (bits(v) == 1), "is_power_of_two size");
	vf_assert(!!M_uint32_is_power_of_two(w) == (bits(w) == 1), "is_power_of_two 32");
	u = M_uint64_round_up_to_power_of_two(v); d = M_uint64_round_down_to_power_of_two(v);
	vf_assert(M_size_t_round_up_to_power_of_two(v) == u && M_size_t_round_down_to_power_of_two(v) == d, "size variants agree");
	if (v >= 1) vf_assert(bits(d) == 1 && d <= v && (d > v / 2), "largest power of two not above");
	if (v >= 1 && v <= (uint64_t)1 << 63) vf_assert(bits(u) == 1 && u >= v && u / 2 < v, "smallest power of two not below");
	x = M_uint32_round_up_to_power_of_two(w); y = M_uint32_round_down_to_power_of_two(w);
	if (w >= 1) vf_assert(bits(y) == 1 && y <= w && (y > w / 2), "largest power of two not above 32");
	if (w >= 1 && w <= (uint32_t)1 << 31) vf_assert(bits(x) == 1 && x >= w && x / 2 < w, "smallest power of two not below 32");
	vf_reach("pow2");
}
void popcount(void)
{
	uint64_t v = vf_u64();
	vf_assert(M_uint64_popcount(v) == bits(v), "popcount 64");
	vf_assert(M_uint8_popcount((uint8_t)v) == bits(v & 255), "popcount 8");
	vf_reach("popcount");
}
void log2_(void)
{
	uint64_t v = vf_u64(); int k;
	for (k = 0; k < 64; k++) {
		uint64_t lo = (uint64_t)1 << k, n = lo | (v & (lo - 1));
		vf_assert(M_uint64_log2(n) == k, "log2 64");
		if (k < 32) vf_assert(M_uint32_log2((uint32_t)n) == k, "log2 32");
	}
	vf_reach("log2");
}
void signext(void)
{
	uint64_t v = vf_u64(); int k;
	for (k = 1; k <= 64; k++) {
		uint64_t m = k == 64 ? ~(uint64_t)0 : (((uint64_t)1 << k) - 1), n = v & m;
		int64_t  w = ((n >> (k - 1)) & 1) ? (int64_t)(n | ~m) : (int64_t)n;
		vf_assert(M_sign_extend(n, (size_t)k) == w, "sign extension");
	}
	vf_reach("signext");
}
static const uint64_t P10[20] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull,
	100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull };
void digits(void)
{
	uint64_t v = vf_u64(); int k, w = 1;
	for (k = 1; k < 20; k++) if (v >= P10[k]) w = k + 1;
	vf_assert(M_uint64_count_digits(v) == w, "number of decimal digits");
	vf_reach("digits");
}
void exp_(void)
{
	int k;
	for (k = 0; k < 20; k++) vf_assert(M_uint64_exp(10, k) == P10[k], "powers of ten");
	for (k = 0; k < 64; k++) vf_assert(M_uint64_exp(2, k) == (uint64_t)1 << k, "powers of two");
	vf_reach("exp");
}
#ifndef D
#define D 1
#endif
void round_(void)
{
	uint64_t v = vf_u64(), q; int b = (int)vf_range(0, 40), k;
#if D == 0
	k = (int)vf_range(0, 40);
	vf_assert(M_uint64_prec_round(v, b, b + k) == v, "nothing to round");
#elif D >= 20
	k = (int)vf_range(20, 200);
	vf_assert(M_uint64_prec_round(v, b + k, b) == 0, "every digit rounded away");
#else
#ifdef VMAX
	vf_assume(v <= VMAX);
#endif
	q = M_uint64_prec_round(v, b + D, b);
	{
		__uint128_t p = P10[D], h = p / 2, x = (__uint128_t)q * p;
		vf_assert(x <= (__uint128_t)v + h && (__uint128_t)v + h < x + p, "rounded half up");
	}
#endif
	vf_reach("round");
}
#ifndef MUL
#define MUL 7
#endif
void multiple(void)
{
	uint64_t n = vf_u64(), r; uint32_t k; const uint64_t m = MUL;
	vf_assume(n <= UINT64_MAX / m * m); /* the multiple can be represented */
	r = M_uint64_round_up_to_nearest_multiple(n, m);
	vf_assert(r >= n && (n == 0 || r - n < m), "nearest");
	/* r is a multiple: checked by its quotient */
	vf_assert((r / m) * m == r, "multiple");
	vf_reach("multiple");
}
#ifndef RANGE
#define RANGE 10
#endif
/*@VF_TRUST the generator behind M_rand_range / M_rand_str is an arbitrary value source (that may retry twice) in the range units; its recursion is cut after 3 draws, each retry being the same call @*/
#ifdef VF_CBMC
uint64_t g_draws;
M_uint64 M_rand(M_rand_t *state) { uint64_t v = vf_u64(); (void)state; g_draws++; if (g_draws > 2) vf_assume(v == 0); return v; }
M_rand_t *M_rand_create(M_uint64 seed) { (void)seed; return (M_rand_t *)malloc(1); }
void M_rand_destroy(M_rand_t *state) { free(state); }
#endif
void rrange(void)
{
	uint64_t lo = vf_u64(), r; const uint64_t n = RANGE;
	M_rand_t *st = M_rand_create(3);
	vf_assume(lo <= UINT64_MAX - n);
	r = M_rand_range(st, lo, lo + n);
	vf_assert(r >= lo && r < lo + n, "in [min, max)");
#if RANGE == 10
	r = M_rand_range(st, lo + n, lo);
	vf_assert(r == 0, "empty range");
	vf_assert(M_rand_range(st, lo, lo) == lo, "single point");
#endif
	vf_reach("range");
}
void rstr(void)
{
	size_t n, i, k; M_rand_t *st = M_rand_create(3);
	for (n = 1; n <= 4; n++) {
		char *o = malloc(n + 1);
		vf_assert(M_rand_str(st, "abc", o, n), "generates");
		for (i = 0; i < n; i++) vf_assert(o[i] == 'a' || o[i] == 'b' || o[i] == 'c', "from the set");
		vf_assert(o[n] == 0, "terminated");
		free(o);
	}
	vf_reach("rstr");
}
