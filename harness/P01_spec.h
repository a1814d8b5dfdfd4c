#if CODEC == 64
#  define TAG M_BINCODEC_BASE64
#  define BITS 6
#  define GRP 4
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#elif CODEC == 32
#  define TAG M_BINCODEC_BASE32
#  define BITS 5
#  define GRP 8
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
#else
#  define TAG M_BINCODEC_HEX
#  define BITS 4
#  define GRP 2
static const char alphabet[] = "0123456789ABCDEF";
#endif

/* ---- specification: RFC 4648 */
static size_t nsym(size_t n) { return ((n * 8 + BITS - 1) / BITS + GRP - 1) / GRP * GRP; }
static int bitat(const uint8_t *in, size_t n, size_t b) { return b / 8 < n ? (in[b / 8] >> (7 - b % 8)) & 1 : 0; }
static char sym(const uint8_t *in, size_t n, size_t j)
{
	size_t k, v = 0;
	if (j * BITS >= n * 8) return '=';
	for (k = 0; k < BITS; k++) v = v * 2 + (size_t)bitat(in, n, j * BITS + k);
	return alphabet[v];
}
static int val(char c)
{
	int u = (unsigned char)c;
#if CODEC == 64
	if (u >= 'A' && u <= 'Z') return u - 'A';
	if (u >= 'a' && u <= 'z') return u - 'a' + 26;
	if (u >= '0' && u <= '9') return u - '0' + 52;
	if (u == '+') return 62;
	if (u == '/') return 63;
#elif CODEC == 32
	if (u >= 'A' && u <= 'Z') return u - 'A';
	if (u >= 'a' && u <= 'z') return u - 'a';
	if (u >= '2' && u <= '7') return u - '2' + 26;
#else
	if (u >= '0' && u <= '9') return u - '0';
	if (u >= 'A' && u <= 'F') return u - 'A' + 10;
	if (u >= 'a' && u <= 'f') return u - 'a' + 10;
#endif
	return -1;
}
static int space(char c) { return c == ' ' || (c >= 9 && c <= 13); }

