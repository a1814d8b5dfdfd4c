/* P06, any size: every operation from any state satisfying the representation invariant
 * (consumed + length <= size, size + 1 bytes allocated, terminated) keeps it and has its effect on
 * the sequence, at any index. */
#include "stubs/memghost.h"
#include "vf.h"
#include "base/data/m_buf.c"
static M_buf_t *st(void)
{
	M_buf_t *b = M_malloc(sizeof(*b)); size_t i;
	b->data_size = vf_range(0, VF_BIG(64)); b->data_consumed = vf_range(0, VF_BIG(64)); b->data_length = vf_range(0, VF_BIG(64));
	vf_assume(b->data_consumed + b->data_length <= b->data_size);
	b->data = b->data_size ? M_malloc(b->data_size + 1) : NULL;
#ifndef VF_CBMC
	for (i = 0; i < b->data_size; i++) b->data[i] = vf_u8();
#endif
	(void)i;
	if (b->data) b->data[b->data_consumed + b->data_length] = 0;
	return b;
}
static int g_noterm;
static void inv(M_buf_t *b, size_t len)
{
	vf_assert(b->data_length == len && M_buf_len(b) == len, "length");
	vf_assert(b->data_consumed + b->data_length <= b->data_size, "bookkeeping inside the allocation");
	vf_assert((b->data == NULL) == (b->data_size == 0), "allocated exactly when sized");
	if (b->data) {
#ifdef VF_CBMC
		vf_assert(__CPROVER_OBJECT_SIZE(b->data) >= b->data_size + 1, "allocation as large as recorded");
#endif
		if (!g_noterm) vf_assert(b->data[b->data_consumed + b->data_length] == 0, "terminated");
		vf_assert(M_buf_peek(b) == (char *)b->data + b->data_consumed, "peek");
	}
}
static uint8_t at(M_buf_t *b, size_t q) { return ((const uint8_t *)M_buf_peek(b))[q]; }
static size_t idx(size_t n) { size_t q = vf_range(0, VF_BIG(128)); vf_assume(q < n); return q; }
void add_bytes(void)
{
	M_buf_t *b = st(); size_t n = vf_range(1, VF_BIG(64)), L = b->data_length, q = idx(L + n); uint8_t *s = vf_blob(n), v;
	uint8_t *p = q < L ? b->data + b->data_consumed + q : s + (q - L);
	v = *p; TRACK(p);
	M_buf_add_bytes(b, s, n);
	inv(b, L + n);
	vf_assert(at(b, q) == v, "old content, then the new bytes");
	vf_reach("add_bytes");
}
void add_byte(void)
{
	M_buf_t *b = st(); size_t L = b->data_length; uint8_t c = vf_u8(), v = 0; size_t q = 0; int w = vf_bool();
	if (L) { q = idx(L); v = b->data[b->data_consumed + q]; TRACK(b->data + b->data_consumed + q); }
	if (w) M_buf_add_byte(b, c); else M_buf_add_char(b, (char)c);
	inv(b, L + 1);
	if (L) vf_assert(at(b, q) == v, "old content kept");
	vf_assert(at(b, L) == c, "the byte added");
	vf_reach("add_byte");
}
void add_fill(void)
{
	M_buf_t *b = st(); size_t L = b->data_length, n = vf_range(1, VF_BIG(64)), q = 0; uint8_t c = vf_u8(), v = 0;
	if (L) { q = idx(L); v = b->data[b->data_consumed + q]; TRACK(b->data + b->data_consumed + q); }
	g_j = idx(n);
	M_buf_add_fill(b, c, n);
	inv(b, L + n);
	if (L) vf_assert(at(b, q) == v, "old content kept");
	vf_assert(at(b, L + g_j) == c, "filled at any index");
	vf_reach("add_fill");
}
void trunc(void)
{
	M_buf_t *b = st(); size_t L = b->data_length, n = vf_u64(), q = 0, m = n < L ? n : L; uint8_t v = 0;
	if (m) { q = idx(m); v = b->data[b->data_consumed + q]; TRACK(b->data + b->data_consumed + q); }
	M_buf_truncate(b, n);
	inv(b, m);
	if (m) vf_assert(at(b, q) == v, "the kept prefix");
	vf_reach("trunc");
}
void drop(void)
{
	M_buf_t *b = st(); size_t L = b->data_length, n = vf_u64(), q = 0, m = n < L ? L - n : 0; uint8_t v = 0;
	if (b->data) { q = idx(m + 1); v = b->data[b->data_consumed + (L - m) + q]; TRACK(b->data + b->data_consumed + (L - m) + q); }
	M_buf_drop(b, n);
	g_noterm = 1;
	inv(b, m);
	if (b->data) vf_assert(at(b, q) == v, "what follows the dropped prefix, with its terminator");
	vf_reach("drop");
}
void merge(void)
{
	M_buf_t *b = st(), *s = st(); size_t L = b->data_length, n = s->data_length, q = 0; uint8_t v = 0, *p;
	if (L + n) { q = idx(L + n); p = q < L ? b->data + b->data_consumed + q : s->data + s->data_consumed + (q - L); v = *p; TRACK(p); }
	M_buf_merge(b, s);
	inv(b, L + n);
	if (L + n) vf_assert(at(b, q) == v, "old content, then that of the source");
	vf_reach("merge");
}
void dwrite(void)
{
	M_buf_t *b = st(); size_t L = b->data_length, n = vf_range(1, VF_BIG(64)), m = n, k, q = 0, j; uint8_t v = 0, c = vf_u8(), *p;
	if (L) { q = idx(L); v = b->data[b->data_consumed + q]; TRACK(b->data + b->data_consumed + q); }
	p = M_buf_direct_write_start(b, &m);
	vf_assert(p != NULL && m >= n, "room for what was asked");
#ifdef VF_CBMC
	vf_assert(__CPROVER_w_ok(p, m), "all of the offered room is writable");
#else
	{ size_t i; for (i = 0; i < m; i++) p[i] = 0x55; }
#endif
	j = idx(n); p[j] = c; k = vf_range(0, VF_BIG(64)); vf_assume(k <= n);
	M_buf_direct_write_end(b, k);
	inv(b, L + k);
	if (L) vf_assert(at(b, q) == v, "old content kept");
	if (j < k) vf_assert(at(b, L + j) == c, "what was written");
	vf_reach("dwrite");
}
void finish(void)
{
	M_buf_t *b = st(); size_t L = b->data_length, q = 0, n = 7; uint8_t v = 0, *d; int had = b->data != NULL;
	if (L) { q = idx(L); v = b->data[b->data_consumed + q]; TRACK(b->data + b->data_consumed + q); }
	d = M_buf_finish(b, &n);
	vf_assert(n == L, "finished length");
	if (had) vf_assert(d[n] == 0, "terminated");
	if (L) vf_assert(d[q] == v, "finished content");
	M_free(d);
	vf_reach("finish");
}
