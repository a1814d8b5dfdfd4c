/* P07, any size: cursor operations from any parser state satisfying the invariant
 * (base <= data, data + len inside the allocation, marks at or before data). */
#include "vf.h"
#include "base/data/m_parser.c"
#define VF_REALN sizeof(M_parser_t)
#include "stubs/memghost.h"
static size_t off, len, mu, mi; static uint8_t *base; static int dyn;
static M_parser_t *st(int kind)
{
	M_parser_t *p = M_malloc_zero(sizeof(*p)); size_t size = vf_range(1, VF_BIG(48)), i;
	off = vf_range(0, VF_BIG(48)); len = vf_range(0, VF_BIG(48)); vf_assume(off + len <= size);
	p->mark_user = p->mark_int = -1; p->consumed = off; dyn = kind;
	if (!kind) vf_assume(off + len == size);
	base = M_malloc(size); (void)i;
#ifndef VF_CBMC
	for (i = 0; i < size; i++) base[i] = vf_u8();
#endif
	if (kind) { p->data_dyn = base; p->data_dyn_size = size; } else p->data_const = base;
	p->data = base + off; p->data_len = len;
	mu = vf_range(0, VF_BIG(48)); mi = vf_range(0, VF_BIG(48));
	if (mu <= off) p->mark_user = (ssize_t)mu; else mu = (size_t)-1;
	if (mi <= off) p->mark_int = (ssize_t)mi; else mi = (size_t)-1;
	return p;
}
static size_t blen(M_parser_t *p) {
#ifdef VF_CBMC
	return dyn ? __CPROVER_OBJECT_SIZE(p->data_dyn) : __CPROVER_OBJECT_SIZE(p->data_const);
#else
	return dyn ? p->data_dyn_size : off + len;
#endif
}
static void inv(M_parser_t *p, size_t l)
{
	const uint8_t *b = dyn ? p->data_dyn : p->data_const; size_t o;
	vf_assert(M_parser_len(p) == l, "remaining length");
	vf_assert(p->data >= b, "cursor not before the data");
	o = (size_t)(p->data - b);
	vf_assert(o + l <= blen(p) && (!dyn || p->data_dyn_size <= blen(p)), "remaining data inside the allocation");
	vf_assert(p->mark_user >= -1 && p->mark_user <= (ssize_t)o && p->mark_int >= -1 && p->mark_int <= (ssize_t)o, "marks at or before the cursor");
}
static uint8_t at(M_parser_t *p, size_t q) { return M_parser_peek(p)[q]; }
static size_t idx(size_t n) { size_t q = vf_range(0, VF_BIG(96)); vf_assume(q < n); return q; }
static uint8_t wat(size_t q) { TRACK(base + off + q); return base[off + q]; }
/* appended data follows what remains; marks keep their distance and their data */
void append(void)
{
	M_parser_t *p = st(1); size_t n = vf_range(1, VF_BIG(48)), q, ml; uint8_t *s = vf_blob(n), v; const uint8_t *m;
	q = idx(len + n);
	if (q < len) v = wat(q); else { v = s[q - len]; TRACK(s + (q - len)); }
	vf_assert(M_parser_append(p, s, n), "append");
	inv(p, len + n);
	vf_assert(at(p, q) == v, "what remained, then the new data");
	if (mu != (size_t)-1) { m = M_parser_peek_mark(p, &ml); vf_assert(ml == off - mu && m == M_parser_peek(p) - ml && M_parser_mark_len(p) == ml, "the mark keeps its distance"); }
	vf_assert(M_parser_current_offset(p) == off, "offset counts what was consumed");
	vf_reach("append");
}
/* marked data survives an append */
void append_mark(void)
{
	M_parser_t *p = st(1); size_t n = vf_range(1, VF_BIG(48)), q, ml; uint8_t *s = vf_blob(n), v;
	vf_assume(mu != (size_t)-1 && mu < off);
	q = idx(off - mu); v = base[mu + q]; TRACK(base + mu + q);
	M_parser_append(p, s, n);
	vf_assert(M_parser_peek_mark(p, &ml)[q] == v && ml == off - mu, "marked data kept");
	vf_reach("append_mark");
}
void first(void)
{
	M_parser_t *p; size_t n = vf_range(1, VF_BIG(48)), q = idx(n); uint8_t *s = vf_blob(n), v = s[q];
	g_realset = 1; p = M_parser_create(0); g_realset = 0;
	TRACK(s + q); dyn = 1;
	vf_assert(M_parser_len(p) == 0, "empty");
	M_parser_mark(p);
	vf_assert(M_parser_append(p, s, n), "append");
	inv(p, n); vf_assert(at(p, q) == v && M_parser_mark_len(p) == 0, "the data");
	vf_reach("first");
}
void dwrite(void)
{
	M_parser_t *p = st(1); size_t n = vf_range(1, VF_BIG(48)), m = n, k, q = 0, j; uint8_t v = 0, c = vf_u8(), *d;
	if (len) { q = idx(len); v = wat(q); }
	d = M_parser_direct_write_start(p, &m);
	vf_assert(d != NULL && m >= n, "room for what was asked");
#ifdef VF_CBMC
	vf_assert(__CPROVER_w_ok(d, m), "all of the offered room is writable");
#else
	memset(d, 0x55, m);
#endif
	j = idx(n); d[j] = c; k = vf_range(0, VF_BIG(48)); vf_assume(k <= n);
	M_parser_direct_write_end(p, k);
	inv(p, len + k);
	if (len) vf_assert(at(p, q) == v, "what remained");
	if (j < k) vf_assert(at(p, len + j) == c, "what was written");
	vf_reach("dwrite");
}
void consume(void)
{
	int kind = vf_bool(); M_parser_t *p = st(kind); size_t n = vf_u64(), q = 0; uint8_t v = 0; M_bool ok; size_t l = n <= len ? len - n : len;
	if (l) { q = idx(l); v = wat(len - l + q); }
	ok = M_parser_consume(p, n);
	vf_assert(ok == (n <= len), "exactly when that much remains");
	inv(p, l);
	if (l) vf_assert(at(p, q) == v, "the rest");
	vf_assert(M_parser_current_offset(p) == off + len - l, "offset");
	if (mu != (size_t)-1) vf_assert(M_parser_mark_len(p) == off + (len - l) - mu, "distance from the mark");
	vf_reach("consume");
}
/* mark, consume, rewind: back to where it was */
void rewind_(void)
{
	int kind = vf_bool(); M_parser_t *p = st(kind); size_t n, q; uint8_t v;
	vf_assume(len > 0); n = idx(len) + 1; q = idx(len); v = wat(q);
	M_parser_mark(p); M_parser_consume(p, n);
	vf_assert(M_parser_mark_len(p) == n, "marked length");
	vf_assert(M_parser_mark_rewind(p) == n, "rewound length");
	inv(p, len); vf_assert(at(p, q) == v && M_parser_current_offset(p) == off, "back where it was");
	M_parser_mark_clear(p); vf_assert(M_parser_mark_len(p) == 0, "cleared");
	vf_reach("rewind");
}
void trunc(void)
{
	int kind = vf_bool(); M_parser_t *p = st(kind); size_t n = vf_u64(), q = 0, l = n <= len ? n : len; uint8_t v = 0;
	if (l) { q = idx(l); v = wat(q); }
	vf_assert(M_parser_truncate(p, n) == (n <= len), "exactly when there is that much");
	inv(p, l); if (l) vf_assert(at(p, q) == v, "the prefix");
	vf_reach("trunc");
}
void reset(void)
{
	M_parser_t *p = st(0); size_t q; uint8_t v;
	vf_assume(off + len > 0); q = idx(off + len); v = base[q]; TRACK(base + q);
	vf_assert(M_parser_reset(p) == off, "how far");
	inv(p, off + len); vf_assert(at(p, q) == v, "everything again");
	vf_reach("reset");
}
void read_bytes(void)
{
	int kind = vf_bool(), how = (int)vf_range(0, 4); M_parser_t *p = st(kind); size_t n = vf_range(0, VF_BIG(48)), bl, q = 0, l, r, want = 0; uint8_t v = 0, *b;
	bl = vf_range(1, VF_BIG(48)); b = vf_blob(bl);
	r = n;
	if (how == 0) { vf_assume(bl >= n); want = n > 0 && n <= len ? n : 0; }         /* exact; the caller's buffer holds n */
	if (how == 1) { want = n > bl ? 0 : n <= len ? n : len; }                        /* at most */
	if (how == 2) { want = n > 0 && n <= len && bl > n ? n : 0; }                    /* string */
	if (how == 3) { want = bl > n ? (n <= len ? n : len) : 0; }                      /* string, at most */
	if (how == 4) { vf_assume(bl >= n); want = n > 0 && n <= len ? n : 0; }         /* peek */
	if (want) { q = idx(want); v = wat(q); }
	switch (how) {
		case 0: r = M_parser_read_bytes(p, n, b) ? n : 0; break;
		case 1: r = M_parser_read_bytes_max(p, n, b, bl); break;
		case 2: r = M_parser_read_str(p, n, (char *)b, bl) ? n : 0; break;
		case 3: r = M_parser_read_str_max(p, n, (char *)b, bl); break;
		case 4: r = M_parser_peek_bytes(p, n, b) ? n : 0; break;
	}
	vf_assert(r == want, "how much was read");
	if (want) vf_assert(b[q] == v, "what was read");
	if (want && (how == 2 || how == 3)) vf_assert(b[want] == 0, "terminated");
	inv(p, how == 4 ? len : len - want);
	vf_reach("read_bytes");
}
void read_mark(void)
{
	int kind = vf_bool(); M_parser_t *p = st(kind); size_t bl = vf_range(1, VF_BIG(48)), q = 0, r, want; uint8_t v = 0, *b = vf_blob(bl);
	vf_assume(mu != (size_t)-1);
	want = off - mu > 0 && off - mu <= bl ? off - mu : 0;
	if (want) { q = idx(want); v = base[mu + q]; TRACK(base + mu + q); }
	r = M_parser_read_bytes_mark(p, b, bl);
	vf_assert(r == want, "the whole marked part or nothing");
	if (want) vf_assert(b[q] == v && M_parser_mark_len(p) == 0, "the marked data, and the mark is gone");
	inv(p, len);
	vf_reach("read_mark");
}
/* what a new parser or string made from the data holds, and what is left */
void read_new(void)
{
	int kind = vf_bool(), how = (int)vf_range(0, 3), k2; M_parser_t *p = st(kind), *o = NULL; size_t n = vf_range(1, VF_BIG(48)), q = 0, want, l = 0; uint8_t v = 0; char *t = NULL;
	if (how >= 2) { M_parser_mark_clear(p); mu = (size_t)-1; vf_assume(n <= len); M_parser_mark(p); TRACK(base + off); } /* marked part of n */
	want = n <= len ? n : 0;
	if (want) { q = idx(want); v = wat(q); }
	if (how >= 2) M_parser_consume(p, n);
	switch (how) {
		case 0: o = M_parser_read_parser(p, n); break;
		case 1: t = M_parser_read_strdup(p, n); break;
		case 2: o = M_parser_read_parser_mark(p); break;
		case 3: t = M_parser_read_strdup_mark(p); break;
	}
	vf_assert((how & 1 ? t == NULL : o == NULL) == !want, "made when there is that much");
	if (want && o) vf_assert(M_parser_len(o) == want && M_parser_peek(o)[q] == v, "the data");
	if (want && t) vf_assert((uint8_t)t[q] == v && t[want] == 0, "the data, terminated");
	k2 = dyn; (void)k2; (void)l;
	inv(p, len - want);
	vf_reach("read_new");
}
