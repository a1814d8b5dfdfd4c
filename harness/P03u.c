/* P03: text of any length: nothing outside it is read and the end is inside it */
#include "stubs/mem.h"
#include "vf.h"
#ifndef BASE
#define BASE 10
#endif
static size_t g_n; static const char *g_s;
#define IN(p, l) (__CPROVER_same_object((p), g_s) && __CPROVER_POINTER_OFFSET(p) + (l) == g_n)
#ifdef VF_DFCC
#  include "base/data/m_str_num.c"
#endif
/*@VF_LOOP base/data/m_str_num.c eat_whitespace 1/1
__CPROVER_assigns(*s, *len)
__CPROVER_loop_invariant(*len <= g_n && IN(*s, *len))
__CPROVER_decreases(*len)
@*/
/*@VF_LOOP base/data/m_str_num.c M_str_to_uint64_int 1/1
__CPROVER_assigns(p, len, v, digit, overflow, ret)
__CPROVER_loop_invariant(len <= g_n && IN(p, len) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(s))
__CPROVER_decreases(len)
@*/
void range_u(void)
{
	size_t      n = vf_range(1, VF_BIG(40));
	char       *s = (char *)vf_blob(n);
	const char *e = NULL;
	M_int64     v = 0; M_uint64 u = 0;
	int         rc;
	g_n = n; g_s = s;
	rc = M_str_to_int64_ex(s, n, BASE, &v, &e);
	vf_assert(e >= s && e <= s + n, "end inside the text");
	vf_assert(rc == M_STR_INT_SUCCESS || rc == M_STR_INT_OVERFLOW || rc == M_STR_INT_INVALID, "result code");
	if (rc == M_STR_INT_OVERFLOW) vf_assert(v == INT64_MAX || v == INT64_MIN, "saturated");
	rc = M_str_to_uint64_ex(s, n, BASE, &u, &e);
	vf_assert(e >= s && e <= s + n, "end inside the text, unsigned");
	if (rc == M_STR_INT_OVERFLOW) vf_assert(u == UINT64_MAX, "saturated, unsigned");
	vf_reach("range_u");
}
