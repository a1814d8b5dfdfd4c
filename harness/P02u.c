/* P02: strings of any length */
#include "stubs/mem.h"
#include "vf.h"
static const char *g_s; static size_t g_n;
#define IN(p) (__CPROVER_same_object((p), g_s) && __CPROVER_POINTER_OFFSET(p) <= g_n)
#ifdef VF_DFCC
#  include "base/utf8/m_utf8.c"
#endif
/*@VF_LOOP base/utf8/m_utf8.c M_utf8_validate_int 1/1 if ENDP
__CPROVER_assigns(str, res, *endptr)
__CPROVER_loop_invariant((res == M_UTF8_ERROR_SUCCESS) ==> IN(str))
__CPROVER_loop_invariant(IN(*endptr))
@*/
/*@VF_LOOP base/utf8/m_utf8.c M_utf8_validate_int 1/1 if CNT
__CPROVER_assigns(str, res, *len)
__CPROVER_loop_invariant((res == M_UTF8_ERROR_SUCCESS) ==> (IN(str) && *len <= __CPROVER_POINTER_OFFSET(str)))
@*/
/*@VF_LOOP base/utf8/m_utf8.c M_utf8_cp_at 1/1
__CPROVER_assigns(str, res, i, next, *cp)
__CPROVER_loop_invariant(IN(next) && str == next && i <= __CPROVER_POINTER_OFFSET(next))
@*/
/*@VF_LOOP base/utf8/m_utf8.c M_utf8_next_chr 1/1
__CPROVER_assigns(str)
__CPROVER_loop_invariant(IN(str) && __CPROVER_POINTER_OFFSET(str) >= 1)
@*/
static char *text(size_t n) { char *s = (char *)vf_blob(n + 1); s[n] = 0; g_s = s; g_n = n; return s; }
void valid_u(void)
{
	size_t n = vf_range(1, VF_BIG(30)); char *s = text(n); const char *e = NULL;
	M_bool ok = M_utf8_is_valid(s, &e);
	vf_assert(e >= s && e <= s + n, "end inside the string");
	if (ok) vf_assert(*e == 0, "valid up to the terminator");
	vf_reach("valid_u");
}
void cnt_u(void)
{
	size_t n = vf_range(1, VF_BIG(30)), c; char *s = text(n);
	c = M_utf8_cnt(s);
	vf_assert(c <= n, "no more characters than bytes");
	vf_reach("cnt_u");
}
void at_u(void)
{
	size_t n = vf_range(1, VF_BIG(30)), k = vf_u64(); char *s = text(n); M_uint32 c = 0;
	int rc = M_utf8_cp_at(s, k, &c);
	if (k >= n) vf_assert(rc != M_UTF8_ERROR_SUCCESS, "no character past the end");
	vf_reach("at_u");
}
void next_u(void)
{
	size_t n = vf_range(1, VF_BIG(30)); char *s = text(n), *p;
	vf_assume(s[0] != 0);
	p = M_utf8_next_chr(s);
	vf_assert(p > s && p <= s + n, "inside the string");
	vf_assert((*p & 0xC0) != 0x80, "at the start of a character");
	vf_reach("next_u");
}
