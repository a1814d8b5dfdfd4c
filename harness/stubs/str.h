/* strlen under CBMC: for strings made by vf_str (their length is known to the harness) the call is
 * replaced by its contract: the caller owes "no NUL before the known end", the result is the distance
 * to the end.  Any other string is walked.  Native builds use libc. */
#ifdef VF_CBMC
#ifndef VF_NSTR
#define VF_NSTR 4
#endif
static const char *vf_sp[VF_NSTR]; static size_t vf_sn[VF_NSTR]; static unsigned vf_sc;
size_t strlen(const char *s)
{
	size_t i, o; unsigned k;
	for (k = 0; k < VF_NSTR; k++) if (vf_sp[k] != NULL && __CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(vf_sp[k])) {
		o = (size_t)__CPROVER_POINTER_OFFSET(s);
		for (i = 0; i <= vf_sn[k]; i++) if (i >= o) __CPROVER_assert((vf_sp[k][i] == 0) == (i == vf_sn[k]), "VF:strlen contract: the string still ends where it did");
		return vf_sn[k] - o;
	}
	for (i = 0; s[i] != 0; i++) ;
	return i;
}
static inline char *vf_kstr(size_t n) { char *p = vf_str(n, n); vf_sp[vf_sc % VF_NSTR] = p; vf_sn[vf_sc % VF_NSTR] = n; vf_sc++; return p; }
#else
static inline char *vf_kstr(size_t n) { return vf_str(n, n); }
#endif
