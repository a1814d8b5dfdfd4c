/* Memory model for the CBMC builds: the allocator entry points are replaced by an
 * exact-size model.  Native builds use the real library throughout. */
#include "m_config.h"
#include <mstdlib/mstdlib.h>
#ifdef VF_CBMC
#include <stdlib.h>
#include <string.h>
/*@VF_TRUST M_malloc/M_malloc_zero/M_realloc/M_realloc_zero/M_free are modelled as exact-size malloc/calloc/realloc/free that never fail; the real allocator is the subject of property P14 @*/
/* libc memchr, which the verifier has no body for */
void *memchr(const void *m, int c, size_t n) { size_t i; for (i = 0; i < n; i++) if (((const unsigned char *)m)[i] == (unsigned char)c) return (char *)m + i; return NULL; }
#ifdef VF_CAP
/*@VF_TRUST units built with VF_CAP use an allocator model that hands out blocks of one fixed capacity and reallocates in place, so that symbolic sizes stay tractable (out-of-bounds accesses inside the capacity are not seen by these units, content errors are) @*/
void *M_malloc(size_t size) { if (size == 0) return NULL; __CPROVER_assert(size <= VF_CAP, "VF:bound: block fits the modelled capacity"); return malloc(VF_CAP); }
void *M_malloc_zero(size_t size) { if (size == 0) return NULL; __CPROVER_assert(size <= VF_CAP, "VF:bound: block fits the modelled capacity"); return calloc(1, VF_CAP); }
void M_free(void *ptr) { if (ptr != NULL) free(ptr); }
void *M_realloc(void *ptr, size_t size) { __CPROVER_assert(size <= VF_CAP, "VF:bound: block fits the modelled capacity"); return ptr == NULL ? malloc(VF_CAP) : ptr; }
void *M_realloc_zero(void *ptr, size_t size) { __CPROVER_assert(size <= VF_CAP, "VF:bound: block fits the modelled capacity"); return ptr == NULL ? calloc(1, VF_CAP) : ptr; }
#else
void *M_malloc(size_t size) { return size == 0 ? NULL : malloc(size); }
void *M_malloc_zero(size_t size) { return size == 0 ? NULL : calloc(1, size); }
void M_free(void *ptr) { if (ptr != NULL) free(ptr); }
static void *vf_realloc(void *ptr, size_t size, int zero)
{
	char *p; size_t old;
	if (size == 0) { M_free(ptr); return NULL; }
	p = zero ? calloc(1, size) : malloc(size);
	if (ptr != NULL) {
		old = __CPROVER_OBJECT_SIZE(ptr);
		memcpy(p, ptr, old < size ? old : size);
		free(ptr);
	}
	return p;
}
void *M_realloc(void *ptr, size_t size) { return vf_realloc(ptr, size, 0); }
void *M_realloc_zero(void *ptr, size_t size) { return vf_realloc(ptr, size, 1); }
#endif
#endif
