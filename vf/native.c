/* native runtime of the harness vocabulary: inputs popped from a byte stream */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#ifndef VF_ENTRY
#  error VF_ENTRY
#endif
void VF_ENTRY(void);
static const uint8_t *vf_p; static size_t vf_n, vf_i;
static jmp_buf vf_jb;
uint8_t vf_u8(void){ return vf_i < vf_n ? vf_p[vf_i++] : 0; }
uint64_t vf_u64(void){
	/* small values first: one length byte chooses the width so a fuzzer reaches both */
	uint8_t k = vf_u8(); uint64_t v = 0; int i, w = k & 15;
	if (w > 8) w = 8;
	for (i = 0; i < w; i++) v |= (uint64_t)vf_u8() << (8*i);
	if ((k & 0x30) == 0x30) v = ~v;
	return v;
}
void vf_assume_(int c){ if (!c) longjmp(vf_jb, 1); }
void vf_assert_(int c, const char *m, const char *f, int l){
	if (!c) { fprintf(stderr, "VF-ASSERT-FAILED: %s (%s:%d)\n", m, f, l); fflush(stderr); abort(); }
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n){
	vf_p = d; vf_n = n; vf_i = 0;
	if (setjmp(vf_jb) == 0) VF_ENTRY();
#ifdef VF_REPLAY
	else { fprintf(stderr, "VF-ASSUME-FAILED\n"); exit(77); }
#endif
	return 0;
}
#ifdef VF_REPLAY
int main(int argc, char **argv){
	FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL; uint8_t *b = NULL; size_t n = 0, cap = 0;
	if (!f) { fprintf(stderr, "usage: replay FILE\n"); return 2; }
	for (;;) { if (n == cap) { cap = cap ? cap*2 : 4096; b = realloc(b, cap); }
		size_t r = fread(b+n, 1, cap-n, f); if (!r) break; n += r; }
	fclose(f);
	LLVMFuzzerTestOneInput(b, n);
	fprintf(stderr, "VF-REPLAY-PASSED\n");
	return 0;
}
#endif
