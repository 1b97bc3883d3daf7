/* Allocator stand-in installed through the library's own allocator hooks. */
#include "vp.h"
#include "fault.h"
#include "/repo/memory.h"
int vp_live; bool vp_may_fail; int vp_failed;
int vp_fault_at, vp_fault_calls, vp_faults; bool vp_fault_sticky;
#ifdef VP_NATIVE
/* the blocks handed out, so that a run that is abandoned can give them back */
#define VP_BLOCKS 4096
static void *vp_blk[VP_BLOCKS]; static int vp_nblk;
#endif
static void *vp_alloc(size_t n) {
	if (vp_may_fail && vp_bool()) { vp_failed++; return NULL; }
	if (!vp_may_fail && vp_fault()) { vp_failed++; return NULL; }
	void *p = malloc(n);
#ifdef VP_NATIVE
	if (p == NULL) { vp_failed++; return NULL; }
	if (n <= (1u << 20)) memset(p, 0xA5, n);
	if (vp_nblk < VP_BLOCKS) vp_blk[vp_nblk++] = p;
#else
	__CPROVER_assume(p != NULL);
#endif
	vp_live++;
	return p;
}
void *vp_malloc(size_t n) { return vp_alloc(n); }
void *vp_malloc_aligned(int alignment, size_t n) { (void)alignment; return vp_alloc(n); }
void vp_free(void *p) {
	if (p == NULL) return;
	vp_live--;
#ifdef VP_NATIVE
	for (int i = vp_nblk; i-- > 0; ) if (vp_blk[i] == p) { vp_blk[i] = vp_blk[--vp_nblk]; break; }
#endif
	free(p);
}
void vp_use_allocator(void) {
	fiftyoneDegreesMalloc = vp_malloc;
	fiftyoneDegreesMallocAligned = vp_malloc_aligned;
	fiftyoneDegreesFree = vp_free;
	fiftyoneDegreesFreeAligned = vp_free;
#ifdef VP_NATIVE
	while (vp_nblk > 0) free(vp_blk[--vp_nblk]);
#endif
	vp_live = 0; vp_failed = 0; vp_may_fail = false; vp_fault_at = vp_fault_calls = vp_faults = 0; vp_fault_sticky = false;
}
