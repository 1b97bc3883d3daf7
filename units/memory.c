/* Memory: memory.c's allocators and their tracking */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
static void *M_malloc(size_t n); static void *M_aligned(size_t a, size_t n); static void M_free(void *p);
static void M_lock(void *m); static void M_unlock(void *m);
#undef FIFTYONE_DEGREES_MUTEX_LOCK
#undef FIFTYONE_DEGREES_MUTEX_UNLOCK
#undef FIFTYONE_DEGREES_MUTEX_CREATE
#define FIFTYONE_DEGREES_MUTEX_LOCK(m) M_lock(m)
#define FIFTYONE_DEGREES_MUTEX_UNLOCK(m) M_unlock(m)
#define FIFTYONE_DEGREES_MUTEX_CREATE(m) ((void)0)
#define malloc M_malloc
#define aligned_alloc M_aligned
#define free M_free
#include "/repo/memory.c"
#undef malloc
#undef aligned_alloc
#undef free

/* @unit memory_tracking_bounded
 * @property P25
 * @kind enum
 * @entry h_memory
 * @contracts fiftyoneDegreesMemoryTrackingMalloc fiftyoneDegreesMemoryTrackingMallocAligned fiftyoneDegreesMemoryTrackingFree fiftyoneDegreesMemoryTrackingFreeAligned fiftyoneDegreesMemoryTrackingReset fiftyoneDegreesMemoryTrackingGetMax fiftyoneDegreesMemoryTrackingGetAllocated fiftyoneDegreesSetUpMemoryTracking fiftyoneDegreesUnsetMemoryTracking
 * @secs 60
 * @bound histories of 4 allocations, frees and resets, then freeing everything, sizes 0 to more than 4 GB, addresses in the same and in other shards, another thread acting before one lock is taken
 */
#define SLOTS 3
#define STRIDE 480
static char M_arena[STRIDE * SLOTS + 4096] __attribute__((aligned(4096)));
/* two addresses of one shard, and one of another */
static char *slot(int i) { return i < 2 ? M_arena + i * STRIDE : M_arena + 4032; }
static size_t S_req[SLOTS], S_counted[SLOTS]; static bool S_live[SLOTS], S_tracked[SLOTS], S_al[SLOTS]; static int S_pending = -1;
static size_t M_total, M_max; static bool M_user, M_fail; static void *M_held[4]; static int M_nheld, M_burst; static long M_records;
static bool M_tracking; static size_t M_lastasked;
static void op_alloc(void); static void op_free(void);
static size_t sizes[] = { 0, 5, 24, 0x100000001ull };
static bool is_user(size_t n) { return S_pending >= 0 && M_user && (n == S_req[S_pending]); }
static void *M_malloc(size_t n) {
	if (is_user(n)) { M_user = false; return M_fail ? NULL : slot(S_pending); }
	M_records++;
	return malloc(n);
}
static size_t M_size, M_align;
static void *M_aligned(size_t a, size_t n) {
	vp_assert(M_user && a == M_align, "memory is aligned as asked for");
	vp_assert(n % a == 0, "the size of an aligned allocation is a multiple of its alignment");
	vp_assert(n >= S_req[S_pending] && n < S_req[S_pending] + a, "an aligned allocation has the size asked for and no more than its alignment needs");
	M_user = false; M_size = n;
	return M_fail ? NULL : slot(S_pending);
}
static int M_freeing = -1;
static void M_free(void *p) {
	for (int i = 0; i < SLOTS; i++) if (p == slot(i)) { vp_assert(M_freeing == i, "only the memory given is freed"); M_freeing = -2; return; }
	if (p != NULL) M_records--;
	free(p);
}
static struct memory_allocation_tree_t M_snap; static bool M_snapped;
static bool M_conc;
static void snap(void) { M_snap = state; M_snapped = true; }
static bool lockheld(void *m) { for (int i = 0; i < M_nheld; i++) if (M_held[i] == m) return true; return false; }
static void M_lock(void *m) {
	vp_assert(!lockheld(m), "a lock is not taken twice");
	if (M_nheld == 0 && M_burst > 0 && vp_bool()) {
		M_burst--;
		int p = S_pending, f = M_freeing; bool u = M_user, fl = M_fail; size_t sz = M_size, al = M_align;
		if (vp_bool()) op_alloc(); else op_free();
		S_pending = p; M_freeing = f; M_user = u; M_fail = fl; M_size = sz; M_align = al;
	}
	vp_assert(M_nheld < 4, "harness");
	M_held[M_nheld++] = m;
	if (M_nheld == 1) snap();
}
static void M_unlock(void *m) {
	vp_assert(M_nheld > 0 && M_held[M_nheld - 1] == m, "the lock taken is given back");
	M_nheld--;
	if (M_snapped) {
		if (m == (void*)&state.lock) { for (int i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) vp_assert(memcmp(&state.roots[i], &M_snap.roots[i], sizeof state.roots[i]) == 0, "records change only under their lock"); }
		else if (!lockheld(&state.lock)) vp_assert(state.allocated == M_snap.allocated && state.max == M_snap.max, "the totals change only under their lock");
	}
}
static void add(size_t n) { M_total += n; if (M_total > M_max) M_max = M_total; }
static void op_alloc(void) {
	bool conc = M_conc; int i = 0;
	while (i < SLOTS && (S_live[i] || i == S_pending)) i++;
	if (i == SLOTS) vp_reject();
	S_req[i] = sizes[vp_range(0, 3)]; S_al[i] = vp_bool(); M_fail = S_req[i] == 5 && vp_bool();
	S_pending = i; M_user = true; M_size = S_req[i];
	void *p;
	if (S_al[i]) { M_align = vp_bool() ? 64 : 8; size_t a = M_align; M_size = 0; p = M_tracking ? fiftyoneDegreesMemoryTrackingMallocAligned((int)a, S_req[i]) : fiftyoneDegreesMemoryStandardMallocAligned((int)a, S_req[i]);
		M_size = (S_req[i] + a - 1) / a * a; }
	else p = M_tracking ? fiftyoneDegreesMemoryTrackingMalloc(S_req[i]) : fiftyoneDegreesMemoryStandardMalloc(S_req[i]);
	(void)conc;
	vp_assert(p == (M_fail ? NULL : slot(i)), "the memory allocated is returned");
	S_pending = -1; M_user = false;
	if (p != NULL) { S_live[i] = true; S_tracked[i] = M_tracking; S_counted[i] = M_size; if (M_tracking) add(M_size); }
}
static void op_free(void) {
	int i = (int)vp_range(0, SLOTS);
	if (i == SLOTS) { M_freeing = -1; if (M_tracking) fiftyoneDegreesMemoryTrackingFree(NULL); else fiftyoneDegreesMemoryStandardFree(NULL); return; }
	if (!S_live[i]) vp_reject();
	M_freeing = i;
	S_live[i] = false; 
	bool was = S_tracked[i]; S_tracked[i] = false;
	if (M_conc) S_live[i] = true;
	int keep = i; M_burst = M_burst > 0 ? -M_burst : M_burst; 
	if (M_burst < 0) M_burst = 0;
	if (M_tracking) { if (S_al[i]) fiftyoneDegreesMemoryTrackingFreeAligned(slot(i)); else fiftyoneDegreesMemoryTrackingFree(slot(i)); }
	else { if (S_al[i]) fiftyoneDegreesMemoryStandardFreeAligned(slot(i)); else fiftyoneDegreesMemoryStandardFree(slot(i)); }
	vp_assert(M_freeing == -2, "the memory is freed");
	S_live[keep] = false; M_freeing = -1;
	if (was && M_tracking) M_total -= S_counted[keep];
}
static void check_totals(void) {
	vp_assert(M_nheld == 0, "locks are given back");
	vp_assert(fiftyoneDegreesMemoryTrackingGetAllocated() == M_total, "the total is that of the live allocations");
	vp_assert(fiftyoneDegreesMemoryTrackingGetMax() == M_max, "the maximum is the largest total there was");
}
void h_memory(void) {
	memset(S_live, 0, sizeof S_live); memset(S_tracked, 0, sizeof S_tracked); M_total = M_max = 0; S_pending = M_freeing = -1; M_user = M_fail = false; M_nheld = 0; M_burst = 0; M_snapped = false; M_conc = false;
	fiftyoneDegreesSetUpMemoryTracking(); M_tracking = true; long rec = M_records; (void)rec;
	vp_assert(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryTrackingMalloc && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryTrackingMallocAligned && fiftyoneDegreesFree == fiftyoneDegreesMemoryTrackingFree && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryTrackingFreeAligned, "tracking is on");
	check_totals();
	int conc_at = (int)vp_range(0, 4);
	for (int s = 0; s < 4; s++) {
		M_burst = conc_at == s;
		switch (vp_range(1, 4)) {
		case 1: op_alloc(); break;
		case 2: op_free(); break;
		case 3: M_burst = 0; if (!M_tracking) vp_reject(); fiftyoneDegreesMemoryTrackingReset(); for (int i = 0; i < SLOTS; i++) S_tracked[i] = false; M_total = M_max = 0; break;
		default:
			M_burst = 0;
			if (M_tracking) {
				size_t left = fiftyoneDegreesUnsetMemoryTracking();
				vp_assert(left == M_total, "what is left is reported as leaked");
				vp_assert(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryStandardMalloc && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryStandardMallocAligned && fiftyoneDegreesFree == fiftyoneDegreesMemoryStandardFree && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryStandardFreeAligned, "tracking is off");
				M_tracking = false; M_total = M_max = 0; for (int i = 0; i < SLOTS; i++) S_tracked[i] = false;
			} else { fiftyoneDegreesSetUpMemoryTracking(); M_tracking = true; M_total = M_max = 0; }
		}
		check_totals();
	}
	M_burst = 0;
	for (int i = 0; i < SLOTS; i++) if (S_live[i] && M_tracking) { M_freeing = i; if (S_al[i]) fiftyoneDegreesMemoryTrackingFreeAligned(slot(i)); else fiftyoneDegreesMemoryTrackingFree(slot(i)); if (S_tracked[i]) M_total -= S_counted[i]; check_totals(); }
	if (M_tracking) { vp_assert(M_total == 0 && fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "nothing is left when everything has been freed"); vp_assert(fiftyoneDegreesUnsetMemoryTracking() == 0, "nothing is leaked when everything has been freed"); }
}
