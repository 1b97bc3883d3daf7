/* Reusable data buffers: data.c */
#include "vp.h"
#include "/repo/data.h"
#include "/repo/fiftyone.h"

/* @unit data_malloc
 * @property P01
 * @kind proof
 * @entry h_data_malloc
 * @src data.c memory.c tree.c threading.c
 * @enforce fiftyoneDegreesDataMalloc
 * @trusted allocator: malloc either fails or returns a fresh object of the requested size (vp/alloc.c)
 */
static fiftyoneDegreesData g_d; /* the buffer before the call */
static size_t g_need;
static bool post_data_malloc(fiftyoneDegreesData *d, void *ret) {
	if (ret != d->ptr) return false;
	if (ret == NULL) {
		/* only because the allocator failed; nothing is then owned */
		return vp_failed == 1 && d->allocated == 0 && vp_live == 0;
	}
	/* room for what was asked, as recorded, and exactly one live allocation */
	if (d->allocated < g_need || vp_live != 1 || vp_failed != 0) return false;
	if (g_d.allocated != 0 && g_d.allocated >= g_need) {
		/* big enough already: kept as it is */
		return ret == g_d.ptr && d->allocated == g_d.allocated;
	}
	return d->allocated == g_need;
}
void *fiftyoneDegreesDataMalloc(fiftyoneDegreesData *data, size_t bytesNeeded)
VP_CONTRACT(
__CPROVER_requires(__CPROVER_rw_ok(data, sizeof(*data)))
__CPROVER_requires((data->allocated == 0) == (data->ptr == NULL))
__CPROVER_requires(data->allocated == 0 || __CPROVER_is_freeable(data->ptr))
__CPROVER_requires(bytesNeeded <= UINT32_MAX)
__CPROVER_assigns(data->ptr, data->allocated, vp_live, vp_failed)
__CPROVER_frees(data->ptr)
__CPROVER_ensures(post_data_malloc(data, __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value == NULL || __CPROVER_rw_ok(data->ptr, g_need))
);
void h_data_malloc(void) {
	fiftyoneDegreesData d;
	vp_use_allocator();
	d.allocated = vp_u32();
#ifndef VP_PROOF
	vp_assume(d.allocated < 256);
#endif
	d.used = vp_u32();
	d.ptr = NULL;
	if (d.allocated != 0) { d.ptr = vp_new(d.allocated); vp_live = 1; }
	g_d = d;
	g_need = vp_range(0, UINT32_MAX);
#ifndef VP_PROOF
	vp_assume(g_need < 256);
#endif
	vp_may_fail = true;
	void *r = fiftyoneDegreesDataMalloc(&d, g_need);
	vp_assert(post_data_malloc(&d, r), "data buffer holds the bytes asked for");
	vp_assert(d.used == g_d.used, "used untouched");
#ifdef VP_NATIVE
	if (r != NULL) memset(r, 1, g_need);
#endif
	if (r == NULL) VP_COVER("allocation failed");
	else if (r == g_d.ptr) VP_COVER("kept");
	else VP_COVER("new");
}

/* @unit data_reset
 * @property P01
 * @kind proof
 * @entry h_data_reset
 * @src data.c memory.c tree.c threading.c
 * @enforce fiftyoneDegreesDataReset
 */
void fiftyoneDegreesDataReset(fiftyoneDegreesData *data)
VP_CONTRACT(
__CPROVER_requires(__CPROVER_rw_ok(data, sizeof(*data)))
__CPROVER_assigns(*data)
__CPROVER_ensures(data->ptr == NULL && data->allocated == 0 && data->used == 0)
);
void h_data_reset(void) {
	fiftyoneDegreesData d;
	d.ptr = (byte*)vp_u64(); d.allocated = vp_u32(); d.used = vp_u32();
	fiftyoneDegreesDataReset(&d);
	vp_assert(d.ptr == NULL && d.allocated == 0 && d.used == 0, "data buffer is empty after a reset");
	VP_COVER("end");
}
