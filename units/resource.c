/* Resource managers: resource.c, with other users acting before each exchange */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
static bool vp_dw(volatile void *d, const volatile void *e, volatile void *c);
static void *vp_cas_ptr(void *volatile *d, void *e, void *c);
#undef FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW
static void others(void);
#define FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(d,e,c) (others(), vp_dw(&(d), &(e), &(c)))
#undef FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR
#define FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR(d,e,c) vp_cas_ptr((void*volatile*)&(d), (void*)(e), (void*)(c))
#include "/repo/resource.c"

/* @unit resource_bounded
 * @property P09
 * @kind enum
 * @entry h_resource
 * @contracts fiftyoneDegreesResourceManagerInit fiftyoneDegreesResourceManagerFree fiftyoneDegreesResourceHandleIncUse fiftyoneDegreesResourceHandleDecUse fiftyoneDegreesResourceReplace fiftyoneDegreesResourceHandleGetUse
 * @secs 60
 * @bound histories of 6 operations with up to 3 handles taken, a failing allocation at any replacement, other users doing up to 3 whole operations before one exchange
 */
#define NR 10
static ResourceManager r_m; static int r_n, r_active; static char r_res[NR]; static int r_freed[NR], r_users[NR]; static ResourceHandle *r_h[NR];
static ResourceHandle *r_held[8]; static int r_nh, r_burst, r_depth; static bool r_was[NR]; static ResourceHandle *r_busy;
static void r_free(void *p) { int i = (int)((char*)p - r_res); vp_assert(i >= 0 && i < r_n, "only a resource is freed"); vp_assert(r_freed[i]++ == 0, "a resource is freed once"); }
static void op_inc(void) {
	bool keep[NR]; memcpy(keep, r_was, sizeof keep); memset(r_was, 0, sizeof r_was); if (r_active >= 0) r_was[r_active] = true;
	ResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(&r_m);
	vp_assert(h != NULL, "a handle is taken");
	int i = (int)((const char*)h->resource - r_res);
	vp_assert(i >= 0 && i < r_n && r_was[i] && r_h[i] == h, "the handle is of the resource active at that moment");
	vp_assert(r_freed[i] == 0, "the resource is usable");
	r_users[i]++; r_held[r_nh++] = h;
	for (int k = 0; k < NR; k++) r_was[k] |= keep[k];
}
static void op_dec(int k) {
	ResourceHandle *h = r_held[k];
	int i = (int)((const char*)h->resource - r_res);
	vp_assert(r_freed[i] == 0, "the resource stays usable until it is given back");
	ResourceHandle *keep = r_busy; r_busy = h;
	int at = k;
	/* no other user may give back this use of the handle */
	r_held[at] = r_held[--r_nh];
	fiftyoneDegreesResourceHandleDecUse(h);
	r_users[i]--; r_busy = keep;
}
static void op_replace(bool fail) {
	int i = r_n++; ResourceHandle *h = (ResourceHandle*)&h;
	r_freed[i] = r_users[i] = 0;
	if (fail) vp_fault_at = vp_fault_calls + 1;
	r_h[i] = NULL;
	fiftyoneDegreesResourceReplace(&r_m, &r_res[i], &r_h[i]);
	vp_fault_at = 0;
	if (fail && vp_faults) { vp_faults = 0; vp_assert(r_h[i] == NULL, "no handle without memory"); r_freed[i] = 99; return; }
	vp_assert(r_h[i] != NULL && (r_freed[i] || r_h[i]->resource == &r_res[i]), "a handle for the new resource");
}
static void others(void) {
	if (r_burst == 0 || r_depth > 0 || !vp_bool()) return;
	int k = r_burst; r_burst = 0; r_depth++;
	while (k-- > 0) {
		int op = (int)vp_range(0, 5);
		if (op == 5) break;
		if (op == 0) op_inc(); else if (op == 4) op_replace(false); else { if (op > r_nh) vp_reject(); op_dec(op - 1); }
	}
	r_depth--;
}
static bool vp_dw(volatile void *d, const volatile void *e, volatile void *c) {
	if (memcmp((void*)d, (void*)c, 16) == 0) { memcpy((void*)d, (const void*)e, 16); return true; }
	memcpy((void*)c, (void*)d, 16); return false;
}
static void *vp_cas_ptr(void *volatile *d, void *e, void *c) {
	others();
	void *was = *d;
	if (was == c) {
		*d = e;
		r_active = -1;
		for (int i = 0; i < r_n; i++) if (r_h[i] == e && r_freed[i] == 0) { r_active = i; r_was[i] = true; }
		vp_assert(r_active >= 0, "a resource that can be used becomes active");
	}
	return was;
}
static void r_check(bool freed) {
	vp_assert(freed ? true : r_m.active != NULL && r_m.active->resource == &r_res[r_active], "the last replacement is active");
	for (int i = 0; i < r_n; i++) if (r_freed[i] != 99) {
		bool gone = (freed || i != r_active) && r_users[i] == 0;
		vp_assert(r_freed[i] == (gone ? 1 : 0), "a resource is freed when it is no longer active and not in use, and only then");
		if (!gone) vp_assert(fiftyoneDegreesResourceHandleGetUse(r_h[i]) == r_users[i], "the number of users is known");
	}
}
void h_resource(void) {
	vp_use_allocator();
	r_n = 1; r_active = 0; r_nh = 0; r_burst = r_depth = 0; r_busy = NULL; r_freed[0] = r_users[0] = 0; memset(r_was, 0, sizeof r_was);
	vp_assert(fiftyoneDegreesResourceHandleGetUse(NULL) == 0, "no handle has no users");
	if (vp_bool()) {
		vp_fault_at = 1; r_h[0] = (ResourceHandle*)&r_m; r_m.active = NULL;
		fiftyoneDegreesResourceManagerInit(&r_m, &r_res[0], &r_h[0], r_free);
		vp_assert(r_h[0] == NULL && vp_live == 0 && r_freed[0] == 0, "no handle without memory");
		fiftyoneDegreesResourceManagerFree(&r_m);
		return;
	}
	fiftyoneDegreesResourceManagerInit(&r_m, &r_res[0], &r_h[0], r_free);
	r_check(false);
	r_burst = vp_bool() ? 3 : 0;
	for (int k = 0; k < 5; k++) {
		int op = (int)vp_range(0, 5);
		if (op == 0) op_inc(); else if (op == 4) op_replace(false); else if (op == 5) op_replace(true); else { if (op > r_nh) vp_reject(); op_dec(op - 1); }
		r_check(false);
	}
	r_burst = 0;
	bool before = vp_bool();
	if (before) while (r_nh > 0) { op_dec(r_nh - 1); r_check(false); }
	if (vp_bool()) vp_fault_at = vp_fault_calls + 1;
	fiftyoneDegreesResourceManagerFree(&r_m);
	vp_fault_at = 0;
	r_check(true);
	while (r_nh > 0) { op_dec(0); r_check(true); }
	vp_assert(vp_live == 0, "every handle is freed");
}
