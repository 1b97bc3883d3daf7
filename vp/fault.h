/* One failing call: of all the fallible calls of a run (allocations, file
 * operations, callbacks) the one numbered vp_fault_at fails (0: none), and if
 * vp_fault_sticky every one after it. Units choose the number with vp_range, so
 * that an enumeration covers a failure at every point. */
#ifndef VP_FAULT_H
#define VP_FAULT_H
extern int vp_fault_at, vp_fault_calls, vp_faults;
extern bool vp_fault_sticky;
static inline bool vp_fault(void) {
	vp_fault_calls++;
	if (vp_fault_at > 0 && (vp_fault_calls == vp_fault_at || (vp_fault_sticky && vp_fault_calls > vp_fault_at))) { vp_faults++; return true; }
	return false;
}
static inline void vp_fault_plan(int max) {
	vp_fault_calls = 0; vp_faults = 0; vp_fault_sticky = false;
	vp_fault_at = (int)vp_range(0, (uint64_t)max);
	if (vp_fault_at > 0) vp_fault_sticky = vp_bool();
}
#endif
