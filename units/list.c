/* Lists: list.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include "/repo/list.c"

/* @unit list_bounded
 * @property P24
 * @kind enum
 * @entry h_list
 * @contracts fiftyoneDegreesListInit fiftyoneDegreesListAdd fiftyoneDegreesListRelease fiftyoneDegreesListFree fiftyoneDegreesListReset fiftyoneDegreesListGetAsString
 * @secs 60
 * @bound capacity up to 3, histories of 7 operations on one list, two collections, one failing allocation
 */
#define LMAX 3
#define LITEMS 16
static fiftyoneDegreesCollection L_c[2]; static char L_data[LITEMS]; static int L_home[LITEMS], L_released[LITEMS];
static void L_release(int c, fiftyoneDegreesCollectionItem *item) {
	char *p = (char*)item->data.ptr;
	vp_assert(p >= L_data && p < L_data + LITEMS, "only items added are released");
	vp_assert(L_home[p - L_data] == c && item->collection == &L_c[c], "an item is released to its own collection");
	vp_assert(L_released[p - L_data] == 0, "an item is released once");
	L_released[p - L_data]++;
	/* what the collections do when an item is released */
	memset(&item->data, 0, sizeof item->data); item->handle = NULL;
}
static void L_release0(fiftyoneDegreesCollectionItem *i) { L_release(0, i); }
static void L_release1(fiftyoneDegreesCollectionItem *i) { L_release(1, i); }
static fiftyoneDegreesList L_list; static int L_in[LMAX], L_n, L_cap, L_next;
static void L_check(void) {
	vp_assert((int)L_list.count == L_n, "the list holds the items added");
	for (int i = 0; i < L_n; i++) {
		vp_assert(L_list.items[i].data.ptr == (byte*)&L_data[L_in[i]] && L_list.items[i].collection == &L_c[L_home[L_in[i]]], "the items are held in order");
		vp_assert((char*)fiftyoneDegreesListGetAsString(&L_list, i) == &L_data[L_in[i]], "an item's data is returned by its index");
		vp_assert(L_list.items[i].handle == (void*)&L_home[L_in[i]] && L_list.items[i].data.used == (uint32_t)L_in[i] && L_list.items[i].data.allocated == (uint32_t)L_in[i] + 1, "an item is held whole");
	}
	for (int k = 0; k < L_next; k++) { int held = 0; for (int i = 0; i < L_n; i++) held += L_in[i] == k; vp_assert(L_released[k] == !held, "what left the list was released once and nothing else was"); }
	if (L_cap >= 0) vp_assert((int)L_list.capacity == L_cap && vp_live == 1, "a list that is set up owns its memory"); else vp_assert(L_list.capacity == 0 && L_list.items == NULL && vp_live == 0, "a list that is not set up owns nothing");
}
void h_list(void) {
	vp_use_allocator();
	memset(L_released, 0, sizeof L_released); L_n = L_next = 0; L_cap = -1;
	memset(L_c, 0, sizeof L_c); L_c[0].release = L_release0; L_c[1].release = L_release1;
	vp_fault_plan(2);
	memset(&L_list, 0x5A, sizeof L_list);
	if (vp_bool()) fiftyoneDegreesListReset(&L_list);
	else {
		int cap = (int)vp_range(1, LMAX);
		fiftyoneDegreesList *l = fiftyoneDegreesListInit(&L_list, (uint32_t)cap);
		vp_assert(l == (vp_faults ? NULL : &L_list), "setting up says whether there was memory");
		if (l != NULL) L_cap = cap;
	}
	L_check();
	for (int s = 0; s < 6; s++) {
		switch (vp_range(0, 3)) {
		case 0: {
			if (L_cap >= 0) vp_reject();
			int f = vp_faults, cap = (int)vp_range(1, LMAX);
			fiftyoneDegreesList *l = fiftyoneDegreesListInit(&L_list, (uint32_t)cap);
			vp_assert(l == (vp_faults > f ? NULL : &L_list), "setting up says whether there was memory");
			if (l != NULL) L_cap = cap;
			break; }
		case 1: {
			if (L_cap < 0 || L_n >= L_cap) vp_reject();
			fiftyoneDegreesCollectionItem it;
			int c = (int)vp_range(0, 1); L_home[L_next] = c;
			it.data.ptr = (byte*)&L_data[L_next]; it.data.used = (uint32_t)L_next; it.data.allocated = (uint32_t)L_next + 1; it.collection = &L_c[c]; it.handle = (void*)&L_home[L_next];
			fiftyoneDegreesListAdd(&L_list, &it);
			L_in[L_n++] = L_next++;
			break; }
		case 2: fiftyoneDegreesListRelease(&L_list); L_n = 0; break;
		default: fiftyoneDegreesListFree(&L_list); L_n = 0; L_cap = -1; break;
		}
		L_check();
	}
	fiftyoneDegreesListFree(&L_list); L_n = 0; L_cap = -1;
	L_check();
}
