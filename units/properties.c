/* Required properties: properties.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include <ctype.h>
#define PN 4
static const char *R_all[PN + 1] = { "b", "aB", "A", "SetHeaderX", "bb" };
static const char *R_name[2][PN]; static char *R_item[2][PN]; static int R_n[2]; static int R_held[2]; static fiftyoneDegreesCollection R_col[2];
static void R_rel0(fiftyoneDegreesCollectionItem *i) { vp_assert(i->data.ptr != NULL && R_held[0] > 0, "a name is released once"); R_held[0]--; i->data.ptr = NULL; }
static void R_rel1(fiftyoneDegreesCollectionItem *i) { vp_assert(i->data.ptr != NULL && R_held[1] > 0, "a name is released once"); R_held[1]--; i->data.ptr = NULL; }
static fiftyoneDegreesString *R_get(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	int s = (int)((int(*)[2])state == &R_n ? 0 : 1);
	if (index >= (uint32_t)R_n[s]) return NULL;
	item->data.ptr = (byte*)R_item[s][index]; item->handle = NULL; item->collection = &R_col[s];
	R_held[s]++;
	return (fiftyoneDegreesString*)item->data.ptr;
}
/* property k needs the k mod 3 properties that follow it */
static uint32_t R_evid(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	int s = (int)((int(*)[2])state == &R_n ? 0 : 1);
	vp_assert(p->propertyIndex < (uint32_t)R_n[s], "evidence properties are asked for an available property");
	uint32_t n = p->propertyIndex % 3;
	if (e) for (uint32_t i = 0; i < n; i++) e->items[i] = p->propertyIndex + i + 1;
	return n;
}
static int ccmp(const char *a, size_t n, const char *b, size_t m) { for (size_t i = 0; i < n && i < m; i++) { int d = tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); if (d) return d; } return n < m ? -1 : n > m; }
static void source(int s) {
	R_col[0].release = R_rel0; R_col[1].release = R_rel1; R_held[s] = 0;
	R_n[s] = (int)vp_range(0, s ? 2 : 3); unsigned used = 0;
	for (int i = 0; i < R_n[s]; i++) {
		int k = (int)vp_range(0, PN); if (used & 1u << k) vp_reject(); used |= 1u << k;
		R_name[s][i] = R_all[k]; size_t l = strlen(R_all[k]);
		R_item[s][i] = vp_new(l + 3); *(int16_t*)R_item[s][i] = (int16_t)(l + 1); strcpy(R_item[s][i] + 2, R_all[k]);
	}
}
static void done(int s) { for (int i = 0; i < R_n[s]; i++) free(R_item[s][i]); }
/* the answers: exactly the wanted properties of the source, by name */
static void check(fiftyoneDegreesPropertiesAvailable *a, int s, unsigned want, bool faults) {
	uint32_t n = 0; for (int i = 0; i < R_n[s]; i++) n += want >> i & 1;
	vp_assert(a->count == n, "there are as many properties as were asked for and are available");
	vp_assert(a->count <= a->capacity, "properties fit the memory taken");
	unsigned seen = 0;
	for (uint32_t i = 0; i < a->count; i++) {
		uint32_t x = a->items[i].propertyIndex;
		vp_assert(x < (uint32_t)R_n[s] && (want >> x & 1) && !(seen >> x & 1), "a property that was asked for is there once"); seen |= 1u << x;
		vp_assert(a->items[i].name.data.ptr == (byte*)R_item[s][x], "a property has its name");
		if (i) { const char *p = &((fiftyoneDegreesString*)a->items[i - 1].name.data.ptr)->value, *q = R_name[s][x]; vp_assert(ccmp(p, strlen(p), q, strlen(q)) < 0, "properties are in the order of their names"); }
		fiftyoneDegreesEvidenceProperties *e = a->items[i].evidenceProperties;
		if (e) { vp_assert(e->count == x % 3, "a property has its evidence properties"); for (uint32_t k = 0; k < e->count; k++) vp_assert(e->items[k] == x + k + 1, "a property has its evidence properties"); }
		else vp_assert(faults, "a property has its evidence properties");
		vp_assert(!a->items[i].delayExecution, "execution is not delayed");
		vp_assert(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)i) == (int)x, "the property index of a required index");
		vp_assert(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, (int)i) == (fiftyoneDegreesString*)R_item[s][x], "the name of a required index");
		char q[16]; strcpy(q, R_name[s][x]); if (i & 1) q[0] = (char)toupper((unsigned char)q[0]); else q[0] = (char)tolower((unsigned char)q[0]);
		vp_assert(fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, q) == (int)i, "the required index of a name");
		vp_assert(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, q) == (int)x, "the property index of a name");
	}
	static const char *gone[] = { "", "zz", "ab", "a", "b", "bb", "SetHeader" };
	for (int g = 0; g < 7; g++) { bool in = false; for (int i = 0; i < R_n[s]; i++) if ((want >> i & 1) && ccmp(gone[g], strlen(gone[g]), R_name[s][i], strlen(R_name[s][i])) == 0) in = true;
		if (!in) vp_assert(fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, gone[g]) == -1 && fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, gone[g]) == -1, "no index is given for a name that is not there"); }
	vp_assert(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)n) == -1 && fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, -1) == -1 && fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, 0x7fffffff) == -1, "no index is given for one that is not there");
	bool set = false; for (int i = 0; i < R_n[s]; i++) if ((want >> i & 1) && strncmp(R_name[s][i], "SetHeader", 9) == 0) set = true;
	vp_assert(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == set, "whether a property sets headers");
	vp_assert(R_held[s] == (int)n, "only the names of the properties are held");
}
static fiftyoneDegreesPropertiesAvailable *make(fiftyoneDegreesPropertiesRequired *r, int s, unsigned want, bool none, bool faults) {
	int live = vp_live; fiftyoneDegreesPropertiesAvailable *a;
	if (faults) vp_fault_plan(4);
	a = fiftyoneDegreesPropertiesCreate(r, s ? (void*)&R_n[1] : (void*)&R_n, R_get, R_evid);
	bool failed = faults && vp_faults > 0;
	if (a == NULL) {
		vp_assert((none && want == 0) || failed, "properties are made");
		vp_assert(R_held[s] == 0 && vp_live == live, "nothing is held without properties");
	} else check(a, s, want, failed);
	return a;
}
static void freed(fiftyoneDegreesPropertiesAvailable *a, int s, int live) { fiftyoneDegreesPropertiesFree(a); vp_assert(R_held[s] == 0 && vp_live == live, "everything is released when the properties are freed"); }
static void properties(int kind, bool faults) {
	fiftyoneDegreesPropertiesRequired r = fiftyoneDegreesPropertiesDefault; unsigned want = 0;
	const char *arr[4]; char *text = NULL;
	vp_use_allocator();
	source(0); int live = vp_live;
	if (kind == 0) { want = (1u << R_n[0]) - 1; int how = (int)vp_range(0, 2); if (how == 1) r.string = ""; if (how == 2) { r.array = arr; r.count = 0; } freed(make(how ? &r : NULL, 0, want, false, faults), 0, live); }
	if (kind == 1) {
		static const char *q[] = { "B", "ab", "bb", "zz", "b ", "" }; r.array = arr; r.count = (int)vp_range(1, faults ? 2 : 3); r.string = "A";
		for (int i = 0; i < r.count; i++) { arr[i] = q[vp_range(0, faults ? 2 : 5)]; for (int k = 0; k < R_n[0]; k++) if (ccmp(arr[i], strlen(arr[i]), R_name[0][k], strlen(R_name[0][k])) == 0) want |= 1u << k; }
		freed(make(&r, 0, want, false, faults), 0, live);
	}
	if (kind == 2) {
		static const char c[] = "bBaA|, "; size_t l = (size_t)vp_range(1, faults ? 3 : 5); text = vp_new(l + 1);
		for (size_t i = 0; i < l; i++) text[i] = c[vp_range(0, faults ? 4 : 6)]; text[l] = 0; r.string = text;
		for (size_t i = 0; i <= l; ) { size_t e = i; while (text[e] && !strchr("|, ", text[e])) e++; for (int k = 0; k < R_n[0]; k++) if (ccmp(text + i, e - i, R_name[0][k], strlen(R_name[0][k])) == 0) want |= 1u << k; i = e + 1; }
		freed(make(&r, 0, want, true, faults), 0, live); free(text);
	}
	if (kind == 3) {
		source(1); int l2 = vp_live; fiftyoneDegreesPropertiesAvailable *b = make(NULL, 1, (1u << R_n[1]) - 1, false, false);
		for (int i = 0; i < R_n[1]; i++) for (int k = 0; k < R_n[0]; k++) if (ccmp(R_name[1][i], strlen(R_name[1][i]), R_name[0][k], strlen(R_name[0][k])) == 0) want |= 1u << k;
		r.existing = b; r.string = "A"; int l3 = vp_live; freed(make(&r, 0, want, false, faults), 0, l3);
		freed(b, 1, l2); done(1);
	}
	done(0);
}
/* @unit properties_all_bounded
 * @property P18
 * @kind enum
 * @entry h_properties_all
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree fiftyoneDegreesPropertiesGetPropertyIndexFromName fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex fiftyoneDegreesPropertiesGetNameFromRequiredIndex fiftyoneDegreesPropertiesIsSetHeaderAvailable
 * @secs 15
 * @bound up to three available names out of five, any available list of up to three names
 */
void h_properties_all(void) { properties(0, false); }
/* @unit properties_all_faults
 * @property P18
 * @kind enum
 * @entry h_properties_all_faults
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree
 * @secs 10
 * @bound up to three available names out of five, any available list of up to three names, every allocation failing
 */
void h_properties_all_faults(void) { properties(0, true); }
/* @unit properties_array_bounded
 * @property P18
 * @kind enum
 * @entry h_properties_array
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree fiftyoneDegreesPropertiesGetPropertyIndexFromName fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex fiftyoneDegreesPropertiesGetNameFromRequiredIndex fiftyoneDegreesPropertiesIsSetHeaderAvailable
 * @secs 15
 * @bound up to three available names out of five, requests of up to three names
 */
void h_properties_array(void) { properties(1, false); }
/* @unit properties_array_faults
 * @property P18
 * @kind enum
 * @entry h_properties_array_faults
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree
 * @secs 10
 * @bound up to three available names out of five, requests of up to three names, every allocation failing
 */
void h_properties_array_faults(void) { properties(1, true); }
/* @unit properties_string_bounded
 * @property P18
 * @kind enum
 * @entry h_properties_string
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree fiftyoneDegreesPropertiesGetPropertyIndexFromName fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex fiftyoneDegreesPropertiesGetNameFromRequiredIndex fiftyoneDegreesPropertiesIsSetHeaderAvailable
 * @secs 15
 * @bound up to three available names out of five, requests of up to five characters
 */
void h_properties_string(void) { properties(2, false); }
/* @unit properties_string_faults
 * @property P18
 * @kind enum
 * @entry h_properties_string_faults
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree
 * @secs 10
 * @bound up to three available names out of five, requests of up to five characters, every allocation failing
 */
void h_properties_string_faults(void) { properties(2, true); }
/* @unit properties_existing_bounded
 * @property P18
 * @kind enum
 * @entry h_properties_existing
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree fiftyoneDegreesPropertiesGetPropertyIndexFromName fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex fiftyoneDegreesPropertiesGetNameFromRequiredIndex fiftyoneDegreesPropertiesIsSetHeaderAvailable
 * @secs 15
 * @bound up to three available names out of five, existing lists of up to two names
 */
void h_properties_existing(void) { properties(3, false); }
/* @unit properties_existing_faults
 * @property P18
 * @kind enum
 * @entry h_properties_existing_faults
 * @contracts fiftyoneDegreesPropertiesCreate fiftyoneDegreesPropertiesFree
 * @secs 10
 * @bound up to three available names out of five, existing lists of up to two names, every allocation failing
 */
void h_properties_existing_faults(void) { properties(3, true); }
