/* Overrides: overrides.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include <ctype.h>
static const char *O_values[] = { "", "x", "yz", "longer text" };
static void is_value(fiftyoneDegreesOverrideValueArray *o, uint32_t i, const char *want) {
	fiftyoneDegreesCollectionItem item; memset(&item, 0x5a, sizeof item);
	fiftyoneDegreesString *s = fiftyoneDegreesOverrideValuesGetFirst(o, i, &item);
	vp_assert(fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(o, i) == (want != NULL), "a property is overridden exactly when a value was added");
	vp_assert((s != NULL) == (want != NULL), "a value is returned exactly when one was added");
	fiftyoneDegreesList list; EXCEPTION_CREATE; fiftyoneDegreesListInit(&list, 2); (void)exception;
	uint32_t n = fiftyoneDegreesOverrideValuesAdd(o, i, &list);
	vp_assert(n == (want != NULL) && (uint32_t)list.count == n, "the value is added to the results once");
	if (want) {
		vp_assert(s->size == (int16_t)(strlen(want) + 1) && strcmp(&s->value, want) == 0, "the value is the text that was added");
		vp_assert(item.data.ptr == (byte*)s, "the item is the value");
		vp_assert(list.items[0].data.ptr == (byte*)s, "the value in the results is the value");
		item.collection->release(&item);
		vp_assert(strcmp(&s->value, want) == 0, "releasing an item keeps the value");
	}
	fiftyoneDegreesListFree(&list);
}
static char *copy(const char *s) { char *c = vp_new(strlen(s) + 1); strcpy(c, s); return c; }
static void overrides(int ops, bool faults) {
	vp_use_allocator();
	int live0 = vp_live, cap = (int)vp_range(0, 2);
	if (faults) vp_fault_plan(ops + 1);
	fiftyoneDegreesOverrideValueArray *o = fiftyoneDegreesOverrideValuesCreate((uint32_t)cap);
	if (o == NULL) { vp_assert(vp_faults > 0 && vp_live == live0, "values are made"); return; }
	vp_assert(o->count == 0 && o->capacity == (uint32_t)cap, "values are made");
	const char *m[3] = { NULL, NULL, NULL }; int n = 0;
	for (int k = 0; k < ops; k++) {
		if (vp_range(0, 4) == 4) { fiftyoneDegreesOverrideValuesReset(o); m[0] = m[1] = m[2] = NULL; n = 0; }
		else {
			int i = (int)vp_range(0, 3) - 1; const char *v = O_values[vp_range(0, 3)]; char *c = copy(v); int f = vp_faults;
			bool ok = fiftyoneDegreesOverridesAdd(o, i, c);
			memset(c, 'q', strlen(c)); free(c);
			if (vp_faults > f) { vp_assert(!ok, "a value without memory is refused"); if (m[i]) { m[i] = NULL; n--; } }
			else if (i < 0 || (!m[i] && n == cap)) vp_assert(!ok, "a value beyond the capacity is refused");
			else { vp_assert(ok, "a value is added"); if (!m[i]) n++; m[i] = v; }
		}
		vp_assert(o->count == (uint32_t)n, "values are counted");
		if (!faults) for (uint32_t i = 0; i < 3; i++) is_value(o, i, m[i]);
	}
	vp_faults = 0; vp_fault_at = -1;
	for (uint32_t i = 0; i < 3; i++) is_value(o, i, m[i]);
	fiftyoneDegreesOverrideValuesFree(o);
	vp_assert(vp_live == live0, "all memory is freed with the values");
}
/* @unit overrides_bounded
 * @property P19
 * @kind enum
 * @entry h_overrides
 * @contracts fiftyoneDegreesOverrideValuesCreate fiftyoneDegreesOverridesAdd fiftyoneDegreesOverrideValuesGetFirst fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex fiftyoneDegreesOverrideValuesAdd fiftyoneDegreesOverrideValuesReset fiftyoneDegreesOverrideValuesFree
 * @secs 15
 * @bound every history of four additions or resets, three properties and none, capacities 0 to 2, texts of 0, 1, 2 and 11 characters
 */
void h_overrides(void) { overrides(4, false); }
/* @unit overrides_faults
 * @property P19
 * @kind enum
 * @entry h_overrides_faults
 * @contracts fiftyoneDegreesOverrideValuesCreate fiftyoneDegreesOverridesAdd
 * @secs 10
 * @bound every history of three additions or resets, every allocation failing
 */
void h_overrides_faults(void) { overrides(3, true); }
/* @unit overrides_long_bounded
 * @property P19
 * @kind enum
 * @entry h_overrides_long
 * @contracts fiftyoneDegreesOverridesAdd
 * @secs 5
 * @bound texts around the longest that a string can hold
 */
void h_overrides_long(void) {
	static const size_t L[] = { 32765, 32766, 32767, 32768, 65535, 65536, 65537 };
	vp_use_allocator();
	fiftyoneDegreesOverrideValueArray *o = fiftyoneDegreesOverrideValuesCreate(1);
	size_t l = L[vp_range(0, 6)]; char *c = vp_new(l + 1); memset(c, 'a', l); c[l] = 0;
	if (vp_bool()) fiftyoneDegreesOverridesAdd(o, 0, "x");
	bool was = o->count > 0, ok = fiftyoneDegreesOverridesAdd(o, 0, c);
	vp_assert(ok == (l <= 32766), "a text is added exactly when it fits a string");
	is_value(o, 0, ok ? c : was ? "x" : NULL);
	free(c); fiftyoneDegreesOverrideValuesFree(o);
}
static const char *O_props[] = { "a", "51D_a", "Ab", "AbJs" }; static char *O_item[4]; static unsigned O_filter; static int O_n;
static bool O_ok(void *s, uint32_t i) { vp_assert(s == &O_filter && i < (uint32_t)O_n, "the filter is asked about available properties"); return O_filter >> i & 1; }
static bool ci(const char *a, const char *b) { for (; *a && *b; a++, b++) if (tolower((unsigned char)*a) != tolower((unsigned char)*b)) return false; return *a == *b; }
static bool pre(const char *s) { return strlen(s) > 4 && s[0] == '5' && s[1] == '1' && (s[2] == 'd' || s[2] == 'D') && s[3] == '_'; }
/* @unit overrides_evidence_bounded
 * @property P19
 * @kind enum
 * @entry h_overrides_evidence
 * @contracts fiftyoneDegreesOverridePropertiesCreate fiftyoneDegreesOverridesExtractFromEvidence fiftyoneDegreesOverridePropertiesFree fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex
 * @secs 15
 * @bound up to three properties, up to three pieces of evidence, capacities 1 and 2
 */
void h_overrides_evidence(void) {
	static const char *fields[] = { "A", "51d_A", "ab", "51D_AB", "51D_", "b", "51D_51D_a", "51DxA" };
	static const fiftyoneDegreesEvidencePrefix pr[] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING };
	vp_use_allocator();
	int live = vp_live; O_n = (int)vp_range(0, 3); uint32_t cap = (uint32_t)vp_range(1, 2); bool prefix = vp_bool();
	fiftyoneDegreesPropertiesAvailable av; fiftyoneDegreesPropertyAvailable items[4]; memset(items, 0, sizeof items); av.items = items; av.count = av.capacity = (uint32_t)O_n;
	int name[4]; O_filter = (unsigned)vp_range(0, (1u << O_n) - 1);
	for (int i = 0; i < O_n; i++) { name[i] = (int)vp_range(0, 3); for (int k = 0; k < i; k++) if (name[k] == name[i]) vp_reject(); size_t l = strlen(O_props[name[i]]); O_item[i] = vp_new(l + 3); *(int16_t*)O_item[i] = (int16_t)(l + 1); strcpy(O_item[i] + 2, O_props[name[i]]); items[i].name.data.ptr = (byte*)O_item[i]; }
	for (int i = 0; i < O_n; i++) { int w = -1; for (int k = O_n - 1; k >= 0; k--) { const char *p = O_props[name[i]], *q = O_props[name[k]]; if (strlen(q) > strlen(p) && strncmp(p, q, strlen(p)) == 0) w = k; }
		vp_assert(fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(&av, (uint32_t)i) == w, "a property is overridden by the first whose name continues its own"); }
	fiftyoneDegreesOverridePropertyArray *p = fiftyoneDegreesOverridePropertiesCreate(&av, prefix, &O_filter, O_ok);
	vp_assert((p == NULL) == (O_filter == 0), "there are properties that can be overridden when the filter says so");
	if (p) { vp_assert(p->prefix == prefix, "the prefix is kept"); uint32_t n = 0; for (int i = 0; i < O_n; i++) if (O_filter >> i & 1) { vp_assert(n < p->count && p->items[n].requiredPropertyIndex == (uint32_t)i && p->items[n].available == &items[i], "a property the filter accepts can be overridden"); n++; } vp_assert(p->count == n && p->capacity == n, "no other property can be overridden"); }
	fiftyoneDegreesOverrideValueArray *o = fiftyoneDegreesOverrideValuesCreate(cap);
	fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate(3);
	const char *want[4] = { 0 }; uint32_t n = 0, hits = 0; int ne = (int)vp_range(0, 3); static const char *vals[] = { "x", "yz", "" };
	for (int k = 0; k < ne; k++) {
		const char *f = fields[vp_range(0, 7)]; int q = (int)(k == 0 ? vp_range(0, 2) : vp_range(0, 1)); const char *v = vals[k];
		fiftyoneDegreesEvidenceAddString(e, pr[q], f, v);
		if (q == 2) continue;
		const char *g = prefix && pre(f) ? f + 4 : f; int i = 0; while (i < O_n && !((O_filter >> i & 1) && ci(g, O_props[name[i]]))) i++;
		if (i == O_n) continue;
		if (!want[i]) { if (n == cap) continue; n++; }
		want[i] = v; hits++;
	}
	vp_assert(fiftyoneDegreesOverridesExtractFromEvidence(p, o, e) == hits, "the number of values found in the evidence");
	vp_assert(o->count == n, "values are counted");
	for (uint32_t i = 0; i < 4; i++) is_value(o, i, want[i]);
	fiftyoneDegreesEvidenceFree(e); fiftyoneDegreesOverrideValuesFree(o); fiftyoneDegreesOverridePropertiesFree(p);
	vp_assert(vp_live == live, "all memory is freed");
	for (int i = 0; i < O_n; i++) free(O_item[i]);
}
static uint32_t O_ids[8]; static int O_count; static void O_id(void *s, uint32_t id) { vp_assert(s == O_ids && O_count < 8, "an identifier is passed on"); O_ids[O_count++] = id; }
/* @unit overrides_profiles_bounded
 * @property P19
 * @kind enum
 * @entry h_overrides_profiles
 * @contracts fiftyoneDegreesOverrideProfileIds
 * @secs 10
 * @bound two pieces of evidence, texts of up to three parts
 */
void h_overrides_profiles(void) {
	static const char *fields[] = { "ProfileIds", "51d_profileids", "profileids", "51D_ProfileId", "x" }, *parts[] = { "", "0", "17", "x", "-", "|", "2147483648", "4294967295", "4294967296", "99999999999999999999999", "\xff" };
	static const fiftyoneDegreesEvidencePrefix pr[] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING };
	vp_use_allocator(); fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate(2);
	int n = (int)vp_range(1, 2); char *v[2]; uint32_t want[8]; int w = 0;
	for (int k = 0; k < n; k++) {
		int f = (int)vp_range(0, k ? 2 : 4), q = (int)(k ? vp_range(0, 1) : vp_range(0, 2)); v[k] = vp_new(80); v[k][0] = 0;
		for (int i = 0; i < (k ? 1 : 3); i++) strcat(v[k], parts[vp_range(0, 10)]);
		char *t = copy(v[k]); free(v[k]); v[k] = t; fiftyoneDegreesEvidenceAddString(e, pr[q], fields[f], v[k]);
		if (q < 2 && f < 3) for (char *c = v[k]; *c; ) { if (*c < '0' || *c > '9') { c++; continue; } unsigned long long x = 0; for (; *c >= '0' && *c <= '9'; c++) if (x <= 0xffffffffu) x = x * 10 + (unsigned)(*c - '0'); if (x <= 0xffffffffu) want[w++] = (uint32_t)x; }
	}
	O_count = 0; fiftyoneDegreesOverrideProfileIds(e, O_ids, O_id);
	vp_assert(O_count == w, "every identifier in the evidence is passed on"); for (int i = 0; i < w; i++) vp_assert(O_ids[i] == want[i], "an identifier is the number in the evidence");
	fiftyoneDegreesEvidenceFree(e); for (int k = 0; k < n; k++) free(v[k]);
}
