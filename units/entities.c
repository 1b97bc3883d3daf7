/* Properties, values, components and profiles: property.c value.c component.c profile.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
/* collections that hold each item in memory of its own and count the items fetched */
typedef struct { fiftyoneDegreesCollection c; int n; uint32_t key[16]; void *item[16]; int held[16]; int lo, hi; } gcol;
enum { CS, CP, CV, CF, CO, CC, CN };
static gcol E_c[CN];
static void *g_get(fiftyoneDegreesCollection *c, uint32_t k, fiftyoneDegreesCollectionItem *it, fiftyoneDegreesException *exception) {
	gcol *g = (gcol*)c; int i = 0;
	if (vp_fault()) { EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR); return NULL; }
	while (i < g->n && g->key[i] != k) i++;
	if (i == g->n) { EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE); return NULL; }
	vp_assert(i >= g->lo && i <= g->hi, "only the items asked about are fetched");
	g->held[i]++; it->data.ptr = g->item[i]; it->handle = &g->held[i]; it->collection = c; return g->item[i];
}
static void g_rel(gcol *g, fiftyoneDegreesCollectionItem *it) { int *h = it->handle; vp_assert(h >= g->held && h < g->held + g->n && *h > 0, "an item is released once, to the collection it came from"); (*h)--; it->handle = NULL; it->data.ptr = NULL; }
#define REL(k) static void g_rel##k(fiftyoneDegreesCollectionItem *it) { g_rel(&E_c[k], it); }
REL(0) REL(1) REL(2) REL(3) REL(4) REL(5)
static void (*g_rels[])(fiftyoneDegreesCollectionItem*) = { g_rel0, g_rel1, g_rel2, g_rel3, g_rel4, g_rel5 };
static fiftyoneDegreesCollection *C(int k) { return &E_c[k].c; }
static void start(void) { vp_use_allocator(); memset(E_c, 0, sizeof E_c); for (int k = 0; k < CN; k++) { E_c[k].c.get = g_get; E_c[k].c.release = g_rels[k]; E_c[k].hi = 99; } }
static void *put(int k, uint32_t key, size_t size) { gcol *g = &E_c[k]; g->key[g->n] = key; void *p = vp_new(size); memset(p, 0, size); g->item[g->n++] = p; g->c.count = (uint32_t)g->n; return p; }
/* text has a terminator, coordinates and addresses (which start with 1 and 2) have none */
static void put_string(uint32_t key, const char *s, size_t l) { size_t z = l && (s[0] == 1 || s[0] == 2) ? 0 : 1; char *p = put(CS, key, l + z + 2); *(int16_t*)p = (int16_t)(l + z); memcpy(p + 2, s, l); }
static int held(void) { int n = 0; for (int k = 0; k < CN; k++) for (int i = 0; i < E_c[k].n; i++) n += E_c[k].held[i]; return n; }
static void finish(void) { vp_assert(held() == 0, "every item is released"); for (int k = 0; k < CN; k++) for (int i = 0; i < E_c[k].n; i++) free(E_c[k].item[i]); }
static fiftyoneDegreesProperty *prop(uint32_t key, uint32_t name, uint32_t first, uint32_t last) { fiftyoneDegreesProperty p = { .valueType = (byte)(7 + key), .nameOffset = name, .descriptionOffset = name + 1, .categoryOffset = name + 2, .urlOffset = name + 3, .firstValueIndex = first, .lastValueIndex = last }; void *m = put(CP, key, sizeof p); memcpy(m, &p, sizeof p); return m; }
static fiftyoneDegreesValue *val(uint32_t key, uint32_t name) { fiftyoneDegreesValue v = { .nameOffset = (int32_t)name, .descriptionOffset = (int32_t)name + 1, .urlOffset = (int32_t)name + 2 }; void *m = put(CV, key, sizeof v); memcpy(m, &v, sizeof v); return m; }
static fiftyoneDegreesProfile *prof(uint32_t key, uint32_t id, const uint32_t *v, uint32_t n) { fiftyoneDegreesProfile p = { .profileId = id, .valueCount = n }; char *m = put(CF, key, sizeof p + n * sizeof *v); memcpy(m, &p, sizeof p); if (n) memcpy(m + sizeof p, v, n * sizeof *v); return (fiftyoneDegreesProfile*)m; }
static void poff(uint32_t key, uint32_t id, uint32_t off) { fiftyoneDegreesProfileOffset o = { .profileId = id, .offset = off }; memcpy(put(CO, key, sizeof o), &o, sizeof o); }
static void release(int k, fiftyoneDegreesCollectionItem *it) { C(k)->release(it); }

static void property_lookup(bool faults) {
	EXCEPTION_CREATE; static const char *names[] = { "a", "A", "ab", "b" };
	start(); int n = (int)vp_range(0, 3), name[3];
	for (int i = 0; i < n; i++) { name[i] = (int)vp_range(0, 3); for (int k = 0; k < i; k++) if (name[k] == name[i]) vp_reject(); for (uint32_t s = 0; s < 4; s++) put_string((uint32_t)i * 10 + s, names[name[i]] , strlen(names[name[i]])); prop((uint32_t)i, (uint32_t)i * 10, 0, 0); }
	const char *q = (const char*[]){ "a", "A", "ab", "b", "", "abc" }[vp_range(0, 5)]; int want = -1; for (int i = 0; i < n; i++) if (strcmp(names[name[i]], q) == 0) want = i;
	fiftyoneDegreesCollectionItem it; memset(&it, 0x5a, sizeof it); fiftyoneDegreesDataReset(&it.data);
	if (faults) vp_fault_plan(8);
	fiftyoneDegreesProperty *p = fiftyoneDegreesPropertyGetByName(C(CP), C(CS), q, &it, exception);
	if (vp_faults) { vp_assert(p == NULL && !EXCEPTION_OKAY && held() == 0, "a failure is reported and holds nothing"); finish(); return; }
	vp_assert(EXCEPTION_OKAY, "no error");
	vp_assert((p == NULL) == (want < 0), "a property is found exactly when there is one with its name");
	if (p) { vp_assert((void*)p == E_c[CP].item[want] && it.data.ptr == (byte*)p && held() == 1, "the property found is the one with the name"); release(CP, &it); }
	vp_assert(held() == 0, "every item is released");
	for (int i = 0; i < n && !faults; i++) {
		fiftyoneDegreesProperty *x = E_c[CP].item[i];
		vp_assert(fiftyoneDegreesPropertyGetName(C(CS), x, &it, exception) == E_c[CS].item[i * 4], "a property has its name"); release(CS, &it);
		vp_assert(fiftyoneDegreesPropertyGetDescription(C(CS), x, &it, exception) == E_c[CS].item[i * 4 + 1], "a property has its description"); release(CS, &it);
		vp_assert(fiftyoneDegreesPropertyGetCategory(C(CS), x, &it, exception) == E_c[CS].item[i * 4 + 2], "a property has its category"); release(CS, &it);
		vp_assert(fiftyoneDegreesPropertyGetUrl(C(CS), x, &it, exception) == E_c[CS].item[i * 4 + 3], "a property has its address"); release(CS, &it);
		vp_assert(fiftyoneDegreesPropertyGetValueType(C(CP), (uint32_t)i, exception) == 7 + i && held() == 0, "a property has its type");
		vp_assert(fiftyoneDegreesPropertyGet(C(CP), (uint32_t)i, &it, exception) == x, "a property is found by its index"); release(CP, &it);
	}
	vp_assert(EXCEPTION_OKAY, "no error"); fiftyoneDegreesPropertyGetValueType(C(CP), (uint32_t)n, exception); vp_assert(!EXCEPTION_OKAY, "a property that is not there has no type");
	finish();
}
/* @unit property_bounded
 * @property P20
 * @kind enum
 * @entry h_property
 * @contracts fiftyoneDegreesPropertyGetByName fiftyoneDegreesPropertyGet fiftyoneDegreesPropertyGetName fiftyoneDegreesPropertyGetDescription fiftyoneDegreesPropertyGetCategory fiftyoneDegreesPropertyGetUrl fiftyoneDegreesPropertyGetValueType
 * @secs 5
 * @bound up to three properties
 */
void h_property(void) { property_lookup(false); }
/* @unit property_faults
 * @property P20
 * @kind enum
 * @entry h_property_faults
 * @contracts fiftyoneDegreesPropertyGetByName
 * @secs 5
 * @bound up to three properties, every failing read
 */
void h_property_faults(void) { property_lookup(true); }

typedef struct { char b[12]; size_t l; const char *q; } vname;
static int vcmp(const void *a, const void *b) { const vname *x = a, *y = b; size_t m = x->l < y->l ? x->l : y->l; int r = memcmp(x->b, y->b, m); return r ? r : (int)x->l - (int)y->l; }
static void value_lookup(bool faults) {
	EXCEPTION_CREATE; start(); vname v[6]; int all = 0, kind = (int)vp_range(0, 2); memset(v, 0, sizeof v);
	if (kind == 0) { static const char *t[] = { "a", "ab", "b", "ba" }; for (; all < 4; all++) { v[all].q = t[all]; v[all].l = strlen(t[all]) ; memcpy(v[all].b, t[all], v[all].l); } }
	if (kind == 1) { static const float f[][2] = { { 0, 1 }, { 1.5f, 2 }, { 1.5f, -3 }, { -7, 2 } }; static const char *t[] = { "0,1", "1.5,2", "1.5,-3", "-7,2" }; for (; all < 4; all++) { fiftyoneDegreesFloat a = FIFTYONE_DEGREES_NATIVE_TO_FLOAT(f[all][0]), b = FIFTYONE_DEGREES_NATIVE_TO_FLOAT(f[all][1]); v[all].q = t[all]; v[all].l = 9; v[all].b[0] = 1; memcpy(v[all].b + 1, &a, 4); memcpy(v[all].b + 5, &b, 4); } }
	if (kind == 2) { static const unsigned char f[][4] = { { 1, 2, 3, 4 }, { 1, 2, 3, 5 }, { 200, 0, 0, 1 }, { 9, 9, 9, 9 } }; static const char *t[] = { "1.2.3.4", "1.2.3.5", "200.0.0.1", "9.9.9.9" }; for (; all < 4; all++) { v[all].q = t[all]; v[all].l = 5; v[all].b[0] = 2; memcpy(v[all].b + 1, f[all], 4); } }
	qsort(v, (size_t)all, sizeof *v, vcmp);
	unsigned set = (unsigned)vp_range(0, (1u << all) - 1); int n = 0, id[6]; for (int i = 0; i < all; i++) if (set >> i & 1) { id[n] = i; put_string((uint32_t)i * 3 + 100, v[i].b, v[i].l); val((uint32_t)n, (uint32_t)i * 3 + 100); n++; }
	int f = (int)vp_range(0, 4) - 1, l = (int)vp_range(0, 4) - 1; if (f >= n || l >= n || (f < 0) != (l < 0) || f > l) vp_reject();
	fiftyoneDegreesProperty *p = prop(0, 0, (uint32_t)f, (uint32_t)l);
	int w = (int)vp_range(0, (uint64_t)all + 2), want = -1; const char *q = w < all ? v[w].q : w == all ? "" : w == all + 2 ? "102:304::" : (const char*[]){ "aa", "1.5", "1.2.3" }[kind];
	if (f >= 0) for (int i = f; i <= l; i++) if (w == id[i]) want = i;
	E_c[CV].lo = f; E_c[CV].hi = l; int live = vp_live;
	if (faults) vp_fault_plan(6);
	fiftyoneDegreesCollectionItem it; memset(&it, 0x5a, sizeof it); bool by = vp_bool();
	if (by) {
		fiftyoneDegreesValue *x = fiftyoneDegreesValueGetByName(C(CV), C(CS), p, q, &it, exception);
		if (vp_faults && x == NULL) ;
		else { vp_assert((void*)x == (want < 0 ? NULL : E_c[CV].item[want]), "the value with the name is found"); if (x) { vp_assert(it.data.ptr == (byte*)x && held() == 1, "the value is held"); release(CV, &it); } }
	} else {
		long x = fiftyoneDegreesValueGetIndexByName(C(CV), C(CS), p, q, exception);
		if (!vp_faults || x != -1) vp_assert(x == want, "the index of the value with the name is found");
	}
	if (!vp_faults) vp_assert(EXCEPTION_OKAY, "no error");
	vp_assert(vp_live == live, "nothing is left allocated");
	E_c[CV].lo = 0; E_c[CV].hi = 99; vp_faults = 0; vp_fault_at = -1;
	for (int i = 0; i < n && !faults; i++) { fiftyoneDegreesValue *x = fiftyoneDegreesValueGet(C(CV), (uint32_t)i, &it, exception); vp_assert((void*)x == E_c[CV].item[i], "a value is found by its index"); release(CV, &it); vp_assert((void*)fiftyoneDegreesValueGetName(C(CS), x, &it, exception) == E_c[CS].item[i], "a value has its name"); release(CS, &it); }
	finish();
}
/* @unit value_bounded
 * @property P20
 * @kind enum
 * @entry h_value
 * @contracts fiftyoneDegreesValueGetByName fiftyoneDegreesValueGetIndexByName fiftyoneDegreesValueGet fiftyoneDegreesValueGetName
 * @secs 5
 * @bound up to four values (text, coordinates or IP addresses), every range of them
 */
void h_value(void) { value_lookup(false); }
/* @unit value_faults
 * @property P20
 * @kind enum
 * @entry h_value_faults
 * @contracts fiftyoneDegreesValueGetByName fiftyoneDegreesValueGetIndexByName
 * @secs 5
 * @bound up to four values, every failing read or allocation
 */
void h_value_faults(void) { value_lookup(true); }
static void profile_lookup(bool faults) {
	EXCEPTION_CREATE; static const uint32_t ids[] = { 1, 5, 7, 0x80000000u, 0xffffffffu }; start();
	unsigned set = (unsigned)vp_range(0, 31); uint32_t id[5]; int n = 0; for (int i = 0; i < 5; i++) if (set >> i & 1) { id[n] = ids[i]; poff((uint32_t)n, ids[i], 1000 - (uint32_t)n * 50); prof(1000 - (uint32_t)n * 50, ids[i], NULL, 0); n++; }
	uint32_t q = (uint32_t[]){ 0, 1, 2, 5, 7, 0x7fffffffu, 0x80000000u, 0xffffffffu }[vp_range(0, 7)], off = 12345; int want = -1, how = (int)vp_range(0, 2); for (int i = 0; i < n; i++) if (id[i] == q) want = i;
	fiftyoneDegreesCollectionItem it; memset(&it, 0x5a, sizeof it);
	if (faults) vp_fault_plan(5);
	if (how == 0) {
		uint32_t *r = fiftyoneDegreesProfileGetOffsetForProfileId(C(CO), q, &off, exception);
		if (vp_faults) vp_assert(r == NULL, "a failure gives no offset"); else { vp_assert(r == (want < 0 ? NULL : &off), "an offset is found exactly when there is one for the profile"); vp_assert(off == (want < 0 ? 12345 : E_c[CF].key[want]), "the offset is the one for the profile"); }
	} else if (how == 1) {
		fiftyoneDegreesProfile *r = fiftyoneDegreesProfileGetByProfileId(C(CO), C(CF), q, &it, exception);
		if (vp_faults) vp_assert(r == NULL, "a failure gives no profile"); else { vp_assert((void*)r == (want < 0 ? NULL : E_c[CF].item[want]), "the profile with the identifier is found"); if (r) { vp_assert(it.data.ptr == (byte*)r && held() == 1, "the profile is held"); release(CF, &it); } }
	} else {
		int i = (int)vp_range(0, 5); if (i > n) vp_reject(); fiftyoneDegreesProfile *r = fiftyoneDegreesProfileGetByIndex(C(CO), C(CF), (uint32_t)i, &it, exception);
		if (vp_faults) vp_assert(r == NULL, "a failure gives no profile"); else { vp_assert((void*)r == (i == n ? NULL : E_c[CF].item[i]), "the profile at the index is found"); if (r) release(CF, &it); else vp_assert(!EXCEPTION_OKAY, "an index beyond the last is reported"); }
	}
	if (vp_faults || (how < 2 && q == 0)) vp_assert(!EXCEPTION_OKAY, "a failure is reported"); else if (how < 2) vp_assert(EXCEPTION_OKAY, "no error");
	finish();
}
/* @unit profile_bounded
 * @property P20
 * @kind enum
 * @entry h_profile
 * @contracts fiftyoneDegreesProfileGetOffsetForProfileId fiftyoneDegreesProfileGetByProfileId fiftyoneDegreesProfileGetByIndex
 * @secs 5
 * @bound up to five profiles
 */
void h_profile(void) { profile_lookup(false); }
/* @unit profile_faults
 * @property P20
 * @kind enum
 * @entry h_profile_faults
 * @contracts fiftyoneDegreesProfileGetOffsetForProfileId fiftyoneDegreesProfileGetByProfileId fiftyoneDegreesProfileGetByIndex
 * @secs 5
 * @bound up to five profiles, every failing read
 */
void h_profile_faults(void) { profile_lookup(true); }

static uint32_t E_seen[8]; static int E_n, E_stop;
static bool E_value(void *s, fiftyoneDegreesCollectionItem *it) { vp_assert(s == &E_stop && E_n < 8, "the callback has its state"); uint32_t k = 0; while (E_c[CV].item[k] != (void*)it->data.ptr) k++; E_seen[E_n++] = k; release(CV, it); return E_n != E_stop; }
static void iterate(bool faults) {
	EXCEPTION_CREATE; start(); for (uint32_t i = 0; i < 5; i++) val(i, 0);
	unsigned set = (unsigned)vp_range(0, 31); uint32_t v[5], n = 0; for (uint32_t i = 0; i < 5; i++) if (set >> i & 1) v[n++] = i;
	fiftyoneDegreesProfile *p = prof(0, 1, v, n); int f = (int)vp_range(0, 5) - 1, l = (int)vp_range(0, 5) - 1; if ((f < 0) != (l < 0) || f > l) vp_reject();
	fiftyoneDegreesProperty *pr = prop(0, 0, (uint32_t)f, (uint32_t)l); E_n = 0; E_stop = (int)vp_range(0, 3); E_c[CV].lo = f; E_c[CV].hi = l;
	if (faults) vp_fault_plan(5);
	uint32_t r = fiftyoneDegreesProfileIterateValuesForProperty(C(CV), p, pr, &E_stop, E_value, exception);
	vp_assert(r == (uint32_t)E_n, "the number of values visited is returned"); int k = 0;
	for (uint32_t i = 0; i < n && f >= 0 && !(E_stop && k == E_stop); i++) if (v[i] >= (uint32_t)f && v[i] <= (uint32_t)l) { if (vp_faults && k == E_n) break; vp_assert(k < E_n && E_seen[k] == v[i], "the values of the property are visited in order"); k++; }
	vp_assert(k == E_n, "no other value is visited");
	vp_assert(EXCEPTION_OKAY == !vp_faults, "a failure is reported");
	E_c[CV].lo = 0; finish();
}
/* @unit profile_values_bounded
 * @property P20
 * @kind enum
 * @entry h_profile_values
 * @contracts fiftyoneDegreesProfileIterateValuesForProperty
 * @secs 5
 * @bound up to five values, every range
 */
void h_profile_values(void) { iterate(false); }
/* @unit profile_values_faults
 * @property P20
 * @kind enum
 * @entry h_profile_values_faults
 * @contracts fiftyoneDegreesProfileIterateValuesForProperty
 * @secs 5
 * @bound up to five values, every range, every failing read
 */
void h_profile_values_faults(void) { iterate(true); }
static bool E_profile(void *s, fiftyoneDegreesCollectionItem *it) { vp_assert(s == &E_stop && E_n < 8, "the callback has its state"); uint32_t k = 0; while (E_c[CF].item[k] != (void*)it->data.ptr) k++; E_seen[E_n++] = k; return true; }
static void profiles(bool faults) {
	EXCEPTION_CREATE; start(); int np = (int)vp_range(0, 2), n = (int)vp_range(0, 3); unsigned sets[3];
	static const char *pn[] = { "p", "q" }, *vn[] = { "a", "b", "a" };
	for (int i = 0; i < 2; i++) put_string((uint32_t)i, pn[i], 1); for (int i = 0; i < 3; i++) { put_string(10 + (uint32_t)i, vn[i], 1); val((uint32_t)i, 10 + (uint32_t)i); }
	if (np > 0) prop(0, 0, 0, 1); if (np > 1) prop(1, 1, 2, 2);
	for (int i = 0; i < n; i++) { sets[i] = (unsigned)vp_range(0, 7); uint32_t v[3], c = 0; for (uint32_t k = 0; k < 3; k++) if (sets[i] >> k & 1) v[c++] = k; prof(50 + (uint32_t)i * 9, (uint32_t)i + 1, v, c); poff((uint32_t)i, (uint32_t)i + 1, 50 + (uint32_t)i * 9); }
	int p = (int)vp_range(0, 2), q = (int)vp_range(0, 2); const char *pq = (const char*[]){ "p", "q", "z" }[p], *vq = (const char*[]){ "a", "b", "c" }[q];
	int w = p == 0 && np > 0 && q < 2 ? q : p == 1 && np > 1 && q == 0 ? 2 : -1;
	E_n = 0; if (faults) vp_fault_plan(14);
	uint32_t r = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(C(CS), C(CP), C(CV), C(CF), C(CO), pq, vq, &E_stop, E_profile, exception);
	vp_assert(r == (uint32_t)E_n, "the number of profiles visited is returned"); int k = 0;
	for (int i = 0; i < n; i++) if (w >= 0 && (sets[i] >> w & 1)) { if (vp_faults && k == E_n) break; vp_assert(k < E_n && E_seen[k] == (uint32_t)i, "the profiles with the value are visited in order"); k++; }
	vp_assert(k == E_n, "no other profile is visited");
	vp_assert(EXCEPTION_OKAY == !vp_faults, "a failure is reported");
	finish();
}
/* @unit profile_search_bounded
 * @property P20
 * @kind enum
 * @entry h_profile_search
 * @contracts fiftyoneDegreesProfileIterateProfilesForPropertyAndValue
 * @secs 5
 * @bound up to three profiles, two properties and three values
 */
void h_profile_search(void) { profiles(false); }
/* @unit profile_search_faults
 * @property P20
 * @kind enum
 * @entry h_profile_search_faults
 * @contracts fiftyoneDegreesProfileIterateProfilesForPropertyAndValue
 * @secs 5
 * @bound up to three profiles, two properties and three values, every failing read
 */
void h_profile_search_faults(void) { profiles(true); }
static void component(bool faults) {
	EXCEPTION_CREATE; start(); int n = (int)vp_range(0, 3); uint32_t at = 0, size[3]; int kv[3];
	for (int i = 0; i < n; i++) {
		kv[i] = (int)vp_range(0, 3); fiftyoneDegreesComponent c = { .componentId = (byte)i, .nameOffset = i, .defaultProfileOffset = 20 + i, .keyValuesCount = (uint16_t)kv[i] };
		size[i] = (uint32_t)(sizeof c + ((size_t)kv[i] - 1) * sizeof(fiftyoneDegreesComponentKeyValuePair)); char *m = put(CC, at, size[i]); memcpy(m, &c, sizeof c - sizeof(fiftyoneDegreesComponentKeyValuePair)); at += size[i];
		for (int k = 0; k < kv[i]; k++) { fiftyoneDegreesComponentKeyValuePair x = { (uint32_t)k + 5, (uint32_t)k + 9 }; memcpy(m + sizeof c + ((size_t)k - 1) * sizeof x, &x, sizeof x); }
		put_string((uint32_t)i, "n", 1); prof(20 + (uint32_t)i, 70 + (uint32_t)i, NULL, 0);
	}
	int live = vp_live;
	if (faults) vp_fault_plan(6);
	fiftyoneDegreesList list; fiftyoneDegreesComponentInitList(C(CC), &list, (uint32_t)n, exception);
	if (vp_faults == 0) {
		vp_assert(EXCEPTION_OKAY && list.count == n, "every component is in the list");
		for (int i = 0; i < n; i++) vp_assert((void*)list.items[i].data.ptr == E_c[CC].item[i], "the components are in the list in order");
		for (int i = 0; i < n; i++) {
			fiftyoneDegreesComponent *c = (fiftyoneDegreesComponent*)list.items[i].data.ptr; fiftyoneDegreesCollectionItem it;
			uint32_t id = fiftyoneDegreesComponentGetDefaultProfileId(C(CF), c, exception); vp_assert(id == (vp_faults ? 0 : 70 + (uint32_t)i), "a component has its default profile");
			if (vp_faults) { vp_assert(!EXCEPTION_OKAY, "a failure is reported"); break; }
			void *s = fiftyoneDegreesComponentGetName(C(CS), c, &it, exception); if (vp_faults) { vp_assert(!s && !EXCEPTION_OKAY, "a failure is reported"); break; }
			vp_assert(s == E_c[CS].item[i], "a component has its name"); release(CS, &it);
			for (int k = 0; k <= kv[i] + 1; k++) {
				EXCEPTION_CLEAR; const fiftyoneDegreesComponentKeyValuePair *x = fiftyoneDegreesComponentGetKeyValuePair(c, (uint16_t)k, exception);
				vp_assert((x != NULL) == (k < kv[i]) && EXCEPTION_OKAY == (k < kv[i]), "a pair is found exactly when there is one"); if (x) vp_assert(x->key == (uint32_t)k + 5 && x->value == (uint32_t)k + 9, "the pair at the index is found");
			}
			EXCEPTION_CLEAR;
		}
	} else vp_assert(!EXCEPTION_OKAY || list.items == NULL, "a failure is reported");
	if (list.items) fiftyoneDegreesListFree(&list);
	vp_assert(vp_live == live, "nothing is left allocated"); finish();
}
/* @unit component_bounded
 * @property P20
 * @kind enum
 * @entry h_component
 * @contracts fiftyoneDegreesComponentInitList fiftyoneDegreesComponentGetDefaultProfileId fiftyoneDegreesComponentGetName fiftyoneDegreesComponentGetKeyValuePair
 * @secs 5
 * @bound up to three components of up to three pairs
 */
void h_component(void) { component(false); }
/* @unit component_faults
 * @property P20
 * @kind enum
 * @entry h_component_faults
 * @contracts fiftyoneDegreesComponentInitList fiftyoneDegreesComponentGetDefaultProfileId fiftyoneDegreesComponentGetName
 * @secs 5
 * @bound up to three components of up to three pairs, every failing read
 */
void h_component_faults(void) { component(true); }
