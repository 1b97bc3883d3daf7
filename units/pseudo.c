/* Pseudo evidence: pseudoheader.c */
#include "vp.h"
#include "fault.h"
#include <stdio.h>
#include <stdarg.h>
#include <ctype.h>
#include "/repo/fiftyone.h"
static int p_snprintf(char *b, size_t n, const char *f, ...) {
	if (vp_fault()) return -1;
	va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r;
}
#undef Snprintf
#define Snprintf p_snprintf
#undef snprintf
#define snprintf p_snprintf
#include "/repo/pseudoheader.c"
#undef snprintf

#define SEPS "\x1F"
static const char *p_names[] = { "a" SEPS "b", "B" SEPS "c" SEPS "a", "a", "bc", SEPS "a" SEPS SEPS "c", "c" SEPS "b" };
static const char *p_fields[] = { "a", "B", "c", "a" SEPS "b", "ab" };
static const char *p_values[] = { "", "x", "yz", "pqr" };
static const fiftyoneDegreesEvidencePrefix p_pref[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE };
static const char *P_h[3]; static int P_n; static char *P_item[3]; static fiftyoneDegreesCollection P_col;
static void P_release(fiftyoneDegreesCollectionItem *i) { (void)i; }
static long P_get(void *s, uint32_t i, fiftyoneDegreesCollectionItem *it) { (void)s; if (i >= (uint32_t)P_n) return -1; it->data.ptr = (byte*)P_item[i]; it->collection = &P_col; return (long)i; }
static bool eqi(const char *a, size_t n, const char *b) { if (strlen(b) != n) return false; for (size_t i = 0; i < n; i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false; return true; }
static void pseudo(int maxev, bool faults) {
	EXCEPTION_CREATE;
	vp_use_allocator();
	P_col.release = P_release;
	P_n = (int)vp_range(1, faults ? 2 : 2);
	for (int i = 0; i < P_n; i++) { P_h[i] = p_names[vp_range(0, 5)]; size_t l = strlen(P_h[i]); P_item[i] = vp_new(l + 3); *(int16_t*)P_item[i] = (int16_t)(l + 1); strcpy(P_item[i] + 2, P_h[i]); }
	fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(false, NULL, P_get);
	int nev = (int)vp_range(0, (uint64_t)maxev);
	EvidenceKeyValuePairArray *ev = fiftyoneDegreesEvidenceCreate((uint32_t)maxev);
	for (int i = 0; i < nev; i++) { const char *f = p_fields[vp_range(0, 4)], *v = p_values[(i + vp_range(0, 1) * 2) % 4]; fiftyoneDegreesEvidenceAddString(ev, p_pref[i == 0 ? vp_range(0, 2) : vp_range(0, 1)], f, v); }
	size_t size = faults ? 16 : vp_range(0, 2) == 0 ? 16 : vp_range(2, 6);
	int cap = (int)vp_range(0, 2) == 2 ? 0 : 2; if (!faults && cap == 2 && vp_bool()) cap = 1;
	if (cap == 0 && size != 16) vp_reject();
	ev->pseudoEvidence = fiftyoneDegreesEvidenceCreate((uint32_t)cap);
	for (int i = 0; i < cap; i++) { char *b = vp_new(size); memset(b, 0, size); ev->pseudoEvidence->items[i].originalValue = b; }
	fiftyoneDegreesEvidenceKeyValuePair was[4]; memcpy(was, ev->items, sizeof *was * (size_t)nev);
	fiftyoneDegreesEvidencePrefix order[2]; order[0] = p_pref[vp_range(0, 1)]; order[1] = order[0] == p_pref[0] ? p_pref[1] : p_pref[0]; int no = (int)vp_range(1, 2);
	int live = vp_live;
	if (faults) vp_fault_plan(6);
	fiftyoneDegreesPseudoHeadersAddEvidence(ev, h, size, order, (size_t)no, exception);
	vp_assert(memcmp(was, ev->items, sizeof *was * (size_t)nev) == 0 && (int)ev->count == nev, "the original evidence is as it was");
	vp_assert(vp_live == live, "nothing is allocated");
	if (vp_faults) {
		vp_assert(!EXCEPTION_OKAY, "a value that cannot be made is reported");
		vp_assert(ev->pseudoEvidence->count == 0, "no pseudo evidence is left after a failure");
	} else {
		vp_assert(EXCEPTION_OKAY, "no error");
		int at = 0;
		for (uint32_t k = 0; k < h->count; k++) {
			const char *name = h->items[k].name; if (strchr(name, '\x1F') == NULL || at >= cap) continue;
			bool given = false;
			for (int e = 0; e < nev; e++) for (int o = 0; o < no; o++) if (was[e].prefix == order[o] && eqi(name, strlen(name), was[e].field)) given = true;
			if (given) continue;
			for (int o = 0; o < no; o++) {
				char full[64]; int n = 0; bool all = true, first = true;
				for (const char *s = name; *s && all; ) {
					if (*s == '\x1F') { s++; continue; }
					size_t l = strcspn(s, SEPS); const char *v = NULL;
					for (int e = 0; e < nev && !v; e++) if (was[e].prefix == order[o] && eqi(s, l, was[e].field)) v = was[e].originalValue;
					if (!v) { all = false; break; }
					if (!first) full[n++] = '\x1F';
					first = false; memcpy(full + n, v, strlen(v)); n += (int)strlen(v); s += l;
				}
				if (!all) continue;
				full[n] = 0; if (n > (int)size - 1) full[size - 1] = 0;
				vp_assert((int)ev->pseudoEvidence->count > at, "a pseudo header whose parts are all there has evidence");
				fiftyoneDegreesEvidenceKeyValuePair *p = &ev->pseudoEvidence->items[at++];
				vp_assert(p->field == name && p->prefix == order[o], "pseudo evidence has the name of its header and the kind of its parts");
				vp_assert(strcmp((const char*)p->originalValue, full) == 0, "pseudo evidence is its parts in order with separators, as far as they fit");
				break;
			}
		}
		vp_assert((int)ev->pseudoEvidence->count == at, "there is no other pseudo evidence");
	}
	fiftyoneDegreesPseudoHeadersRemoveEvidence(ev, size);
	vp_assert(ev->pseudoEvidence->count == 0 && vp_live == live, "pseudo evidence is removed");
	for (int i = 0; i < cap; i++) vp_assert(ev->pseudoEvidence->items[i].field == NULL && *(const char*)ev->pseudoEvidence->items[i].originalValue == 0, "removed pseudo evidence is empty");
	vp_assert(memcmp(was, ev->items, sizeof *was * (size_t)nev) == 0 && (int)ev->count == nev, "the original evidence is as it was");
	for (int i = 0; i < cap; i++) free((void*)ev->pseudoEvidence->items[i].originalValue);
	fiftyoneDegreesEvidenceFree(ev->pseudoEvidence); fiftyoneDegreesEvidenceFree(ev); fiftyoneDegreesHeadersFree(h);
	for (int i = 0; i < P_n; i++) free(P_item[i]);
}
/* @unit pseudo_bounded
 * @property P17
 * @kind enum
 * @entry h_pseudo
 * @contracts fiftyoneDegreesPseudoHeadersAddEvidence fiftyoneDegreesPseudoHeadersRemoveEvidence
 * @secs 15
 * @bound two header names of up to three parts, three pieces of evidence, buffers of 2 to 6 and of 16 bytes, capacities 0 to 2
 */
void h_pseudo(void) { pseudo(3, false); }
/* @unit pseudo_faults
 * @property P17
 * @kind enum
 * @entry h_pseudo_faults
 * @contracts fiftyoneDegreesPseudoHeadersAddEvidence
 * @secs 15
 * @bound two header names, three pieces of evidence, every failure to format
 */
void h_pseudo_faults(void) { pseudo(3, true); }
