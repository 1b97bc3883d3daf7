/* Evidence: evidence.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#define EV fiftyoneDegreesEvidenceKeyValuePairArray
static const int e_bits[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_IP_ADDRESSES, FIFTYONE_DEGREES_EVIDENCE_SERVER, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_IGNORE };
#define EMAX 3
static struct { EV *a; int n, cap; int prefix[EMAX]; char *field[EMAX], *value[EMAX]; } E_m[2];
static char E_names[2][8][4];
static int E_at, E_stop, E_mask, E_state; static struct { int m, i; } E_want[2 * EMAX]; static int E_nwant;
static bool E_cb(void *state, fiftyoneDegreesEvidenceKeyValuePair *p) {
	vp_assert(state == &E_state, "the callback gets its state");
	vp_assert(E_at < E_nwant, "only entries with one of the prefixes are visited, until told to stop");
	int m = E_want[E_at].m, i = E_want[E_at].i;
	vp_assert(p == &E_m[m].a->items[i], "entries are visited in order");
	vp_assert((int)p->prefix == E_m[m].prefix[i] && p->field == E_m[m].field[i] && p->originalValue == E_m[m].value[i], "an entry is as it was added");
	vp_assert(p->parsedValue == p->originalValue, "a visited entry has its value");
	return ++E_at != E_stop;
}
static void e_add(int m) {
	EV *a = E_m[m].a; int n = E_m[m].n, b = e_bits[vp_range(0, 5)]; char *f = E_names[m][2 * n], *v = E_names[m][2 * n + 1];
	if (n == 1) v = E_names[0][0];
	struct { EV head; fiftyoneDegreesEvidenceKeyValuePair items[EMAX]; } was; memcpy(&was, a, sizeof(EV) + sizeof(fiftyoneDegreesEvidenceKeyValuePair) * (size_t)E_m[m].cap);
	fiftyoneDegreesEvidenceKeyValuePair *p = fiftyoneDegreesEvidenceAddString(a, (fiftyoneDegreesEvidencePrefix)b, f, v);
	if (n >= E_m[m].cap) vp_assert(p == NULL && memcmp(&was, a, sizeof(EV) + sizeof(fiftyoneDegreesEvidenceKeyValuePair) * (size_t)E_m[m].cap) == 0, "adding beyond the capacity is refused and changes nothing");
	else { vp_assert(p == &a->items[n], "the entry added is returned"); E_m[m].prefix[n] = b; E_m[m].field[n] = f; E_m[m].value[n] = v; E_m[m].n++; }
	vp_assert((int)a->count == E_m[m].n && (int)a->capacity == E_m[m].cap, "the count is the number of entries");
	for (int i = 0; i < E_m[m].n; i++) vp_assert((int)a->items[i].prefix == E_m[m].prefix[i] && a->items[i].field == E_m[m].field[i] && a->items[i].originalValue == E_m[m].value[i], "entries are kept in order as added");
}
static void e_iterate(int mask, int stop) {
	E_mask = mask; E_stop = stop; E_at = 0; E_nwant = 0;
	for (int m = 0; m < 2; m++) if (E_m[m].a && (m == 0 || E_m[0].a->pseudoEvidence == E_m[1].a)) for (int i = 0; i < E_m[m].n; i++) if ((E_m[m].prefix[i] & mask) != 0 && !(stop > 0 && E_nwant >= stop)) { E_want[E_nwant].m = m; E_want[E_nwant++].i = i; }
	uint32_t c = fiftyoneDegreesEvidenceIterate(E_m[0].a, mask, &E_state, E_cb);
	vp_assert(E_at == E_nwant, "every entry with one of the prefixes is visited");
	vp_assert((int)c == E_nwant, "the number of entries visited is returned");
}
/* @unit evidence_store_bounded
 * @property P15
 * @kind enum
 * @entry h_evidence
 * @contracts fiftyoneDegreesEvidenceCreate fiftyoneDegreesEvidenceAddString fiftyoneDegreesEvidenceIterate fiftyoneDegreesEvidenceFree
 * @secs 60
 * @bound capacities 0 to 3, up to 4 additions of every prefix to the evidence and one to pseudo evidence, masks of one, two and all prefixes, stopping after every number of entries, a failing allocation
 */
void h_evidence(void) {
	vp_use_allocator(); memset(E_m, 0, sizeof E_m);
	E_m[0].cap = (int)vp_range(0, EMAX);
	vp_fault_plan(1);
	E_m[0].a = fiftyoneDegreesEvidenceCreate((uint32_t)E_m[0].cap);
	if (vp_faults) { vp_assert(E_m[0].a == NULL && vp_live == 0, "no evidence without memory"); return; }
	vp_assert(E_m[0].a != NULL && vp_live == 1 && E_m[0].a->count == 0 && E_m[0].a->pseudoEvidence == NULL && (int)E_m[0].a->capacity == E_m[0].cap, "new evidence is empty and has its capacity");
	for (int i = 0; i < E_m[0].cap; i++) vp_assert(E_m[0].a->items[i].field == NULL && E_m[0].a->items[i].originalValue == NULL && E_m[0].a->items[i].parsedValue == NULL, "new entries are empty");
	int k = (int)vp_range(0, (uint64_t)E_m[0].cap + 1);
	for (int i = 0; i < k; i++) e_add(0);
	int pseudo = (int)vp_range(0, 2);
	if (pseudo) { E_m[1].cap = 1; E_m[1].a = fiftyoneDegreesEvidenceCreate(1); if (pseudo == 2) e_add(1); E_m[0].a->pseudoEvidence = E_m[1].a; }
	int m1 = (int)vp_range(0, 7), m2 = (int)vp_range(0, 5), mask = m1 == 7 ? 0xFF : m1 == 6 ? 0 : e_bits[m1] | e_bits[m2];
	if (m1 >= 6 ? m2 > 0 : m2 < m1) vp_reject();
	e_iterate(mask, (int)vp_range(0, 4));
	e_iterate(0x7F, 0);
	fiftyoneDegreesEvidenceFree(E_m[0].a);
	if (pseudo) fiftyoneDegreesEvidenceFree(E_m[1].a);
	vp_assert(vp_live == 0, "evidence is freed");
}
/* @unit evidence_prefix_bounded
 * @property P15
 * @kind enum
 * @entry h_prefix
 * @contracts fiftyoneDegreesEvidenceMapPrefix fiftyoneDegreesEvidencePrefixString
 * @secs 60
 * @bound keys that are any prefix with one character changed or left out at any place, cut to any length, or with up to two characters after it
 */
void h_prefix(void) {
	static const struct { const char *p; int e; } t[] = { { "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER }, { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE } };
	int w = (int)vp_range(0, 3), at = (int)vp_range(0, 8), cut = (int)vp_range(0, 10); char c = "\0.Xsc-"[vp_range(0, 5)];
	char buf[32] = ""; strcpy(buf, t[w].p); strcat(buf, vp_bool() ? "query.ua" : "u");
	if (vp_bool()) memmove(buf + 1, buf, strlen(buf) + 1), buf[0] = 'x';
	if (at < 8) buf[at] = c;
	if ((int)strlen(buf) > cut) buf[cut] = 0;
	char *key = vp_new(strlen(buf) + 1); strcpy(key, buf);
	fiftyoneDegreesEvidencePrefixMap *m = fiftyoneDegreesEvidenceMapPrefix(key);
	int want = -1; for (int i = 0; i < 4; i++) if (strlen(key) > strlen(t[i].p) && memcmp(key, t[i].p, strlen(t[i].p)) == 0) want = i;
	if (want < 0) vp_assert(m == NULL, "a key without a complete prefix has none");
	else { vp_assert(m != NULL && (int)m->prefixEnum == t[want].e, "a key has the kind of its prefix"); vp_assert(m->prefixLength == strlen(t[want].p) && strcmp(m->prefix, t[want].p) == 0, "what follows the prefix is the name"); }
	for (int b = 0; b < 32; b++) {
		const char *s = fiftyoneDegreesEvidencePrefixString((fiftyoneDegreesEvidencePrefix)(1u << b)); int k = -1;
		for (int i = 0; i < 4; i++) if ((unsigned)t[i].e == 1u << b) k = i;
		vp_assert(k < 0 ? s == NULL : s != NULL && strcmp(s, t[k].p) == 0, "a kind of evidence has its prefix");
	}
	free(key);
}
