/* Unique headers: headers.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include <ctype.h>
#define SEP '\x1F'
#define HN 3
static char H_name[HN][16]; static int H_n; static fiftyoneDegreesCollection H_col; static int H_out[HN + 1]; static int H_state; static char *H_item[HN];
static void H_release(fiftyoneDegreesCollectionItem *i) { int k = (int)(intptr_t)i->handle - 1; vp_assert(k >= 0 && k < H_n && H_out[k] == 1, "a name is released once"); H_out[k] = 0; i->handle = NULL; i->data.ptr = NULL; }
static long H_get(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	vp_assert(state == &H_state, "names come from their state");
	if (index >= (uint32_t)H_n) return -1;
	for (int i = 0; i < H_n; i++) vp_assert(H_out[i] == 0, "a name is released before the next is fetched");
	H_out[index] = 1;
	item->data.ptr = (byte*)H_item[index]; item->collection = &H_col; item->handle = (void*)(intptr_t)(index + 1);
	return 100 + (long)index * 7;
}
static bool ci(const char *a, size_t n, const char *b, size_t m) { if (n != m) return false; for (size_t i = 0; i < n; i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false; return true; }
/* the segments of a name: runs without separators */
static int split(const char *s, int *off, int *len) { int n = 0, i = 0; while (s[i]) { if (s[i] == SEP) { i++; continue; } off[n] = i; while (s[i] && s[i] != SEP) i++; len[n] = i - off[n]; n++; } return n; }
static void check_headers(fiftyoneDegreesHeaders *h) {
	int off[16], len[16]; unsigned pseudo = 0, data = 0; int seen[16] = { 0 };
	vp_assert(h->count <= h->capacity, "headers fit the memory taken");
	for (uint32_t i = 0; i < h->count; i++) {
		fiftyoneDegreesHeader *x = &h->items[i];
		vp_assert(x->nameLength == strlen(x->name) && x->nameLength > 0, "a header has its name");
		for (uint32_t j = 0; j < i; j++) vp_assert(!ci(x->name, x->nameLength, h->items[j].name, h->items[j].nameLength), "a header is there once");
		int n = split(x->name, off, len);
		vp_assert(n > 0 && (int)x->segments->count == n, "a header lists its segments");
		for (int s = 0; s < n; s++) vp_assert(x->segments->items[s].length == (size_t)len[s] && x->segments->items[s].segment == x->name + off[s], "a segment is the part of the name between separators");
		if (n > 1) pseudo++;
		int from = -1; for (int k = 0; k < H_n; k++) if (from < 0 && strcmp(x->name, H_name[k]) == 0) from = k;
		bool first = from >= 0; for (int k = 0; first && k < from; k++) if (ci(H_name[k], strlen(H_name[k]), x->name, x->nameLength)) first = false;
		if (x->isDataSet) {
			vp_assert(first, "a header of the data set has the name it has there first");
			vp_assert(x->uniqueId == 100 + (uint32_t)from * 7, "a header of the data set has its identifier");
			vp_assert(i == data, "the headers of the data set come first"); data++;
			vp_assert(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, x->uniqueId) == x, "a header is found by its identifier");
		} else {
			bool seg = false; for (int k = 0; k < H_n; k++) { int o[16], l[16], m = split(H_name[k], o, l); for (int s = 0; s < m; s++) if (ci(H_name[k] + o[s], (size_t)l[s], x->name, x->nameLength)) seg = true; }
			vp_assert(seg && n == 1 && strchr(x->name, SEP) == NULL, "any other header is a segment");
			for (int k = 0; k < H_n; k++) vp_assert(!ci(H_name[k], strlen(H_name[k]), x->name, x->nameLength), "a header of the data set is marked as one");
		}
		(void)seen;
	}
	vp_assert(h->pseudoHeadersCount == pseudo, "pseudo headers are counted");
	vp_assert(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, 99) == NULL, "no header is found for an identifier not there");
	for (int k = 0; k < H_n; k++) {
		int m = split(H_name[k], off, len); if (m == 0) continue;
		for (int s = -1; s < m; s++) {
			const char *w = s < 0 ? H_name[k] : H_name[k] + off[s]; size_t l = s < 0 ? strlen(w) : (size_t)len[s]; bool there = false;
			for (uint32_t i = 0; i < h->count; i++) if (ci(h->items[i].name, h->items[i].nameLength, w, l)) there = true;
			vp_assert(there, "every name and every segment is there");
		}
	}
}
static void look(fiftyoneDegreesHeaders *h, const char *q, size_t n, bool upper) {
	char *s = vp_new(n + 1); memcpy(s, q, n); s[n] = 'z';
	const char *w = q; size_t l = n;
	if (upper && n > 5 && ci(q, 5, "HTTP_", 5)) { w += 5; l -= 5; }
	int want = -1; for (uint32_t i = 0; i < h->count; i++) if (want < 0 && ci(h->items[i].name, h->items[i].nameLength, w, l)) want = (int)i;
	vp_assert(fiftyoneDegreesHeaderGetIndex(h, s, n) == want, "a name is looked up ignoring case and its prefix");
	s[n] = 0;
	fiftyoneDegreesEvidenceKeyValuePair p; memset(&p, 0, sizeof p); p.field = s;
	vp_assert(fiftyoneDegreesHeadersIsHttp(h, &p) == (want >= 0), "evidence is a header when its name is one");
	free(s);
}
static void run(bool upper) {
	for (int i = 0; i < H_n; i++) {
		size_t l = strlen(H_name[i]); H_item[i] = vp_new(l + 3); *(int16_t*)H_item[i] = (int16_t)(l + 1); strcpy(H_item[i] + 2, H_name[i]); H_out[i] = 0;
		vp_assert(fiftyoneDegreesHeadersIsPseudo(H_name[i]) == (strchr(H_name[i], SEP) != NULL), "a name with a separator is that of a pseudo header");
	}
	H_col.release = H_release;
	fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(upper, &H_state, H_get);
	for (int i = 0; i < H_n; i++) vp_assert(H_out[i] == 0, "every name is released");
	for (int i = 0; i < H_n; i++) free(H_item[i]);
	if (vp_faults) vp_assert(h == NULL && vp_live == 0, "failure leaves nothing allocated");
	else {
		vp_assert(h != NULL, "headers are created");
		check_headers(h);
		char q[40];
		for (uint32_t i = 0; i < h->count; i++) {
			size_t l = h->items[i].nameLength; 
			for (int v = 0; v < 6; v++) {
				size_t n = 0; if (v == 1) { memcpy(q, "HTTP_", 5); n = 5; } if (v == 2) { memcpy(q, "http_", 5); n = 5; } if (v == 5) { memcpy(q, "HTTP-", 5); n = 5; }
				memcpy(q + n, h->items[i].name, l); if (v == 3) for (size_t k = 0; k < l; k++) q[n + k] = (char)(islower((unsigned char)q[n + k]) ? toupper((unsigned char)q[n + k]) : tolower((unsigned char)q[n + k]));
				n += l; if (v == 4) n--;
				look(h, q, n, upper);
			}
		}
		look(h, "HTTP_", 5, upper); look(h, "c", 1, upper); look(h, "", 0, upper);
		fiftyoneDegreesHeadersFree(h);
		vp_assert(vp_live == 0, "headers are freed");
	}
}
static void name(int i, int max, const char *al, int na) { int l = (int)vp_range(0, (uint64_t)max); for (int k = 0; k < l; k++) H_name[i][k] = al[vp_range(0, (uint64_t)na - 1)]; H_name[i][l] = 0; }
/* @unit headers_bounded
 * @property P16
 * @kind enum
 * @entry h_headers
 * @contracts fiftyoneDegreesHeadersCreate fiftyoneDegreesHeaderGetIndex fiftyoneDegreesHeadersGetHeaderFromUniqueId fiftyoneDegreesHeadersFree fiftyoneDegreesHeadersIsHttp fiftyoneDegreesHeadersIsPseudo
 * @secs 60
 * @bound up to three names, the first of up to 6 characters over a A separator, the others of up to 2
 */
void h_headers(void) {
	vp_use_allocator();
	bool upper = vp_bool();
	H_n = (int)vp_range(0, 3);
	for (int i = 0; i < H_n; i++) name(i, i == 0 ? 6 : 2, "aA\x1F", 3);
	run(upper);
}
/* @unit headers_segments_bounded
 * @property P16
 * @kind enum
 * @entry h_segments
 * @contracts fiftyoneDegreesHeadersCreate fiftyoneDegreesHeaderGetIndex fiftyoneDegreesHeadersFree
 * @secs 60
 * @bound two names of up to 5 characters over a b separator
 */
void h_segments(void) {
	vp_use_allocator();
	H_n = 2;
	for (int i = 0; i < H_n; i++) name(i, 5, "ab\x1F", 3);
	run(true);
}
/* @unit headers_faults
 * @property P16
 * @kind enum
 * @entry h_header_faults
 * @contracts fiftyoneDegreesHeadersCreate
 * @secs 60
 * @bound two names of up to 3 characters over a b separator, every failing allocation
 */
void h_header_faults(void) {
	vp_use_allocator();
	H_n = 2;
	for (int i = 0; i < H_n; i++) name(i, 3, "ab\x1F", 3);
	vp_fault_plan(14);
	run(true);
}
