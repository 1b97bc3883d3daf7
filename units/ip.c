/* IP addresses: ip.c */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include "/repo/ip.h"

/* What a text is, read strictly: 4 or 6 and its bytes for a well formed
 * address; 0 for text without the segments of an address; -1 for anything else,
 * which may be read in any way that keeps to its memory. */
static int ip_is(const char *s, int n, uint8_t *out) {
	int colon = 0, dot = 0, i;
	for (i = 0; i < n; i++) { char c = s[i]; if (c == ':') colon++; else if (c == '.') dot++; else if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return -1; }
	if (colon == 0 && dot == 0) return 0;
	if (colon > 0 && dot > 0 && memchr(s, '.', (size_t)n) < memchr(s, ':', (size_t)n)) return -1;
	if (n > 0 && ((s[0] == ':' && s[1] != ':') || s[0] == '.' || s[n - 1] == '.')) return -1;
	if (n > 1 && s[n - 1] == ':' && s[n - 2] != ':') return -1;
	uint8_t b[64]; int nb = 0, abbr = -1, nabbr = 0, bad = 0; bool odd = false, tail = false;
	i = 0;
	if (colon > 0 && s[0] == ':' ) { abbr = 0; nabbr = 1; i = 2; if (n > 2 && s[2] == ':') return 0; }
	while (i < n && nb < 60) {
		int st = i; while (i < n && s[i] != ':' && s[i] != '.') i++;
		char sep = i < n ? s[i] : 0; int len = i - st; bool four = colon == 0 || sep == '.' || tail;
		if (sep == '.') tail = true; else if (tail && sep == ':') return -1;
		if (len == 0) { bad = 1; }
		else if (four) {
			int v = 0; for (int k = st; k < i; k++) { if (s[k] > '9') odd = true; else if (v < 1000) v = v * 10 + (s[k] - '0'); }
			if (len > 3 && colon > 0) odd = true;
			b[nb++] = (uint8_t)(v > 255 ? 255 : v);
		} else {
			unsigned v = 0; for (int k = st; k < i; k++) v = v * 16 + (unsigned)(s[k] <= '9' ? s[k] - '0' : (s[k] | 32) - 'a' + 10);
			if (len > 4) odd = true;
			b[nb++] = (uint8_t)(v >> 8); b[nb++] = (uint8_t)v;
		}
		if (i < n) i++;
		if (sep == ':' && i < n && s[i] == ':') { nabbr++; abbr = nb; i++; if (i < n && s[i] == ':') nabbr++; }
	}
	if (bad) return colon == 0 ? 0 : -1;
	if (colon == 0) { if (nb != 4) return 0; if (odd) return -1; memcpy(out, b, 4); return 4; }
	if (nabbr > 1 || nb > 16 || (nabbr == 0 && nb != 16)) return 0;
	if (nabbr == 1 && nb == 16) return -1;
	if (odd) return -1;
	if (nabbr == 0) abbr = 0;
	memset(out, 0, 16);
	memcpy(out, b, (size_t)abbr); memcpy(out + 16 - (nb - abbr), b + abbr, (size_t)(nb - abbr));
	return 6;
}
static int ip_fill;
static void *ip_malloc(size_t n) { void *p = vp_malloc(n); if (p) memset(p, ip_fill, n); return p; }
static void ip_expect(fiftyoneDegreesEvidenceIpAddress *a, int is, const uint8_t *want) {
	int size = a == NULL || a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID ? 0 : a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16;
	if (is == 4) { vp_assert(size == 4, "a well formed IPv4 address is parsed"); vp_assert(memcmp(a->address, want, 4) == 0, "an IPv4 address is parsed into its bytes"); }
	if (is == 6) { vp_assert(size == 16, "a well formed IPv6 address is parsed"); vp_assert(memcmp(a->address, want, 16) == 0, "an IPv6 address is parsed into its bytes"); }
	if (is == 0) vp_assert(size == 0, "text without the segments of an address is refused");
}
static void ip_check(const char *text, int n, char term) {
	char *s = vp_new((size_t)n + 1); memcpy(s, text, (size_t)n); s[n] = term;
	uint8_t want[16], got[16]; int is = ip_is(text, n, want);
	vp_use_allocator();
	int size = -1;
	for (int pass = 0; pass < 2; pass++) {
		ip_fill = pass ? 0x5A : 0xC3;
		fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddress(ip_malloc, s, s + n);
		ip_expect(a, is, want);
		if (a != NULL) {
			vp_assert(a->next == NULL, "a single address is a list of one");
			int sz = a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID ? 0 : a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16;
			if (pass) vp_assert(sz == size && memcmp(got, a->address, (size_t)sz) == 0, "every byte of an address comes from the text"); else { size = sz; memcpy(got, a->address, (size_t)sz); }
			vp_assert(vp_live == 1, "an address is one allocation");
			fiftyoneDegreesIpFreeAddresses(vp_free, a);
		}
		vp_assert(vp_live == 0, "no memory is leaked");
	}
	free(s);
}
/* @unit ip_short_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_short
 * @contracts fiftyoneDegreesIpParseAddress fiftyoneDegreesIpFreeAddresses
 * @secs 60
 * @bound every text of up to 7 characters over 1 f . : - and the three terminators
 */
void h_ip_short(void) {
	char t[16]; int n = (int)vp_range(0, 7);
	char term = "\0 ,"[vp_range(0, 2)];
	for (int i = 0; i < n; i++) t[i] = "1f.:-"[vp_range(0, 4)];
	t[n] = 0;
	ip_check(t, n, term);
}
/* @unit ip_other_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_other
 * @contracts fiftyoneDegreesIpParseAddress fiftyoneDegreesIpFreeAddresses
 * @secs 60
 * @bound every text of up to 11 characters over 7 . : with up to one other character put in at any place
 */
void h_ip_other(void) {
	char t[24]; int n = (int)vp_range(0, 11), at = (int)vp_range(0, (uint64_t)n);
	static const char other[] = "7\0 ,\tgx[/\377+%";
	char o = other[vp_range(0, 11)];
	for (int i = 0; i < n; i++) t[i] = i == at ? o : "7.:"[vp_range(0, 2)];
	t[n] = 0;
	ip_check(t, n, 0);
}
/* @unit ip_v4_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_v4
 * @contracts fiftyoneDegreesIpParseAddress
 * @secs 60
 * @bound two to six segments, two of them with values in and beyond 0 to 255 and up to 21 digits
 */
void h_ip_v4(void) {
	static const char *seg[] = { "0", "7", "10", "99", "100", "199", "200", "255", "256", "999", "007", "0255", "4294967297", "18446744073709551617", "-1", "", "1/32" };
	char t[128]; int n = 0, k = (int)vp_range(2, 6), p = (int)vp_range(0, (uint64_t)k - 1), q = (int)vp_range(0, (uint64_t)k - 1);
	int vp = (int)vp_range(0, 16), vq = (int)vp_range(0, 16);
	char term = "\0 ,"[vp_range(0, 2)];
	for (int i = 0; i < k; i++) { const char *g = i == p ? seg[vp] : i == q ? seg[vq] : i & 1 ? "31" : "128"; if (i) t[n++] = '.'; memcpy(t + n, g, strlen(g)); n += (int)strlen(g); }
	t[n] = 0;
	ip_check(t, n, term);
}
/* @unit ip_v6_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_v6
 * @contracts fiftyoneDegreesIpParseAddress
 * @secs 60
 * @bound 0 to 130 groups of one to five digits, an abbreviation at every place, a second one, an IPv4 tail of up to five parts
 */
void h_ip_v6(void) {
	static const char hex[] = "0123456789abcdefABCDEF";
	char t[2048]; int n = 0, k = (int)vp_range(0, 10), ab = (int)vp_range(0, 11), ab2 = (int)vp_range(0, 11), tail = (int)vp_range(0, 5), style = (int)vp_range(0, 9);
	if (k == 10) k = style == 0 ? 128 : style == 1 ? 129 : style == 2 ? 130 : 10;
	if (ab2 != 11 && (ab2 < ab || ab > k)) vp_reject();
	for (int i = 0; i <= k; i++) {
		bool last = i == k;
		bool here = i == ab || i == ab2;
		if (here) { t[n++] = ':'; t[n++] = ':'; } else if (i > 0 && (!last || tail)) t[n++] = ':';
		if (last) break;
		int len = style < 4 ? style + 1 : style < 8 ? (i + style) % 4 + 1 : style == 8 ? 5 : (i == 3 ? 0 : 2);
		for (int d = 0; d < len; d++) t[n++] = hex[(i * 5 + d * 7 + style * 3 + (d == 0 ? 1 : 0)) % 22];
	}
	for (int i = 0; i < tail; i++) { if (i) t[n++] = '.'; static const char *d[] = { "192", "0", "255", "17", "9" }; memcpy(t + n, d[i], strlen(d[i])); n += (int)strlen(d[i]); }
	t[n] = 0;
	ip_check(t, n, 0);
}
/* @unit ip_list_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_list
 * @contracts fiftyoneDegreesIpParseAddresses fiftyoneDegreesIpFreeAddresses
 * @secs 60
 * @bound lists of up to four texts, five separators, one failing allocation
 */
void h_ip_list(void) {
	static const char *txt[] = { "1.2.3.4", "::ffff:9.8.7.6", "", "x", "1.2.3.4.5", "1.2", "a::", "1..2.3.4" };
	static const char *sep[] = { " ", ",", ", ", "  " };
	char t[256]; int n = 0, k = (int)vp_range(0, 4); int which[4], off[4], len[4];
	char full[256]; 
	if (vp_bool()) { memcpy(t, " ", 1); n = 1; }
	for (int i = 0; i < k; i++) {
		which[i] = (int)vp_range(0, 7); off[i] = n; len[i] = (int)strlen(txt[which[i]]);
		memcpy(t + n, txt[which[i]], (size_t)len[i]); n += len[i];
		if (i < k - 1) { const char *s = sep[vp_range(0, 3)]; memcpy(t + n, s, strlen(s)); n += (int)strlen(s); }
	}
	if (vp_bool()) t[n++] = ',';
	t[n] = 0; (void)off; (void)full;
	char *s = vp_new((size_t)n + 1); memcpy(s, t, (size_t)n + 1);
	vp_use_allocator(); ip_fill = 0xC3;
	vp_fault_plan(4);
	fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddresses(ip_malloc, s), *p = a;
	int count = 0; for (p = a; p != NULL; p = p->next) count++;
	vp_assert(vp_live == count, "each address is one allocation");
	int good = 0; p = a;
	for (int i = 0; i < k; i++) {
		uint8_t want[16]; int is = ip_is(txt[which[i]], len[i], want);
		if (is != 4 && is != 6) continue;
		good++;
		if (vp_faults) continue;
		while (p != NULL && p->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) p = p->next;
		vp_assert(p != NULL, "every address of the list is there, in order");
		ip_expect(p, is, want);
		p = p->next;
	}
	int valid = 0; for (p = a; p != NULL; p = p->next) valid += p->type != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
	vp_assert(vp_faults ? valid <= good : valid == good, "only addresses of the list are there");
	fiftyoneDegreesIpFreeAddresses(vp_free, a);
	vp_assert(vp_live == 0, "freeing the list frees every address");
	free(s);
}
/* @unit ip_compare_bounded
 * @property P11
 * @kind enum
 * @entry h_ip_compare
 * @contracts fiftyoneDegreesCompareIpAddresses
 * @secs 60
 * @bound two differing bytes at every pair of places, eight values each, of addresses of each family in memory of exactly their size
 */
void h_ip_compare(void) {
	static const uint8_t v[] = { 0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x40 };
	int type = (int)vp_range(0, 2), size = type == 0 ? 4 : type == 1 ? 16 : 0, i = (int)vp_range(0, 16), j = (int)vp_range(0, 16);
	if (i > size || j > size || (i == size) != (vp_range(0, 1) == 1)) vp_reject();
	uint8_t *a = vp_new((size_t)size), *b = vp_new((size_t)size);
	for (int k = 0; k < size; k++) a[k] = b[k] = (uint8_t)(k * 37);
	if (i < size) { a[i] = v[vp_range(0, 7)]; b[i] = v[vp_range(0, 7)]; }
	if (j < size) { a[j] = v[vp_range(0, 7)]; b[j] = v[vp_range(0, 7)]; }
	int c = fiftyoneDegreesCompareIpAddresses(a, b, (fiftyoneDegreesEvidenceIpType)type), w = 0;
	for (int k = size - 1; k >= 0; k--) if (a[k] != b[k]) w = a[k] < b[k] ? -1 : 1;
	vp_assert((c > 0) - (c < 0) == w, "addresses are in the order of their bytes");
	free(a); free(b);
}
