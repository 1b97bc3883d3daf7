/* Case-insensitive string comparison: string.c */
#include "vp.h"
#include "/repo/string.h"
#include "/repo/fiftyone.h"
#ifndef STRMAX
#define STRMAX 5
#endif
static int low(char c) { return (c >= 'A' && c <= 'Z') ? c + ('a' - 'A') : c; }
static int sign(int v) { return (v > 0) - (v < 0); }
/* a string of any length up to max in an object of exactly that size */
static char *any_string(size_t max, size_t *len) {
	size_t n = vp_range(0, max);
	char *s = (char*)vp_bytes(n + 1);
	for (size_t i = 0; i < n; i++) vp_assume(s[i] != '\0');
	s[n] = '\0';
	*len = n;
	return s;
}
/* The order of characters outside ASCII is not part of the contract (tolower of
 * a negative value is up to the C library); that they differ is. */
static bool agrees(int r, int d, char x, char y) {
	if (d == 0) return r == 0;
	return (x < 0 || y < 0) ? r != 0 : sign(r) == sign(d);
}
/* spec: sign of the first difference, ignoring the case of ASCII letters, the
 * shorter string being first when one is a prefix of the other */
static bool spec_compare(int r, const char *a, size_t la, const char *b, size_t lb) {
	for (size_t i = 0; i <= STRMAX; i++) {
		if (i == la || i == lb) return sign(r) == (la == lb ? 0 : (la < lb ? -1 : 1));
		int d = low(a[i]) - low(b[i]);
		if (d != 0) return agrees(r, d, a[i], b[i]);
	}
	return false;
}

/* @unit string_compare_bounded
 * @property P10
 * @kind bounded
 * @entry h_compare
 * @src string.c memory.c collection.c tree.c threading.c
 * @unwind 8
 * @contracts fiftyoneDegreesStringCompare
 * @bound strings of 0 to 5 characters, every character value
 * @trusted tolower as in the C locale
 */
void h_compare(void) {
	size_t la, lb;
	char *a = any_string(STRMAX, &la), *b = any_string(STRMAX, &lb);
	int r = fiftyoneDegreesStringCompare(a, b);
	vp_assert(spec_compare(r, a, la, b, lb), "sign of the first case-insensitive difference");
	if (r == 0) VP_COVER("equal"); else if (r < 0) VP_COVER("less"); else VP_COVER("greater");
}

/* @unit string_comparelength_bounded
 * @property P10
 * @kind bounded
 * @entry h_comparelength
 * @src string.c memory.c collection.c tree.c threading.c
 * @unwind 8
 * @contracts fiftyoneDegreesStringCompareLength
 * @bound objects of 1 to 5 bytes, every byte value, length any 64 bit number
 */
void h_comparelength(void) {
	size_t na = vp_range(1, STRMAX), nb = vp_range(1, STRMAX), length = vp_u64();
	char *a = (char*)vp_bytes(na), *b = (char*)vp_bytes(nb);
	/* either there is a difference inside both, or both hold length bytes */
	int expect = 0; char x = 0, y = 0; bool differ = false;
	for (size_t i = 0; i < STRMAX; i++) {
		if (!differ && i < na && i < nb && i < length) {
			int d = low(a[i]) - low(b[i]);
			if (d != 0) { differ = true; expect = d; x = a[i]; y = b[i]; }
		}
	}
	vp_assume(differ || (length <= na && length <= nb));
	int r = fiftyoneDegreesStringCompareLength(a, b, length);
	vp_assert(agrees(r, expect, x, y), "sign of the first case-insensitive difference in the first length characters");
	if (r == 0) VP_COVER("equal"); else VP_COVER("different");
}

/* @unit string_substring_bounded
 * @property P10
 * @kind bounded
 * @entry h_substring
 * @src string.c memory.c collection.c tree.c threading.c
 * @unwind 8
 * @contracts fiftyoneDegreesStringSubString
 * @bound strings of up to 5 and 1 to 3 characters, every character value
 */
void h_substring(void) {
	size_t la, lb;
	char *a = any_string(STRMAX, &la), *b = any_string(3, &lb);
	vp_assume(lb > 0);
	size_t at = la;
	for (size_t i = STRMAX; i-- > 0; ) {
		bool eq = true;
		if (i >= la || lb > la - i) continue;
		for (size_t k = 0; k < 3; k++) {
			if (k < lb && low(a[i + k]) != low(b[k])) eq = false;
		}
		if (eq) at = i;
	}
	char *r = fiftyoneDegreesStringSubString(a, b);
	vp_assert(r == (at == la ? NULL : a + at), "first whole occurrence, or NULL");
	if (r == NULL) VP_COVER("absent"); else VP_COVER("found");
}

/* @unit string_texts_bounded
 * @property P10
 * @kind enum
 * @entry h_texts
 * @src string.c memory.c collection.c tree.c threading.c
 * @contracts fiftyoneDegreesStringSubString fiftyoneDegreesStringCompare fiftyoneDegreesStringCompareLength
 * @secs 30
 * @bound texts of up to 8 and 5 characters made of three letters, either case, against each other
 */
void h_texts(void) {
	static const char letters[] = "abZ";
	int la = (int)vp_range(0, 8), lb = (int)vp_range(1, 5), mode = (int)vp_range(0, 3);
	char *a = (char*)vp_new((size_t)la + 1), *b = (char*)vp_new((size_t)lb + 1);
	for (int i = 0; i < la; i++) { a[i] = letters[vp_range(0, la > 6 ? 1 : 2)]; if (mode & 1) a[i] ^= 0x20; }
	for (int i = 0; i < lb; i++) { b[i] = letters[vp_range(0, la > 6 || lb > 4 ? 1 : 2)]; if ((mode & 2) && i % 2) b[i] ^= 0x20; }
	a[la] = b[lb] = '\0';
	int at = -1;
	for (int i = 0; i + lb <= la && at < 0; i++) { int k = 0; while (k < lb && low(a[i + k]) == low(b[k])) k++; if (k == lb) at = i; }
	vp_assert(fiftyoneDegreesStringSubString(a, b) == (at < 0 ? NULL : a + at), "first whole occurrence, or NULL");
	int k = 0; while (k < la && k < lb && low(a[k]) == low(b[k])) k++;
	int d = k == la || k == lb ? (la > lb) - (la < lb) : sign(low(a[k]) - low(b[k]));
	vp_assert(sign(fiftyoneDegreesStringCompare(a, b)) == d, "sign of the first case-insensitive difference");
	int n = la < lb ? la : lb;
	d = k >= n ? 0 : sign(low(a[k]) - low(b[k]));
	vp_assert(sign(fiftyoneDegreesStringCompareLength(a, b, (size_t)n)) == d, "sign of the first case-insensitive difference");
}
