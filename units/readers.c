/* Reading profiles and components from a file: profile.c component.c, with CollectionReadFileVariable replaced by its contract */
#include "vp.h"
#include "/repo/fiftyone.h"
static const char *D_src; static size_t D_size; static int D_calls; static fiftyoneDegreesCollectionFile D_file; static fiftyoneDegreesData D_data; static Exception *D_e; static char D_item[1];
/* reads initialSize bytes to the initial memory, asks for the final size, and reads that many */
static void *D_read(const fiftyoneDegreesCollectionFile *f, fiftyoneDegreesData *d, uint32_t off, void *initial, size_t initialSize, fiftyoneDegreesCollectionGetFileVariableSizeMethod final, Exception *exception) {
	D_calls++;
	vp_assert(f == &D_file && d == &D_data && off == 77 && exception == D_e, "the item asked for is read");
	vp_assert(initialSize <= D_size, "no more than the item is read");
	memcpy(initial, D_src, initialSize);
	vp_assert((size_t)final(initial) == D_size, "the size of the item is what its counts say");
	return D_item;
}
#undef CollectionReadFileVariable
#define CollectionReadFileVariable D_read
#include "/repo/profile.c"
#include "/repo/component.c"
#undef CollectionReadFileVariable
/* @unit readers
 * @property P20
 * @kind enum
 * @entry h_readers
 * @contracts fiftyoneDegreesProfileReadFromFile fiftyoneDegreesComponentReadFromFile
 * @secs 5
 * @bound items of up to 300 values or pairs
 */
void h_readers(void) {
	EXCEPTION_CREATE; D_e = exception; bool p = vp_bool(); uint32_t n = (uint32_t)vp_range(0, 300); D_calls = 0;
	size_t fixed = p ? 9 : 11, each = p ? 4 : 8; D_size = fixed + each * n; char *s = vp_new(D_size); memset(s, 0x5a, D_size);
	if (p) memcpy(s + 5, &n, 4); else { uint16_t k = (uint16_t)n; memcpy(s + 9, &k, 2); }
	D_src = s;
	void *r = p ? fiftyoneDegreesProfileReadFromFile(&D_file, 77, &D_data, exception) : fiftyoneDegreesComponentReadFromFile(&D_file, 77, &D_data, exception);
	vp_assert(D_calls == 1 && r == D_item, "the item is read"); free(s);
}
