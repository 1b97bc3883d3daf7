/* Collections: collection.c with the real pool, cache and strings */
#include "vp.h"
#include "gfile.h"
#include "/repo/file.c"
#include "/repo/collection.c"
#include "/repo/string.c"
#include "/repo/fiftyone.h"

/* ------------------------------------------------------------ binary search */

/* @unit binary_search_bounded
 * @property P05
 * @kind enum
 * @entry h_search
 * @contracts fiftyoneDegreesCollectionBinarySearch
 * @secs 20
 * @bound collections of up to 6 items, every range of them, every key present or absent, a failing get or comparison at every step
 */
static int bs_held, bs_key, bs_last, bs_step, bs_fail_at, bs_kind, bs_lo, bs_hi, bs_n, bs_max;
static int bs_items[8];
static Collection bs_c;
static Item *bs_item;
static void bs_release(Item *i) { vp_assert(i == bs_item && bs_held == 1, "only an item that is held is released"); bs_held = 0; i->handle = NULL; }
static void *bs_get(Collection *c, uint32_t i, Item *item, Exception *exception) {
	vp_assert(c == &bs_c && item == bs_item, "get on the collection with the item");
	vp_assert((int)i >= bs_lo && (int)i <= bs_hi, "only indices within the range are looked at");
	vp_assert(bs_held == 0, "no item is held when another is fetched");
	bs_step++;
	vp_assert(bs_step <= bs_max, "at most logarithmically many items are fetched");
	if (bs_step == bs_fail_at && bs_kind < 2) {
		if (bs_kind == 1) EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
		return NULL;
	}
	bs_held = 1; bs_last = (int)i;
	item->data.ptr = (byte*)&bs_items[i]; item->collection = c;
	return item->data.ptr;
}
static int bs_state;
static int bs_compare(void *state, Item *item, long index, Exception *exception) {
	vp_assert(state == &bs_state && item == bs_item, "the comparer gets the state and the item");
	vp_assert(bs_held == 1 && index == bs_last, "the comparer gets the index of the item it gets");
	if (bs_step == bs_fail_at && bs_kind >= 2) { EXCEPTION_SET(CORRUPT_DATA); return bs_kind == 2 ? 0 : -1; }
	return *(int*)item->data.ptr - bs_key;
}
void h_search(void) {
	EXCEPTION_CREATE;
	Item item;
	memset(&item, 0, sizeof item);
	bs_n = (int)vp_range(1, 6);
	bs_lo = (int)vp_range(0, (uint64_t)bs_n - 1);
	bs_hi = (int)vp_range(0, (uint64_t)bs_n - 1);
	if (bs_hi < bs_lo && bs_hi != bs_lo - 1) vp_reject();
	bs_key = (int)vp_range(0, 2 * (uint64_t)bs_n);
	for (int i = 0; i < bs_n; i++) bs_items[i] = 2 * i + 1;
	bs_fail_at = (int)vp_range(0, 4); bs_kind = (int)vp_range(0, 3);
	if (bs_fail_at == 0 && bs_kind > 0) vp_reject();
	bs_step = 0; bs_held = 0; bs_last = -1; bs_item = &item;
	bs_max = 0; for (int k = bs_hi - bs_lo + 1; k > 0; k /= 2) bs_max++;
	bs_c.get = bs_get; bs_c.release = bs_release;
	long r = fiftyoneDegreesCollectionBinarySearch(&bs_c, &item, (uint32_t)bs_lo, (uint32_t)bs_hi, &bs_state, bs_compare, exception);
	bool failed = bs_fail_at > 0 && bs_step >= bs_fail_at;
	bool in = (bs_key & 1) && (bs_key - 1) / 2 >= bs_lo && (bs_key - 1) / 2 <= bs_hi;
	if (in && !failed) {
		vp_assert(r == (bs_key - 1) / 2, "the matching item is found");
		vp_assert(bs_held == 1 && bs_last == r, "the item found is held");
	} else {
		vp_assert(r == -1, "not found");
		vp_assert(bs_held == 0, "nothing is held when nothing is found");
	}
}

/* ----------------------------------------------------- collections in memory */

/* @unit memory_collection_bounded
 * @property P03
 * @kind enum
 * @entry h_memory_collection
 * @contracts fiftyoneDegreesCollectionHeaderFromMemory fiftyoneDegreesCollectionCreateFromMemory getMemoryFixed getMemoryVariable fiftyoneDegreesMemoryAdvance
 * @secs 20
 * @bound images of up to 12 bytes, headers of 0 to 9 and two huge values, item widths 0 to 4, every index and offset up to 10 and two huge ones, each allocation failing
 */
void h_memory_collection(void) {
	EXCEPTION_CREATE;
	MemoryReader reader;
	Item item;
	vp_use_allocator();
	int at = (int)vp_range(0, 1), n = (int)vp_range(0, 12);
	uint32_t width = (uint32_t)vp_range(0, 4);
	bool isCount = vp_bool();
	static const uint32_t val[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x40000001, 0xFFFFFFFF };
	uint32_t v = val[vp_range(0, 11)];
	if (n < at) vp_reject();
	byte *image = (byte*)malloc((size_t)n + 1), *all = image; /* one byte longer, poisoned by position only */
	image = (byte*)realloc(all, (size_t)(n ? n : 1));
	for (int i = 0; i < n; i++) image[i] = (byte)(i + 1);
	if (n >= at + 4) memcpy(image + at, &v, 4);
	reader.startByte = image; reader.current = image + at; reader.length = n; reader.lastByte = image + n;
	fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(&reader, width, isCount);
	vp_assert(reader.current >= image && reader.current <= image + n, "the reader stays inside the image");
	bool over = isCount && (uint64_t)v * width > UINT32_MAX;
	if (n >= at + 4) {
		vp_assert(reader.current == image + at + 4, "the header is four bytes");
		if (!over) {
			vp_assert(h.startPosition == (uint32_t)at + 4, "the collection starts after its header");
			vp_assert(isCount ? h.count == v && h.length == v * width : h.length == v && h.count == (width ? v / width : 0), "header as announced");
		}
	}
	bool elsewhere = vp_bool();
	if (elsewhere) { if (n >= at + 5) reader.current++; else vp_reject(); }
	vp_fault_plan(2);
	byte *before = reader.current;
	Collection *c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
	vp_assert(reader.current >= image && reader.current <= image + n, "the reader stays inside the image");
	uint64_t len = isCount ? (uint64_t)v * width : v;
	bool fits = n >= at + 4 && (uint64_t)(at + 4) + len <= (uint64_t)n && !over && !elsewhere;
	if (c == NULL) {
		vp_assert(vp_live == 0, "a refused collection owns nothing");
		vp_assert(!fits || vp_faults > 0, "a collection that fits is created");
	} else {
		vp_assert(fits, "a collection beyond the image is refused");
		vp_assert(reader.current == before + len, "the reader is moved past the collection");
		uint32_t count = h.count, w = count ? (uint32_t)len / count : 0;
		static const uint32_t idx[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x7FFFFFFF, 0xFFFFFFFF };
		uint32_t i = idx[vp_range(0, 12)];
		memset(&item, 0, sizeof item);
		bool noexc = vp_bool();
		byte *p = (byte*)c->get(c, i, &item, noexc ? NULL : exception);
		if (w != 0 ? i < count : i < len) {
			vp_assert(p == before + (w ? i * w : i), "the address of the item asked for");
			vp_assert(p >= image && p + (w ? w : 1) <= image + n, "the item is inside the image");
			vp_assert(EXCEPTION_OKAY, "no exception for an item that is there");
			vp_assert(item.data.ptr == p && item.collection == c, "the item is the one returned");
			c->release(&item);
		} else {
			vp_assert(p == NULL, "no item outside the collection");
			vp_assert(noexc || exception->status == (w ? COLLECTION_INDEX_OUT_OF_RANGE : COLLECTION_OFFSET_OUT_OF_RANGE), "out of range is reported");
		}
		c->freeCollection(c);
		vp_assert(vp_live == 0, "freeing a collection frees everything");
	}
	free(image);
}

/* ---------------------------------------------------- collections over files */

/* @unit file_collection_bounded
 * @property P04
 * @kind enum
 * @entry h_file_collection
 * @contracts fiftyoneDegreesCollectionCreateFromFile fiftyoneDegreesCollectionReadFileFixed fiftyoneDegreesCollectionReadFileVariable fiftyoneDegreesCollectionHeaderFromFile getPartialFixed getPartialVariable getFile getFromCache loaderCache fiftyoneDegreesStringRead
 * @secs 40
 * @bound up to 3 records, fixed width 3 or strings, every preloading 0 to 4, no cache or one of 1 or 2 entries, truncated and corrupt files, two gets with one failing call (or all from one on) or three without, at most 2 items held
 */
/* @unit file_collection_faults
 * @property P04
 * @kind enum
 * @entry h_file_collection_faults
 * @contracts fiftyoneDegreesCollectionCreateFromFile
 * @secs 40
 * @bound as file_collection_bounded, with every single failing call, or all from one on, and two gets
 */
static long fc_at[5]; static uint8_t fc_rec[5][8]; static int fc_len[5];
static void *fc_read_fixed(const CollectionFile *f, uint32_t i, Data *d, Exception *e) { return CollectionReadFileFixed(f, i, d, e); }
static void file_collection(bool faults) {
	EXCEPTION_CREATE;
	vp_use_allocator();
	gf_reset();
	bool variable = vp_bool();
	int n = (int)vp_range(0, 3);
	CollectionConfig config;
	config.loaded = (uint32_t)vp_range(0, 4);
	config.capacity = (uint32_t)vp_range(0, 2); config.concurrency = 1;
	int bad = (int)vp_range(0, variable ? 4 : 1); /* 1: truncated; 2, 3, 4: a negative or too great size in the last record */
	bool isCount = variable ? false : vp_bool();
	if (bad && n == 0) vp_reject();
	/* the file: two bytes, the header, the records, five other bytes */
	gf_data[0] = 0xEE; gf_data[1] = 0xEE; gf_size = 6;
	for (int i = 0; i < n; i++) {
		fc_at[i] = gf_size - 6;
		fc_len[i] = variable ? 3 + i : 3;
		for (int k = 0; k < fc_len[i]; k++) fc_rec[i][k] = (uint8_t)(16 * (i + 1) + k);
		if (variable) { int16_t s = (int16_t)(fc_len[i] - 2); if (i == n - 1) { if (bad == 2) s = -1; if (bad == 3) s = -2; if (bad == 4) s = 40; } memcpy(fc_rec[i], &s, 2); }
		memcpy(gf_data + gf_size, fc_rec[i], (size_t)fc_len[i]); gf_size += fc_len[i];
	}
	uint32_t body = (uint32_t)(gf_size - 6), hv = isCount ? (uint32_t)n : body;
	memcpy(gf_data + 2, &hv, 4);
	if (bad == 1) gf_size--;
	else for (int k = 0; k < 5; k++) gf_data[gf_size++] = 0xDD;
	FilePool pool;
	vp_assert(FilePoolInit(&pool, "data", 2, exception) == SUCCESS && EXCEPTION_OKAY, "pool of files");
	FILE *f = vp_fopen("data", "rb");
	int open = gf_open(), live = vp_live;
	vp_fseek(f, 2, SEEK_SET);
	if (faults) vp_fault_plan(18);
	CollectionHeader header = fiftyoneDegreesCollectionHeaderFromFile(f, variable ? 0 : 3, isCount);
	if (vp_faults) {
		vp_assert(header.length == 0 && header.count == 0, "a header that cannot be read is empty");
		return;
	}
	vp_assert(header.startPosition == 6 && header.length == body && header.count == (variable ? 0 : (uint32_t)n), "header as in the file");
	Collection *c = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &config, header, variable ? fiftyoneDegreesStringRead : fc_read_fixed);
	if (c == NULL) {
		vp_assert(vp_faults > 0 || bad, "a collection is created from a good file");
		vp_assert(vp_live == live, "a collection that cannot be created owns nothing");
	} else {
		if (!bad && vp_faults == 0) vp_assert(vp_ftell(f) == 6 + (long)body, "the file is left after the collection");
		Item item[2]; int held[2] = { -1, -1 };
		memset(item, 0, sizeof item);
		for (int op = 0; op < (faults ? 2 : 3); op++) {
			int s = (int)vp_range(0, 1), k = (int)vp_range(0, (uint64_t)n + 1), before = vp_faults;
			if (held[s] >= 0) {
				vp_assert(memcmp(item[s].data.ptr, fc_rec[held[s]], (size_t)fc_len[held[s]]) == 0, "an item that is held keeps its bytes");
				c->release(&item[s]); held[s] = -1;
			}
			uint32_t key = k < n ? (variable ? (uint32_t)fc_at[k] : (uint32_t)k) : k == n ? (variable ? body : (uint32_t)n) : 0x80000000u;
			EXCEPTION_CLEAR;
			DataReset(&item[s].data);
			uint8_t *p = (uint8_t*)c->get(c, key, &item[s], exception);
			if (p != NULL) {
				vp_assert(EXCEPTION_OKAY, "no data with an exception");
				vp_assert(k < n, "no data from outside the collection");
				vp_assert(p == item[s].data.ptr, "the item holds the data");
				bool whole = !(bad && k == n - 1);
				if (whole) { vp_assert(memcmp(p, fc_rec[k], (size_t)fc_len[k]) == 0, "the bytes of the record in the file"); held[s] = k; }
				else { vp_assert(config.loaded > 0, "an inconsistent record is not returned"); c->release(&item[s]); }
			} else {
				int others = held[1 - s] >= 0 && item[1 - s].handle != NULL;
				if (vp_faults > before) vp_assert(!EXCEPTION_OKAY, "a failing call is reported");
				else if (config.capacity > 0 && (int)config.capacity <= others) ; /* every entry of the cache is held */
				else if (k >= n) vp_assert(!EXCEPTION_OKAY, "out of range is reported");
				else if (bad && k == n - 1) vp_assert(!EXCEPTION_OKAY, "an inconsistent record is reported");
				else vp_assert(0, "a record that is there is returned");
			}
		}
		for (int s = 0; s < 2; s++) if (held[s] >= 0) {
			vp_assert(memcmp(item[s].data.ptr, fc_rec[held[s]], (size_t)fc_len[held[s]]) == 0, "an item that is held keeps its bytes");
			c->release(&item[s]);
		}
		c->freeCollection(c);
		vp_assert(vp_live == live, "everything taken is given back");
	}
	vp_fault_at = 0;
	EXCEPTION_CLEAR;
	FileHandle *a = FileHandleGet(&pool, exception), *b = FileHandleGet(&pool, exception);
	vp_assert(a != NULL && b != NULL && a != b, "every file handle is given back");
	FileHandleRelease(a); FileHandleRelease(b);
	vp_assert(gf_open() == open, "no file is opened or closed by a collection");
	FilePoolRelease(&pool);
	vp_assert(gf_open() == 1 && vp_live == 0, "the pool of files is freed");
}
void h_file_collection(void) { file_collection(false); }
void h_file_collection_faults(void) { file_collection(true); }
