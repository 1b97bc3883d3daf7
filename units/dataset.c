/* Data sets: dataset.c with the real resource manager, headers, properties and pool */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
static bool T_have, T_reuse_ok; static char T_master[FIFTYONE_DEGREES_FILE_MAX_PATH], T_deleted[FIFTYONE_DEGREES_FILE_MAX_PATH]; static int T_made, T_gone, T_status; static fiftyoneDegreesConfigBase T_config; static const char *T_dirs[2];
static bool t_existing(const char *m, const char **d, int n, long b, const char *dst) { vp_assert(strcmp(m, T_master) == 0 && d == T_dirs && n == T_config.tempDirCount && b == 55, "an existing file is looked for in the folders configured"); if (T_reuse_ok) { strcpy((char*)dst, "old"); T_have = true; } return T_reuse_ok; }
static fiftyoneDegreesStatusCode t_new(const char *m, const char **d, int n, const char *dst, size_t size) { vp_assert(strcmp(m, T_master) == 0 && d == T_dirs && n == T_config.tempDirCount && size == FIFTYONE_DEGREES_FILE_MAX_PATH, "a file is made in the folders configured"); T_made++; if (T_status) return FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR; strcpy((char*)dst, "new"); T_have = true; return FIFTYONE_DEGREES_STATUS_SUCCESS; }
static fiftyoneDegreesStatusCode t_delete(const char *f) { strcpy(T_deleted, f); T_gone++; return FIFTYONE_DEGREES_STATUS_SUCCESS; }
static fiftyoneDegreesStatusCode t_read(const char *f, fiftyoneDegreesMemoryReader *r) { vp_assert(strcmp(f, "file") == 0, "the file of the data set is read"); r->current = NULL; if (T_status) return FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; void *p = fiftyoneDegreesMalloc(4); if (!p) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; r->current = r->startByte = p; r->length = 4; return FIFTYONE_DEGREES_STATUS_SUCCESS; }
#undef FileGetExistingTempFile
#define FileGetExistingTempFile t_existing
#undef FileNewTempFile
#define FileNewTempFile t_new
#undef FileDelete
#define FileDelete t_delete
#undef FileReadToByteArray
#define FileReadToByteArray t_read
static int T_pool, T_reset; static const void *T_poolp;
static void t_pool(fiftyoneDegreesFilePool *p) { T_pool++; T_poolp = p; FilePoolRelease(p); }
static void t_poolreset(fiftyoneDegreesFilePool *p) { T_reset++; T_poolp = p; FilePoolReset(p); }
#undef FilePoolRelease
#define FilePoolRelease t_pool
#undef FilePoolReset
#define FilePoolReset t_poolreset
#include "/repo/dataset.c"
/* a kind of data set with a part of its own */
typedef struct { DataSetBase b; int id; void *own; } tset;
static int T_n, T_active, T_users[16], T_freed[16], T_taken; static const void *T_source; static PropertiesAvailable *T_props;
static int T_fail; /* the step of initialisation that fails */
static tset *T_set[16];
static void t_free(void *p) { tset *t = p; vp_assert(t->id >= 0 && t->id < T_n && T_set[t->id] == t && T_freed[t->id]++ == 0, "a data set is freed once"); vp_assert(T_users[t->id] == 0, "no data set is freed while it is in use"); fiftyoneDegreesDataSetFree(&t->b); fiftyoneDegreesFree(t->own); fiftyoneDegreesFree(t); }
static char T_name[3] = "\x02\x00" "n"; static char T_string[4]; static int T_held; static fiftyoneDegreesCollection T_col;
static void t_rel(fiftyoneDegreesCollectionItem *i) { vp_assert(i->data.ptr == (byte*)T_string && T_held > 0, "a name is released once"); T_held--; i->data.ptr = NULL; }
static fiftyoneDegreesString *t_name(void *s, uint32_t i, fiftyoneDegreesCollectionItem *it) { (void)s; if (i > 0) return NULL; it->data.ptr = (byte*)T_string; it->collection = &T_col; T_held++; return (fiftyoneDegreesString*)T_string; }
static uint32_t t_evid(void *s, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { (void)s; (void)p; (void)e; return 0; }
static long t_header(void *s, uint32_t i, fiftyoneDegreesCollectionItem *it) { (void)s; if (i > 0) return -1; it->data.ptr = (byte*)T_string; it->collection = &T_col; T_held++; return 0; }
static StatusCode t_init(tset *t, const void *config, PropertiesRequired *p, bool freeSet) {
	vp_assert(config == &T_config, "the configuration is that of the data set replaced");
	vp_assert(p->existing == T_props && p->array == NULL && p->string == NULL, "the properties are those of the data set replaced");
	StatusCode s = SUCCESS; fiftyoneDegreesDataSetReset(&t->b); t->b.config = config; t->own = NULL; t->id = -1;
	if (T_fail == 1) s = CORRUPT_DATA;
	if (s == SUCCESS && (t->own = fiftyoneDegreesMalloc(3)) == NULL) s = INSUFFICIENT_MEMORY;
	if (s == SUCCESS) s = fiftyoneDegreesDataSetInitProperties(&t->b, p, t, t_name, t_evid);
	if (s == SUCCESS) s = fiftyoneDegreesDataSetInitHeaders(&t->b, t, t_header);
	if (s == SUCCESS && T_fail == 2) s = FILE_READ_ERROR;
	if (s != SUCCESS) { fiftyoneDegreesDataSetFree(&t->b); if (t->own) fiftyoneDegreesFree(t->own); t->own = NULL; if (freeSet) fiftyoneDegreesFree(t); return s; }
	t->id = T_n; T_set[T_n] = t; T_n++; return s;
}
static StatusCode t_file(void *t, const void *c, PropertiesRequired *p, const char *f, Exception *e) { (void)e; vp_assert(f == T_source, "the file asked for is read"); return t_init(t, c, p, true); }
static StatusCode t_memory(void *t, const void *c, PropertiesRequired *p, void *m, long l, Exception *e) { (void)e; vp_assert(((DataSetBase*)t)->memoryToFree == NULL, "the memory of the caller is not freed"); vp_assert(m == T_source && l == 33, "the memory asked for is read"); return t_init(t, c, p, false); }
static void reload(int ops, bool faults) {
	EXCEPTION_CREATE; vp_use_allocator(); int live = vp_live; ResourceManager m; PropertiesRequired all = PropertiesDefault;
	*(int16_t*)T_string = 2; T_string[2] = 'n'; T_string[3] = 0; (void)T_name; T_col.release = t_rel; T_held = 0; memset(T_users, 0, sizeof T_users); memset(T_freed, 0, sizeof T_freed); T_n = 0; T_fail = 0; T_taken = 0; T_gone = 0;
	memset(&T_config, 0, sizeof T_config);
	tset *first = fiftyoneDegreesMalloc(sizeof *first); T_props = NULL; if (t_init(first, &T_config, &all, true) != SUCCESS) vp_reject();
	ResourceManagerInit(&m, first, &first->b.handle, t_free); T_active = 0;
	DataSetBase *held[8]; int nh = 0;
	if (faults) vp_fault_plan(10);
	for (int k = 0; k < ops; k++) {
		int op = (int)vp_range(0, 3);
		if (op == 0) { if (nh == 8) vp_reject(); DataSetBase *d = fiftyoneDegreesDataSetGet(&m); vp_assert(d == &T_set[T_active]->b, "a new user gets the active data set"); T_users[T_active]++; held[nh++] = d; }
		else if (op == 1) { if (nh == 0) vp_reject(); int i = (int)vp_range(0, (uint64_t)nh - 1); DataSetBase *d = held[i]; int id = ((tset*)d)->id; vp_assert(T_freed[id] == 0 && ((tset*)d)->own != NULL && d->available->count == 1, "a data set is usable until it is released"); T_users[id]--; held[i] = held[--nh]; fiftyoneDegreesDataSetRelease(d); vp_assert(T_freed[id] == (id != T_active && T_users[id] == 0), "a data set replaced is freed when its last user releases it"); }
		else {
			int before = vp_live, n = T_n, f = vp_faults, hold = T_held; T_fail = (int)vp_range(0, 2); T_source = &T_fail; T_props = T_set[T_active]->b.available; volatile ResourceHandle *act = m.active; int freed0 = T_freed[T_active];
			StatusCode s = op == 2 ? fiftyoneDegreesDataSetReloadManagerFromFile(&m, (const char*)&T_fail, sizeof(tset), t_file, exception) : fiftyoneDegreesDataSetReloadManagerFromMemory(&m, &T_fail, 33, sizeof(tset), t_memory, exception);
			bool fault = vp_faults > f;
			if (s == SUCCESS) {
				vp_assert(T_fail == 0 && T_n == n + 1, "a reload succeeds when initialisation does");
				int old = T_active; T_active = n;
				vp_assert(T_freed[old] == (T_users[old] == 0), "the old data set is freed when nobody uses it"); vp_assert(m.active == T_set[n]->b.handle && m.active->resource == T_set[n], "the new data set is active");
			} else {
				vp_assert(T_fail != 0 || fault, "a reload fails when a step does");
				if (!fault) vp_assert(s == (T_fail == 1 ? CORRUPT_DATA : FILE_READ_ERROR), "the status says what failed");
				vp_assert(m.active == act && T_freed[T_active] == freed0, "the old data set stays active");
				vp_assert(vp_live == before && T_held == hold, "a failed reload leaves nothing allocated");
				if (T_n > n) { vp_assert(T_freed[n] == 1, "a data set that cannot be used is freed"); }
			}
		}
	}
	while (nh > 0) { DataSetBase *d = held[--nh]; T_users[((tset*)d)->id]--; fiftyoneDegreesDataSetRelease(d); }
	ResourceManagerFree(&m); for (int i = 0; i < T_n; i++) vp_assert(T_freed[i] == 1, "every data set is freed once");
	vp_assert(vp_live == live && T_held == 0, "nothing is left allocated"); vp_assert(T_gone == 0, "no file is deleted when there is no temporary file");
}
/* @unit dataset_reload_bounded
 * @property P21
 * @kind enum
 * @entry h_reload
 * @contracts fiftyoneDegreesDataSetReloadManagerFromFile fiftyoneDegreesDataSetReloadManagerFromMemory fiftyoneDegreesDataSetGet fiftyoneDegreesDataSetRelease fiftyoneDegreesDataSetFree fiftyoneDegreesDataSetReset fiftyoneDegreesDataSetInitProperties fiftyoneDegreesDataSetInitHeaders
 * @secs 20
 * @bound histories of five uses, releases and reloads, initialisation failing at its start or end
 */
void h_reload(void) { reload(5, false); }
/* @unit dataset_reload_faults
 * @property P21
 * @kind enum
 * @entry h_reload_faults
 * @contracts fiftyoneDegreesDataSetReloadManagerFromFile fiftyoneDegreesDataSetReloadManagerFromMemory
 * @secs 15
 * @bound histories of three uses, releases and reloads, every allocation failing
 */
void h_reload_faults(void) { reload(3, true); }
/* @unit dataset_init_bounded
 * @property P21
 * @kind enum
 * @entry h_init
 * @contracts fiftyoneDegreesDataSetInitFromFile fiftyoneDegreesDataSetInitInMemory fiftyoneDegreesDataSetFree fiftyoneDegreesDataSetReset fiftyoneDegreesDataSetInitProperties fiftyoneDegreesDataSetInitHeaders
 * @secs 10
 * @bound file names of 0 to 3 and around the greatest number of characters, temporary files made, found or failing, every allocation failing
 */
void h_init(void) {
	vp_use_allocator(); int live = vp_live; DataSetBase *d = vp_new(sizeof *d); memset(d, 0x5a, sizeof *d); T_reset = 0; fiftyoneDegreesDataSetReset(d); vp_assert(T_reset == 1 && T_poolp == &d->filePool && d->fileName[0] == 0 && d->masterFileName[0] == 0 && !d->memoryToFree && !d->isInMemory && !d->uniqueHeaders && !d->available && !d->overridable && !d->config && !d->handle, "a data set that is reset holds nothing");
	T_col.release = t_rel; T_held = 0; *(int16_t*)T_string = 2; T_string[2] = 'n'; T_string[3] = 0;
	static const size_t L[] = { 0, 1, 3, FIFTYONE_DEGREES_FILE_MAX_PATH - 2, FIFTYONE_DEGREES_FILE_MAX_PATH - 1, FIFTYONE_DEGREES_FILE_MAX_PATH, FIFTYONE_DEGREES_FILE_MAX_PATH + 9 };
	size_t l = L[vp_range(0, 6)]; char *name = vp_new(l + 1); memset(name, 'f', l); name[l] = 0;
	memset(&T_config, 0, sizeof T_config); T_config.useTempFile = vp_bool(); T_config.reuseTempFile = vp_bool(); T_config.tempDirs = T_dirs; T_config.tempDirCount = 2; d->config = &T_config;
	T_reuse_ok = vp_bool(); T_status = (int)vp_bool(); T_made = T_gone = 0; T_have = false; strncpy(T_master, name, sizeof T_master - 1);
	StatusCode s = fiftyoneDegreesDataSetInitFromFile(d, name, 55);
	if (l >= FIFTYONE_DEGREES_FILE_MAX_PATH) { vp_assert(s == FILE_PATH_TOO_LONG, "a path that does not fit is refused"); vp_assert(d->fileName[0] == 0 && d->masterFileName[0] == 0 && T_made == 0, "nothing is taken over"); }
	else {
		vp_assert(strcmp(d->masterFileName, name) == 0, "the master file is the one given");
		if (!T_config.useTempFile) { vp_assert(s == SUCCESS && strcmp(d->fileName, name) == 0 && T_made == 0, "the file is the one given"); }
		else if (T_config.reuseTempFile && T_reuse_ok) vp_assert(s == SUCCESS && strcmp(d->fileName, "old") == 0 && T_made == 0, "a temporary file that is there is used");
		else vp_assert(T_made == 1 && (T_status ? s == TEMP_FILE_ERROR : s == SUCCESS && strcmp(d->fileName, "new") == 0), "a temporary file is made");
	}
	strcpy((char*)d->fileName, "file"); T_status = (int)vp_bool(); vp_fault_plan(4); MemoryReader r; int before = vp_live;
	s = fiftyoneDegreesDataSetInitInMemory(d, &r);
	if (s == SUCCESS) vp_assert(!T_status && d->memoryToFree == r.current && vp_live == before + 1, "the memory read is kept to be freed"); else { vp_assert((T_status || vp_faults) && d->memoryToFree == NULL && vp_live == before, "nothing is kept when the file can't be read"); vp_assert(s == (T_status ? FILE_READ_ERROR : INSUFFICIENT_MEMORY), "the status says what failed"); }
	int f = vp_faults; PropertiesRequired q = PropertiesDefault; static const char *names[] = { "zz", "yy" }; int ask = (int)vp_range(0, 2); if (ask == 1) q.string = "zz"; if (ask == 2) { q.array = names; q.count = 2; } s = fiftyoneDegreesDataSetInitProperties(d, &q, d, t_name, t_evid);
	if (vp_faults == f) vp_assert(s == (ask ? REQ_PROP_NOT_PRESENT : SUCCESS), "properties are there exactly when one was asked for that is available"); else vp_assert(s != SUCCESS, "a failure is reported");
	if (s == SUCCESS) vp_assert(d->available->count == 1 && d->available->items[0].evidenceProperties != NULL, "properties are set up");
	f = vp_faults; s = fiftyoneDegreesDataSetInitHeaders(d, d, t_header); vp_assert((s == SUCCESS) == (vp_faults == f) && (s == SUCCESS) == (d->uniqueHeaders != NULL), "headers are set up unless memory runs out");
	vp_fault_at = -1; d->overridable = fiftyoneDegreesMalloc(8);
	T_gone = 0; T_deleted[0] = 0; T_pool = 0; fiftyoneDegreesDataSetFree(d);
	vp_assert(T_pool == 1 && T_poolp == &d->filePool, "the file handles are released with the data set");
	vp_assert(T_gone == (T_config.useTempFile ? 1 : 0) && strcmp(T_deleted, T_config.useTempFile ? "file" : "") == 0, "a temporary file is deleted with its data set");
	vp_assert(d->available == NULL && d->uniqueHeaders == NULL && d->memoryToFree == NULL && d->overridable == NULL, "a data set that is freed holds nothing");
	free(name); free(d); vp_assert(T_held == 0 && vp_live == live, "nothing is left allocated");
}
