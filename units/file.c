/* Files: file.c over a file system in memory */
#include "vp.h"
#include "/repo/fiftyone.h"
#include <time.h>
#include "gfs.h"
static int f_rand_calls, f_rand_first;
static int f_rand(void) { f_rand_calls++; return f_rand_calls <= f_rand_first ? 0 : f_rand_calls; }
static void f_srand(unsigned s) { (void)s; }
static int f_clock(int c, struct timespec *t) { (void)c; if (vp_fault()) return -1; t->tv_sec = 1; t->tv_nsec = 5; return 0; }
#define rand f_rand
#define srand f_srand
#define clock_gettime f_clock
#include "/repo/file.c"
#include "/repo/pool.c"
#include "/repo/process.c"
#define PATHMAX FIFTYONE_DEGREES_FILE_MAX_PATH
#define UNIQUE (TEMP_UNIQUE_STRING_LENGTH)
static void f_start(int faults) { fs_reset(); f_rand_calls = 0; f_rand_first = 0; vp_fault_plan(faults); }
static void f_fill(fs_file *f, size_t n, int seed) { f->size = n; for (size_t i = 0; i < n; i++) f->data[i] = (uint8_t)(i * 7 + (i >> 8) + (size_t)seed); }
static bool f_same(const fs_file *a, const fs_file *b) { return a->size == b->size && memcmp(a->data, b->data, a->size) == 0; }
static const char *f_name(const char *p) { const char *l = p; for (; *p; p++) if (*p == '/' || *p == '\\') l = p + 1; return l; }
static void f_base(const char *p, char *out) { const char *n = f_name(p); strcpy(out, n); char *d = strrchr(out, '.'); if (d) *d = 0; }
/* name is BASE-PID-XXXX with capital letters */
static bool f_istemp(const char *name, const char *master) {
	static char base[PATHMAX + 100], want[PATHMAX + 200]; f_base(master, base);
	int n = sprintf(want, "%s-%ld-", base, (long)getpid());
	if (strncmp(want, name, (size_t)n) != 0) return false;
	int i = 0; for (const char *c = name + n; *c; c++, i++) if (*c < 'A' || *c > 'Z') return false;
	return i == UNIQUE;
}
static size_t f_tempsize(const char *master) { static char base[PATHMAX + 100], want[PATHMAX + 200]; f_base(master, base); return (size_t)sprintf(want, "%s-%ld-", base, (long)getpid()) + UNIQUE + 1; }

/* @unit file_names_bounded
 * @property P22
 * @kind enum
 * @entry h_names
 * @contracts fiftyoneDegreesFileGetFileName
 * @secs 2
 * @bound paths of up to 6 characters: a . / \
 */
void h_names(void) {
	size_t n = (size_t)vp_range(0, 6); char *s = vp_new(n + 1);
	for (size_t i = 0; i < n; i++) s[i] = "a./\\"[vp_range(0, 3)];
	s[n] = 0;
	vp_assert(fiftyoneDegreesFileGetFileName(s) == f_name(s), "the file name is what follows the last separator");
	free(s);
}

/* @unit file_path_bounded
 * @property P22
 * @kind enum
 * @entry h_path
 * @contracts fiftyoneDegreesFileGetPath
 * @secs 4
 * @bound working directories of up to 3 levels or nearly as long as a path may be, one failing call or all after it, buffers shorter than, as long as and longer than the path
 */
void h_path(void) {
	static char cand[4][FS_PATH]; int n = 0;
	f_start(6);
	int levels = (int)vp_range(1, 3); bool lng = vp_bool();
	if (lng) { size_t want = (size_t)vp_range(PATHMAX - 12, PATHMAX - 1); fs_cwd[0] = '/'; memset(fs_cwd + 1, 'l', want - 1 - 2 * (size_t)(levels - 1)); fs_cwd[want - 2 * (size_t)(levels - 1)] = 0; }
	else strcpy(fs_cwd, "/p");
	for (int i = 1; i < levels; i++) strcat(fs_cwd, i == 1 ? "/q" : "/r");
	static char dir[FS_PATH]; strcpy(dir, fs_cwd);
	bool any = false; bool blocked = false;
	for (int i = levels; i > 0; i--) {
		char *p = cand[n]; sprintf(p, "%s/da/f.x", dir);
		if (strlen(p) >= PATHMAX) blocked = true;
		if (vp_bool()) { fs_add(p); n++; if (strlen(p) < PATHMAX) any = true; else n--; }
		*strrchr(dir, '/') = 0;
	}
	size_t size; long len = any ? (long)strlen(cand[0]) : 8;
	size = (size_t)(len - 2 + (long)vp_range(0, 6));
	char *d = vp_new(size);
	StatusCode s = fiftyoneDegreesFileGetPath("da", "f.x", d, size);
	vp_assert(fs_open() == 0, "no file is left open");
	if (s == SUCCESS) {
		bool found = false; for (int i = 0; i < n; i++) if (memchr(d, 0, size) && strcmp(d, cand[i]) == 0) found = true;
		vp_assert(found, "the path of an existing file is returned");
		if (vp_faults == 0) vp_assert(strcmp(d, cand[0]) == 0, "the closest file is returned");
	}
	else if (vp_faults == 0) vp_assert(!any || blocked || (size_t)len + 1 > size, "a file that exists is found");
	if (vp_faults == 0 && any && !blocked && (size_t)len + 1 > size) vp_assert(s == INSUFFICIENT_MEMORY, "a path that does not fit is reported");
	free(d);
}

/* @unit file_temp_name_bounded
 * @property P22
 * @kind enum
 * @entry h_tempname
 * @contracts fiftyoneDegreesFileAddTempFileName
 * @secs 4
 * @bound eleven master file names, buffers shorter than, as long as and longer than the name, a name that exists already, one failing call or all after it
 */
static const char *f_masters[] = { "a.dat", "a", ".a", "d/a.b.c", "d.x/a", "d.x\\ab.c", "/x/y.z/q.", "", "d/", NULL, NULL };
static const char *f_master(int k) {
	static char longer[2][PATHMAX + 64];
	if (k < 9) return f_masters[k];
	size_t n = k == 9 ? PATHMAX - 1 : PATHMAX; memset(longer[k - 9], 'm', n); longer[k - 9][n] = 0;
	return longer[k - 9];
}
void h_tempname(void) {
	static char before[PATHMAX + 300];
	f_start(4);
	int k = (int)vp_range(0, 10); const char *m = f_master(k); size_t need = f_tempsize(m);
	size_t start = (size_t)vp_range(0, 1) * 3; int how = (int)vp_range(0, 8);
	size_t len = how == 0 ? 0 : (how == 1 ? 1 : need + (size_t)how - 5 > need + 9 ? 2 : need + (size_t)how - 5);
	char *d = vp_new(start + len); memset(d, 'Z', start + len); memcpy(d, "p/q", start);
	if (vp_bool()) {
		static char ex[FS_PATH]; static char base[PATHMAX + 100]; f_base(m, base); 
		int n = sprintf(ex, "%.*s%s-%ld-", (int)start, "p/q", base, (long)getpid()); memset(ex + n, 'A', UNIQUE); ex[n + UNIQUE] = 0;
		fs_add(ex); f_rand_first = UNIQUE;
	}
	memcpy(before, d, start);
	StatusCode s = fiftyoneDegreesFileAddTempFileName(m, d, start, len);
	vp_assert(fs_open() == 0, "no file is left open");
	vp_assert(memcmp(before, d, start) == 0, "what is before the name is kept");
	if (s == SUCCESS) {
		vp_assert(memchr(d + start, 0, len) != NULL, "the name ends within the buffer");
		vp_assert(f_istemp(d + start, m), "the name is that of the file, the process and a unique part");
		if (vp_faults == 0) vp_assert(fs_find(d) == NULL, "the name is not that of a file that exists");
	}
	if (vp_faults == 0) vp_assert(s == (need > len || k == 10 ? INSUFFICIENT_MEMORY : SUCCESS), "success exactly if the name fits");
	free(d);
}

/* @unit file_new_temp_bounded
 * @property P22
 * @kind enum
 * @entry h_newtemp
 * @contracts fiftyoneDegreesFileNewTempFile fiftyoneDegreesFileCreateTempFile fiftyoneDegreesFileCopy
 * @secs 15
 * @bound up to 3 paths out of 8 (nearly too long, too long, not writable, empty, with and without a separator), files of 7 sizes, buffers around the length of the path, one failing call or all after it
 */
static const char *f_path(int k) {
	static char l[3][PATHMAX + 64]; static const char *p[] = { "", "t", "t/", "w\\", "nw" };
	if (k < 5) return p[k];
	size_t n = k == 5 ? PATHMAX - 60 : (k == 6 ? PATHMAX - 21 : PATHMAX + 20);
	memset(l[k - 5], 'l', n); l[k - 5][n] = 0;
	return l[k - 5];
}
static size_t f_size(void) { static const size_t s[] = { 0, 1, 1025, 8191, 8192, 8193, 17000 }; return s[vp_range(0, 6)]; }
static void f_full(int k, const char *name, char *out) { const char *p = f_path(k); size_t n = strlen(p); sprintf(out, "%s%s%s", p, n && p[n - 1] != '/' && p[n - 1] != '\\' ? "/" : "", name); }
void h_newtemp(void) {
	static char full[2 * FS_PATH]; static char zero[64];
	f_start(12);
	fs_nowrite = "nw";
	bool old = vp_bool(); const char *m = vp_bool() ? "src/a.dat" : "a"; bool exists = vp_range(0, 7) > 0;
	fs_file *src = fs_add(m); f_fill(src, f_size(), 3); src->exists = exists;
	int count = (int)vp_range(0, 3), k[3]; const char *paths[3]; bool null = count == 0 && vp_bool();
	for (int i = 0; i < count; i++) { k[i] = (int)vp_range(0, 7); paths[i] = f_path(k[i]); }
	size_t need = old ? UNIQUE : f_tempsize(m);
	size_t len = old ? PATHMAX : (vp_bool() ? PATHMAX : need + (size_t)vp_range(0, 4) - 1); if (!old && vp_range(0, 9) == 0) len = (size_t)vp_range(0, 2);
	char *d = vp_new(len); memset(d, 'Z', len);
	int files = 0; for (int i = 0; i < fs_n; i++) files += fs[i].exists;
	StatusCode s = old ? fiftyoneDegreesFileCreateTempFile(m, null ? NULL : paths, count, d) : fiftyoneDegreesFileNewTempFile(m, null ? NULL : paths, count, d, len);
	int now = 0; fs_file *made = NULL; for (int i = 0; i < fs_n; i++) { now += fs[i].exists; if (fs[i].exists && &fs[i] != src) made = &fs[i]; }
	vp_assert(fs_open() == 0, "no file is left open");
	int want = -1; /* the first path the file can be created in */
	for (int i = 0; i < (count == 0 ? 1 : count) && want < 0; i++) {
		int p = count == 0 ? 0 : k[i]; f_full(p, "", full);
		if (strncmp(full, "nw", 2) != 0 && strlen(full) + need <= len && strlen(full) + need <= PATHMAX && !(old && strlen(f_path(p)) + 1 + UNIQUE >= PATHMAX)) want = p;
	}
	if (s == SUCCESS) {
		vp_assert(exists, "there is no copy of what does not exist");
		vp_assert(now == files + 1, "one file is created");
		vp_assert(memchr(d, 0, len) != NULL && made != NULL && strcmp(made->path, d) == 0, "the path of the new file is returned");
		vp_assert(f_same(made, src), "the new file is a copy of the master file");
		if (!old) vp_assert(f_istemp(f_name(d), m), "the name of the new file is a temporary one");
		if (vp_faults == 0) { f_full(want < 0 ? 0 : want, f_name(d), full); vp_assert(want >= 0 && strcmp(full, d) == 0, "the file is created in the first path it can be"); }
	}
	else {
		vp_assert(now == files, "a failure leaves no file");
		if (vp_faults == 0) vp_assert(!exists || want < 0, "a file is created if there is a path for it");
	}
	(void)zero; free(d);
}

/* @unit file_existing_bounded
 * @property P22
 * @kind enum
 * @entry h_existing
 * @contracts fiftyoneDegreesFileGetExistingTempFile fiftyoneDegreesFileDeleteUnusedTempFiles
 * @secs 15
 * @bound up to 3 files beside the master, up to 2 paths out of 4 (empty, with and without a separator, too long), sizes around the 1024 byte buffers, up to 3 lengths to compare, files in use (their full path within the length of a path), one failing call or all after it
 */
void h_existing(void) {
	static const char *names[] = { "m-1-AB", "m.dat", "mx", "am", "m" };
	static char longdir[PATHMAX + 64];
	f_start(14);
	static const size_t sizes[] = { 0, 5, 1023, 1024, 1025, 2060 };
	size_t size = sizes[vp_range(0, 5)]; const char *m = vp_bool() ? "src.d/m.dat" : "m.dat"; bool exists = vp_range(0, 7) > 0;
	fs_file *src = fs_add(m); f_fill(src, size, 1); src->exists = exists;
	long cmp = vp_bool() ? -1 : (long)vp_range(0, 1) * (long)(size / 2) + (long)vp_range(0, 1);
	static const int lens[] = { -1, -2, -3, -7, -8, 5 }; size_t ln = (size_t)(PATHMAX + lens[vp_range(0, 5)]); memset(longdir, 'l', ln); longdir[ln] = 0;
	const char *dirs[] = { "", "t", "t/", longdir };
	int n = (int)vp_range(0, 3), dir[3]; bool same[3], use[3]; fs_file *f[3];
	for (int i = 0; i < n; i++) {
		static char p[2 * FS_PATH]; dir[i] = (int)vp_range(0, 2); if (dir[i] == 2) dir[i] = 3;
		const char *nm = names[vp_range(0, 4)]; sprintf(p, "%s%s%s", dirs[dir[i]], dir[i] ? "/" : "", nm);
		if (fs_find(p) || strcmp(p, m) == 0) vp_reject();
		f[i] = fs_add(p); int how = (int)vp_range(0, 3); long diff = -1; f_fill(f[i], size, 1);
		if (how == 1 && size > 0) { static const int at[] = { 0, 1, 2 }; int w = at[vp_range(0, 2)]; diff = w == 0 ? 0 : (w == 1 ? (long)size - 1 : (long)size / 2); f[i]->data[diff] ^= 1; }
		if (how == 2) { f[i]->size++; f[i]->data[size] = 0; }
		if (how == 3 && size > 0) f[i]->size--;
		same[i] = exists && f[i]->size == size && (diff < 0 || (cmp >= 0 && diff >= cmp)) && nm[0] == 'm' && strcmp(nm, "m.dat") != 0;
		use[i] = vp_range(0, 3) == 0; f[i]->inuse = use[i];
	}
	fs_noproc = vp_range(0, 7) == 0; fs_longlink = vp_range(0, 7) == 0;
	int count = (int)vp_range(0, 2), pk[2]; const char *paths[2]; bool null = count == 0 && vp_bool();
	for (int i = 0; i < count; i++) { pk[i] = (int)vp_range(0, 3); paths[i] = dirs[pk[i]]; }
	int first = 99; bool inlist[3];
	for (int i = 0; i < n; i++) {
		inlist[i] = false;
		for (int j = 0; j < (count ? count : 1); j++) if ((count == 0 ? 0 : pk[j]) == dir[i] || (count && pk[j] == 2 && dir[i] == 1)) {
			if (strlen(f[i]->path) >= PATHMAX) continue;
			inlist[i] = true; if (same[i] && j < first) first = j; 
		}
	}
	if (vp_bool()) {
		char *d = vp_new(PATHMAX);
		bool r = fiftyoneDegreesFileGetExistingTempFile(m, null ? NULL : paths, count, cmp, d);
		if (vp_faults == 0) vp_assert(r == (first < 99), "a copy is found exactly if there is one");
		if (r) {
			bool ok = false;
			for (int i = 0; i < n; i++) if (inlist[i] && same[i]) {
				static char p[2 * FS_PATH]; const char *nm = f_name(f[i]->path);
				for (int j = 0; j < (count ? count : 1); j++) {
					if (vp_faults == 0 && j != first) continue;
					const char *dd = count ? paths[j] : ""; size_t l = strlen(dd); sprintf(p, "%s%s%s", dd, l && dd[l - 1] != '/' ? "/" : "", nm);
					if (strcmp(p, d) == 0 && fs_find(d) == f[i]) ok = true;
				}
			}
			vp_assert(ok, "the path returned is that of a copy in the first path with one");
		}
		vp_assert(fs_removed == 0, "nothing is removed when looking");
		free(d);
	}
	else {
		int r = fiftyoneDegreesFileDeleteUnusedTempFiles(m, null ? NULL : paths, count, cmp);
		vp_assert(r == fs_removed, "the number of deleted files is returned");
		vp_assert(src->exists == exists, "the master file is kept");
		for (int i = 0; i < n; i++) {
			bool must = inlist[i] && same[i] && !fs_noproc && vp_faults == 0;
			for (int j = 0; j < n; j++) if (use[j]) { /* a name ending like that of a file in use may be kept */
				const char *a = f_name(f[i]->path), *u = f[j]->path; size_t la = strlen(a), lu = strlen(u);
				if (j == i || (lu >= la && strcmp(u + lu - la, a) == 0)) must = false;
			}
			if (!f[i]->exists) vp_assert(inlist[i] && same[i] && (!use[i] || strlen(f[i]->path) + 6 >= PATHMAX) && !fs_noproc, "only copies that are not in use are deleted");
			if (must) vp_assert(!f[i]->exists, "a copy that is not in use is deleted");
		}
	}
	vp_assert(fs_open() == 0, "no file or folder is left open");
}

/* @unit file_read_bounded
 * @property P22
 * @kind enum
 * @entry h_read
 * @contracts fiftyoneDegreesFileReadToByteArray fiftyoneDegreesFileGetSize fiftyoneDegreesFileCopy fiftyoneDegreesFileWrite
 * @secs 6
 * @bound files of 7 sizes, one failing call or all after it
 */
void h_read(void) {
	vp_use_allocator();
	f_start(10);
	fs_file *src = fs_add("x/a"); f_fill(src, f_size(), 9); src->exists = vp_range(0, 5) > 0; bool nw = vp_range(0, 5) == 0; if (nw) fs_nowrite = "y/";
	int what = (int)vp_range(0, 3);
	if (what == 0) {
		MemoryReader r; memset(&r, 0x5a, sizeof r);
		StatusCode s = fiftyoneDegreesFileReadToByteArray("x/a", &r);
		vp_assert(fs_open() == 0, "no file is left open");
		if (s == SUCCESS) {
			vp_assert(src->exists && r.length == (long)src->size && r.startByte == r.current && r.lastByte == r.startByte + src->size, "the length is that of the file");
			vp_assert(memcmp(r.startByte, src->data, src->size) == 0, "the bytes are those of the file");
			Free(r.startByte);
		}
		else if (vp_faults == 0) vp_assert(!src->exists || src->size == 0, "a file that can be read is read");
		vp_assert(vp_live == 0, "no memory is kept after a failure");
	}
	else if (what == 1) {
		long s = fiftyoneDegreesFileGetSize("x/a");
		vp_assert(s == -1 ? vp_faults > 0 || !src->exists : src->exists && s == (long)src->size, "the size is that of the file");
	}
	else if (what == 2) {
		StatusCode s = fiftyoneDegreesFileCopy("x/a", "y/b"); fs_file *c = fs_find("y/b");
		if (s == SUCCESS) vp_assert(src->exists && c != NULL && f_same(c, src), "the copy is identical");
		else { vp_assert(c == NULL, "a failed copy leaves no file"); if (vp_faults == 0) vp_assert(!src->exists || nw, "a file that can be copied is copied"); }
	}
	else {
		StatusCode s = fiftyoneDegreesFileWrite("y/b", src->data, src->size); fs_file *c = fs_find("y/b");
		if (s == SUCCESS) vp_assert(c != NULL && c->size == src->size && memcmp(c->data, src->data, src->size) == 0, "the file has the bytes given");
		else if (vp_faults == 0) vp_assert(nw, "a file that can be written is written");
	}
	vp_assert(fs_open() == 0, "no file is left open");
}

/* @unit file_pool_bounded
 * @property P22
 * @kind enum
 * @entry h_fpool
 * @contracts fiftyoneDegreesFilePoolInit fiftyoneDegreesFilePoolRelease fiftyoneDegreesFileHandleGet
 * @secs 2
 * @bound up to 4 handles, one failing call or all after it
 */
void h_fpool(void) {
	EXCEPTION_CREATE
	vp_use_allocator();
	f_start(12);
	fs_file *src = fs_add("x/a"); f_fill(src, vp_bool() ? 0 : 50, 9); src->exists = vp_range(0, 5) > 0;
	FilePool p; memset(&p, 0, sizeof p); int n = (int)vp_range(0, 4);
	StatusCode s = fiftyoneDegreesFilePoolInit(&p, "x/a", (uint16_t)n, exception);
	if (s == SUCCESS) {
		vp_assert(EXCEPTION_OKAY && src->exists && n > 0 && src->size > 0 && p.length == (long)src->size, "the length is that of the file");
		vp_assert(fs_open() == n, "there is a handle for each concurrent user");
		FileHandle *h[5];
		for (int i = 0; i < n; i++) { h[i] = fiftyoneDegreesFileHandleGet(&p, exception); vp_assert(EXCEPTION_OKAY && h[i] != NULL && fs_of(h[i]->file)->f == src, "a handle is open on the file"); for (int j = 0; j < i; j++) vp_assert(h[j]->file != h[i]->file, "a handle has one user"); }
		vp_assert(fiftyoneDegreesFileHandleGet(&p, exception) == NULL, "there are no more handles");
		for (int i = 0; i < n; i++) fiftyoneDegreesFileHandleRelease(h[i]);
	}
	else if (vp_faults == 0) vp_assert(!src->exists || n == 0 || src->size == 0, "a pool for a file is created");
	if (n > 0) fiftyoneDegreesFilePoolRelease(&p);
	vp_assert(fs_open() == 0, "no file is left open"); vp_assert(vp_live == 0, "no memory is left");
}
