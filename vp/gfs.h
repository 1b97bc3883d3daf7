/* A file system in memory, with failing calls (fault.h), standing for the C
 * library's: nothing outside the harness is read, written or removed.
 * Contract assumed of the C library: fread delivers the file's bytes at the
 * position, or sets the error indicator and delivers fewer; fwrite appends the
 * bytes or fewer of them; a failing fclose loses what was written last; fopen
 * for writing creates or empties the file if its folder can be written to;
 * remove removes; readdir delivers every name of the folder once. */
#ifndef VP_GFS_H
#define VP_GFS_H
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include "fault.h"
#define FS_FILES 16
#define FS_DATA 20000
#define FS_PATH 4600
typedef struct { char path[FS_PATH]; uint8_t *data; size_t size; bool exists, inuse; } fs_file;
typedef struct { fs_file *f; long pos; bool open, write, err; } fs_handle;
typedef struct { char path[FS_PATH]; int next; int open; struct dirent ent; } fs_dir;
static fs_file fs[FS_FILES]; static int fs_n; static fs_handle fh[FS_FILES]; static fs_dir fd[4];
static char fs_cwd[FS_PATH]; static const char *fs_nowrite; static bool fs_noproc, fs_longlink; static int fs_removed; static uint8_t fs_pool[FS_FILES][FS_DATA];
static int fs_lost;
static void fs_reset(void) { fs_n = 0; fs_noproc = fs_longlink = false; fs_removed = fs_lost = 0; fs_nowrite = NULL; memset(fh, 0, sizeof fh); memset(fd, 0, sizeof fd); fs_cwd[0] = 0; }
static int fs_open(void) { int n = 0; for (int i = 0; i < FS_FILES; i++) n += fh[i].open; for (int i = 0; i < 4; i++) n += fd[i].open; return n; }
static fs_file *fs_find(const char *p) { for (int i = 0; i < fs_n; i++) if (fs[i].exists && strcmp(fs[i].path, p) == 0) return &fs[i]; return NULL; }
static fs_file *fs_add(const char *p) {
	vp_assert(fs_n < FS_FILES && strlen(p) < FS_PATH, "harness");
	fs_file *f = &fs[fs_n]; f->data = fs_pool[fs_n++];
	strcpy(f->path, p); f->size = 0; f->exists = true; f->inuse = false;
	return f;
}
static fs_handle *fs_of(FILE *f) {
	fs_handle *h = (fs_handle*)(void*)f;
	vp_assert(h >= fh && h < fh + FS_FILES, "a file handle that was opened");
	vp_assert(h->open, "the file handle is still open");
	return h;
}
static FILE *fs_fopen(const char *n, const char *m) {
	bool write = m[0] == 'w';
	fs_file *f = fs_find(n);
	if (vp_fault()) { errno = EMFILE; return NULL; }
	if (f == NULL && !write) { errno = ENOENT; return NULL; }
	if (write) {
		if (fs_nowrite != NULL && strncmp(n, fs_nowrite, strlen(fs_nowrite)) == 0) { errno = EACCES; return NULL; }
		if (f == NULL) f = fs_add(n);
		f->size = 0;
	}
	for (int i = 0; i < FS_FILES; i++) if (!fh[i].open) { fh[i] = (fs_handle){ f, 0, true, write, false }; return (FILE*)(void*)&fh[i]; }
	return NULL;
}
static int fs_fclose(FILE *f) {
	fs_handle *h = fs_of(f);
	h->open = false;
	if (h->write && vp_fault()) { if (h->f->size > 0) { h->f->size--; fs_lost++; } return EOF; }
	return 0;
}
static size_t fs_fread(void *p, size_t size, size_t n, FILE *f) {
	fs_handle *h = fs_of(f);
	vp_assert(!h->write, "only files opened for reading are read");
	if (size == 0 || n == 0) return 0;
	size_t total = size * n, have = (size_t)h->pos < h->f->size ? h->f->size - (size_t)h->pos : 0;
	bool bad = vp_fault();
	if (bad) { h->err = true; have = have > 1 ? have / 2 : 0; if (have > total) have = total - 1; }
	size_t m = total < have ? total : have;
	memcpy(p, h->f->data + h->pos, m);
	h->pos += (long)m;
	return m / size;
}
static size_t fs_fwrite(const void *p, size_t size, size_t n, FILE *f) {
	fs_handle *h = fs_of(f);
	vp_assert(h->write, "only files opened for writing are written");
	if (size == 0 || n == 0) return 0;
	size_t m = size * n;
	if (vp_fault()) { m--; h->err = true; }
	vp_assert(h->f->size + m <= FS_DATA, "harness");
	memcpy(h->f->data + h->f->size, p, m); h->f->size += m;
	return m / size;
}
static int fs_fseek(FILE *f, long off, int whence) {
	fs_handle *h = fs_of(f);
	if (vp_fault()) return -1;
	long to = off + (whence == SEEK_SET ? 0 : (whence == SEEK_CUR ? h->pos : (long)h->f->size));
	if (to < 0) return -1;
	h->pos = to;
	return 0;
}
static long fs_ftell(FILE *f) { fs_handle *h = fs_of(f); if (vp_fault()) return -1; return h->pos; }
static int fs_ferror(FILE *f) { return fs_of(f)->err; }
static int fs_feof(FILE *f) { fs_handle *h = fs_of(f); return !h->write && h->pos >= (long)h->f->size; }
static int fs_remove(const char *n) {
	fs_file *f = fs_find(n);
	if (f == NULL) { errno = ENOENT; return -1; }
	f->exists = false; fs_removed++;
	return 0;
}
static bool fs_isproc(const char *n) { return strncmp(n, "/proc", 5) == 0; }
static bool fs_in(const char *dir, const char *path, const char **name) {
	size_t d = strlen(dir);
	if (strcmp(dir, ".") == 0) { *name = path; return strchr(path, '/') == NULL; }
	if (d > 0 && dir[d - 1] == '/') d--;
	if (strncmp(dir, path, d) != 0 || path[d] != '/') return false;
	*name = path + d + 1;
	return strchr(*name, '/') == NULL;
}
static DIR *fs_opendir(const char *n) {
	bool known = strcmp(n, ".") == 0; const char *name;
	if (fs_isproc(n)) known = !fs_noproc && (strcmp(n, "/proc") == 0 || strcmp(n, "/proc/7/fd") == 0);
	else for (int i = 0; i < fs_n; i++) if (*n && fs_in(n, fs[i].path, &name)) known = true;
	if (!known) { errno = ENOENT; return NULL; }
	for (int i = 0; i < 4; i++) if (!fd[i].open) { fd[i].open = 1; fd[i].next = 0; strcpy(fd[i].path, n); return (DIR*)(void*)&fd[i]; }
	return NULL;
}
static fs_dir *fs_dirof(DIR *p) { fs_dir *d = (fs_dir*)(void*)p; vp_assert(d >= fd && d < fd + 4 && d->open, "a folder handle that was opened"); return d; }
static struct dirent *fs_readdir(DIR *p) {
	fs_dir *d = fs_dirof(p); const char *name;
	if (strcmp(d->path, "/proc") == 0) {
		static const char *e[] = { ".", "cpuinfo", "7", NULL };
		if (e[d->next] == NULL) return NULL;
		strcpy(d->ent.d_name, e[d->next++]);
		return &d->ent;
	}
	if (fs_isproc(d->path)) {
		if (d->next > fs_n + 2) return NULL;
		if (d->next == 0) strcpy(d->ent.d_name, "."); else if (d->next == 1) strcpy(d->ent.d_name, ".."); else sprintf(d->ent.d_name, "%d", d->next - 2);
		d->next++;
		return &d->ent;
	}
	while (d->next < fs_n) {
		fs_file *f = &fs[d->next++];
		if (f->exists && fs_in(d->path, f->path, &name)) { vp_assert(strlen(name) < sizeof d->ent.d_name, "harness"); strcpy(d->ent.d_name, name); return &d->ent; }
	}
	return NULL;
}
static int fs_closedir(DIR *p) { fs_dirof(p)->open = 0; return 0; }
static ssize_t fs_readlink(const char *n, char *buf, size_t size) {
	int i = -1;
	vp_assert(sscanf(n, "/proc/7/fd/%d", &i) == 1, "only the links of processes are read");
	if (i == fs_n && fs_longlink) { memset(buf, 'l', size); return (ssize_t)size; }
	if (i < 0 || i >= fs_n || !fs[i].inuse || !fs[i].exists) { return -1; }
	char full[FS_PATH + 10]; sprintf(full, "%s%s", fs[i].path[0] == '/' ? "" : "/cwd/", fs[i].path);
	size_t m = strlen(full); if (m > size) { errno = ENAMETOOLONG; return -1; }
	memcpy(buf, full, m);
	return (ssize_t)m;
}
static char *fs_getcwd(char *buf, size_t size) { if (strlen(fs_cwd) + 1 > size) return NULL; strcpy(buf, fs_cwd); return buf; }
static int fs_mkdir(const char *n, mode_t m) { (void)n; (void)m; errno = EACCES; return -1; }
static mode_t fs_umask(mode_t m) { (void)m; return 022; }
#define fopen fs_fopen
#define fclose fs_fclose
#define fread fs_fread
#define fwrite fs_fwrite
#define fseek fs_fseek
#define ftell fs_ftell
#undef ferror
#define ferror fs_ferror
#undef feof
#define feof fs_feof
#define remove fs_remove
#define unlink fs_remove
#define opendir fs_opendir
#define readdir fs_readdir
#define closedir fs_closedir
#define readlink fs_readlink
#define getcwd fs_getcwd
#define mkdir fs_mkdir
#define umask fs_umask
#endif
