/* A file in memory standing for the data file, with failing calls (fault.h).
 * Contract assumed of the C library: fread delivers exactly the file's bytes at
 * the position and moves past them, or fails; fseek moves or fails; ftell is
 * the position; fopen gives an unused handle or fails. */
#ifndef VP_GFILE_H
#define VP_GFILE_H
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include "fault.h"
#define GF_MAX 8
typedef struct { long pos; bool open; } gfile;
static gfile gf[GF_MAX];
static uint8_t gf_data[4096]; static long gf_size;
static void gf_reset(void) { memset(gf, 0, sizeof gf); gf_size = 0; }
static int gf_open(void) { int n = 0; for (int i = 0; i < GF_MAX; i++) n += gf[i].open; return n; }
static gfile *gf_of(FILE *f) {
	gfile *g = (gfile*)(void*)f;
	vp_assert(g >= gf && g < gf + GF_MAX, "a file handle that was opened");
	vp_assert(g->open, "the file handle is still open");
	return g;
}
static FILE *vp_fopen(const char *n, const char *m) {
	(void)n; (void)m;
	if (vp_fault()) return NULL;
	for (int i = 0; i < GF_MAX; i++) if (!gf[i].open) { gf[i].open = true; gf[i].pos = 0; return (FILE*)(void*)&gf[i]; }
	return NULL;
}
static int vp_fclose(FILE *f) { gf_of(f)->open = false; return 0; }
static size_t vp_fread(void *p, size_t size, size_t n, FILE *f) {
	gfile *g = gf_of(f);
	if (size == 0 || n == 0) return 0;
	bool bad = vp_fault();
	size_t total = size * n, have = g->pos < gf_size ? (size_t)(gf_size - g->pos) : 0;
	if (bad) have = have > total ? total - 1 : (have > 0 ? have - 1 : 0);
	size_t m = total < have ? total : have;
	memcpy(p, gf_data + g->pos, m);
	g->pos += (long)m;
	return m / size;
}
static int vp_fseek(FILE *f, long off, int whence) {
	gfile *g = gf_of(f);
	if (vp_fault()) return -1;
	long to = off + (whence == SEEK_SET ? 0 : (whence == SEEK_CUR ? g->pos : gf_size));
	if (to < 0) return -1;
	g->pos = to;
	return 0;
}
static long vp_ftell(FILE *f) { return gf_of(f)->pos; }
#define fopen vp_fopen
#define fclose vp_fclose
#define fread vp_fread
#define fseek vp_fseek
#define ftell vp_ftell
#endif
