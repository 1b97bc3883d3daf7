/* Native driver of a contract unit built with ASan and UBSan.
 *   replay FILE         exit 77 contract violated, 0 held, 78 rejected
 *   random SEED COUNT SECONDS OUT   seeded random inputs, stops at the first
 *     violation; the inputs of the current run are kept in OUT so that a
 *     sanitizer abort leaves them
 *   exhaust SHARD SHARDS SECONDS OUT   every combination of the harness'
 *     vp_range/vp_bool choices, in order (one shard of them)
 */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
void VP_ENTRY(void);
static jmp_buf back;
#define MAXIN 65536
static uint64_t *in; static size_t n_in, at;
static enum { REPLAY, RANDOM, EXHAUST } mode;
static struct shared { size_t n; uint64_t v[MAXIN]; uint64_t lo[MAXIN], hi[MAXIN]; size_t fixed; char what[512]; unsigned long done; unsigned long rejected, raw; int finished; } *sh;
static uint64_t s;
static unsigned shard, shards;
static uint64_t next(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
static int skew;
void vp_reject(void) { if (mode == REPLAY) { fprintf(stderr, "VP-REJECTED\n"); _exit(78); } sh->rejected++; longjmp(back, 1); }
uint64_t vp_in_raw(void) {
	uint64_t v;
	if (mode == REPLAY) return at < n_in ? in[at++] : 0;
	if (mode == EXHAUST) { sh->raw++; v = 0; if (sh->n < MAXIN) { sh->v[sh->n] = sh->lo[sh->n] = sh->hi[sh->n] = 0; sh->n++; } return v; }
	uint64_t r = next();
	switch (skew ? (r % skew) : (r % 8)) {
	case 0: v = 0; break;
	case 1: v = 1; break;
	case 2: v = (next() % 8); break;
	case 3: v = (next() % 64); break;
	case 4: { static const uint8_t t[] = "0123456789abcdefABCxyz.:_- \x1F\"'/\\|,;\n\r\t#%[]"; v = t[next() % (sizeof t - 1)]; break; }
	case 5: v = (uint64_t)0 - (next() % 8); break;
	case 6: v = 1ULL << (next() % 64); if (next() & 1) v -= 1; break;
	default: v = next();
	}
	if (sh->n < MAXIN) sh->v[sh->n++] = v;
	return v;
}
uint64_t vp_in_range(uint64_t lo, uint64_t hi) {
	if (mode != EXHAUST) {
		uint64_t v = vp_in_raw();
		if (v < lo || v > hi) v = (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
		return v;
	}
	size_t i = sh->n;
	if (i >= MAXIN) _exit(3);
	if (i >= sh->fixed) sh->v[i] = lo;
	sh->lo[i] = lo; sh->hi[i] = hi; sh->n++;
	if (sh->n == 2 && shards > 1) {
		uint64_t w = sh->hi[1] - sh->lo[1] + 1;
		if (((sh->v[0] - sh->lo[0]) * w + (sh->v[1] - sh->lo[1])) % shards != shard) { sh->done--; longjmp(back, 1); }
	}
	return sh->v[i];
}
void vp_fail(const char *what, const char *file, int line) {
	snprintf(sh->what, sizeof sh->what, "%s (%s:%d)", what, file, line);
	fprintf(stderr, "VP-VIOLATED %s\n", sh->what);
	_exit(77);
}
/* the next combination; 0 if there is none */
static int advance(void) {
	size_t i = sh->n;
	while (i > 0) {
		i--;
		if (sh->v[i] < sh->hi[i]) { sh->v[i]++; sh->fixed = i + 1; return 1; }
	}
	return 0;
}
static int stop(const char *out) {
	FILE *o = fopen(out, "w");
	for (size_t i = 0; i < sh->n; i++) fprintf(o, "%llu\n", (unsigned long long)sh->v[i]);
	fclose(o);
	printf("FOUND %lu runs\n", sh->done);
	return 77;
}
int main(int argc, char **argv) {
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc == 3 && !strcmp(argv[1], "replay")) {
		FILE *f = fopen(argv[2], "r"); if (!f) return 2;
		in = calloc(MAXIN, sizeof *in); char line[128];
		while (n_in < MAXIN && fgets(line, sizeof line, f)) if (line[0] != '#') in[n_in++] = strtoull(line, NULL, 0);
		fclose(f);
		alarm(30);
		VP_ENTRY();
		fprintf(stderr, "VP-HELD\n");
		_exit(0);
	}
	if (argc == 6 && !strcmp(argv[1], "random")) {
		uint64_t seed = strtoull(argv[2], NULL, 0); unsigned long count = strtoul(argv[3], NULL, 0); int secs = atoi(argv[4]);
		time_t end = time(NULL) + secs; unsigned long base = 0;
		mode = RANDOM;
		while (base < count && time(NULL) < end) {
			/* a batch in a child, so that leaked memory goes with it */
			pid_t p = fork();
			if (p == 0) {
				for (unsigned long k = base; k < base + 200 && k < count; k++) {
					s = (seed * 1000003ULL + k) * 0x9E3779B97F4A7C15ULL | 1; next(); next();
					skew = (k % 4 == 0) ? 0 : (k % 4 == 1) ? 5 : (k % 4 == 2) ? 3 : 8;
					sh->n = 0; sh->done++;
					alarm(10);
					if (setjmp(back) == 0) VP_ENTRY();
				}
				_exit(0);
			}
			int st; waitpid(p, &st, 0);
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return stop(argv[5]);
			base += 200;
		}
		printf("NONE %lu runs %lu rejected\n", sh->done, sh->rejected);
		return 0;
	}
	if (argc == 6 && !strcmp(argv[1], "exhaust")) {
		shard = atoi(argv[2]); shards = atoi(argv[3]);
		time_t end = time(NULL) + atoi(argv[4]);
		mode = EXHAUST;
		while (!sh->finished && time(NULL) < end) {
			pid_t p = fork();
			if (p == 0) {
				for (volatile int k = 0; k < 5000 && !sh->finished; k++) {
					sh->n = 0; sh->done++;
					if (k % 100 == 0) alarm(20);
					if (setjmp(back) == 0) VP_ENTRY();
					if (!advance()) sh->finished = 1;
				}
				_exit(0);
			}
			int st; waitpid(p, &st, 0);
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return stop(argv[5]);
		}
		printf("%s %lu runs %lu rejected %lu raw\n", sh->finished ? "ALL" : "TIMEOUT", sh->done, sh->rejected, sh->raw);
		return sh->finished ? 0 : 76;
	}
	return 2;
}
