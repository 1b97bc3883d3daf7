/* Text and YAML files: textfile.c yamlfile.c over a file system in memory */
#include "vp.h"
#include "/repo/fiftyone.h"
#include "/repo/yamlfile.h"
#include "gfs.h"
#define rand() 1
#include "/repo/file.c"
#undef rand
#include "/repo/pool.c"
#include "/repo/process.c"
#include "/repo/textfile.c"
#include "/repo/yamlfile.c"
/* ------------------------------------------------------------- lines of text */
#define T_MAX 24
static char t_want[T_MAX][T_MAX * 4]; static int t_wanted, t_got, t_state; static bool t_exact; static char *t_buf; static int t_len;
static void t_call(const char *line, void *state) {
	vp_assert(state == &t_state, "the state is passed to the callback");
	vp_assert(line >= t_buf && line < t_buf + t_len && memchr(line, 0, (size_t)(t_buf + t_len - line)) != NULL, "the line is in the buffer");
	if (t_exact) { vp_assert(t_got < t_wanted, "there are no more lines than in the file"); vp_assert(strcmp(line, t_want[t_got]) == 0, "the line is the next of the file"); }
	t_got++;
}
/* @unit text_lines_bounded
 * @property P23
 * @kind enum
 * @entry h_text
 * @contracts fiftyoneDegreesTextFileIterateWithLimit fiftyoneDegreesTextFileIterate
 * @secs 12
 * @bound files of up to 8 characters (a, new line, carriage return), buffers of 1 to 9 bytes, limits from none to 3; lines that do not fit the buffer only stay within it; a file that cannot be opened
 */
void h_text(void) {
	fs_reset(); vp_fault_at = 0;
	fs_file *f = fs_add("f"); f->exists = vp_range(0, 15) > 0;
	size_t n = (size_t)vp_range(0, 8); int letter = 0;
	for (size_t i = 0; i < n; i++) { f->data[i] = (uint8_t)"a\n\r"[vp_range(0, 2)]; if (f->data[i] == 'a') f->data[i] = (uint8_t)('a' + letter++); }
	f->size = n;
	t_len = (int)vp_range(1, 9); int limit = (int)vp_range(0, 4) - 1; t_buf = vp_new((size_t)t_len); memset(t_buf, '\n', (size_t)t_len);
	/* the lines, and whether each fits with its line ending */
	t_wanted = 0; t_exact = true;
	for (size_t i = 0; i < n;) {
		size_t j = i, k = 0; while (j < n && f->data[j] != '\n' && f->data[j] != '\r') t_want[t_wanted][k++] = (char)f->data[j++];
		t_want[t_wanted++][k] = 0;
		bool ended = j < n;
		while (j < n && (f->data[j] == '\n' || f->data[j] == '\r')) j++;
		if (j - i + (ended ? 0 : 1) > (size_t)t_len) t_exact = false;
		i = j;
	}
	if (!f->exists) t_wanted = 0;
	if (limit >= 0 && t_wanted > limit) t_wanted = limit;
	t_got = 0;
	if (limit == -1 && vp_bool()) fiftyoneDegreesTextFileIterate("f", t_buf, t_len, &t_state, t_call);
	else fiftyoneDegreesTextFileIterateWithLimit("f", t_buf, t_len, limit, &t_state, t_call);
	vp_assert(fs_open() == 0, "the file is closed");
	if (t_exact) vp_assert(t_got == t_wanted, "every line is returned, up to the limit");
	if (limit >= 0) vp_assert(t_got <= limit, "no more lines are returned than the limit");
	free(t_buf);
}
/* --------------------------------------------------------------------- YAML */
#define Y_DOCS 4
#define Y_PAIRS 4
typedef struct { char k[8], v[8]; } y_pair;
static struct { int n; y_pair p[Y_PAIRS]; } y_want[Y_DOCS]; static int y_wanted, y_got, y_size; static size_t y_kl, y_vl; static KeyValuePair *y_pairs; static bool y_exact;
static bool y_same(const char *got, const char *want, size_t len) { return len == 0 || (memchr(got, 0, len) != NULL && (strlen(want) < len ? strcmp(got, want) == 0 : strlen(got) == len - 1 && strncmp(got, want, len - 1) == 0)); }
static void y_call(KeyValuePair *p, uint16_t n, void *state) {
	vp_assert(p == y_pairs && state == &y_got, "the pairs and the state are passed to the callback");
	vp_assert(n <= y_size, "no more pairs are returned than there are");
	if (y_exact) {
		vp_assert(y_got < y_wanted, "there are no more documents than in the file");
		int m = y_want[y_got].n; if (m > y_size) m = y_size;
		vp_assert(n == m, "every pair of the document is returned");
		for (int i = 0; i < m; i++) {
			vp_assert(y_same(p[i].key, y_want[y_got].p[i].k, y_kl), "the key is that of the document");
			vp_assert(y_same(p[i].value, y_want[y_got].p[i].v, y_vl), "the value is that of the document");
		}
	}
	y_got++;
}
static void y_run(fs_file *f, int limit, size_t blen) {
	char *keys[Y_PAIRS], *values[Y_PAIRS]; char *b = vp_new(blen); (void)f;
	y_pairs = vp_new(sizeof(KeyValuePair) * (size_t)y_size);
	for (int i = 0; i < y_size; i++) {
		keys[i] = vp_new(y_kl); values[i] = vp_new(y_vl); memset(keys[i], '~', y_kl); memset(values[i], '\'', y_vl);
		y_pairs[i].key = keys[i]; y_pairs[i].value = values[i]; y_pairs[i].keyLength = y_kl; y_pairs[i].valueLength = y_vl;
	}
	y_got = 0;
	StatusCode s = limit == -1 ? fiftyoneDegreesYamlFileIterate("f", b, blen, y_pairs, (uint16_t)y_size, &y_got, y_call) : fiftyoneDegreesYamlFileIterateWithLimit("f", b, blen, y_pairs, (uint16_t)y_size, limit, &y_got, y_call);
	vp_assert(fs_open() == 0, "the file is closed");
	if (vp_faults == 0) vp_assert(f->exists ? s == SUCCESS : s != SUCCESS, "success exactly if the file is there");
	else vp_assert(s != SUCCESS, "a file that cannot be read is reported");
	if (y_exact && s == SUCCESS) vp_assert(y_got == y_wanted, "every document is returned, up to the limit");
	if (limit >= 0) vp_assert(y_got <= limit, "no more documents are returned than the limit");
	for (int i = 0; i < y_size; i++) { free(keys[i]); free(values[i]); }
	free(y_pairs); free(b);
}
static void y_put(fs_file *f, const char *s) { memcpy(f->data + f->size, s, strlen(s)); f->size += strlen(s); }
/* @unit yaml_documents_bounded
 * @property P23
 * @kind enum
 * @entry h_yaml
 * @contracts fiftyoneDegreesYamlFileIterateWithLimit fiftyoneDegreesYamlFileIterate
 * @secs 15
 * @bound well formed files of up to 3 documents of up to 3 pairs out of 7, capacity for 0 to 3 pairs, keys and values of 0 to 8 bytes, read buffers of 1 to 32 bytes, limits from none to 3, a failing open or read at every point
 */
void h_yaml(void) {
	static const struct { const char *line, *k, *v; } l[] = { { "k: v", "k", "v" }, { "ab: 'c d'", "ab", "c d" }, { "e:", "e", "" }, { "f: ''", "f", "" }, { "g: '", "g", "" }, { "h.-: i:j'", "h.-", "i:j'" }, { "key: ...x", "key", "...x" } };
	fs_reset();
	const char *nl = vp_bool() ? "\r\n" : "\n";
	fs_file *f = fs_add("f"); y_exact = true;
	int docs = (int)vp_range(0, 3); bool start = docs > 0 && vp_bool(), stop = vp_bool(), blank = vp_bool();
	y_wanted = 0; if (blank) y_put(f, nl);
	for (int d = 0; d < docs; d++) {
		if (d > 0 || start) { y_put(f, "---"); y_put(f, nl); }
		int n = (int)vp_range(d == 0 && !start ? 1 : 0, 3); y_want[y_wanted].n = n;
		for (int i = 0; i < n; i++) { int w = (int)vp_range(0, 6); y_put(f, l[w].line); y_put(f, nl); if (blank) y_put(f, nl); strcpy(y_want[y_wanted].p[i].k, l[w].k); strcpy(y_want[y_wanted].p[i].v, l[w].v); }
		if (n > 0) y_wanted++;
	}
	if (stop && docs > 0) { y_put(f, "..."); if (vp_bool()) { y_put(f, nl); y_put(f, "---"); y_put(f, nl); y_put(f, "z: z"); y_put(f, nl); } }
	else if (docs > 0 && !blank && vp_bool()) f->size -= strlen(nl); /* no line ending at the end */
	f->exists = vp_range(0, 15) > 0;
	y_size = (int)vp_range(0, 3); static const size_t lens[] = { 8, 4, 2, 1, 0 }; y_kl = lens[vp_range(0, 4)]; y_vl = lens[vp_range(0, 4)];
	if (y_size == 0) y_wanted = 0;
	int limit = (int)vp_range(0, 4) - 1; if (limit >= 0 && y_wanted > limit) y_wanted = limit;
	static const size_t b[] = { 1, 3, 7, 32 }; size_t blen = b[vp_range(0, 3)];
	vp_fault_plan(3);
	if (vp_fault_at > 0) y_exact = false;
	if (vp_faults == 0 && limit == 0) vp_fault_at = 0;
	if (vp_fault_at > 0) { /* only for reads that certainly happen */ if ((size_t)vp_fault_at > 1 + f->size / blen || limit >= 0 || stop || !f->exists || y_size == 0) vp_reject(); }
	if (!f->exists) y_wanted = 0;
	y_run(f, limit, blen);
}
/* @unit yaml_text_bounded
 * @property P23
 * @kind enum
 * @entry h_yamltext
 * @contracts fiftyoneDegreesYamlFileIterateWithLimit
 * @secs 12
 * @bound any file of up to 10 characters out of 8 (k : space ' - . new line carriage return) or ten pieces of lines, capacity for 0 to 2 pairs of 0 to 3 bytes, read buffers of 1 to 16 bytes: only that nothing outside the memory given is used
 */
void h_yamltext(void) {
	fs_reset(); vp_fault_at = 0; vp_faults = 0;
	fs_file *f = fs_add("f"); y_exact = false;
	static const char *pc[] = { "k", ":", " ", "'", "-", ".", "\n", "\r", "---", "\n---\n", "k: '", "a: b\n", "...", ": ", "--- k: v" };
	int n = (int)vp_range(0, 10), m = vp_bool() ? 7 : 14;
	for (int i = 0; i < n; i++) y_put(f, pc[vp_range(0, (uint64_t)m)]);
	y_size = (int)vp_range(0, 2); y_kl = (size_t)vp_range(0, 3); y_vl = (size_t)vp_range(0, 3);
	y_run(f, (int)vp_range(0, 3) - 1, (size_t)vp_range(1, 16));
}
