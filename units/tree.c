/* The red-black tree: tree.c
 * The start state is any red-black tree over n nodes, so a unit is one step of
 * every history that keeps the number of nodes within the bound. */
#include "vp.h"
#include "/repo/tree.h"
typedef fiftyoneDegreesTreeNode TN;
#define NMAX 15
static fiftyoneDegreesTreeRoot R;
static TN N[NMAX + 1];
static bool in[NMAX + 1];
static int n, cap;
#define EMPTY (&R.empty)
#define RED 1
#define BLACK 0
static int64_t key_of(int i) { static const int64_t lo[] = { INT64_MIN, INT64_MIN + 1, -2 }, hi[] = { 0x100000000ll, INT64_MAX - 1, INT64_MAX };
	int total = n + 1; if (i < 3) return lo[i]; if (i >= total - 3 && total >= 6) return hi[i - (total - 3)]; return i; }
/* any tree of black height bh over the next nodes in order, leaving out one index for the key inserted */
static int skip;
static TN *gen(int bh, bool red, int *at, int left) {
	/* left: nodes needed by what follows */
	int c;
	if (bh == 0) { if (!red) return EMPTY; c = vp_bool() ? 2 : 0; if (c == 0) return EMPTY; }
	else c = red ? (int)vp_range(1, 2) : 1;
	int sub = c == 1 ? bh - 1 : bh, need = (1 << sub) - 1;
	if (*at + 2 * need + 1 + left > cap) vp_reject();
	TN *l = gen(sub, c == 1, at, left + need + 1);
	if (*at == skip) ++*at;
	if (*at + 1 + need + left > cap) vp_reject();
	TN *me = &N[(*at)++]; in[me - N] = true;
	TN *r = gen(sub, c == 1, at, left);
	me->left = l; me->right = r; me->colour = c == 1 ? BLACK : RED; me->root = &R;
	if (l != EMPTY) l->parent = me;
	if (r != EMPTY) r->parent = me;
	return me;
}
static int members(void) { int k = 0; for (int i = 0; i <= n; i++) k += in[i]; return k; }
/* the black height of a red-black tree over exactly the members lo..hi, or -1 */
static int spec_sub(TN *node, TN *parent, int lo, int hi, int h) {
	if (node == EMPTY) { for (int i = lo; i <= hi; i++) if (in[i]) return -1; return 0; }
	if (h == 0 || node < N || node > N + n) return -1;
	int i = (int)(node - N);
	if (&N[i] != node || i < lo || i > hi || !in[i] || node->key != key_of(i)) return -1;
	if (node->parent != parent || node->root != &R || (node->colour != RED && node->colour != BLACK)) return -1;
	if (node->colour == RED && parent->colour == RED) return -1;
	int l = spec_sub(node->left, node, lo, i - 1, h - 1), r = spec_sub(node->right, node, i + 1, hi, h - 1);
	return l < 0 || r != l ? -1 : l + (node->colour == BLACK);
}
static int seen[NMAX + 1], calls; static int cb_state;
static void visit(void *state, TN *node) { vp_assert(state == &cb_state, "the callback gets its state"); vp_assert(node >= N && node <= N + n, "only nodes are visited"); seen[node - N]++; calls++; }
static void check(void) {
	vp_assert(R.empty.colour == BLACK && R.empty.root == &R && R.empty.left == EMPTY && R.empty.right == EMPTY, "the empty node stays empty");
	vp_assert(R.root.left == EMPTY || R.root.left->colour == BLACK, "the top is black");
	vp_assert(spec_sub(R.root.left, &R.root, 0, n, 12) >= 0, "an ordered and balanced tree over exactly the members");
	for (int i = 0; i <= n; i++) vp_assert(fiftyoneDegreesTreeFind(&R, key_of(i)) == (in[i] ? &N[i] : NULL), "a lookup finds the node with the key if it is there, and only then");
	for (int i = 0; i <= n; i++) if (key_of(i) != INT64_MAX && (i == n || key_of(i) + 1 != key_of(i + 1))) vp_assert(fiftyoneDegreesTreeFind(&R, key_of(i) + 1) == NULL, "no node is found for a key never inserted");
	vp_assert((int)fiftyoneDegreesTreeCount(&R) == members(), "the count is the number of nodes");
	memset(seen, 0, sizeof seen); calls = 0;
	fiftyoneDegreesTreeIterateNodes(&R, &cb_state, visit);
	for (int i = 0; i <= n; i++) vp_assert(seen[i] == in[i], "iteration visits each node once");
}
static void any_tree(int max, bool inserting) {
	memset(in, 0, sizeof in);
	memset(N, 0xA5, sizeof N);
	cap = max;
	fiftyoneDegreesTreeRootInit(&R);
	int bh = (int)vp_range(0, 4);
	n = cap - 1; skip = inserting ? (int)vp_range(0, (uint64_t)cap) : -1;
	int at = 0; 
	if (inserting) cap++;
	if (bh == 0) R.root.left = EMPTY;
	else { R.root.left = gen(bh, false, &at, 0); R.root.left->parent = &R.root; }
	if (skip == at) at++;
	if (skip >= at) vp_reject();
	n = at - 1;
	if (n < 0) n = 0;
	R.empty.parent = vp_bool() ? NULL : &N[n / 2];
	for (int i = 0; i <= n; i++) if (in[i]) N[i].key = key_of(i);
}

/* @unit tree_insert_bounded
 * @property P07
 * @kind enum
 * @entry h_insert
 * @contracts fiftyoneDegreesTreeInsert fiftyoneDegreesTreeFind fiftyoneDegreesTreeCount fiftyoneDegreesTreeIterateNodes fiftyoneDegreesTreeNodeInit fiftyoneDegreesTreeRootInit
 * @secs 60
 * @bound every red-black tree of up to 13 nodes, a key inserted at every place
 */
void h_insert(void) {
	any_tree(13, true);
	TN *node = &N[skip];
	fiftyoneDegreesTreeNodeInit(node, &R);
	node->key = key_of(skip);
	fiftyoneDegreesTreeInsert(node);
	in[skip] = true;
	check();
}
/* @unit tree_delete_bounded
 * @property P07
 * @kind enum
 * @entry h_delete
 * @contracts fiftyoneDegreesTreeDelete fiftyoneDegreesTreeFind fiftyoneDegreesTreeCount fiftyoneDegreesTreeIterateNodes fiftyoneDegreesTreeNodeRemove
 * @secs 60
 * @bound every red-black tree of up to 14 nodes, each node deleted
 */
void h_delete(void) {
	any_tree(14, false);
	if (members() == 0) { check(); return; }
	int i = (int)vp_range(0, (uint64_t)n);
	fiftyoneDegreesTreeDelete(&N[i]);
	in[i] = false;
	bool again = vp_bool();
	if (again) fiftyoneDegreesTreeNodeRemove(&N[i]); else memset(&N[i], 0x5A, sizeof N[i]);
	check();
	if (again) { /* a node taken out can be put back */
		N[i].key = key_of(i);
		fiftyoneDegreesTreeInsert(&N[i]);
		in[i] = true;
		check();
	}
}
