/* The cache: cache.c over the real tree, with locks that let others in */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
#include <limits.h>
static void vp_lock(pthread_mutex_t *m);
static void vp_unlock(pthread_mutex_t *m);
#define fiftyoneDegreesMutexLock(m) vp_lock(m)
#define fiftyoneDegreesMutexUnlock(m) vp_unlock(m)
#include "/repo/cache.c"

/* @unit cache_histories_bounded
 * @property P06
 * @kind enum
 * @entry h_cache
 * @contracts fiftyoneDegreesCacheCreate fiftyoneDegreesCacheGet fiftyoneDegreesCacheRelease fiftyoneDegreesCacheFree fiftyoneDegreesCacheHash32 fiftyoneDegreesCacheHash64
 * @secs 40
 * @bound one shard of 1 to 3 entries, 4 keys with extreme hashes, histories of 6 gets, releases and failing loads
 */
/* @unit cache_shards_bounded
 * @property P06
 * @kind enum
 * @entry h_cache_shards
 * @contracts fiftyoneDegreesCacheCreate fiftyoneDegreesCacheGet fiftyoneDegreesCacheRelease
 * @secs 40
 * @bound two or three shards, capacities up to 11, 5 keys with extreme hashes, histories of 5 operations, 32 and 64 bit keys
 */
/* @unit cache_interference_bounded
 * @property P06
 * @kind enum
 * @entry h_cache_threads
 * @contracts fiftyoneDegreesCacheGet fiftyoneDegreesCacheRelease
 * @secs 40
 * @bound one shard of 2 entries, 3 keys, histories of 4 operations, another thread's get or release whenever a lock is about to be taken
 */
#define KEYS 5
#define HELD 16
static int64_t k_val[KEYS]; static int32_t k_val32[KEYS]; static bool k_wide; static int k_n;
static struct { bool cached; int active; unsigned stamp; CacheNode *node; uint8_t byte[3]; int len; } m_e[KEYS];
static unsigned m_clock; static uint8_t m_serial;
static CacheNode *m_held[HELD]; static int m_heldkey[HELD], m_nheld;
static Cache *m_cache; static int m_loading = -1, m_loads; static bool m_load_fails; static pthread_mutex_t *m_lock;
static int m_threads, m_depth; static bool m_conc;
static CacheNode snap_nodes[16]; static CacheShard snap_shard[4]; static bool snapped;

static const void *key_ptr(int k) { return k_wide ? (const void*)&k_val[k] : (const void*)&k_val32[k]; }
static void snapshot(void) { snapped = true; memcpy(snap_nodes, m_cache->nodes, sizeof(CacheNode) * m_cache->capacity); for (int i = 0; i < m_cache->concurrency; i++) { snap_shard[i] = m_cache->shards[i]; memset(&snap_shard[i].lock, 0, sizeof snap_shard[i].lock); } }
static void unchanged(void) {
	if (!snapped) return;
	vp_assert(memcmp(snap_nodes, m_cache->nodes, sizeof(CacheNode) * m_cache->capacity) == 0, "entries change only under the lock");
	for (int i = 0; i < m_cache->concurrency; i++) { CacheShard s = m_cache->shards[i]; memset(&s.lock, 0, sizeof s.lock); vp_assert(memcmp(&s, &snap_shard[i], sizeof s) == 0, "a shard changes only under its lock"); }
}
static void others(void);
static void vp_lock(pthread_mutex_t *m) {
	vp_assert(m_lock == NULL, "one lock is taken at a time");
	unchanged();
	others();
	m_lock = m;
}
static void vp_unlock(pthread_mutex_t *m) {
	vp_assert(m_lock == m, "the lock that is given back is the one taken");
	m_lock = NULL; snapshot();
}
/* the loader: decides which entry is replaced, and checks that it may be */
static void m_loader(const void *state, Data *data, const void *key, Exception *exception) {
	vp_assert(state == &m_serial, "the loader gets its state");
	vp_assert(m_lock != NULL, "an entry is loaded under the lock");
	vp_assert(m_loading >= 0 && !m_e[m_loading].cached, "nothing is loaded that is in the cache");
	vp_assert(k_wide ? *(const int64_t*)key == k_val[m_loading] : *(const int32_t*)key == k_val32[m_loading], "the loader gets the key asked for");
	CacheNode *node = (CacheNode*)((char*)data - offsetof(CacheNode, data));
	vp_assert(node >= m_cache->nodes && node < m_cache->nodes + m_cache->capacity && ((char*)node - (char*)m_cache->nodes) % sizeof(CacheNode) == 0, "an entry of the cache is loaded");
	vp_assert(&node->shard->lock == m_lock, "an entry is loaded under its own lock");
	m_loads++;
	int cached = 0, idle = 0;
	for (int k = 0; k < k_n; k++) if (m_e[k].cached && m_e[k].node->shard == node->shard) { cached++; if (m_e[k].active == 0) idle++; }
	for (int k = 0; k < k_n; k++) if (m_e[k].cached && m_e[k].node == node) {
		vp_assert(m_e[k].active == 0, "an entry in use is never overwritten");
		vp_assert(cached >= (int)node->shard->capacity, "an entry is replaced only if there is no other room");
		for (int j = 0; j < k_n; j++) if (j != k && m_e[j].cached && m_e[j].active == 0 && m_e[j].node->shard == node->shard)
			vp_assert(m_e[j].stamp > m_e[k].stamp, "the least recently released idle entry is replaced");
		m_e[k].cached = false;
	}
	if (m_load_fails) { EXCEPTION_SET(COLLECTION_FILE_READ_FAIL); return; }
	int len = 1 + m_loading % 3;
	byte *p = (byte*)DataMalloc(data, (size_t)len);
	for (int i = 0; i < len; i++) m_e[m_loading].byte[i] = p[i] = (uint8_t)(m_serial + i);
	m_serial += 7;
	data->used = (uint32_t)len; m_e[m_loading].len = len;
	m_e[m_loading].node = node;
}
static void content(void) {
	for (int k = 0; k < k_n; k++) if (m_e[k].cached) {
		vp_assert(m_e[k].node->data.ptr != NULL && (int)m_e[k].node->data.used == m_e[k].len && memcmp(m_e[k].node->data.ptr, m_e[k].byte, (size_t)m_e[k].len) == 0, "an entry keeps the data loaded for it");
	}
}
static int in_use(CacheShard *s) { int n = 0; for (int k = 0; k < k_n; k++) if (m_e[k].cached && m_e[k].active > 0 && m_e[k].node->shard == s) n++; return n; }
static void op_get(int k, bool fail) {
	EXCEPTION_CREATE;
	int loads = m_loads, keep = m_loading; bool keepf = m_load_fails;
	m_loading = k; m_load_fails = fail;
	bool was = m_e[k].cached;
	CacheNode *node = fiftyoneDegreesCacheGet(m_cache, key_ptr(k), exception);
	m_loading = keep; m_load_fails = keepf;
	if (!m_conc) vp_assert(m_loads - loads == (was ? 0 : node != NULL || !EXCEPTION_OKAY ? 1 : 0), "an entry is loaded once while it stays cached");
	if (node == NULL) {
		if (EXCEPTION_OKAY) {
			if (!m_conc) {
				vp_assert(!was, "an entry in the cache is returned");
				int full = 0;
				for (int i = 0; i < m_cache->concurrency; i++) if (in_use(&m_cache->shards[i]) == (int)m_cache->shards[i].capacity) full++;
				vp_assert(full > 0, "there is no entry only if all are in use");
			}
		} else vp_assert(fail && m_loads > loads, "only a failing load raises an exception");
		return;
	}
	vp_assert(EXCEPTION_OKAY, "no entry is returned with an exception");
	if (!m_e[k].cached) { vp_assert(m_loads > loads && m_e[k].node == node, "the entry returned is the one loaded for the key"); m_e[k].cached = true; m_e[k].active = 0; }
	vp_assert(m_e[k].node == node, "the entry returned is the one of the key");
	m_e[k].active++;
	vp_assert(m_nheld < HELD, "harness");
	m_held[m_nheld] = node; m_heldkey[m_nheld++] = k;
	vp_assert((int)node->data.used == m_e[k].len && memcmp(node->data.ptr, m_e[k].byte, (size_t)m_e[k].len) == 0, "the entry returned holds the data loaded for the key");
}
static void op_release(int h) {
	CacheNode *node = m_held[h]; int k = m_heldkey[h];
	m_held[h] = m_held[--m_nheld]; m_heldkey[h] = m_heldkey[m_nheld];
	fiftyoneDegreesCacheRelease(node);
	vp_assert(m_e[k].cached && m_e[k].node == node, "an entry in use stays in the cache");
	if (--m_e[k].active == 0) m_e[k].stamp = ++m_clock;
}
static void others(void) {
	if (m_threads == 0 || m_depth > 0) return;
	if (!vp_bool()) return;
	m_threads--; m_depth++;
	int c = (int)vp_range(0, (uint64_t)k_n + 1);
	if (c < k_n) op_get(c, false); else if (c - k_n < m_nheld) op_release(c - k_n); else vp_reject();
	m_depth--;
}
static void setup(uint32_t capacity, uint16_t concurrency) {
	vp_use_allocator();
	memset(m_e, 0, sizeof m_e); m_clock = 0; m_serial = 1; m_nheld = 0; m_loading = -1; m_loads = 0; m_lock = NULL; m_threads = m_depth = 0; m_conc = false; snapped = false;
	m_cache = fiftyoneDegreesCacheCreate(capacity, concurrency, m_loader, k_wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &m_serial);
}
static void finish(void) {
	snapped = false; m_threads = 0;
	while (m_nheld > 0) op_release(0);
	/* every entry can be used again: as many as there is room for at once */
	content();
	fiftyoneDegreesCacheFree(m_cache);
	vp_assert(vp_live == 0, "freeing the cache frees everything");
}
static void step(int maxheld) {
	int c = (int)vp_range(0, (uint64_t)(2 * k_n + maxheld) - 1);
	if (c < 2 * k_n) op_get(c % k_n, c >= k_n);
	else if (c - 2 * k_n < m_nheld) op_release(c - 2 * k_n);
	else vp_reject();
	vp_assert(m_lock == NULL, "no lock is kept");
	unchanged();
	content();
}
void h_cache(void) {
	k_wide = false; k_n = 4;
	int c = (int)vp_range(1, 3), set = (int)vp_range(0, 1);
	k_val32[0] = set ? INT_MAX : 0; k_val32[1] = INT_MIN; k_val32[2] = set ? 1 : -1; k_val32[3] = set ? INT_MIN + 1 : 5;
	setup((uint32_t)c, 1);
	vp_assert(m_cache != NULL && m_cache->capacity >= c, "the cache has the capacity asked for");
	for (int i = 0; i < 6; i++) step(3);
	finish();
}
void h_cache_shards(void) {
	k_wide = vp_bool(); k_n = 5;
	uint16_t conc = (uint16_t)vp_range(0, 3);
	uint32_t cap = (uint32_t)vp_range(0, 11);
	static const int64_t wide[KEYS] = { INT64_MIN, -1, 0x100000000ll, INT64_MAX, 0 };
	static const int32_t narrow[KEYS] = { INT_MIN, -1, 7, INT_MAX, 0 };
	for (int i = 0; i < KEYS; i++) { k_val[i] = wide[i]; k_val32[i] = narrow[i]; }
	bool oom = vp_bool();
	vp_use_allocator();
	if (oom) {
		vp_fault_at = 1;
		Cache *c = fiftyoneDegreesCacheCreate(cap, conc, m_loader, fiftyoneDegreesCacheHash32, &m_serial);
		vp_assert(c == NULL && vp_live == 0, "no cache without memory");
		return;
	}
	setup(cap, conc);
	if (conc == 0 || cap / conc < conc) { vp_assert(m_cache == NULL && vp_live == 0, "no cache too small for its concurrency"); return; }
	vp_assert(m_cache != NULL && m_cache->capacity >= (int)cap && m_cache->concurrency == conc, "the cache has the capacity asked for");
	if (conc == 1 || (cap != (uint32_t)conc * conc && cap != 11)) { fiftyoneDegreesCacheFree(m_cache); vp_assert(vp_live == 0, "freed"); return; }
	for (int i = 0; i < 5; i++) step(2);
	finish();
}
void h_cache_threads(void) {
	k_wide = false; k_n = 3;
	k_val32[0] = 0; k_val32[1] = INT_MIN; k_val32[2] = 9;
	setup(2, 1);
	m_threads = 1; m_conc = true;
	for (int i = 0; i < 4; i++) step(3);
	finish();
}

/* @unit cache_recency_bounded
 * @property P06
 * @kind enum
 * @entry h_cache_recency
 * @contracts fiftyoneDegreesCacheGet fiftyoneDegreesCacheRelease
 * @secs 40
 * @bound one shard of 2 to 4 entries, 5 keys, histories of 8 gets that are each released at once but for at most one
 */
void h_cache_recency(void) {
	k_wide = false; k_n = 5;
	static const int32_t key[KEYS] = { 7, INT_MIN, 0, INT_MAX, -3 };
	for (int i = 0; i < KEYS; i++) k_val32[i] = key[i];
	int c = (int)vp_range(2, 4);
	setup((uint32_t)c, 1);
	int hold = (int)vp_range(0, 8), top = 0;
	for (int i = 0; i < 8; i++) {
		/* keys are interchangeable until they are first used */
		int k = (int)vp_range(0, (uint64_t)(top < KEYS ? top : KEYS - 1));
		if (k == top) top++;
		int held = m_nheld;
		op_get(k, false);
		if (m_nheld > held && i != hold) op_release(m_nheld - 1);
		unchanged(); content();
	}
	finish();
}
