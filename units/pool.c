/* Pools: pool.c, with other threads acting just before each compare and swap */
#include "vp.h"
#include "fault.h"
#include "/repo/fiftyone.h"
static long vp_cas(volatile long *d, long e, long c);
#undef FIFTYONE_DEGREES_INTERLOCK_EXCHANGE
#define FIFTYONE_DEGREES_INTERLOCK_EXCHANGE(d,e,c) vp_cas((volatile long*)&(d), (long)(e), (long)(c))
#include "/repo/pool.c"

/* @unit pool_bounded
 * @property P08
 * @kind enum
 * @entry h_pool
 * @contracts fiftyoneDegreesPoolInit fiftyoneDegreesPoolItemGet fiftyoneDegreesPoolItemRelease fiftyoneDegreesPoolFree fiftyoneDegreesPoolReset
 * @secs 60
 * @bound concurrency up to 3, histories of 6 gets and releases, one failing allocation or creation, other threads doing up to 3 operations before one compare and swap
 */
#define MAXC 3
static Pool m_pool; static int m_conc, m_created, m_freed[MAXC + 2]; static char m_res[MAXC + 2]; static int m_state;
static PoolItem *m_item[8]; static int m_n, m_max; static int m_burst, m_depth;
static void *m_create(Pool *pool, void *state, Exception *exception) {
	vp_assert(pool == &m_pool && state == &m_state, "the creator gets its pool and state");
	vp_assert(m_created < m_conc, "at most as many resources as asked for are created");
	if (vp_fault()) { EXCEPTION_SET(FILE_FAILURE); return NULL; }
	return &m_res[m_created++];
}
static void m_free(Pool *pool, void *resource) {
	vp_assert(pool == &m_pool, "the resource is freed with its pool");
	vp_assert((char*)resource >= m_res && (char*)resource < m_res + m_created, "only what was created is freed");
	m_freed[(char*)resource - m_res]++;
}
static void op_get(void) {
	EXCEPTION_CREATE;
	int keep = m_max; m_max = m_n;
	PoolItem *it = fiftyoneDegreesPoolItemGet(&m_pool, exception);
	if (it == NULL) {
		vp_assert(m_max == m_conc, "a pool is exhausted only when everything is in use");
		vp_assert(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "an exhausted pool is reported");
	} else {
		vp_assert(EXCEPTION_OKAY, "no item with an exception");
		vp_assert((char*)it->resource >= m_res && (char*)it->resource < m_res + m_created, "the resource is one created for the pool");
		for (int i = 0; i < m_n; i++) vp_assert(m_item[i] != it && m_item[i]->resource != it->resource, "a resource has one user");
		m_item[m_n++] = it;
	}
	m_max = keep > m_n ? keep : m_n;
}
static void op_release(int i) {
	PoolItem *it = m_item[i];
	/* the item is no longer held from the exchange on, which other threads may not see earlier */
	fiftyoneDegreesPoolItemRelease(it);
	int at = -1; for (int k = 0; k < m_n; k++) if (m_item[k] == it) at = k;
	vp_assert(at >= 0, "harness");
	m_item[at] = m_item[--m_n];
}
static PoolItem *m_releasing;
static long vp_cas(volatile long *d, long e, long c) {
	vp_assert(d == &m_pool.head.exchange, "the head of the pool is exchanged");
	if (m_burst > 0 && m_depth == 0 && vp_bool()) {
		int k = m_burst; m_burst = 0; m_depth++;
		while (k-- > 0) {
			int op = (int)vp_range(0, MAXC + 1);
			if (op == MAXC + 1) break;
			if (op == 0) op_get();
			else { if (op > m_n || m_item[op - 1] == m_releasing) vp_reject(); op_release(op - 1); }
		}
		m_depth--;
	}
	long was = *d;
	if (was == c) *d = e;
	return was;
}
void h_pool(void) {
	EXCEPTION_CREATE;
	vp_use_allocator();
	m_created = 0; m_n = 0; m_max = 0; m_burst = 0; m_depth = 0; m_releasing = NULL;
	memset(m_freed, 0, sizeof m_freed);
	m_conc = (int)vp_range(0, MAXC);
	vp_fault_plan(MAXC + 1);
	fiftyoneDegreesPoolReset(&m_pool);
	fiftyoneDegreesPoolInit(&m_pool, (uint16_t)m_conc, &m_state, m_create, m_free, exception);
	if (vp_faults > 0) {
		vp_assert(!EXCEPTION_OKAY, "a failing set up is reported");
	} else {
		vp_assert(EXCEPTION_OKAY && m_created == m_conc, "a pool has as many resources as asked for");
		m_burst = vp_bool() ? 3 : 0;
		for (int i = 0; i < 5; i++) {
			int op = (int)vp_range(0, MAXC);
			if (op == 0) op_get();
			else { if (op > m_n) vp_reject(); m_releasing = m_item[op - 1]; op_release(op - 1); m_releasing = NULL; }
		}
		/* what was given back can be taken again, everything at once */
		m_burst = 0;
		while (m_n < m_conc) { int before = m_n; op_get(); vp_assert(m_n == before + 1, "what was given back can be taken again"); }
		op_get();
		vp_assert(m_n == m_conc, "no more than was set up can be taken");
		while (m_n > 0) op_release(0);
	}
	fiftyoneDegreesPoolFree(&m_pool);
	for (int i = 0; i < m_created; i++) vp_assert(m_freed[i] == 1, "every resource is freed once");
	vp_assert(vp_live == 0, "the pool's memory is freed");
	fiftyoneDegreesPoolFree(&m_pool);
	for (int i = 0; i < m_created; i++) vp_assert(m_freed[i] == 1, "a pool is only freed once");
	vp_assert(vp_live == 0, "a pool is only freed once");
}
/* @unit pool_limits
 * @property P08
 * @kind enum
 * @entry h_pool_limits
 * @contracts fiftyoneDegreesPoolInit fiftyoneDegreesPoolFree
 * @secs 60
 * @bound concurrencies 255, 256, 65534 and 65535
 */
static unsigned l_created, l_freed;
static void *l_create(Pool *pool, void *state, Exception *exception) { l_created++; return &m_res[0]; }
static void l_free(Pool *pool, void *resource) { l_freed++; }
void h_pool_limits(void) {
	EXCEPTION_CREATE;
	vp_use_allocator();
	static const unsigned c[] = { 255, 256, 65534, 65535 };
	unsigned n = c[vp_range(0, 3)];
	l_created = l_freed = 0; m_burst = 0;
	fiftyoneDegreesPoolInit(&m_pool, (uint16_t)n, &m_state, l_create, l_free, exception);
	vp_assert(EXCEPTION_OKAY && l_created == n, "as many resources as asked for");
	unsigned got = 0;
	while (fiftyoneDegreesPoolItemGet(&m_pool, exception) != NULL) { got++; vp_assert(got <= n, "no more than were created"); }
	vp_assert(got == n, "as many can be taken at once as asked for");
	fiftyoneDegreesPoolFree(&m_pool);
	vp_assert(l_freed == n && vp_live == 0, "every resource is freed once");
}
/* @unit pool_interference_bounded
 * @property P08
 * @kind enum
 * @entry h_pool_burst
 * @contracts fiftyoneDegreesPoolItemGet fiftyoneDegreesPoolItemRelease
 * @secs 60
 * @bound three resources, up to three taken, then one get or release with up to 6 operations of other threads before its compare and swap
 */
void h_pool_burst(void) {
	EXCEPTION_CREATE;
	vp_use_allocator();
	m_created = 0; m_n = 0; m_max = 0; m_burst = 0; m_depth = 0; m_releasing = NULL;
	memset(m_freed, 0, sizeof m_freed);
	m_conc = 3;
	fiftyoneDegreesPoolInit(&m_pool, 3, &m_state, m_create, m_free, exception);
	int n = (int)vp_range(0, 3);
	for (int i = 0; i < n; i++) op_get();
	m_burst = 6;
	int op = (int)vp_range(0, 3);
	if (op == 0) op_get();
	else { if (op > m_n) vp_reject(); m_releasing = m_item[op - 1]; op_release(op - 1); m_releasing = NULL; }
	m_burst = 0;
	while (m_n < m_conc) { int before = m_n; op_get(); vp_assert(m_n == before + 1, "what was given back can be taken again"); }
	op_get();
	vp_assert(m_n == m_conc, "no more than was set up can be taken");
	fiftyoneDegreesPoolFree(&m_pool);
	for (int i = 0; i < m_created; i++) vp_assert(m_freed[i] == 1, "every resource is freed once");
	vp_assert(vp_live == 0, "the pool's memory is freed");
}
