/* Contracts on proxy.c, second part: who owns a connection, a worker, a slot.
 *
 * Shared lists are described by rely and guarantee: taking a lock makes what it
 * protects arbitrary (within the invariant), releasing it checks that exactly
 * the permitted change was made; between the two nobody else may touch it, and
 * outside the lock the list head is a poisoned pointer. */
#include <stdarg.h>
#include "openelp/openelp.h"
#include "conn.h"
#include "digest.h"
#include "log.h"
#include "mutex.h"
#include "pearson.h"
#include "proxy_conn.h"
#include "rand.h"
#include "regex.h"
#include "registration.h"
#include "worker.h"

enum { M_NONE, M_USABLE, M_CLIENTS, M_WORKERS, M_PW };
struct fv_pool_ghost {
	int held[5];			/* 0 none, 1 shared, 2 exclusive */
	/* the accepted connection */
	int alloc, init, accepted, given, conn_freed, released;
	int fail;			/* error that has to be reported */
	int usable;
	int popped;
	/* a session */
	int auth, have_slot, busy, tried, finished, faulted, pushed, back, in_list, hash_done, exhausted;
	int updates;
	int wakes;
	int slot_ret;
	int idle, num, reported;
} g;
#define NOLOCK (!g.held[1] && !g.held[2] && !g.held[3] && !g.held[4])

#ifdef FV_SESSION
#define FV_NODE(p) ((p) == &sA || (p) == &hH || (p) == &hX || (p) == &hP || (p) == &hN)
#define FV_LOOP_proxy_worker_func_0 \
	__CPROVER_assigns(pc, ret, g.have_slot, g.slot_ret, g.busy) \
	__CPROVER_loop_invariant(pc == NULL || FV_NODE(pc)) \
	__CPROVER_loop_invariant(g.have_slot == 0 && g.slot_ret == 0)
/* each visit meets an arbitrary entry of the bucket */
#define FV_GHOST_proxy_worker_func_0 FV_ASSERT(FV_NODE(pc), "ghost hint: pc is an entry of the bucket"); \
	pc = pc == &sA ? &sA : pc == &hH ? &hH : pc == &hX ? &hX : pc == &hP ? &hP : &hN;
#define FV_LOOP_proxy_worker_func_1 \
	__CPROVER_assigns(ret, g.faulted) \
	__CPROVER_loop_invariant(pc == &sA && g.faulted == 0 && NOLOCK)
#endif
#ifdef FV_UPDATE
int g_vis;
#define FV_LOOP_proxy_update_registration_0 \
	__CPROVER_assigns(pw, slots_used, g_vis, wA.next, wB.next) \
	__CPROVER_loop_invariant(g_vis >= 0 && g_vis <= g.idle && slots_used == g.num - g_vis) \
	__CPROVER_loop_invariant((pw == NULL) == (g_vis == g.idle) && (pw == NULL || pw == &wA || pw == &wB)) \
	__CPROVER_decreases(g.idle - g_vis)
/* the list has g.idle entries, in turn represented by wA and wB */
#define FV_GHOST_proxy_update_registration_0 \
	g_vis++; pw = pw == &wA ? &wA : &wB; \
	wA.next = g_vis < g.idle ? &wB : NULL; wB.next = g_vis < g.idle ? &wA : NULL;
#endif
#define calloc fv_calloc
#define free fv_free
#define strlen fv_strlen
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
size_t fv_strlen(const char *s);
struct proxy_conn_handle;
struct proxy_worker;
struct proxy_priv;
extern struct proxy_worker wA, wB;
extern struct proxy_conn_handle sA, hH, hX, hP, hN;
#include "fv_loop_defaults.h"
#include "proxy.c"
#undef calloc
#undef free
#undef strlen

struct proxy_handle g_ph;
struct proxy_priv g_pp;
struct proxy_worker wA, wB, g_poison_w;
struct conn_handle g_co;
/* the slot a session gets, its neighbours in the pool and in the callsign index */
struct proxy_conn_handle sA, sP, sN, hP, hN, hH, hX, g_poison_s;
uint8_t g_hash, g_hash2;

void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(1)
;
void conn_get_remote_addr(const struct conn_handle *c, char dest[54]) { FV_ASSERT(c == &g_co, "the client's connection"); dest[0] = 0; }
size_t fv_strlen(const char *s) { size_t n = nondet_size_t(); FV_ASSUME(n <= 11); return n; }

static int fv_err(void)
{
	int r = nondet_int();
	FV_ASSUME(r < 0 && r > -4096);
	return r;
}
static int lk(const struct mutex_handle *m)
{
	return m == &g_pp.usable_clients_mutex ? M_USABLE : m == &g_pp.idle_clients_mutex ? M_CLIENTS : m == &g_pp.idle_workers_mutex ? M_WORKERS : m == &wA.mutex ? M_PW : M_NONE;
}
static void workers_at_lock(void)
{
#ifdef FV_UPDATE
	g_vis = 0;
	g_pp.idle_workers_head = g.idle > 0 ? &wA : NULL;
	return;
#endif
	wB.next = NULL;
	wA.next = nondet_bool() ? &wB : NULL;
#ifdef FV_SESSION
	g_pp.idle_workers_head = nondet_bool() ? &wB : NULL;	/* the running worker is not idle */
#else
	g_pp.idle_workers_head = nondet_bool() ? &wA : NULL;
#endif
}
struct proxy_worker *g_whead, *g_wnext;
struct proxy_conn_handle *g_thead, **g_ttail;
void clients_at_lock(void);
void clients_at_unlock(void);
static void taken(int i, int how)
{
	FV_ASSERT(i != M_NONE, "a lock of the proxy");
	FV_ASSERT(!g.held[i], "a lock is not taken twice");
	FV_ASSERT(i == M_WORKERS || !g.held[M_WORKERS], "lock order");
	g.held[i] = how;
	if (i == M_WORKERS) {
		workers_at_lock();
		g_whead = g_pp.idle_workers_head;
		g_wnext = wA.next;
	}
#ifdef FV_SESSION
	if (i == M_CLIENTS)
		clients_at_lock();
#endif
	if (i == M_USABLE)
		g.usable = g_pp.usable_clients = nondet_int();
#ifdef FV_UPDATE
	if (i == M_USABLE)
		FV_ASSUME(g.usable >= 0 && g.usable <= g.num);
#endif
}
static void left(int i, int how)
{
	FV_ASSERT(i != M_NONE && g.held[i] == how, "a lock is released by its owner, in its own mode");
	if (i == M_WORKERS) {
#ifdef FV_SESSION
		if (g_pp.idle_workers_head == &wA) {
			FV_ASSERT(how == 2, "the list of idle workers is changed under its exclusive lock");
			FV_ASSERT(wA.next == g_whead, "a worker is put in front of the idle workers");
			FV_ASSERT(g.released && wA.conn_client == NULL, "a worker becomes idle after its connection has been released");
			FV_ASSERT(g.pushed == 0, "a worker becomes idle once");
			g.pushed = 1;
		} else
			FV_ASSERT(g_pp.idle_workers_head == g_whead, "the list of idle workers is unchanged otherwise");
#else
		if (g_pp.idle_workers_head != g_whead) {
			FV_ASSERT(how == 2, "the list of idle workers is changed under its exclusive lock");
			FV_ASSERT(g_whead == &wA && g_pp.idle_workers_head == g_wnext, "one worker is taken from the idle workers");
			FV_ASSERT(g.popped == 0, "one worker is taken");
			FV_ASSERT(g.held[M_USABLE] && g.usable > 0, "a worker is taken only while the proxy is usable");
			g.popped = 1;
		} else if (g_whead != NULL)
			FV_ASSERT(!(g.held[M_USABLE] && g.usable > 0 && how == 2 && g.accepted), "an idle worker is taken while the proxy is usable");
#endif
		g_pp.idle_workers_head = &g_poison_w;
	}
#ifdef FV_SESSION
	if (i == M_CLIENTS)
		clients_at_unlock();
#endif
	g.held[i] = 0;
}
int mutex_lock(struct mutex_handle *m) { taken(lk(m), 2); return 0; }
int mutex_unlock(struct mutex_handle *m) { left(lk(m), 2); return 0; }
int mutex_lock_shared(struct mutex_handle *m) { taken(lk(m), 1); return 0; }
int mutex_unlock_shared(struct mutex_handle *m) { left(lk(m), 1); return 0; }

void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == (void *)&g_co && g.alloc, "the connection is released, once");
	FV_ASSERT(!g.init, "the connection is closed before its memory is released");
	g.alloc = 0;
	g.released = 1;
}
void conn_free(struct conn_handle *c)
{
	FV_ASSERT(c == &g_co && g.alloc, "the connection is closed before it is released");
	FV_ASSERT(!g.given, "a connection that was handed over is not closed");
#ifdef FV_SESSION
	FV_ASSERT(!g.have_slot || g.finished, "the connection is closed after its session has been finished");
	FV_ASSERT(g.held[M_PW] == 2, "the connection is taken away under its lock");
#endif
	g.init = 0;
	g.accepted = 0;
	g.conn_freed++;
}
int worker_wake(struct worker_handle *w)
{
	FV_ASSERT(w == &wA.worker && wA.conn_client == &g_co, "the worker is woken with its connection");
	FV_ASSERT(g.popped, "the worker was taken from the idle workers");
	g.wakes++;
	if (nondet_bool()) {
		g.fail = IFC_FAIL(worker_wake);
		return g.fail;
	}
	g.given = 1;
	return 0;
}

#ifdef FV_ACCEPT
/* ------------------------------------------------ proxy_process (S02) */
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s == sizeof(struct conn_handle) && !g.alloc, "one connection is allocated");
	if (nondet_bool()) {
		g.fail = -ENOMEM;
		return NULL;
	}
	g.alloc = 1;
	g_co = (struct conn_handle){ 0 };
	return &g_co;
}
int conn_init(struct conn_handle *c)
{
	FV_ASSERT(c == &g_co && g.alloc && !g.init, "the connection is initialised");
	if (nondet_bool()) {
		g.fail = IFC_FAIL(conn_init);
		return g.fail;
	}
	g.init = 1;
	return 0;
}
int conn_accept(struct conn_handle *c, struct conn_handle *a)
{
	FV_ASSERT(c == &g_pp.conn_listen && a == &g_co && g.init, "a connection is accepted");
	FV_ASSERT(NOLOCK, "no lock is held while waiting for a client");
	if (nondet_bool()) {
		g.fail = IFC_FAIL(conn_accept);
		return g.fail;
	}
	g.accepted = 1;
	return 0;
}
int proxy_process(struct proxy_handle *ph)
__CPROVER_requires(__CPROVER_pointer_equals(ph, &g_ph) && __CPROVER_pointer_equals(g_ph.priv, (void *)&g_pp) && g_pp.idle_workers_head == &g_poison_w)
__CPROVER_requires(wA.conn_client == NULL)
__CPROVER_assigns(g, g_co, g_pp.idle_workers_head, g_pp.usable_clients, wA.conn_client, wA.next, wB.next, g_whead, g_wnext)
__CPROVER_ensures(NOLOCK)
/* a failure is reported */
__CPROVER_ensures(__CPROVER_return_value == g.fail)
/* handed over to the worker that was taken, or closed and released, exactly once */
__CPROVER_ensures(g.given ==> (wA.conn_client == &g_co && g.alloc && g.init && g.accepted && g.conn_freed == 0 && g.popped && g.wakes == 1))
__CPROVER_ensures(!g.given ==> (!g.alloc && !g.init && !g.accepted && g.conn_freed <= 1 && wA.conn_client == NULL))
__CPROVER_ensures((g.popped && g.fail == 0) ==> g.given)
;
void h_proxy_process(void)
{
	struct proxy_handle *ph;
	g = (struct fv_pool_ghost){ { 0 } };
	int r = proxy_process(ph);
	FV_CANARY_IF(g.given, "handed over");
	FV_CANARY_IF(r == 0 && !g.given, "refused");
	FV_CANARY_IF(r < 0 && g.popped, "failed to hand over");
	FV_CANARY_IF(r < 0 && !g.popped && g.released, "failed to accept");
}
#else
void *fv_calloc(size_t n, size_t s) { FV_ASSERT(0, "nothing is allocated here"); return NULL; }
#endif

#ifdef FV_SESSION
/* ------------------------------------- proxy_worker_func (S01, S02) */
static int proxy_worker_authorize(struct proxy_worker *pw)
__CPROVER_requires(pw == &wA && wA.conn_client == &g_co && NOLOCK && g.auth == 0 && g.alloc && g.init)
__CPROVER_assigns(g.auth, __CPROVER_object_upto(wA.callsign, sizeof(wA.callsign)))
__CPROVER_ensures(IFC_proxy_worker_authorize(__CPROVER_return_value) && g.auth == (__CPROVER_return_value == 0 ? 1 : -1))
;
void proxy_update_registration(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && NOLOCK)
__CPROVER_assigns(g.updates)
__CPROVER_ensures(g.updates == (__CPROVER_old(g.updates) | (g.pushed ? 2 : 1)))
;
uint8_t pearson_get(const uint8_t *d, size_t n)
{
	FV_ASSERT(d == (uint8_t *)wA.callsign, "the callsign selects the bucket");
	return g_hash;
}
struct proxy_conn_handle *g_bucket0, *g_anext, **g_aprev, *g_hnext, **g_hprev;
/* the entries of the bucket other than sA: in the pool or in use */
#define FV_OTHER(s) (s).prev_ptr = nondet_bool() ? NULL : &g_poison_s.next
/* sA stands for the slot that will be handed out, wherever it is in the pool
 * and in the index; the other entries that are met stand for all others */
void clients_at_lock(void)
{
	FV_ASSERT(g.held[M_CLIENTS] == 2, "the pool is locked exclusively");
	if (!g.have_slot) {
		int w = nondet_int();
		FV_ASSERT(g.auth == 1, "slots are handed out to admitted clients");
		FV_OTHER(hH); FV_OTHER(hX); FV_OTHER(hP); FV_OTHER(hN);
		/* pool */
		if (nondet_bool()) {
			g_pp.idle_clients_head = NULL;
			g_pp.idle_clients_tail_ptr = &g_pp.idle_clients_head;
			sA.prev_ptr = hH.prev_ptr = hX.prev_ptr = hP.prev_ptr = hN.prev_ptr = NULL;
			sA.next = NULL;
		} else {
			if (nondet_bool()) {
				g_pp.idle_clients_head = &sA;
				sA.prev_ptr = &g_pp.idle_clients_head;
			} else {
				g_pp.idle_clients_head = nondet_bool() ? &sP : &hX;
				sA.prev_ptr = &sP.next;
				sP.next = &sA;
			}
			if (nondet_bool()) {
				sA.next = &sN;
				sN.prev_ptr = &sA.next;
				g_pp.idle_clients_tail_ptr = &sN.next;
			} else {
				sA.next = NULL;
				g_pp.idle_clients_tail_ptr = &sA.next;
			}
		}
		/* callsign index */
		g_pp.clients_by_call[g_hash2] = NULL;
		g_pp.clients_by_call[g_hash] = nondet_bool() ? &hH : NULL;
		hH.next_by_call = nondet_bool() ? &hX : NULL;
		hX.next_by_call = nondet_bool() ? &hP : NULL;
		hP.next_by_call = NULL;
		hN.next_by_call = nondet_bool() ? &hX : NULL;
		sA.next_by_call = NULL;
		hX.prev_by_call_ptr = &g_poison_s.next_by_call;
		hP.prev_by_call_ptr = &g_poison_s.next_by_call;
		sA.prev_by_call_ptr = w == 0 ? NULL :		/* in no bucket */
			w == 1 ? &g_pp.clients_by_call[g_hash] :	/* first of this bucket */
			w == 2 ? &g_pp.clients_by_call[g_hash2] :	/* first of another bucket */
			w == 3 ? &hH.next_by_call :		/* second of this bucket */
			&hP.next_by_call;			/* anywhere else */
		if (w == 2)
			FV_ASSUME(g_hash2 != g_hash);
		if (w == 3)
			g_pp.clients_by_call[g_hash] = &hH;
		if (w == 1)
			g_pp.clients_by_call[g_hash] = &sA;
		else if (w == 2)
			g_pp.clients_by_call[g_hash2] = &sA;
		else if (w == 3)
			hH.next_by_call = &sA;
		else if (w != 0)
			hP.next_by_call = &sA;
		if (w != 0 && nondet_bool()) {
			sA.next_by_call = &hN;
			hN.prev_by_call_ptr = &sA.next_by_call;
		}
		if (g_pp.clients_by_call[g_hash] == &hH)
			hH.prev_by_call_ptr = &g_pp.clients_by_call[g_hash];
		g_aprev = sA.prev_ptr;
		g_anext = sA.next;
		g_hprev = sA.prev_by_call_ptr;
		g_hnext = sA.next_by_call;
		g_bucket0 = g_pp.clients_by_call[g_hash];
	} else {
		/* release: the pool is empty or ends with sN or sP */
		FV_ASSERT(g.finished, "a slot is put back after its session has been finished");
		g_pp.idle_clients_head = nondet_bool() ? &sN : NULL;
		g_pp.idle_clients_tail_ptr = g_pp.idle_clients_head == NULL ? &g_pp.idle_clients_head : nondet_bool() ? &sN.next : &sP.next;
		if (g_pp.idle_clients_tail_ptr == &sN.next)
			sN.next = NULL;
		else
			sP.next = NULL;
		g_thead = g_pp.idle_clients_head;
		g_ttail = g_pp.idle_clients_tail_ptr;
	}
}
void clients_at_unlock(void)
{
	if (!g.have_slot) {
		FV_ASSERT(g_pp.idle_clients_head == NULL || g.slot_ret != 0, "an admitted client gets a slot when there is one");
	} else if (!g.finished) {
		FV_ASSERT(*g_aprev == g_anext, "the slot is taken out of the pool");
		FV_ASSERT(g_anext == NULL || g_anext->prev_ptr == g_aprev, "the next slot follows the previous one");
		FV_ASSERT(g_anext != NULL || g_pp.idle_clients_tail_ptr == g_aprev, "the end of the pool is known");
		FV_ASSERT(g_anext == NULL || g_pp.idle_clients_tail_ptr == &sN.next, "the end of the pool is unchanged");
		FV_ASSERT(sA.prev_ptr == NULL, "a slot that was taken is marked");
		/* index: taken out of its old place, first of this bucket */
		FV_ASSERT(g_pp.clients_by_call[g_hash] == &sA && sA.prev_by_call_ptr == &g_pp.clients_by_call[g_hash], "the slot is found first by its callsign");
		if (g_hprev == &g_pp.clients_by_call[g_hash])
			FV_ASSERT(sA.next_by_call == g_hnext, "the rest of the bucket follows");
		else
			FV_ASSERT(sA.next_by_call == g_bucket0 && (g_hprev == NULL || *g_hprev == g_hnext), "the slot is taken out of its old place and the bucket follows");
		FV_ASSERT(sA.next_by_call == NULL || sA.next_by_call->prev_by_call_ptr == &sA.next_by_call, "the next entry of the bucket points back");
		FV_ASSERT(g_hprev == NULL || g_hprev == &g_pp.clients_by_call[g_hash] || g_hnext == NULL || g_hnext->prev_by_call_ptr == g_hprev, "the old neighbours are connected");
		g.hash_done = 1;
	} else {
		FV_ASSERT(*g_ttail == &sA && sA.prev_ptr == g_ttail, "the slot becomes the last one of the pool");
		FV_ASSERT(sA.next == NULL && g_pp.idle_clients_tail_ptr == &sA.next, "the slot is the end of the pool");
		FV_ASSERT(g_pp.idle_clients_head == (g_thead == NULL ? &sA : g_thead), "the other slots stay");
		FV_ASSERT(g.back == 0, "a slot is put back once");
		g.back = 1;
	}
	g_pp.idle_clients_head = &g_poison_s;
	g_pp.idle_clients_tail_ptr = &g_poison_s.next;
}
int proxy_conn_accept(struct proxy_conn_handle *pc, struct conn_handle *c, const char *callsign, uint8_t reconnect_only)
{
	int k = nondet_int();
	FV_ASSERT(g.held[M_CLIENTS] == 2, "slots are handed out under the lock of the pool");
	FV_ASSERT(c == &g_co && callsign == wA.callsign && g.auth == 1, "an admitted client gets a slot");
	FV_ASSERT(!g.have_slot && g.slot_ret == 0, "a client gets one slot");
	if (reconnect_only) {
		FV_ASSERT(FV_NODE(pc), "an entry of the bucket");
		FV_ASSERT(pc->prev_ptr != NULL, "only a slot in the pool is handed out");
		if (pc != &sA || k == 0) {
			g.busy = 1;
			return -EBUSY;		/* last used by somebody else */
		}
	} else {
		FV_ASSERT(pc != NULL && pc == g_pp.idle_clients_head, "otherwise the oldest free slot is handed out");
		FV_ASSERT(g.tried == 0, "one slot is tried without regard to the callsign");
		FV_ASSUME(pc == &sA);
		g.tried = 1;
	}
	if (k == 1) {
		g.slot_ret = IFC_FAIL(proxy_conn_accept);
		FV_ASSUME(g.slot_ret != -EBUSY || !reconnect_only);
		return g.slot_ret;
	}
	g.have_slot = 1;
	return 0;
}
int proxy_conn_process(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &sA && g.have_slot && !g.finished, "messages are processed during the session");
	FV_ASSERT(NOLOCK, "no lock is held during the session");
	FV_ASSERT(!g.faulted, "a fault ends the session");
	if (nondet_bool()) {
		g.faulted = 1;
		return fv_err();
	}
	return nondet_int() & 0x7fffffff;
}
void proxy_conn_finish(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &sA && g.have_slot && !g.finished && NOLOCK, "a session is finished once, without locks");
	FV_ASSERT(g.faulted, "a session lasts until a fault");
	FV_ASSERT(g.alloc && g.init, "the connection exists until the session has been finished");
	g.finished = 1;
}
struct worker_handle *g_wh;
static void proxy_worker_func(struct worker_handle *wh)
__CPROVER_requires(__CPROVER_pointer_equals(wh, &wA.worker) && __CPROVER_pointer_equals(wA.worker.func_ctx, (void *)&wA) && __CPROVER_pointer_equals(wA.ph, &g_ph) &&
	__CPROVER_pointer_equals(g_ph.priv, (void *)&g_pp))
__CPROVER_requires(wA.conn_client == NULL || __CPROVER_pointer_equals(wA.conn_client, &g_co))
__CPROVER_requires(g_pp.idle_workers_head == &g_poison_w && g_pp.idle_clients_head == &g_poison_s)
__CPROVER_requires(g.alloc == (wA.conn_client != NULL) && g.init == g.alloc)
__CPROVER_assigns(g, g_pp, wA, wB.next, sA, sP, sN, hP, hN, hH, hX, g_poison_s.next_by_call, g_whead, g_wnext, g_thead, g_ttail, g_bucket0, g_anext, g_aprev, g_hnext, g_hprev)
__CPROVER_ensures(NOLOCK)
/* the connection is closed and released exactly once, the worker idle exactly once */
__CPROVER_ensures(__CPROVER_old(g.alloc) ==> (g.released && !g.alloc && !g.init && g.conn_freed == 1 && wA.conn_client == NULL && g.pushed == 1))
/* nothing happens without a connection */
__CPROVER_ensures(!__CPROVER_old(g.alloc) ==> (!g.released && g.pushed == 0 && !g.have_slot))
/* only an admitted client gets a slot; the slot goes back to the pool, once */
__CPROVER_ensures(g.have_slot ==> (g.auth == 1 && g.finished && g.back == 1 && g.hash_done == 1))
__CPROVER_ensures(!g.have_slot ==> (!g.finished && g.back == 0))
#ifdef FV_G02
/* the counts are updated when a client has been admitted, and when its worker is idle again */
__CPROVER_ensures(g.auth == 1 ==> g.updates == 3)
#endif
;
void h_proxy_worker_func(void)
{
	g = (struct fv_pool_ghost){ { 0 } };
	g.alloc = g.init = nondet_bool();
	proxy_worker_func(&wA.worker);
	FV_CANARY_IF(g.have_slot && g.busy && g_hprev == &hP.next_by_call, "reconnected");
	FV_CANARY_IF(g.have_slot && g.tried, "oldest slot");
	FV_CANARY_IF(g.auth == -1, "rejected");
	FV_CANARY_IF(g.auth == 1 && !g.have_slot && g.slot_ret == 0, "no slot");
	FV_CANARY_IF(!g.auth, "no connection");
}
#endif

#ifdef FV_UPDATE
/* ------------------------------- proxy_update_registration, proxy_shutdown (G02) */
void registration_service_update(struct registration_service_handle *rs, size_t used, size_t total)
{
	FV_ASSERT(rs == &g_pp.reg_service && NOLOCK, "the service of the proxy, without a lock");
	FV_ASSERT(used == (size_t)(g.num - g.idle), "the number of slots in use is that of the workers that are not idle");
	FV_ASSERT(total == (size_t)g.usable, "the number of usable slots");
	g.reported++;
}
void proxy_update_registration(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && g_ph.priv == (void *)&g_pp && NOLOCK && g.reported == 0)
/* every idle worker is in the list once */
__CPROVER_requires(g.num == g_pp.num_clients && g.num >= 0 && g.idle >= 0 && g.idle <= g.num)
__CPROVER_assigns(g, g_vis, g_whead, g_wnext, g_pp.idle_workers_head, g_pp.usable_clients, wA.next, wB.next)
__CPROVER_ensures(g.reported == 1 && NOLOCK)
;
void h_proxy_update_registration(void)
{
	int n = nondet_int(), l = nondet_int();
	g = (struct fv_pool_ghost){ { 0 } };
	g.num = n;
	g.idle = l;
	g_ph.priv = &g_pp;
	proxy_update_registration(&g_ph);
	FV_CANARY_IF(g.idle == g.num && g.num > 3, "idle");
	FV_CANARY_IF(g.idle == 0 && g.num > 0, "full");
	FV_CANARY_IF(g.idle > 1000, "many idle");
}
#endif
