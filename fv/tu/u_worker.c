/* Contracts on worker.c and thread_posix.c.
 *
 * The worker's state is guarded by its lock.  Every step under the lock keeps
 * the invariant and follows the permitted transitions (guarantee); taking the
 * lock, or regaining it after a wait, meets any state that the permitted
 * transitions of the other threads allow (rely).
 *
 * g.pending: a wake has succeeded and the work has not begun to run since.
 * Invariant: pending implies the state SIGNALED or STOPPING_AFTER_WORK. */
#include "mutex.h"
#include "thread.h"
#include "worker.h"
#ifdef FV_THREAD
#include <pthread.h>
#define pthread_create fv_pcreate
#define pthread_join fv_pjoin
#define pthread_attr_init fv_ainit
#define pthread_attr_setstacksize fv_asize
#define pthread_attr_destroy fv_adestroy
int fv_pcreate(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c);
int fv_pjoin(pthread_t t, void **r);
int fv_ainit(pthread_attr_t *a), fv_asize(pthread_attr_t *a, size_t n), fv_adestroy(pthread_attr_t *a);
#endif
#define calloc fv_calloc
#define free fv_free
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);

struct fv_worker_ghost {
	int held;
	int s0;			/* state when the lock was taken or regained */
	int pending;
	int role;		/* 1 the worker's thread, 0 another thread */
	int woken, idle_woken;	/* since the lock was taken */
	int runs, ran_for;
	int started, thread_fail, joined, join_ret, live;
	int waited;
	int kind;		/* which call is being checked */
	/* life cycle */
	int mem, mx, cv, cvi, th, fail, order;
} g;
enum { K_FUNC, K_WAKE, K_JOIN, K_START, K_WAIT_IDLE, K_IS_IDLE, K_LIFE };
#ifndef FV_THREAD
#define PEND_OK(s) (!g.pending || (s) == 4 || (s) == 2)
#define FV_LOOP_worker_func_0 \
	__CPROVER_assigns(g, g_wp.state) \
	__CPROVER_loop_invariant(g.held == 1 && g.role == 1 && g.kind == K_FUNC && g.live == 1) \
	__CPROVER_loop_invariant((int)g_wp.state >= 1 && (int)g_wp.state <= 6 && PEND_OK((int)g_wp.state) && g.ran_for == 0 && (g_wp.state == g.s0 || (g.s0 == 5 && g_wp.state == 4 && !g.pending)))
#define FV_LOOP_worker_func_1 \
	__CPROVER_assigns(g, g_wp.state) \
	__CPROVER_loop_invariant(g.held == 1 && g.role == 1 && g.kind == K_FUNC && g.live == 1) \
	__CPROVER_loop_invariant((int)g_wp.state >= 1 && (int)g_wp.state <= 6 && PEND_OK((int)g_wp.state) && g.ran_for == 0 && (g_wp.state == g.s0 || (g.s0 == 5 && g_wp.state == 4 && !g.pending)))
#define FV_LOOP_worker_wait_idle_0 \
	__CPROVER_assigns(ret, g, g_wp.state) \
	__CPROVER_loop_invariant(g.held == 1 && g.role == 0 && g.kind == K_WAIT_IDLE && ret == 0 && g.woken == 0 && g.idle_woken == 0 && g.runs == 0) \
	__CPROVER_loop_invariant((int)g_wp.state >= 0 && (int)g_wp.state <= 6 && PEND_OK((int)g_wp.state) && g_wp.state == g.s0)
struct worker_priv;
extern struct worker_priv g_wp;
#endif
/* the only call through a pointer, wh->func_ptr(wh), becomes a call of the work
 * the worker has been given (g_wh.func_ptr is fv_work, a precondition) */
#define func_ptr(x) func_ptr, fv_work(x)
static void fv_work(struct worker_handle *wh);
#include "fv_loop_defaults.h"
#ifndef FV_THREAD
#include "worker.c"
#else
#include "thread_posix.c"
#endif
#undef calloc
#undef free
#undef func_ptr

static int fv_err(void)
{
	int r = nondet_int();
	FV_ASSUME(r < 0 && r > -4096);
	return r;
}
#define RET __CPROVER_return_value
#ifndef FV_THREAD
struct worker_priv g_wp;
struct worker_handle g_wh;
struct thread_handle *g_th;

/* what other threads can make of state s */
static int reach(int role, int s, int t)
{
	if (s == t)
		return 1;
	if (role == 1)		/* wake and join, seen by the worker's thread */
		return s > WORKER_STOPPING_AFTER_WORK && (t == WORKER_SIGNALED || t == WORKER_STOPPING || t == WORKER_STOPPING_AFTER_WORK);
	return 1;		/* anything can happen meanwhile */
}
static void acquire(void)
{
	int t = nondet_int();
	FV_ASSUME(t >= WORKER_STOPPED && t <= WORKER_STARTING);
	FV_ASSUME(!(g.role == 1 && t == WORKER_STOPPED));	/* only its thread stops a worker */
	FV_ASSUME(reach(g.role, g.s0, t));
	g_wp.state = t;
	/* a wake may have succeeded meanwhile; the worker's own thread is the
	 * only one that serves it */
	g.pending = g.role == 1 && g.pending ? 1 : nondet_bool();
	FV_ASSUME(PEND_OK(t));
	g.s0 = t;
	g.woken = g.idle_woken = 0;
	g.held = 1;
}
/* the step from g.s0 to the present state is permitted */
static void guarantee(int waiting)
{
	int t = g_wp.state, s = g.s0;
	if (g.role == 1) {
		FV_ASSERT(s == t || (t == WORKER_BUSY && s == WORKER_SIGNALED) || (t == WORKER_STOPPING && s == WORKER_STOPPING_AFTER_WORK) ||
			(t == WORKER_IDLE && s >= WORKER_BUSY) || (t == WORKER_STOPPED && s == WORKER_STOPPING) ||
			(s == WORKER_IDLE && t == WORKER_BUSY && !g.pending), "the worker's thread moves through its states as permitted");
		if ((s == WORKER_SIGNALED || s == WORKER_STOPPING_AFTER_WORK) && s != t) {
			FV_ASSERT(!waiting && t != WORKER_IDLE && t != WORKER_STOPPED, "a signal is answered by running the work");
			g.ran_for = 1;		/* the work has to begin now */
		} else if (s == WORKER_IDLE && t == WORKER_BUSY)
			g.ran_for = 1;		/* periodic wake */
		FV_ASSERT(PEND_OK(t) || g.ran_for, "a successful wake is not forgotten");
		if (g.ran_for)
			g.pending = 0;
		if (t == WORKER_IDLE)
			FV_ASSERT(s == WORKER_IDLE || g.idle_woken, "becoming idle wakes those who wait for it");
		if (t == WORKER_STOPPED)
			g.live = 0;
	} else {
		FV_ASSERT(s == t || g.kind == K_WAKE || g.kind == K_JOIN || g.kind == K_START, "the state is not changed");
		if (g.kind == K_WAKE)
			FV_ASSERT(s == t || (s > WORKER_STOPPING_AFTER_WORK && t == WORKER_SIGNALED), "a wake signals a running worker");
		if (g.kind == K_JOIN) {
			FV_ASSERT(s > WORKER_STOPPING_AFTER_WORK ? (t == WORKER_STOPPING && !g.pending) || (t == WORKER_STOPPING_AFTER_WORK && s == WORKER_SIGNALED) : s == t,
				"joining asks a running worker to stop after what was signalled");
			FV_ASSERT(s == t || g.idle_woken, "stopping wakes those who wait for the worker");
		}
		if (g.kind == K_START)
			FV_ASSERT(s == WORKER_STOPPED ? t == (g.thread_fail ? WORKER_STOPPED : WORKER_STARTING) : s == t, "starting creates the thread of a stopped worker");
		FV_ASSERT(PEND_OK(t), "a successful wake is not forgotten");
	}
	FV_ASSERT(s != WORKER_IDLE || s == t || g.role == 1 || g.woken, "an idle worker is woken");
	g.s0 = t;
}
int mutex_lock(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_wp.mutex && !g.held, "the worker's lock, not taken twice");
	acquire();
	return 0;
}
int mutex_unlock(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_wp.mutex && g.held, "the worker's lock");
	guarantee(0);
	g.held = 0;
	return 0;
}
int mutex_lock_shared(struct mutex_handle *m) { return mutex_lock(m); }
int mutex_unlock_shared(struct mutex_handle *m)
{
	FV_ASSERT(g_wp.state == g.s0, "a reader changes nothing");
	return mutex_unlock(m);
}
int condvar_wait(struct condvar_handle *c, struct mutex_handle *m)
{
	FV_ASSERT(m == &g_wp.mutex && g.held, "the lock is held when waiting");
	guarantee(1);
	if (g.role == 1) {
		FV_ASSERT(c == &g_wp.condvar, "the worker waits for work");
		FV_ASSERT(g_wp.state == WORKER_IDLE && g_wh.periodic_wake == 0, "the worker waits only when it has nothing to do");
	} else {
		FV_ASSERT(c == &g_wp.condvar_idle, "the caller waits for the worker to be idle");
		FV_ASSERT(g_wp.state == WORKER_BUSY || g_wp.state == WORKER_SIGNALED, "waiting only for a worker that is going to be idle or stopped");
	}
	acquire();
	return nondet_bool() ? 0 : fv_err();
}
int condvar_wait_time(struct condvar_handle *c, struct mutex_handle *m, uint32_t ms)
{
	FV_ASSERT(m == &g_wp.mutex && g.held && g.role == 1 && c == &g_wp.condvar, "the worker waits for work");
	FV_ASSERT(ms == g_wh.periodic_wake && ms > 0, "for its period");
	guarantee(1);
	FV_ASSERT(g_wp.state == WORKER_IDLE, "the worker waits only when it has nothing to do");
	acquire();
	return nondet_bool() ? 0 : nondet_bool() ? 1 : fv_err();
}
int condvar_wake_all(struct condvar_handle *c)
{
	FV_ASSERT(c == &g_wp.condvar || c == &g_wp.condvar_idle, "a condition of the worker");
	FV_ASSERT(g.held, "wakes happen under the lock");
	if (c == &g_wp.condvar)
		g.woken = 1;
	else
		g.idle_woken = 1;
	return 0;
}
int condvar_wake_one(struct condvar_handle *c)
{
	FV_ASSERT(c == &g_wp.condvar && g.held, "one thread waits for work, any number for idleness");
	g.woken = 1;
	return 0;
}
int thread_start(struct thread_handle *t)
{
	FV_ASSERT(t == &g_wp.thread && g.held && !g.started, "the thread is started once, before the worker's lock is released");
	FV_ASSERT(g.s0 == WORKER_STOPPED, "the earlier thread has ended");
	g.started = 1;
	if (nondet_bool()) {
		g.thread_fail = fv_err();
		return g.thread_fail;
	}
	return 0;
}
int thread_join(struct thread_handle *t)
{
	FV_ASSERT(t == &g_wp.thread && !g.held, "the thread is joined without the lock it needs");
	FV_ASSERT(g.s0 <= WORKER_STOPPING_AFTER_WORK, "the worker has been asked to stop");
	g.joined++;
	g.join_ret = nondet_bool() ? 0 : fv_err();
	return g.join_ret;
}
static void fv_work(struct worker_handle *wh)
{
	FV_ASSERT(wh == &g_wh, "the work gets its worker");
	FV_ASSERT(!g.held, "the work runs without the lock");
	FV_ASSERT(g.ran_for && g.live, "the work runs once per signal, while the worker runs");
	g.ran_for = 0;
	g.runs = 1;
}

static void *worker_func(void *ctx)
__CPROVER_requires(__CPROVER_pointer_equals(ctx, (void *)&g_wp.thread) && __CPROVER_pointer_equals(g_wp.thread.func_ctx, (void *)&g_wh) && __CPROVER_pointer_equals(g_wh.priv, (void *)&g_wp))
__CPROVER_requires(g.held == 0 && g.role == 1 && g.s0 == WORKER_STARTING && g.live == 1)
__CPROVER_requires(g_wh.func_ptr == fv_work)
__CPROVER_assigns(g, g_wp.state)
/* the thread ends stopped, and no successful wake is left unserved */
__CPROVER_ensures(g.held == 0 && g_wp.state == WORKER_STOPPED && g.pending == 0 && g.live == 0)
;
#define W(wh) (__CPROVER_pointer_equals(wh, &g_wh) && __CPROVER_pointer_equals(g_wh.priv, (void *)&g_wp) && g.held == 0 && g.role == 0)
int worker_wake(struct worker_handle *wh)
__CPROVER_requires(W(wh))
__CPROVER_assigns(g, g_wp.state)
__CPROVER_ensures(IFC_worker_wake(RET))
__CPROVER_ensures(g.held == 0 && RET <= 0)
/* success exactly when the worker runs; then a run is due */
__CPROVER_ensures((RET == 0) == (g_wp.state > WORKER_STOPPING_AFTER_WORK))
__CPROVER_ensures(RET == 0 ==> (g_wp.state == WORKER_SIGNALED))
;
int worker_join(struct worker_handle *wh)
__CPROVER_requires(W(wh))
__CPROVER_assigns(g, g_wp.state)
__CPROVER_ensures(IFC_worker_join(RET))
__CPROVER_ensures(g.held == 0 && g.joined == 1 && RET == g.join_ret)
;
int worker_start(struct worker_handle *wh)
__CPROVER_requires(W(wh))
__CPROVER_assigns(g, g_wp.state)
__CPROVER_ensures(IFC_worker_start(RET))
__CPROVER_ensures(g.held == 0 && RET == g.thread_fail)
__CPROVER_ensures(RET == 0 ==> g_wp.state != WORKER_STOPPED)
;
int worker_wait_idle(struct worker_handle *wh)
__CPROVER_requires(W(wh))
__CPROVER_assigns(g, g_wp.state)
__CPROVER_ensures(IFC_worker_wait_idle(RET))
__CPROVER_ensures(g.held == 0 && RET <= 0)
__CPROVER_ensures((RET == 0) == (g_wp.state >= WORKER_IDLE))
__CPROVER_ensures((RET < 0) == (g_wp.state <= WORKER_STOPPING_AFTER_WORK))
;
int worker_is_idle(struct worker_handle *wh)
__CPROVER_requires(W(wh))
__CPROVER_assigns(g, g_wp.state)
__CPROVER_ensures(g.held == 0 && (RET != 0) == (g_wp.state >= WORKER_IDLE))
;
/* life cycle */
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s == sizeof(struct worker_priv) && !g.mem, "the private data is allocated once");
	if (nondet_bool()) {
		g.fail = -ENOMEM;
		return NULL;
	}
	g.mem = 1;
	g_wp = (struct worker_priv){ 0 };
	return &g_wp;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == (void *)&g_wp && g.mem, "only what was allocated is released, once");
	FV_ASSERT(!g.mx && !g.cv && !g.cvi && !g.th, "its parts are released first");
	g.mem = 0;
}
static int mk(int *live)
{
	FV_ASSERT(!*live, "initialised once");
	if (nondet_bool())
		return g.fail = fv_err();
	*live = 1;
	return 0;
}
int condvar_init(struct condvar_handle *c) { FV_ASSERT(c == &g_wp.condvar || c == &g_wp.condvar_idle, "a condition of the worker"); return mk(c == &g_wp.condvar ? &g.cv : &g.cvi); }
void condvar_free(struct condvar_handle *c) { FV_ASSERT(c == &g_wp.condvar || c == &g_wp.condvar_idle, "a condition of the worker"); FV_ASSERT(!g.th, "the thread is gone"); *(c == &g_wp.condvar ? &g.cv : &g.cvi) = 0; }
int mutex_init(struct mutex_handle *m) { FV_ASSERT(m == &g_wp.mutex, "the lock"); return mk(&g.mx); }
void mutex_free(struct mutex_handle *m) { FV_ASSERT(m == &g_wp.mutex, "the lock"); FV_ASSERT(!g.th && !g.held, "the thread is gone"); g.mx = 0; }
int thread_init(struct thread_handle *t)
{
	FV_ASSERT(t == &g_wp.thread && t->func_ctx == (void *)&g_wh && t->func_ptr == worker_func && t->stack_size == g_wh.stack_size, "the thread runs this worker");
	return mk(&g.th);
}
void thread_free(struct thread_handle *t) { FV_ASSERT(t == &g_wp.thread && g.th && g.joined, "the thread is released after it was joined"); g.th = 0; }
int worker_init(struct worker_handle *wh)
__CPROVER_requires(__CPROVER_pointer_equals(wh, &g_wh) && g_wh.priv == NULL && !g.mem && !g.mx && !g.cv && !g.cvi && !g.th && !g.fail && !g.held)
__CPROVER_assigns(g, g_wp, g_wh.priv)
__CPROVER_ensures(IFC_worker_init(RET))
__CPROVER_ensures(RET == g.fail)
__CPROVER_ensures(RET == 0 ? (g.mem && g.mx && g.cv && g.cvi && g.th && g_wh.priv == (void *)&g_wp && g_wp.state == WORKER_STOPPED) :
	(g_wh.priv == NULL && !g.mem && !g.mx && !g.cv && !g.cvi && !g.th))
;
void worker_free(struct worker_handle *wh)
__CPROVER_requires(__CPROVER_pointer_equals(wh, &g_wh) && (g.mem ? __CPROVER_pointer_equals(g_wh.priv, (void *)&g_wp) : g_wh.priv == NULL) && !g.held && g.role == 0)
__CPROVER_assigns(g, g_wp.state, g_wh.priv)
__CPROVER_ensures(g_wh.priv == NULL && !g.mem && !g.mx && !g.cv && !g.cvi && !g.th)
;
#define Z(k) g = (struct fv_worker_ghost){ 0 }; g.kind = k
void h_worker_func(void) { void *c; Z(K_FUNC); g.role = g.live = 1; g.s0 = WORKER_STARTING; worker_func(c); FV_CANARY_IF(g.runs, "ended after work"); FV_CANARY_IF(!g.runs, "ended without work"); }
void h_worker_wake(void) { struct worker_handle *w; Z(K_WAKE); int r = worker_wake(w); FV_CANARY_IF(r == 0, "woken"); FV_CANARY_IF(r < 0, "stopped"); }
void h_worker_join(void) { struct worker_handle *w; Z(K_JOIN); worker_join(w); FV_CANARY_IF(g_wp.state == WORKER_STOPPING_AFTER_WORK, "joined with work"); FV_CANARY_IF(g_wp.state == WORKER_STOPPED, "joined again"); }
void h_worker_start(void) { struct worker_handle *w; Z(K_START); int r = worker_start(w); FV_CANARY_IF(r == 0 && g.started, "started"); FV_CANARY_IF(r < 0, "failed"); FV_CANARY_IF(!g.started, "already running"); }
void h_worker_wait_idle(void) { struct worker_handle *w; Z(K_WAIT_IDLE); int r = worker_wait_idle(w); FV_CANARY_IF(r == 0, "idle"); FV_CANARY_IF(r < 0, "stopping"); }
void h_worker_is_idle(void) { struct worker_handle *w; Z(K_IS_IDLE); int r = worker_is_idle(w); FV_CANARY_IF(r, "idle"); FV_CANARY_IF(!r, "busy"); }
void h_worker_init(void) { struct worker_handle *w; Z(K_LIFE); int r = worker_init(w); FV_CANARY_IF(r == 0, "ready"); FV_CANARY_IF(r < 0, "failed"); }
void h_worker_free(void) { struct worker_handle *w; Z(K_JOIN); g.mem = g.mx = g.cv = g.cvi = g.th = nondet_bool(); worker_free(w); FV_CANARY("freed"); }
#else
/* ------------------------------------------------------- thread_posix.c */
struct thread_priv g_tp;
struct thread_handle g_t;
struct fv_thread_ghost {
	int mem, mx, held, fail;
	int running;		/* created and not joined */
	int attr, size_set, creates, joins;
} t;
int mutex_lock(struct mutex_handle *m) { FV_ASSERT(m == &g_tp.mutex && !t.held, "the thread's lock"); t.held = 1; return 0; }
int mutex_unlock(struct mutex_handle *m) { FV_ASSERT(m == &g_tp.mutex && t.held, "the thread's lock"); t.held = 0; FV_ASSERT(g_tp.dirty == t.running, "a thread is joinable when it was created and not joined"); return 0; }
int mutex_init(struct mutex_handle *m) { FV_ASSERT(m == &g_tp.mutex && !t.mx && t.mem, "the thread's lock"); if (nondet_bool()) return t.fail = fv_err(); t.mx = 1; return 0; }
void mutex_free(struct mutex_handle *m) { FV_ASSERT(m == &g_tp.mutex && !t.held, "the thread's lock"); FV_ASSERT(!t.running, "the thread has ended"); t.mx = 0; }
static int e(void) { int r = nondet_int(); FV_ASSUME(r > 0 && r < 4096); t.fail = -r; return r; }
int fv_ainit(pthread_attr_t *a) { FV_ASSERT(!t.attr, "attributes are initialised once"); if (nondet_bool()) return e(); t.attr = 1; return 0; }
int fv_adestroy(pthread_attr_t *a) { FV_ASSERT(t.attr, "attributes are destroyed once"); t.attr = 0; return 0; }
int fv_asize(pthread_attr_t *a, size_t n) { FV_ASSERT(t.attr && n == g_t.stack_size && n > 0, "the stack has the wanted size"); if (nondet_bool()) return e(); t.size_set = 1; return 0; }
int fv_pcreate(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *c)
{
	FV_ASSERT(p == &g_tp.thread && t.held && t.attr, "the thread is created under its lock");
	FV_ASSERT(!t.running, "an earlier thread has been joined");
	FV_ASSERT(f == g_t.func_ptr && c == (void *)&g_t, "the thread runs its function");
	FV_ASSERT((g_t.stack_size > 0) == t.size_set, "with the wanted stack");
	t.creates++;
	if (nondet_bool())
		return e();
	t.running = 1;
	return 0;
}
int fv_pjoin(pthread_t p, void **r)
{
	FV_ASSERT(t.running, "a thread is joined once");
	t.running = 0;
	t.joins++;
	return 0;
}
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s == sizeof(struct thread_priv) && !t.mem, "the private data is allocated once");
	if (nondet_bool()) {
		t.fail = -ENOMEM;
		return NULL;
	}
	t.mem = 1;
	g_tp = (struct thread_priv){ 0 };
	return &g_tp;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == (void *)&g_tp && t.mem && !t.mx && !t.running, "only what was allocated is released, once, after its thread and lock");
	t.mem = 0;
}
#define T(p) (__CPROVER_pointer_equals(p, &g_t) && __CPROVER_pointer_equals(g_t.priv, (void *)&g_tp) && t.held == 0 && g_tp.dirty == t.running)
int thread_join(struct thread_handle *pt)
__CPROVER_requires(T(pt))
__CPROVER_assigns(t, g_tp.dirty, g_tp.thread)
__CPROVER_ensures(RET == 0 && !t.held && !t.running && !g_tp.dirty && t.joins == __CPROVER_old(t.running))
;
int thread_start(struct thread_handle *pt)
__CPROVER_requires(T(pt) && t.fail == 0)
__CPROVER_assigns(t, g_tp.dirty, g_tp.thread)
__CPROVER_ensures(RET == t.fail && !t.held && g_tp.dirty == t.running)
__CPROVER_ensures(RET == 0 ==> (t.running && t.creates == 1))
__CPROVER_ensures((RET < 0 && t.creates) ==> !t.running)
;
int thread_init(struct thread_handle *pt)
__CPROVER_requires(__CPROVER_pointer_equals(pt, &g_t) && g_t.priv == NULL && !t.mem && !t.mx && !t.fail && !t.running)
__CPROVER_assigns(t, g_tp, g_t.priv)
__CPROVER_ensures(IFC_thread_init(RET))
__CPROVER_ensures(RET == t.fail)
__CPROVER_ensures(RET == 0 ? (t.mem && t.mx && g_t.priv == (void *)&g_tp && !g_tp.dirty) : (!t.mem && !t.mx && g_t.priv == NULL))
;
void thread_free(struct thread_handle *pt)
__CPROVER_requires(__CPROVER_pointer_equals(pt, &g_t) && (t.mem ? __CPROVER_pointer_equals(g_t.priv, (void *)&g_tp) : g_t.priv == NULL) && t.held == 0 && t.mx == t.mem && g_tp.dirty == t.running && (t.mem || !t.running))
__CPROVER_assigns(t, g_tp.dirty, g_tp.thread, g_t.priv)
__CPROVER_ensures(g_t.priv == NULL && !t.mem && !t.mx && !t.running)
;
#define Z t = (struct fv_thread_ghost){ 0 }
void h_thread_join(void) { struct thread_handle *p; Z; t.running = nondet_bool(); thread_join(p); FV_CANARY_IF(t.joins, "joined"); FV_CANARY_IF(!t.joins, "nothing to join"); }
void h_thread_start(void) { struct thread_handle *p; Z; t.running = nondet_bool(); int r = thread_start(p); FV_CANARY_IF(r == 0, "started"); FV_CANARY_IF(r < 0 && t.creates, "failed"); }
void h_thread_init(void) { struct thread_handle *p; Z; int r = thread_init(p); FV_CANARY_IF(r == 0, "ready"); FV_CANARY_IF(r < 0, "failed"); }
void h_thread_free(void) { struct thread_handle *p; Z; t.mem = t.mx = nondet_bool(); t.running = t.mem ? nondet_bool() : 0; thread_free(p); FV_CANARY("freed"); }
#endif
