/* Contracts on mutex_posix.c; pthreads are external.
 *
 * One lock, seen by one thread: the number of readers is shared with every
 * other thread and becomes arbitrary whenever the pthread lock is taken or
 * waited for (rely); whenever it is left, it has changed by exactly what the
 * call announces (guarantee).  Both sides together make it exact. */
#include <pthread.h>
#include <time.h>
#include "mutex.h"
#ifdef FV_INIT
#define calloc fv_calloc
#define free fv_free
#endif
#define pthread_mutex_lock fv_lock
#define pthread_mutex_unlock fv_unlock
#define pthread_mutex_init fv_mxinit
#define pthread_mutex_destroy fv_mxdestroy
#define pthread_cond_init fv_cvinit
#define pthread_cond_destroy fv_cvdestroy
#define pthread_cond_wait fv_wait
#define pthread_cond_timedwait fv_timedwait
#define pthread_cond_signal fv_signal
#define pthread_cond_broadcast fv_broadcast
#define clock_gettime fv_clock
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
int fv_lock(pthread_mutex_t *m), fv_unlock(pthread_mutex_t *m);
int fv_mxinit(pthread_mutex_t *m, const pthread_mutexattr_t *a), fv_mxdestroy(pthread_mutex_t *m);
int fv_cvinit(pthread_cond_t *c, const pthread_condattr_t *a), fv_cvdestroy(pthread_cond_t *c);
int fv_wait(pthread_cond_t *c, pthread_mutex_t *m), fv_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t);
int fv_signal(pthread_cond_t *c), fv_broadcast(pthread_cond_t *c);
int fv_clock(clockid_t id, struct timespec *t);

struct fv_mutex_ghost {
	int held;		/* this thread holds the pthread lock */
	int delta;		/* change of the readers this call announces */
	int mine;		/* shared holds of this thread */
	int err;		/* a pthread call failed */
	int unlock_err;
	int done;		/* the change has been made */
	int wakes_readers, waits, timeout, sig, bc;
	unsigned r0;		/* readers when the lock was taken or regained */
	/* life cycle */
	int mem, mx, cv, fail;
} g;
struct timespec g_now, g_abs;
#define FV_LOOP_mutex_lock_0 \
	__CPROVER_assigns(ret, g, g_mp.readers) \
	__CPROVER_loop_invariant(ret == 0 && g.held == 1 && g.err == 0 && g.done == 0 && g.mine == 0 && g.delta == 0 && g.unlock_err == 0 && g_mp.readers == g.r0)
#define FV_LOOP_condvar_wait_readers_0 \
	__CPROVER_assigns(g, g_mp.readers) \
	__CPROVER_loop_invariant(g.held == 1 && g.done == 0 && g.mine == 0 && g.delta == 0 && g.waits == 1 && g.unlock_err == 0 && g_mp.readers == g.r0 && g.timeout == __CPROVER_loop_entry(g.timeout) && g.err == __CPROVER_loop_entry(g.err) && g.r0 < 0x7fffffff)
struct mutex_priv;
extern struct mutex_priv g_mp;
#include "fv_loop_defaults.h"
#include "mutex_posix.c"
#undef calloc
#undef free

struct mutex_priv g_mp;
struct condvar_priv g_cp;
struct mutex_handle g_m;
struct condvar_handle g_c;

static int fv_errno_val(void)
{
	int r = nondet_int();
	FV_ASSUME(r > 0 && r < 4096);
	return r;
}
static void others(void)
{
	g_mp.readers = nondet_uint();
	FV_ASSUME(g_mp.readers >= (unsigned)g.mine && g_mp.readers < 0x7fffffff);
	g.r0 = g_mp.readers;
}
static void guarantee(void)
{
	FV_ASSERT(g_mp.readers == g.r0 || (!g.done && g_mp.readers == g.r0 + (unsigned)g.delta), "the number of readers changes by exactly what the call means");
	if (g_mp.readers != g.r0)
		g.done = 1;
	FV_ASSERT(!(g.delta == -1 && g_mp.readers == 0 && g.done) || g.bc || g.err, "the last reader wakes every waiting writer");
}
int fv_lock(pthread_mutex_t *m)
{
	FV_ASSERT(m == &g_mp.lock, "the pthread lock of this mutex");
	FV_ASSERT(!g.held, "the lock is not taken twice");
	if (nondet_bool())
		return g.err = fv_errno_val();
	g.held = 1;
	others();
	return 0;
}
int fv_unlock(pthread_mutex_t *m)
{
	FV_ASSERT(m == &g_mp.lock && g.held, "the lock is held when it is unlocked");
	guarantee();
	g.held = 0;
	if (nondet_bool()) {
		g.unlock_err = 1;
		return fv_errno_val();
	}
	return 0;
}
/* with a held lock and valid objects waiting does not fail for the internal
 * condition in a wait (assumption); in mutex_lock failure is considered */
int fv_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	FV_ASSERT(m == &g_mp.lock && g.held, "the lock is held when waiting");
	FV_ASSERT(c == &g_mp.cond || c == &g_cp.cond, "a condition of this lock");
	FV_ASSERT(c != &g_mp.cond || g_mp.readers > 0, "a writer waits only for readers");
	guarantee();
	others();
	if (c == &g_cp.cond) {
		FV_ASSERT(g.waits == 0, "one wait");
		g.waits = 1;
		if (nondet_bool())
			return g.err = fv_errno_val();
	} else if (g.waits == 0 && nondet_bool())
		return g.err = fv_errno_val();
	return 0;
}
int fv_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	int r;
	FV_ASSERT(m == &g_mp.lock && g.held && c == &g_cp.cond && g.waits == 0, "one wait with the lock held");
	FV_ASSERT(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "the deadline is a valid time");
	g_abs = *t;
	guarantee();
	others();
	g.waits = 1;
	r = nondet_int();
	FV_ASSUME(r >= 0 && r < 4096);
	if (r == ETIMEDOUT)
		g.timeout = 1;
	else
		g.err = r;
	return r;
}
int fv_signal(pthread_cond_t *c)
{
	FV_ASSERT(c == &g_cp.cond, "the condition is signalled");
	g.sig++;
	return g.err = nondet_bool() ? 0 : fv_errno_val();
}
int fv_broadcast(pthread_cond_t *c)
{
	FV_ASSERT(c == &g_mp.cond || c == &g_cp.cond, "the condition is broadcast");
	FV_ASSERT(c != &g_mp.cond || g.held, "readers are counted under the lock");
	g.bc++;
	return g.err = nondet_bool() ? 0 : fv_errno_val();
}
int fv_clock(clockid_t id, struct timespec *t)
{
	FV_ASSERT(id == CLOCK_REALTIME, "conditions wait for the real-time clock");
	g_now.tv_sec = nondet_long();
	g_now.tv_nsec = nondet_long();
	FV_ASSUME(g_now.tv_sec >= 0 && g_now.tv_sec < (1L << 40) && g_now.tv_nsec >= 0 && g_now.tv_nsec < 1000000000);
	*t = g_now;
	return 0;
}
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(!g.mem && (n * s == sizeof(g_mp) || n * s == sizeof(g_cp)), "the private data is allocated once");
	if (nondet_bool()) {
		g.fail = -ENOMEM;
		return NULL;
	}
	g.mem = n * s == sizeof(g_mp) ? 1 : 2;
	if (g.mem == 2) {
		g_cp = (struct condvar_priv){ 0 };
		return &g_cp;
	}
	g_mp.readers = 0;
	return &g_mp;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT((p == (void *)&g_mp && g.mem == 1) || (p == (void *)&g_cp && g.mem == 2), "only what was allocated is released, once");
	FV_ASSERT(!g.mx && !g.cv, "what it holds is destroyed first");
	g.mem = 0;
}
static int fv_create(int *live)
{
	int e;
	FV_ASSERT(!*live, "created once");
	if (nondet_bool()) {
		e = fv_errno_val();
		g.fail = -e;
		return e;
	}
	*live = 1;
	return 0;
}
int fv_mxinit(pthread_mutex_t *m, const pthread_mutexattr_t *a) { FV_ASSERT(m == &g_mp.lock && g.mem == 1, "the lock of this mutex"); return fv_create(&g.mx); }
int fv_cvinit(pthread_cond_t *c, const pthread_condattr_t *a) { FV_ASSERT(g.mem == 1 ? c == &g_mp.cond : g.mem == 2 && c == &g_cp.cond, "the condition"); return fv_create(&g.cv); }
int fv_mxdestroy(pthread_mutex_t *m) { FV_ASSERT(m == &g_mp.lock && g.mx, "a lock is destroyed once"); g.mx = 0; return 0; }
int fv_cvdestroy(pthread_cond_t *c) { FV_ASSERT((c == &g_mp.cond || c == &g_cp.cond) && g.cv, "a condition is destroyed once"); g.cv = 0; return 0; }

#define MX(m) (__CPROVER_pointer_equals(m, &g_m) && __CPROVER_pointer_equals(g_m.priv, (void *)&g_mp))
#define CV(c) (__CPROVER_pointer_equals(c, &g_c) && __CPROVER_pointer_equals(g_c.priv, (void *)&g_cp))
#define RET __CPROVER_return_value
int mutex_lock(struct mutex_handle *mutex)
__CPROVER_requires(MX(mutex) && g.held == 0)
__CPROVER_assigns(g, g_mp.readers)
/* exclusive: the pthread lock is held and nobody is reading; a failure holds nothing */
__CPROVER_ensures(RET <= 0 && (RET == 0 ? (g.held == 1 && g_mp.readers == 0 && g.err == 0) : (g.held == 0 && g.err != 0)))
;
int mutex_unlock(struct mutex_handle *mutex)
__CPROVER_requires(MX(mutex) && g.held == 1 && g_mp.readers == 0 && g.r0 == 0)
__CPROVER_assigns(g, g_mp.readers)
__CPROVER_ensures(g.held == 0 && RET <= 0 && (RET == 0) == (g.unlock_err == 0))
;
int mutex_lock_shared(struct mutex_handle *mutex)
__CPROVER_requires(MX(mutex) && g.held == 0)
__CPROVER_assigns(g, g_mp.readers)
__CPROVER_ensures(g.held == 0 && RET <= 0 && (RET == 0) == (g.err == 0 && g.unlock_err == 0))
/* the reader is counted when and only when the lock was obtained */
__CPROVER_ensures(g.done == (g.err == 0))
;
int mutex_unlock_shared(struct mutex_handle *mutex)
__CPROVER_requires(MX(mutex) && g.held == 0)
__CPROVER_assigns(g, g_mp.readers)
__CPROVER_ensures(g.held == 0 && RET <= 0 && (RET == 0) == (g.err == 0 && g.unlock_err == 0))
__CPROVER_ensures(RET == 0 ==> g.done)
;
int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
__CPROVER_requires(CV(condvar) && MX(mutex) && g.held == 1 && g_mp.readers == 0 && g.r0 == 0)
__CPROVER_assigns(g, g_mp.readers)
__CPROVER_ensures(g.held == 1 && g.waits == 1 && g_mp.readers == 0 && RET <= 0 && (RET == 0) == (g.err == 0))
;
int condvar_wait_time(struct condvar_handle *condvar, struct mutex_handle *mutex, uint32_t msec)
__CPROVER_requires(CV(condvar) && MX(mutex) && g.held == 1 && g_mp.readers == 0 && g.r0 == 0)
__CPROVER_assigns(g, g_mp.readers, g_now, g_abs)
__CPROVER_ensures(g.held == 1 && g.waits == 1 && g_mp.readers == 0)
__CPROVER_ensures(g.timeout ? RET == 1 : RET <= 0 && (RET == 0) == (g.err == 0))
/* the deadline is exactly the given number of milliseconds from now */
__CPROVER_ensures(g_abs.tv_sec == g_now.tv_sec + (msec / 1000) + (g_now.tv_nsec + (msec % 1000) * 1000000 >= 1000000000L))
__CPROVER_ensures(g_abs.tv_nsec == g_now.tv_nsec + (msec % 1000) * 1000000 - (g_now.tv_nsec + (msec % 1000) * 1000000 >= 1000000000L ? 1000000000L : 0))
;
int condvar_wake_one(struct condvar_handle *condvar)
__CPROVER_requires(CV(condvar))
__CPROVER_assigns(g)
__CPROVER_ensures(g.sig + g.bc >= 1 && RET <= 0 && (RET == 0) == (g.err == 0))
;
int condvar_wake_all(struct condvar_handle *condvar)
__CPROVER_requires(CV(condvar))
__CPROVER_assigns(g)
__CPROVER_ensures(g.bc == 1 && RET <= 0 && (RET == 0) == (g.err == 0))
;
int mutex_init(struct mutex_handle *mutex)
__CPROVER_requires(__CPROVER_pointer_equals(mutex, &g_m) && g_m.priv == NULL && !g.mem && !g.mx && !g.cv && !g.fail)
__CPROVER_assigns(g, g_mp, g_cp, g_m.priv)
__CPROVER_ensures(IFC_mutex_init(RET))
__CPROVER_ensures(RET == g.fail)
__CPROVER_ensures(RET == 0 ? (g.mem == 1 && g.mx && g.cv && g_m.priv == (void *)&g_mp && g_mp.readers == 0) : (g_m.priv == NULL && !g.mem && !g.mx && !g.cv))
;
void mutex_free(struct mutex_handle *mutex)
__CPROVER_requires(__CPROVER_pointer_equals(mutex, &g_m) && (g.mem ? __CPROVER_pointer_equals(g_m.priv, (void *)&g_mp) : g_m.priv == NULL))
__CPROVER_assigns(g, g_m.priv)
__CPROVER_ensures(g_m.priv == NULL && !g.mem && !g.mx && !g.cv)
;
int condvar_init(struct condvar_handle *condvar)
__CPROVER_requires(__CPROVER_pointer_equals(condvar, &g_c) && g_c.priv == NULL && !g.mem && !g.mx && !g.cv && !g.fail)
__CPROVER_assigns(g, g_mp.readers, g_cp, g_c.priv)
__CPROVER_ensures(IFC_condvar_init(RET))
__CPROVER_ensures(RET == g.fail)
__CPROVER_ensures(RET == 0 ? (g.mem == 2 && g.cv && g_c.priv == (void *)&g_cp) : (g_c.priv == NULL && !g.mem && !g.cv))
;
void condvar_free(struct condvar_handle *condvar)
__CPROVER_requires(__CPROVER_pointer_equals(condvar, &g_c) && (g.mem ? __CPROVER_pointer_equals(g_c.priv, (void *)&g_cp) : g_c.priv == NULL))
__CPROVER_assigns(g, g_c.priv)
__CPROVER_ensures(g_c.priv == NULL && !g.mem && !g.cv)
;
#define Z g = (struct fv_mutex_ghost){ 0 }
void h_mutex_lock(void) { struct mutex_handle *m; Z; int r = mutex_lock(m); FV_CANARY_IF(r == 0, "locked"); FV_CANARY_IF(r < 0, "failed"); }
void h_mutex_unlock(void) { struct mutex_handle *m; Z; g.held = 1; int r = mutex_unlock(m); FV_CANARY_IF(r == 0, "unlocked"); FV_CANARY_IF(r < 0, "failed"); }
void h_mutex_lock_shared(void) { struct mutex_handle *m; Z; g.delta = 1; int r = mutex_lock_shared(m); FV_CANARY_IF(r == 0, "locked"); FV_CANARY_IF(r < 0, "failed"); }
void h_mutex_unlock_shared(void) { struct mutex_handle *m; Z; g.delta = -1; g.mine = 1; int r = mutex_unlock_shared(m); FV_CANARY_IF(r == 0 && g_mp.readers == 0, "last"); FV_CANARY_IF(r == 0 && g_mp.readers > 0, "not last"); FV_CANARY_IF(r < 0, "failed"); }
void h_condvar_wait(void) { struct condvar_handle *c; struct mutex_handle *m; Z; g.held = 1; int r = condvar_wait(c, m); FV_CANARY_IF(r == 0, "woken"); FV_CANARY_IF(r < 0, "failed"); }
void h_condvar_wait_time(void) { struct condvar_handle *c; struct mutex_handle *m; uint32_t t; Z; g.held = 1; int r = condvar_wait_time(c, m, t); FV_CANARY_IF(r == 0, "woken"); FV_CANARY_IF(r < 0, "failed"); FV_CANARY_IF(r == 1, "timeout"); }
void h_condvar_wake_one(void) { struct condvar_handle *c; Z; int r = condvar_wake_one(c); FV_CANARY_IF(r == 0, "woken"); }
void h_condvar_wake_all(void) { struct condvar_handle *c; Z; int r = condvar_wake_all(c); FV_CANARY_IF(r == 0, "woken"); }
void h_mutex_init(void) { struct mutex_handle *m; Z; int r = mutex_init(m); FV_CANARY_IF(r == 0, "ready"); FV_CANARY_IF(r < 0, "failed"); }
void h_mutex_free(void) { struct mutex_handle *m; Z; g.mem = g.mx = g.cv = nondet_bool(); mutex_free(m); FV_CANARY("freed"); }
void h_condvar_init(void) { struct condvar_handle *c; Z; int r = condvar_init(c); FV_CANARY_IF(r == 0, "ready"); FV_CANARY_IF(r < 0, "failed"); }
void h_condvar_free(void) { struct condvar_handle *c; Z; g.cv = nondet_bool(); g.mem = g.cv ? 2 : 0; condvar_free(c); FV_CANARY("freed"); }
