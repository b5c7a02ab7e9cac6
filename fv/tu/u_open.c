/* Contracts on proxy.c, third part: opening, starting and closing the proxy.
 *
 * The number of slots is arbitrary.  Slot k and worker k, for one arbitrary and
 * constant k, stand for all of them: what holds for k after a loop holds for
 * every slot.  g_r is a second arbitrary index (order of release). */
#include <stdarg.h>
#include "openelp/openelp.h"
#include "conf.h"
#include "conn.h"
#include "digest.h"
#include "log.h"
#include "mutex.h"
#include "pearson.h"
#include "proxy_conn.h"
#include "rand.h"
#include "regex.h"
#include "registration.h"
#include "worker.h"

int g_n, g_k, g_r;			/* constants */
struct fv_g {
	int slots, workers;		/* memory */
	int rx[2];			/* patterns: 0 none, 1 memory, 2 initialised */
	const char *pat[2];
	int log_open, listening, reg_running, closes, reg_stops, shutdowns;
	int err;			/* the failure that has to be reported */
	int pmem, rnd, lg, cf, cl, rs, mx[3];
} g;
int g_cin, g_win, g_wmx;		/* slot k, worker k and its lock are initialised */
int g_cst, g_wst;			/* and running */
int g_cin2, g_win2;			/* the same for index g_r */
int g_drop;
int g_i;		/* hint: the index the current iteration works on */
#define WEAK __attribute__((weak))
#define SW(p) ((p)->clients == g_slots && (p)->client_workers == g_workers)

#ifndef FV_OPEN
#define FV_OPEN_ 0
#else
#define FV_OPEN_ FV_OPEN
#endif
#ifdef FV_OPEN
#define LINK_PREV (g_slots[g_k].prev_ptr == (g_k == 0 ? &g_pp.idle_clients_head : &g_slots[g_k - 1].next))
#define LINK_NEXT (g_slots[g_k].next == (g_k == g_n - 1 ? NULL : &g_slots[g_k + 1]))
#define NOCALL (g_slots[g_k].prev_by_call_ptr == NULL && g_slots[g_k].next_by_call == NULL)
#define WLINKED (g_pp.idle_workers_head == &g_workers[g_n - 1] && g_workers[g_k].next == (g_k == 0 ? NULL : &g_workers[g_k - 1]) && g_workers[g_k].conn_client == NULL)
#if FV_OPEN == 2
#define IFWLINK(x) (x)
#else
#define IFWLINK(x) 1
#endif
#if FV_OPEN != 1 && FV_OPEN != 3
#define LINKED 1
#define IFLINK(x) 1
#define IFNEXT(x) 1
#elif FV_OPEN == 3
#define IFLINK(x) 1
#define IFNEXT(x) (x)
#define LINKED LINK_NEXT
#else
#define IFLINK(x) (x)
#define IFNEXT(x) 1
#define LINKED (LINK_PREV && NOCALL && g_slots[g_k].source_addr == v_addr)
#endif
#define FV_LOOP_proxy_open_0 \
	__CPROVER_assigns(i, g_i, __CPROVER_object_whole(g_slots)) \
	__CPROVER_loop_invariant(i >= 1 && i <= g_n) \
	__CPROVER_loop_invariant(IFLINK(NOCALL && (g_k >= i || (LINK_PREV && g_slots[g_k].source_addr == v_addr)))) \
	__CPROVER_loop_invariant(IFNEXT(g_k + 1 >= i || LINK_NEXT)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_open_1 \
	__CPROVER_assigns(i, g_i, ret, __CPROVER_object_whole(g_slots), g_cin, g_cin2, g.err) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g.err == 0) \
	__CPROVER_loop_invariant(g_cin == (i > g_k) && g_cin2 == (i > g_r) && LINKED) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_open_2 \
	__CPROVER_assigns(i, g_i, g_cin, g_cin2) \
	__CPROVER_loop_invariant(i >= -1 && i < g_n) \
	__CPROVER_loop_invariant(g_cin == (i >= g_k) && g_cin2 == (i >= g_r)) \
	__CPROVER_decreases(i)
#define FV_LOOP_proxy_open_3 \
	__CPROVER_assigns(i, g_i, ret, __CPROVER_object_whole(g_workers), g_win, g_win2, g_wmx, g.err, g_pp.idle_workers_head) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g.err == 0) \
	__CPROVER_loop_invariant(g_win == (i > g_k) && g_wmx == (i > g_k) && g_win2 == (i > g_r)) \
	__CPROVER_loop_invariant(IFWLINK(g_pp.idle_workers_head == (i == 0 ? NULL : &g_workers[i - 1]))) \
	__CPROVER_loop_invariant(IFWLINK(g_workers[g_k].conn_client == NULL && (g_k >= i || g_workers[g_k].next == (g_k == 0 ? NULL : &g_workers[g_k - 1])))) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_open_4 \
	__CPROVER_assigns(i, g_i, g_win, g_win2, g_wmx) \
	__CPROVER_loop_invariant(i >= -1 && i < g_n) \
	__CPROVER_loop_invariant(g_win == (i >= g_k) && g_wmx == (i >= g_k) && g_win2 == (i >= g_r)) \
	__CPROVER_decreases(i)
#define FV_LOOP_proxy_open_5 \
	__CPROVER_assigns(i, g_i, g_win, g_win2, g_wmx) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n) \
	__CPROVER_loop_invariant(g_win == (i <= g_k) && g_wmx == (i <= g_k) && g_win2 == (i <= g_r)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_open_6 \
	__CPROVER_assigns(i, g_i, g_cin, g_cin2) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n) \
	__CPROVER_loop_invariant(g_cin == (i <= g_k) && g_cin2 == (i <= g_r)) \
	__CPROVER_decreases(g_n - i)
#endif
#define FV_GHOST_proxy_open_0 g_i = i;
#define FV_GHOST_proxy_open_1 g_i = i;
#define FV_GHOST_proxy_open_2 g_i = i;
#define FV_GHOST_proxy_open_3 g_i = i;
#define FV_GHOST_proxy_open_4 g_i = i;
#define FV_GHOST_proxy_open_5 g_i = i;
#define FV_GHOST_proxy_open_6 g_i = i;
#define FV_GHOST_proxy_drop_0 g_i = i;
#define FV_GHOST_proxy_close_0 g_i = i;
#define FV_GHOST_proxy_close_1 g_i = i;
#define FV_GHOST_proxy_start_0 g_i = i;
#define FV_GHOST_proxy_start_1 g_i = i;
#define FV_GHOST_proxy_start_2 g_i = i;
#define FV_GHOST_proxy_start_3 g_i = i;
#ifdef FV_CLOSE
#define FV_LOOP_proxy_drop_0 \
	__CPROVER_assigns(i, g_i, g_drop) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g_drop == (i > g_k)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_close_0 \
	__CPROVER_assigns(i, g_i, g_win, g_win2, g_wmx, g_pp.idle_workers_head, g_pp.idle_clients_head, g_pp.idle_clients_tail_ptr, g_pp.clients_by_call[0]) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g_win == (i <= g_k) && g_wmx == (i <= g_k) && g_win2 == (i <= g_r)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_close_1 \
	__CPROVER_assigns(i, g_i, g_cin, g_cin2) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g_cin == (i <= g_k) && g_cin2 == (i <= g_r)) \
	__CPROVER_decreases(g_n - i)
#endif
#ifdef FV_START
#define FV_LOOP_proxy_start_0 \
	__CPROVER_assigns(i, g_i, ret, g_cst, g.err) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g.err == 0 && g_cst == (i > g_k)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_start_1 \
	__CPROVER_assigns(i, g_i, ret, g_wst, g.err) \
	__CPROVER_loop_invariant(i >= 0 && i <= g_n && g.err == 0 && g_wst == (i > g_k)) \
	__CPROVER_decreases(g_n - i)
#define FV_LOOP_proxy_start_2 \
	__CPROVER_assigns(i, g_i, g_wst) \
	__CPROVER_loop_invariant(i >= -1 && i < g_n && g_wst == (i >= g_k)) \
	__CPROVER_decreases(i)
#define FV_LOOP_proxy_start_3 \
	__CPROVER_assigns(i, g_i, g_cst) \
	__CPROVER_loop_invariant(i >= -1 && i < g_n && g_cst == (i >= g_k)) \
	__CPROVER_decreases(i)
#endif
struct proxy_conn_handle;
struct proxy_worker;
struct proxy_priv;
struct proxy_conn_handle *g_slots;
struct proxy_worker *g_workers;
extern struct proxy_priv g_pp;
const char *v_addr;
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#define calloc fv_calloc
#define free fv_free
#include "fv_loop_defaults.h"
#include "proxy.c"
#undef calloc
#undef free
#define RET __CPROVER_return_value
struct proxy_handle g_ph;
struct proxy_priv g_pp;
struct regex_handle g_rx[2];

void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(1)
;
void proxy_update_registration(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph)
__CPROVER_assigns()
__CPROVER_ensures(1)
;
#ifdef FV_FAIL
/* Case split: what fails first, if anything does.  Opening stops at the first
 * failure, so the cases together cover everything. */
enum { F_NONE, F_EARLY, F_SLOT, F_WORKER, F_LISTEN };
#define MAYFAIL(c) ((c) == FV_FAIL && nondet_bool())
#define MUSTGO(c) FV_ASSUME((c) <= FV_FAIL || FV_FAIL == F_NONE)
#else
#define MAYFAIL(c) nondet_bool()
#define MUSTGO(c)
#endif
/* What the slots and workers contain is checked where everything succeeds: a
 * run that fails is the same up to the call that fails. */
#if defined(FV_FAIL) && (FV_FAIL != 0 || FV_OPEN == 1 || FV_OPEN == 3)
#define CONTENT 0
#else
#define CONTENT 1
#endif
static int fails(void)
{
	int e = nondet_int();
	FV_ASSUME(e < 0 && e > -4096);
	return g.err = e;
}
/* --------------------------------------------------- components (contracts) */
int mutex_lock(struct mutex_handle *m) { FV_ASSERT(m == &g_pp.usable_clients_mutex, "the lock of usable_clients"); return 0; }
int mutex_unlock(struct mutex_handle *m) { FV_ASSERT(m == &g_pp.usable_clients_mutex, "the lock of usable_clients"); return 0; }
int proxy_conn_init(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &g_slots[g_i] && g_i >= 0 && g_i < g_n && g.slots == 1, "a slot of the proxy");
	if (g_i == g_k)
		FV_ASSERT(g_cin == 0 && (!CONTENT || FV_OPEN_ == 2 || g_slots[g_k].ph == &g_ph) && (FV_OPEN_ != 1 || g_slots[g_k].source_addr == v_addr), "a slot is initialised once, with its address");
	MUSTGO(F_SLOT);
	if (MAYFAIL(F_SLOT))
		return fails();
	if (g_i == g_k)
		g_cin = 1;
	if (g_i == g_r)
		g_cin2 = 1;
	return 0;
}
void proxy_conn_free(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &g_slots[g_i] && g_i >= 0 && g_i < g_n && g.slots == 1, "a slot of the proxy");
	FV_ASSERT(g_win2 == 0, "the slots are released after all workers have been stopped");
	if (g_i == g_k) {
		FV_ASSERT(g_cin == 1, "a slot is released once");
		g_cin = 0;
	}
	if (g_i == g_r)
		g_cin2 = 0;
}
void proxy_conn_drop(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &g_slots[g_i] && g_i >= 0 && g_i < g_n && g.slots == 1, "a slot of the proxy");
	if (g_i == g_k) {
		FV_ASSERT(g_cin == 1, "a slot that is initialised is dropped");
		g_drop = 1;
	}
}
int proxy_conn_start(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &g_slots[g_i] && g_i >= 0 && g_i < g_n && g.slots == 1, "a slot of the proxy");
	if (nondet_bool())
		return fails();
	if (g_i == g_k) {
		FV_ASSERT(g_cst == 0, "a slot is started once");
		g_cst = 1;
	}
	return 0;
}
int proxy_conn_stop(struct proxy_conn_handle *pc)
{
	FV_ASSERT(pc == &g_slots[g_i] && g_i >= 0 && g_i < g_n && g.slots == 1, "a slot of the proxy");
	if (g_i == g_k) {
		FV_ASSERT(g_cst == 1, "a slot that runs is stopped");
		g_cst = 0;
	}
	return 0;
}
int worker_init(struct worker_handle *w)
{
	FV_ASSERT(w == &g_workers[g_i].worker && g_i >= 0 && g_i < g_n && g.workers == 1, "a worker of the proxy");
	MUSTGO(F_WORKER);
	if (MAYFAIL(F_WORKER))
		return fails();
	if (g_i == g_k) {
		FV_ASSERT(g_win == 0, "a worker is initialised once");
		FV_ASSERT(g_workers[g_k].worker.func_ctx == &g_workers[g_k] && g_workers[g_k].worker.func_ptr == proxy_worker_func && g_workers[g_k].ph == &g_ph, "and knows what to do");
		g_win = 1;
	}
	if (g_i == g_r)
		g_win2 = 1;
	return 0;
}
/* the worker may still be finishing a session: it returns itself and its slot
 * to the pool before it is joined here */
void worker_free(struct worker_handle *w)
{
	FV_ASSERT(w == &g_workers[g_i].worker && g_i >= 0 && g_i < g_n && g.workers == 1 && g.slots == 1, "a worker of the proxy");
	if (g_i == g_k) {
		FV_ASSERT(g_win == 1 && g_wmx == 1, "a worker is released once, before its lock");
		g_win = 0;
	}
	if (g_i == g_r)
		g_win2 = 0;
#ifdef FV_CLOSE
	if (nondet_bool()) {
		g_pp.idle_workers_head = g_workers;
		g_pp.idle_clients_head = g_slots;
		g_pp.idle_clients_tail_ptr = &g_slots[0].next;
		g_pp.clients_by_call[0] = g_slots;
	}
#endif
}
int worker_start(struct worker_handle *w)
{
	FV_ASSERT(w == &g_workers[g_i].worker && g_i >= 0 && g_i < g_n && g.workers == 1, "a worker of the proxy");
	if (nondet_bool())
		return fails();
	if (g_i == g_k) {
		FV_ASSERT(g_wst == 0, "a worker is started once");
		g_wst = 1;
	}
	return 0;
}
int worker_join(struct worker_handle *w)
{
	FV_ASSERT(w == &g_workers[g_i].worker && g_i >= 0 && g_i < g_n && g.workers == 1, "a worker of the proxy");
	if (g_i == g_k) {
		FV_ASSERT(g_wst == 1, "a worker that runs is stopped");
		g_wst = 0;
	}
	return 0;
}
#ifdef FV_LIFE
static int which_m(const struct mutex_handle *m)
{
	int i = m == &g_pp.usable_clients_mutex ? 0 : m == &g_pp.idle_clients_mutex ? 1 : 2;
	FV_ASSERT(i != 2 || m == &g_pp.idle_workers_mutex, "a lock of the proxy");
	FV_ASSERT(g.pmem == 1, "memory that is live");
	return i;
}
int mutex_init(struct mutex_handle *m)
{
	int i = which_m(m);
	FV_ASSERT(g.mx[i] == 0 && m->priv == NULL, "a lock is initialised once");
	if (nondet_bool())
		return fails();
	m->priv = m;
	g.mx[i] = 1;
	return 0;
}
void mutex_free(struct mutex_handle *m)
{
	int i = which_m(m);
	FV_ASSERT((m->priv != NULL) == g.mx[i], "a lock is valid or was never initialised");
	m->priv = NULL;
	g.mx[i] = 0;
}
#define PART(n, f, obj) FV_ASSERT(f == &g_pp.obj, "the " n); FV_ASSERT(g.pmem == 1, "memory that is live")
int rand_init(void) { if (nondet_bool()) return fails(); g.rnd++; return 0; }
void rand_free(void) { if (g.rnd) g.rnd--; }
int log_init(struct log_handle *l)
{
	PART("log", l, log);
	FV_ASSERT(g.lg == 0 && l->priv == NULL, "the log is initialised once");
	if (nondet_bool())
		return fails();
	l->priv = l;
	g.lg = 1;
	return 0;
}
void log_free(struct log_handle *l)
{
	PART("log", l, log);
	FV_ASSERT((l->priv != NULL) == g.lg, "a valid log");
	l->priv = NULL;
	g.lg = 0;
}
int conf_init(struct proxy_conf *c) { FV_ASSERT(c == &g_ph.conf, "the configuration"); if (nondet_bool()) return fails(); g.cf = 1; return 0; }
void conf_free(struct proxy_conf *c) { FV_ASSERT(c == &g_ph.conf, "the configuration"); g.cf = 0; }
int conn_init(struct conn_handle *c)
{
	PART("listening connection", c, conn_listen);
	FV_ASSERT(g.cl == 0 && c->priv == NULL && c->type == CONN_TYPE_TCP, "a TCP connection is initialised once");
	if (nondet_bool())
		return fails();
	c->priv = c;
	g.cl = 1;
	return 0;
}
void conn_free(struct conn_handle *c)
{
	PART("listening connection", c, conn_listen);
	FV_ASSERT((c->priv != NULL) == g.cl, "a valid connection");
	c->priv = NULL;
	g.cl = 0;
}
int registration_service_init(struct registration_service_handle *r)
{
	PART("registration service", r, reg_service);
	FV_ASSERT(g.rs == 0 && r->priv == NULL, "the service is initialised once");
	if (nondet_bool())
		return fails();
	r->priv = r;
	g.rs = 1;
	return 0;
}
void registration_service_free(struct registration_service_handle *r)
{
	PART("registration service", r, reg_service);
	FV_ASSERT((r->priv != NULL) == g.rs, "a valid service");
	r->priv = NULL;
	g.rs = 0;
}
void proxy_close(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == &g_pp && g.pmem == 1 && g.rnd && g.lg == 1 && g.cl == 1 && g.rs == 1 && g.mx[0] && g.mx[1] && g.mx[2])
__CPROVER_assigns(g.closes)
__CPROVER_ensures(g.closes == 1)
;
#else
int mutex_init(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_workers[g_i].mutex && g_i >= 0 && g_i < g_n && g.workers == 1, "the lock of a worker");
	MUSTGO(F_WORKER);
	if (MAYFAIL(F_WORKER))
		return fails();
	if (g_i == g_k) {
		FV_ASSERT(g_wmx == 0, "a lock is initialised once");
		g_wmx = 1;
	}
	return 0;
}
void mutex_free(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_workers[g_i].mutex && g_i >= 0 && g_i < g_n && g.workers == 1, "the lock of a worker");
	if (g_i == g_k) {
		FV_ASSERT(g_wmx == 1 && g_win == 0, "a lock is released once, after its worker");
		g_wmx = 0;
	}
}
#endif
int log_open(struct log_handle *l) { FV_ASSERT(l == &g_pp.log, "the log"); MUSTGO(F_EARLY);
	if (MAYFAIL(F_EARLY)) return fails(); g.log_open = 1; return 0; }
void log_close(struct log_handle *l) { FV_ASSERT(l == &g_pp.log, "the log"); g.log_open = 0; }
void conn_port_to_str(uint16_t port, char result[6]) { FV_ASSERT(port == g_ph.conf.port && result == g_pp.port_str, "the configured port"); }
int conn_listen(struct conn_handle *c)
{
	FV_ASSERT(c == &g_pp.conn_listen && g.listening == 0, "the listening connection");
	FV_ASSERT(c->source_addr == g_ph.conf.bind_addr && c->source_port == g_pp.port_str, "at the configured address and port");
	MUSTGO(F_LISTEN);
	if (MAYFAIL(F_LISTEN))
		return fails();
	g.listening = 1;
	return 0;
}
void conn_close(struct conn_handle *c) { FV_ASSERT(c == &g_pp.conn_listen, "the listening connection"); g.listening = 0; }
void conn_shutdown(struct conn_handle *c) { FV_ASSERT(c == &g_pp.conn_listen, "the listening connection"); g.shutdowns++; }
int registration_service_start(struct registration_service_handle *r, const struct proxy_conf *c)
{
	FV_ASSERT(r == &g_pp.reg_service && c == &g_ph.conf && g.reg_running == 0, "the registration service is started");
	if (nondet_bool())
		return fails();
	g.reg_running = 1;
	return 0;
}
int registration_service_stop(struct registration_service_handle *r)
{
	FV_ASSERT(r == &g_pp.reg_service, "the registration service is stopped");
	g.reg_running = 0;
	g.reg_stops++;
	return nondet_bool() ? fails() : 0;
}
/* -------------------------------------------------------------- patterns */
static int which_rx(const struct regex_handle *re)
{
	int i = re == &g_rx[1];
	FV_ASSERT(re == &g_rx[i], "a pattern of the proxy");
	return i;
}
int regex_init(struct regex_handle *re)
{
	int i = which_rx(re);
	FV_ASSERT(g.rx[i] == 1, "a pattern is initialised once");
	MUSTGO(F_EARLY);
	if (MAYFAIL(F_EARLY))
		return fails();
	g.rx[i] = 2;
	return 0;
}
int regex_compile(struct regex_handle *re, const char *p)
{
	int i = which_rx(re);
	FV_ASSERT(g.rx[i] == 2, "a pattern that is initialised is compiled");
	MUSTGO(F_EARLY);
	if (MAYFAIL(F_EARLY))
		return fails();
	g.pat[i] = p;
	return 0;
}
void regex_free(struct regex_handle *re)
{
	int i = which_rx(re);
	FV_ASSERT(g.rx[i] >= 1, "a pattern that is live");
	g.rx[i] = 1;
	g.pat[i] = NULL;
}
/* ---------------------------------------------------------------- memory */
void *fv_calloc(size_t n, size_t s)
{
#ifdef FV_LIFE
	FV_ASSERT(n * s == sizeof(g_pp) && g.pmem == 0, "the proxy's memory");
	if (nondet_bool()) {
		g.err = -ENOMEM;
		return NULL;
	}
	g.pmem = 1;
	memset(&g_pp, 0, sizeof(g_pp));
	return &g_pp;
#else
	if (s == sizeof(struct regex_handle) && n == 1) {
		int i = g.rx[0] != 0;
		FV_ASSERT(g.rx[i] == 0, "at most two patterns");
		if (MAYFAIL(F_EARLY)) {
			g.err = -ENOMEM;
			return NULL;
		}
		g_rx[i].priv = NULL;
		g.rx[i] = 1;
		return &g_rx[i];
	}
	FV_ASSERT(n == (size_t)g_n && (s == sizeof(struct proxy_conn_handle) || s == sizeof(struct proxy_worker)), "memory for all slots or workers");
	FV_ASSERT(s == sizeof(struct proxy_worker) ? !g.workers : !g.slots, "once");
	if (MAYFAIL(F_EARLY)) {
		g.err = -ENOMEM;
		return NULL;
	}
	if (s == sizeof(struct proxy_worker)) {
		g.workers = 1;
		return g_workers;
	}
	g.slots = 1;
	return g_slots;
#endif
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
#ifdef FV_LIFE
	if (p == &g_pp) {
		FV_ASSERT(g.pmem == 1 && !g.lg && !g.cf && !g.cl && !g.rs && !g.mx[0] && !g.mx[1] && !g.mx[2] && !g.rx[0] && !g.rx[1], "the memory is released once, after what it owns");
		g.pmem = 0;
		return;
	}
#else
	if (p == g_slots) {
		FV_ASSERT(g.slots == 1 && g_cin == 0 && g_win == 0, "the slots are released once, and after what they own");
		g.slots = 0;
		return;
	}
	if (p == g_workers) {
		FV_ASSERT(g.workers == 1 && g_win == 0 && g_wmx == 0, "the workers are released once, and after what they own");
		g.workers = 0;
		return;
	}
#endif
	FV_ASSERT(p == &g_rx[0] || p == &g_rx[1], "memory of the proxy");
	int i = p == &g_rx[1];
	FV_ASSERT(g.rx[i] == 1, "a pattern is released once");
	g.rx[i] = 0;
}
/* ------------------------------------------------------------- contracts */
#define NORX(p) ((p) == NULL)
#define RXOK(p) ((p) == NULL || ((p) == &g_rx[0] && g.rx[0] == 2) || ((p) == &g_rx[1] && g.rx[1] == 2))
#define RXLIVE ((g.rx[0] != 0) + (g.rx[1] != 0) == (g_pp.re_calls_allowed != NULL) + (g_pp.re_calls_denied != NULL) && (g_pp.re_calls_allowed == NULL || g_pp.re_calls_allowed != g_pp.re_calls_denied))
#define RXIS(p, want) ((want) == NULL ? (p) == NULL : (p) != NULL && g.pat[(p) == &g_rx[1]] == (want))
#define CLOSED (g_pp.clients == NULL && g_pp.client_workers == NULL && g_pp.num_clients == 0 && g_pp.idle_workers_head == NULL && g_pp.idle_clients_head == NULL && g_pp.idle_clients_tail_ptr == NULL && \
	g.slots == 0 && g.workers == 0 && g_cin == 0 && g_win == 0 && g_wmx == 0 && g_cin2 == 0 && g_win2 == 0 && g.listening == 0)
int v_bk;
#if defined(FV_OPEN) || defined(FV_CLOSE) || defined(FV_WORKER)
/* one worker, the one the current iteration works on */
#define WI (g_i >= 0 && g_i < g_n && pw == &g_workers[g_i] && g.workers == 1)
#if defined(FV_FAIL)
#define CASE_WORKER ((FV_FAIL == F_WORKER && RET <= 0) || (RET == 0 && (FV_FAIL == F_NONE || FV_FAIL > F_WORKER)))
#else
#define CASE_WORKER 1
#endif
static int proxy_worker_init(struct proxy_worker *pw)
__CPROVER_requires(WI && g.err == 0 && (g_i == g_k ? g_win == 0 && g_wmx == 0 && (!CONTENT || g_workers[g_k].ph == &g_ph) : 1))
__CPROVER_assigns(g_win, g_win2, g_wmx, g.err, __CPROVER_object_whole(g_workers))
__CPROVER_ensures(RET == g.err && RET <= 0 && RET > -4096 && CASE_WORKER)
__CPROVER_ensures(g_win == (g_i == g_k ? RET == 0 : __CPROVER_old(g_win)) && g_wmx == (g_i == g_k ? RET == 0 : __CPROVER_old(g_wmx)) && g_win2 == (g_i == g_r && RET == 0 ? 1 : __CPROVER_old(g_win2)))
__CPROVER_ensures(!CONTENT || g_workers[g_k].next == __CPROVER_old(g_workers[g_k].next) && g_workers[g_k].conn_client == __CPROVER_old(g_workers[g_k].conn_client));
static void proxy_worker_free(struct proxy_worker *pw)
__CPROVER_requires(WI && (g_i == g_k ? g_win == 1 && g_wmx == 1 : 1))
__CPROVER_assigns(g_win, g_win2, g_wmx)
__CPROVER_ensures(g_win == (g_i == g_k ? 0 : __CPROVER_old(g_win)) && g_wmx == (g_i == g_k ? 0 : __CPROVER_old(g_wmx)) && g_win2 == (g_i == g_r ? 0 : __CPROVER_old(g_win2)));
#endif
#ifdef FV_OPEN
int proxy_open(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == &g_pp && CLOSED && RXOK(g_pp.re_calls_allowed) && RXOK(g_pp.re_calls_denied) && RXLIVE)
__CPROVER_assigns(g_pp, g, g_cin, g_win, g_wmx, g_cin2, g_win2, g_i, g_rx[0], g_rx[1], __CPROVER_object_whole(g_slots), __CPROVER_object_whole(g_workers))
__CPROVER_ensures(RET == g.err && RET <= 0 && RXLIVE && RXOK(g_pp.re_calls_allowed) && RXOK(g_pp.re_calls_denied))
__CPROVER_ensures(RET < 0 ==> CLOSED && g_pp.re_calls_allowed == NULL && g_pp.re_calls_denied == NULL)
__CPROVER_ensures(RET == 0 ==> SW(&g_pp) && g_pp.num_clients == g_n && g.slots == 1 && g.workers == 1 && g.listening == 1 && g.log_open == 1)
__CPROVER_ensures(RET == 0 ==> g_cin == 1 && g_win == 1 && g_wmx == 1)
#if FV_OPEN == 1 || FV_OPEN == 3
__CPROVER_ensures(RET == 0 ==> LINKED && g_pp.idle_clients_head == g_slots && g_pp.idle_clients_tail_ptr == &g_slots[g_n - 1].next)
#elif FV_OPEN == 2
__CPROVER_ensures(RET == 0 ==> WLINKED)
#endif
#if FV_OPEN == 0
__CPROVER_ensures(RET == 0 ==> g_pp.clients_by_call[v_bk] == NULL)
#endif
__CPROVER_ensures(FV_OPEN != 0 || RET < 0 || RXIS(g_pp.re_calls_allowed, g_ph.conf.calls_allowed) && RXIS(g_pp.re_calls_denied, g_ph.conf.calls_denied));
#endif
#ifdef FV_CLOSE
void proxy_close(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == &g_pp)
__CPROVER_assigns(g_pp, g, g_cin, g_win, g_wmx, g_cin2, g_win2, g_drop, g_i)
__CPROVER_ensures(CLOSED && g_pp.clients_by_call[v_bk] == NULL && g_pp.usable_clients == 0 && g.log_open == 0 && g.reg_running == 0)
__CPROVER_ensures(g_n > 0 ==> g_drop == 1);
void proxy_drop(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == &g_pp)
__CPROVER_assigns(g_drop, g_i)
__CPROVER_ensures(g_n > 0 ==> g_drop == 1);
#endif
#ifdef FV_START
int proxy_start(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == &g_pp && SW(&g_pp) && g_pp.num_clients == g_n && g_cst == 0 && g_wst == 0)
__CPROVER_assigns(g_pp.usable_clients, g, g_cst, g_wst, g_i)
__CPROVER_ensures(RET == g.err && RET <= 0)
__CPROVER_ensures(RET == 0 ? g_cst == 1 && g_wst == 1 && g.reg_running == 1 && g_pp.usable_clients == g_n : g_cst == 0 && g_wst == 0 && g.reg_running == 0);
#endif
#ifdef FV_LIFE
#define NOTHING (g.pmem == 0 && !g.lg && !g.cf && !g.cl && !g.rs && !g.mx[0] && !g.mx[1] && !g.mx[2] && !g.rx[0] && !g.rx[1])
#define ALL (g.pmem == 1 && g.lg && g.cf && g.cl && g.rs && g.mx[0] && g.mx[1] && g.mx[2])
int proxy_init(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && ph->priv == NULL && NOTHING && g.err == 0)
__CPROVER_assigns(g_ph, g_pp, g)
__CPROVER_ensures(RET == g.err)
__CPROVER_ensures(RET == 0 ? ALL && ph->priv == &g_pp : NOTHING && ph->priv == NULL);
void proxy_free(struct proxy_handle *ph)
__CPROVER_requires(ph == &g_ph && (ph->priv == NULL ? NOTHING : ph->priv == &g_pp && ALL))
__CPROVER_assigns(g_ph, g_pp, g, g_rx[0], g_rx[1])
__CPROVER_ensures(NOTHING && ph->priv == NULL);
#endif
/* ------------------------------------------------------------- harnesses */
char g_ca[1], g_cd[1], g_ba[1], g_ext[1];
static void start(int lo)
{
	g = (struct fv_g){ 0 };
	g_cin = g_win = g_wmx = g_cst = g_wst = g_cin2 = g_win2 = g_drop = 0;
	g_n = nondet_int();
	g_k = nondet_int();
	g_r = nondet_int();
	FV_ASSUME(g_n >= lo && g_n <= 65536 && g_k >= 0 && g_r >= 0 && (g_n == 0 || (g_k < g_n && g_r < g_n)));
	v_bk = nondet_int();
	FV_ASSUME(v_bk >= 0 && v_bk < 256);
	g_slots = malloc(sizeof(struct proxy_conn_handle) * (size_t)(g_n ? g_n : 1));
	g_workers = malloc(sizeof(struct proxy_worker) * (size_t)(g_n ? g_n : 1));
	FV_ASSUME(g_slots != NULL && g_workers != NULL);
	g_ph.priv = &g_pp;
	g_ph.conf.bind_addr = nondet_bool() ? g_ba : NULL;
}
static void pattern(struct regex_handle **p, int i)
{
	*p = NULL;
	if (nondet_bool()) {
		*p = &g_rx[i];
		g.rx[i] = 2;
	}
}
#ifdef FV_OPEN
void h_proxy_open(void)
{
	start(1);
	g_ph.conf.bind_addr_ext = nondet_bool() ? g_ext : NULL;
	g_ph.conf.bind_addr_ext_add_len = (uint16_t)(g_n - 1);
	g_ph.conf.bind_addr_ext_add = malloc(sizeof(char *) * (size_t)g_n);
	FV_ASSUME(g_ph.conf.bind_addr_ext_add != NULL);
	if (g_k > 0)
		FV_ASSUME(g_ph.conf.bind_addr_ext_add[g_k - 1] == NULL);
	v_addr = g_k == 0 ? g_ph.conf.bind_addr_ext : NULL;
	g_ph.conf.calls_allowed = nondet_bool() ? g_ca : NULL;
	g_ph.conf.calls_denied = nondet_bool() ? g_cd : NULL;
	pattern(&g_pp.re_calls_allowed, 0);
	pattern(&g_pp.re_calls_denied, 1);
	g_pp.clients = NULL;
	g_pp.client_workers = NULL;
	g_pp.idle_workers_head = NULL;
	g_pp.idle_clients_head = NULL;
	g_pp.idle_clients_tail_ptr = NULL;
	g_pp.num_clients = 0;
	/* calloc clears */
	FV_ASSUME(g_slots[g_k].prev_by_call_ptr == NULL && g_slots[g_k].next_by_call == NULL && g_workers[g_k].conn_client == NULL);
	int ret = proxy_open(&g_ph);
#if FV_FAIL == 0
	FV_CANARY_IF(ret == 0 && g_k > 1 && g_k + 2 < g_n, "open");
#else
	FV_CANARY_IF(ret < 0, "not open");
#endif
}
#endif
#ifdef FV_WORKER
static struct proxy_worker *worker(void)
{
	start(1);
	g.workers = 1;
	g.slots = 1;
	g_i = nondet_int();
	g_win = nondet_bool();
	g_wmx = nondet_bool();
	g_win2 = nondet_bool();
	FV_ASSUME(g_i >= 0 && g_i < g_n);
	return &g_workers[g_i];
}
void h_proxy_worker_init(void)
{
	int ret = proxy_worker_init(worker());
	FV_CANARY_IF(ret == 0 && g_i == g_k, "done");
	FV_CANARY_IF(ret < 0 && g_i != g_k, "failed");
}
void h_proxy_worker_free(void)
{
	proxy_worker_free(worker());
	FV_CANARY_IF(g_i == g_k, "released");
}
#endif
#ifdef FV_CLOSE
static void opened(int lo)
{
	start(lo);
	g_pp.num_clients = g_n;
	g_pp.clients = g_n ? g_slots : NULL;
	g_pp.client_workers = g_n ? g_workers : NULL;
	g_pp.idle_clients_head = nondet_bool() ? g_slots : NULL;
	g_pp.idle_workers_head = nondet_bool() ? g_workers : NULL;
	g.slots = g.workers = g_n > 0;
	g_cin = g_win = g_wmx = g_cin2 = g_win2 = g_n > 0;
	g.listening = nondet_bool();
	g.log_open = nondet_bool();
	g.reg_running = nondet_bool();
}
void h_proxy_close(void)
{
	opened(0);
	proxy_close(&g_ph);
	FV_CANARY_IF(g_n > 3, "closed");
	FV_CANARY_IF(g_n == 0, "nothing to close");
}
void h_proxy_drop(void)
{
	opened(0);
	proxy_drop(&g_ph);
	FV_CANARY_IF(g_n > 3, "dropped");
}
#endif
#ifdef FV_START
void h_proxy_start(void)
{
	start(1);
	g_pp.num_clients = g_n;
	g_pp.clients = g_slots;
	g_pp.client_workers = g_workers;
	g.slots = g.workers = 1;
	int ret = proxy_start(&g_ph);
	FV_CANARY_IF(ret == 0 && g_n > 3, "started");
	FV_CANARY_IF(ret < 0 && g_n > 3, "not started");
}
#endif
#ifdef FV_LIFE
void h_proxy_init(void)
{
	start(0);
	g_ph.priv = NULL;
	int ret = proxy_init(&g_ph);
	FV_CANARY_IF(ret == 0, "done");
	FV_CANARY_IF(ret < 0 && g.pmem == 0, "failed");
}
void h_proxy_free(void)
{
	start(0);
	memset(&g_pp, 0, sizeof(g_pp));
	if (nondet_bool()) {
		g_ph.priv = NULL;
	} else {
		g.pmem = g.rnd = g.lg = g.cf = g.cl = g.rs = g.mx[0] = g.mx[1] = g.mx[2] = 1;
		g_pp.log.priv = &g_pp.log;
		g_pp.conn_listen.priv = &g_pp.conn_listen;
		g_pp.reg_service.priv = &g_pp.reg_service;
		g_pp.usable_clients_mutex.priv = &g_pp.usable_clients_mutex;
		g_pp.idle_clients_mutex.priv = &g_pp.idle_clients_mutex;
		g_pp.idle_workers_mutex.priv = &g_pp.idle_workers_mutex;
		pattern(&g_pp.re_calls_allowed, 0);
		pattern(&g_pp.re_calls_denied, 1);
	}
	int was = g.pmem;
	proxy_free(&g_ph);
	FV_CANARY_IF(was, "released");
	FV_CANARY_IF(!was, "nothing");
}
#endif
