/* A simulated world for the real, unmodified sources of /repo: a deterministic
 * scheduler over real threads (exactly one runs at a time, switches happen at
 * the wrapped calls only), a simulated network and clock, and failure
 * injection.  The wrapped calls are redirected by the linker (--wrap).
 *
 * Everything is a function of the random seed, so a failing scenario can be
 * replayed. */
#ifndef SIM_H
#define SIM_H
#include "nat.h"
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/socket.h>

/* the n-th call from now on that can fail does so: memory, locks, threads, network */
static int sim_fault_at, sim_fault_fired;
static int sim_fault(void)
{
	if (sim_fault_at && --sim_fault_at == 0) {
		sim_fault_fired = 1;
		return 1;
	}
	return 0;
}
/* ---------------------------------------------------------------- threads */
#define SIM_MAXT 256
struct sim_thread {
	pthread_t real;
	sem_t sem;
	int used, done, joined, timed;
	int (*pred)(void *);
	void *parg;
	int64_t deadline;
	void *(*fn)(void *);
	void *arg, *ret;
	const char *what;
	void *lock;
};
static struct sim_thread sim_t[SIM_MAXT];
static int sim_nt, sim_cur, sim_on;
static __thread int sim_me;
static int64_t sim_now_ms = 1000000;
static unsigned sim_switch_pct = 30;
static unsigned long sim_steps;
static unsigned sim_wait_advances;
static int sim_trace;

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

#define SIM_QUIET ((int (*)(void *))1)	/* runnable only when nothing else is */

static int sim_runnable(int i)
{
	struct sim_thread *t = &sim_t[i];
	if (!t->used || t->done || t->pred == SIM_QUIET)
		return 0;
	return t->pred == NULL || t->pred(t->parg) || (t->timed && sim_now_ms >= t->deadline);
}
static void sim_dump(void)
{
	int i;
	for (i = 0; i < sim_nt; i++)
		if (sim_t[i].used && !sim_t[i].done)
			nat_note("  thread %d: %s\n", i, sim_t[i].pred ? sim_t[i].what : "running");
}
static int sim_pick(void)
{
	int c[SIM_MAXT], n, i;
	for (;;) {
		n = 0;
		for (i = 0; i < sim_nt; i++)
			if (sim_runnable(i))
				c[n++] = i;
		if (n)
			return c[nat_rnd((unsigned)n)];
		for (i = 0; i < sim_nt; i++)
			if (sim_t[i].used && !sim_t[i].done && sim_t[i].pred == SIM_QUIET)
				return i;
		{	/* only timed waits are left: time passes */
			int64_t best = -1;
			for (i = 0; i < sim_nt; i++)
				if (sim_t[i].used && !sim_t[i].done && sim_t[i].timed && (best < 0 || sim_t[i].deadline < best))
					best = sim_t[i].deadline;
			if (best < 0 || ++sim_wait_advances > 60) {
				sim_dump();
				nat_fail("deadlock: no thread can ever run again");
			}
			if (best > sim_now_ms)
				sim_now_ms = best;
		}
	}
}
static void sim_go(int n)
{
	if (++sim_steps > 3000000)
		nat_fail("livelock: no end after %lu steps", sim_steps);
	if (n == sim_me)
		return;
	sim_cur = n;
	sem_post(&sim_t[n].sem);
	while (sem_wait(&sim_t[sim_me].sem) != 0)
		;
}
static void sim_yield(void)
{
	if (sim_on && nat_p(sim_switch_pct))
		sim_go(sim_pick());
}
/* 1: the predicate holds; 0: the deadline passed */
static int sim_block(int (*pred)(void *), void *arg, int64_t deadline, const char *what)
{
	struct sim_thread *t = &sim_t[sim_me];
	if (!sim_on) {
		if (!pred(arg))
			nat_fail("the driver blocks outside the simulation: %s", what);
		return 1;
	}
	sim_yield();
	t->pred = pred; t->parg = arg; t->timed = deadline >= 0; t->deadline = deadline; t->what = what;
	if (!sim_runnable(sim_me))
		sim_go(sim_pick());
	t->pred = NULL;
	t->timed = 0;
	return pred(arg);
}
/* let everybody else run until nobody can */
static void sim_settle(void)
{
	struct sim_thread *t = &sim_t[sim_me];
	int n;
	t->pred = SIM_QUIET; t->what = "driver waits for quiescence";
	n = sim_pick();
	sim_go(n);
	t->pred = NULL;
	sim_wait_advances = 0;
}
static void sim_some(unsigned n)
{
	while (n--) {
		struct sim_thread *t = &sim_t[sim_me];
		t->pred = NULL;
		sim_go(sim_pick());
	}
}
static void sim_advance(int64_t ms)
{
	sim_now_ms += ms;
}
static int sim_threads_alive(void)
{
	int i, n = 0;
	for (i = 1; i < sim_nt; i++)
		n += sim_t[i].used && !sim_t[i].joined;
	return n;
}
static void *sim_main(void *a)
{
	struct sim_thread *t = a;
	sim_me = (int)(t - sim_t);
	while (sem_wait(&t->sem) != 0)
		;
	t->ret = t->fn(t->arg);
	t->done = 1;
	{
		int n = sim_pick();
		sim_cur = n;
		sem_post(&sim_t[n].sem);
	}
	return NULL;
}
static unsigned sim_thread_fail_pct;
static int sim_fail_next_create;
static int sim_creates;
static int sim_spawn(void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *at)
{
	struct sim_thread *t;
	if (sim_nt >= SIM_MAXT)
		nat_fail("too many threads");
	t = &sim_t[sim_nt];
	memset(t, 0, sizeof(*t));
	sem_init(&t->sem, 0, 0);
	t->used = 1;
	t->fn = fn;
	t->arg = arg;
	sim_nt++;
	if (__real_pthread_create(&t->real, at, sim_main, t) != 0)
		nat_fail("the harness cannot create a thread");
	if (out)
		*out = t->real;
	return (int)(t - sim_t);
}
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	sim_yield();
	sim_creates++;
	if (sim_fault())
		return EAGAIN;
	if (sim_fail_next_create && --sim_fail_next_create == 0)
		return EAGAIN;
	if (sim_thread_fail_pct && nat_p(sim_thread_fail_pct))
		return EAGAIN;
	sim_spawn(fn, arg, out, at);
	sim_yield();
	return 0;
}
static int sim_is_done(void *a) { return ((struct sim_thread *)a)->done; }
int __wrap_pthread_join(pthread_t th, void **ret)
{
	int i;
	for (i = 1; i < sim_nt; i++)
		if (sim_t[i].used && !sim_t[i].joined && pthread_equal(sim_t[i].real, th))
			break;
	if (i == sim_nt)
		nat_fail("join of a thread that does not exist or has been joined");
	if (i == sim_me)
		return EDEADLK;
	sim_block(sim_is_done, &sim_t[i], -1, "waiting for a thread to end");
	sim_t[i].joined = 1;
	__real_pthread_join(th, NULL);
	sem_destroy(&sim_t[i].sem);
	if (ret)
		*ret = sim_t[i].ret;
	return 0;
}

/* ------------------------------------------------------------------ locks */
struct sim_mx { void *addr; int owner; };
#define SIM_MAXMX 400
static struct sim_mx sim_mx[SIM_MAXMX];
static int sim_nmx;
struct sim_cw { void *cond; int thread, woken; };
static struct sim_cw sim_cw[SIM_MAXT];
static unsigned sim_spurious_pct = 2, sim_lockinit_fail_pct;
static struct sim_mx *sim_find(void *a)
{
	int i;
	for (i = 0; i < sim_nmx; i++)
		if (sim_mx[i].addr == a)
			return &sim_mx[i];
	return NULL;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	(void)a;
	if (sim_fault() || (sim_lockinit_fail_pct && nat_p(sim_lockinit_fail_pct)))
		return ENOMEM;
	if (sim_find(m))
		nat_fail("a lock is initialised twice");
	if (sim_nmx == SIM_MAXMX)
		nat_fail("too many locks");
	sim_mx[sim_nmx].addr = m;
	sim_mx[sim_nmx++].owner = -1;
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	struct sim_mx *x = sim_find(m);
	if (!x)
		nat_fail("a lock that was never initialised is destroyed");
	if (x->owner >= 0)
		nat_fail("a lock is destroyed while it is held");
	*x = sim_mx[--sim_nmx];
	return 0;
}
static int sim_mx_free(void *m)
{
	struct sim_mx *x = sim_find(m);
	if (!x)
		nat_fail("a thread waits for a lock that has been destroyed");
	return x->owner < 0;
}
static int sim_lock_errs, sim_lock_fail_pct, sim_unlock_fail_pct;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!sim_find(m))
		nat_fail("lock of a lock that is not initialised");
	if (sim_lock_fail_pct && nat_p((unsigned)sim_lock_fail_pct)) {
		sim_lock_errs++;
		return EDEADLK;
	}
	sim_block(sim_mx_free, m, -1, "waiting for a lock");
	sim_find(m)->owner = sim_me;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	struct sim_mx *x = sim_find(m);
	if (!x)
		nat_fail("unlock of a lock that is not initialised");
	if (x->owner != sim_me)
		nat_fail("a thread unlocks a lock it does not hold");
	if (sim_unlock_fail_pct && nat_p((unsigned)sim_unlock_fail_pct)) {
		sim_lock_errs++;
		x->owner = -1;
		return EPERM;
	}
	x->owner = -1;
	sim_yield();
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	(void)c; (void)a;
	if (sim_fault())
		return ENOMEM;
	return sim_lockinit_fail_pct && nat_p(sim_lockinit_fail_pct) ? ENOMEM : 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	int i;
	for (i = 0; i < sim_nt; i++)
		if (sim_cw[i].cond == c)
			nat_fail("a condition is destroyed while a thread waits for it");
	return 0;
}
static int sim_woken(void *a) { return ((struct sim_cw *)a)->woken; }
static int sim_wait_fail_pct;
static int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
	struct sim_mx *x = sim_find(m);
	struct sim_cw *w = &sim_cw[sim_me];
	int r = 1;
	if (!x || x->owner != sim_me)
		nat_fail("wait on a condition without holding the lock");
	if (sim_wait_fail_pct && nat_p((unsigned)sim_wait_fail_pct)) {
		sim_lock_errs++;
		return EINVAL;
	}
	x->owner = -1;
	w->cond = c;
	w->woken = nat_p(sim_spurious_pct);
	r = sim_block(sim_woken, w, deadline, deadline < 0 ? "waiting for a condition" : "waiting for a condition with timeout");
	w->cond = NULL;
	sim_block(sim_mx_free, m, -1, "waiting for a lock after a condition");
	sim_find(m)->owner = sim_me;
	return r ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sim_cond_wait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	int64_t d = (int64_t)ts->tv_sec * 1000 + ts->tv_nsec / 1000000;
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	return sim_cond_wait(c, m, d);
}
static int sim_wake(pthread_cond_t *c, int all)
{
	int i, s = sim_nt ? (int)nat_rnd((unsigned)sim_nt) : 0;
	for (i = 0; i < sim_nt; i++) {
		struct sim_cw *w = &sim_cw[(s + i) % sim_nt];
		if (w->cond == c && !w->woken) {
			w->woken = 1;
			if (!all)
				break;
		}
	}
	sim_yield();
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return sim_wake(c, 0); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return sim_wake(c, 1); }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = sim_now_ms / 1000;
	ts->tv_nsec = (sim_now_ms % 1000) * 1000000;
	return 0;
}

/* ----------------------------------------------------------------- memory */
#define SIM_HB 16384
static void *sim_blk[SIM_HB];
static unsigned sim_live, sim_allocs, sim_alloc_fail_pct, sim_alloc_fail_at, sim_alloc_seen;
static void sim_blk_add(void *p)
{
	size_t h = ((uintptr_t)p >> 4) % SIM_HB;
	while (sim_blk[h] && sim_blk[h] != (void *)1)
		h = (h + 1) % SIM_HB;
	sim_blk[h] = p;
	sim_live++;
}
static void sim_blk_del(void *p)
{
	size_t h = ((uintptr_t)p >> 4) % SIM_HB;
	while (sim_blk[h]) {
		if (sim_blk[h] == p) {
			sim_blk[h] = (void *)1;
			sim_live--;
			return;
		}
		h = (h + 1) % SIM_HB;
	}
}
static int sim_alloc_fails(void)
{
	sim_allocs++;
	sim_alloc_seen++;
	if (sim_fault())
		return 1;
	if (sim_alloc_fail_at && --sim_alloc_fail_at == 0)
		return 1;
	return sim_alloc_fail_pct && nat_p(sim_alloc_fail_pct);
}
void *__wrap_malloc(size_t n)
{
	void *p;
	if (sim_alloc_fails())
		return errno = ENOMEM, (void *)NULL;
	p = __real_malloc(n);
	sim_blk_add(p);
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p;
	if (sim_alloc_fails())
		return errno = ENOMEM, (void *)NULL;
	p = __real_calloc(a, b);
	sim_blk_add(p);
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p;
	if (sim_alloc_fails())
		return errno = ENOMEM, (void *)NULL;
	if (q)
		sim_blk_del(q);
	p = __real_realloc(q, n);
	sim_blk_add(p);
	return p;
}
void __wrap_free(void *p)
{
	if (p)
		sim_blk_del(p);
	__real_free(p);
}

/* ---------------------------------------------------------------- network */
enum { K_NONE, K_TCP, K_LISTEN, K_STREAM, K_UDP };
#define SIM_BUF 300000
#define SIM_MAXS 160
#define SIM_DGQ 64
struct sim_dg { uint32_t addr; uint16_t port; int len; uint8_t *data; };
struct sim_sock {
	int kind, open, bound, shut, users, closes;
	uint32_t la, ra;		/* network order */
	uint16_t lp, rp;		/* host order */
	/* stream: bytes towards the program, bytes from it */
	uint8_t *in, *out;
	int in_n, in_pos, out_n, out_limit, eof, in_err, out_err;
	int dead;			/* by reset */
	/* datagrams towards the program, from it */
	struct sim_dg q[SIM_DGQ];
	int q_n, q_pos;
	struct sim_dg *o;
	int o_n;
	int backlog[32], bl_n, bl_pos;
	int fd;
	int accepted;			/* came out of accept() */
	int family;
};
static struct sim_sock sim_s[SIM_MAXS];
static int sim_ns;
#define SIM_FD0 1000
#define SIM_MAXFD 120
static int sim_fd[SIM_MAXFD];	/* socket index + 1 */
static unsigned sim_net_fail_pct, sim_short_pct = 50;
static int sim_net_fail_at;	/* the n-th network call from now fails */
static void (*sim_on_stream)(struct sim_sock *s);
static int (*sim_on_connect)(uint32_t addr, uint16_t port);
static int sim_gai_live;
static uint32_t sim_named_addr;	/* what every host name resolves to, network order */
static int sim_connects;

static uint8_t *sim_arena, *sim_arena_p;
#define SIM_ARENA (64u << 20)
static void *sim_get(size_t n)
{
	void *p;
	if (!sim_arena) {
		sim_arena = mmap(NULL, SIM_ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		sim_arena_p = sim_arena;
	}
	n = (n + 15) & ~(size_t)15;
	if (sim_arena_p + n > sim_arena + SIM_ARENA)
		nat_fail("the harness is out of memory");
	p = sim_arena_p;
	sim_arena_p += n;
	return p;
}
static int sim_neterr(const int *e, unsigned n)
{
	if (sim_fault()) {
		errno = e[nat_rnd(n)];
		return 1;
	}
	if (sim_net_fail_at && --sim_net_fail_at == 0) {
		errno = e[nat_rnd(n)];
		return 1;
	}
	if (sim_net_fail_pct && nat_p(sim_net_fail_pct)) {
		errno = e[nat_rnd(n)];
		return 1;
	}
	return 0;
}
static const int sim_e_gen[] = { EMFILE, ENOBUFS, EACCES, EADDRINUSE, EINVAL };
static const int sim_e_conn[] = { ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH };
static const int sim_e_io[] = { ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOBUFS, EINTR, EPIPE };
static const int sim_e_dg[] = { ENETUNREACH, EPERM, ENOBUFS, EMSGSIZE };

static struct sim_sock *sim_sk(int fd, const char *what)
{
	if (fd < SIM_FD0 || fd >= SIM_FD0 + SIM_MAXFD || !sim_fd[fd - SIM_FD0])
		nat_fail("%s on descriptor %d which is not open", what, fd);
	return &sim_s[sim_fd[fd - SIM_FD0] - 1];
}
static struct sim_sock *sim_newsock(int kind)
{
	struct sim_sock *s;
	if (sim_ns >= SIM_MAXS)
		nat_fail("the harness is out of sockets");
	s = &sim_s[sim_ns++];
	memset(s, 0, sizeof(*s));
	s->kind = kind;
	s->fd = -1;
	s->out_limit = SIM_BUF;
	return s;
}
static int sim_newfd(struct sim_sock *s)
{
	int i;
	for (i = 0; i < SIM_MAXFD; i++)
		if (!sim_fd[i]) {
			sim_fd[i] = (int)(s - sim_s) + 1;
			s->open = 1;
			s->fd = SIM_FD0 + i;
			return s->fd;
		}
	nat_fail("descriptors leak: all are in use");
	return -1;
}
static int sim_open_fds(void)
{
	int i, n = 0;
	for (i = 0; i < SIM_MAXFD; i++)
		n += sim_fd[i] != 0;
	return n;
}
int __wrap_socket(int d, int t, int p)
{
	struct sim_sock *s;
	(void)p;
	sim_yield();
	if (sim_neterr(sim_e_gen, 2))
		return -1;
	s = sim_newsock(t == SOCK_STREAM ? K_TCP : K_UDP);
	s->family = d;
	return sim_newfd(s);
}
int __wrap_setsockopt(int fd, int l, int n, const void *v, socklen_t len)
{
	(void)l; (void)n; (void)v; (void)len;
	sim_sk(fd, "setsockopt");
	return sim_neterr(sim_e_gen + 4, 1) ? -1 : 0;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
	struct sim_sock *s = sim_sk(fd, "bind");
	const struct sockaddr_in *in = (const struct sockaddr_in *)a;
	(void)l;
	if (sim_neterr(sim_e_gen + 2, 2))
		return -1;
	s->bound = 1;
	if (a->sa_family == AF_INET) {
		s->la = in->sin_addr.s_addr;
		s->lp = ntohs(in->sin_port);
	}
	return 0;
}
int __wrap_listen(int fd, int b)
{
	struct sim_sock *s = sim_sk(fd, "listen");
	(void)b;
	if (sim_neterr(sim_e_gen + 3, 1))
		return -1;
	s->kind = K_LISTEN;
	return 0;
}
static void sim_mkstream(struct sim_sock *s)
{
	s->kind = K_STREAM;
	s->in = sim_get(SIM_BUF);
	s->out = sim_get(SIM_BUF);
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	struct sim_sock *s = sim_sk(fd, "connect");
	const struct sockaddr_in *in = (const struct sockaddr_in *)a;
	int e;
	(void)l;
	sim_connects++;
	sim_yield();
	s = sim_sk(fd, "connect");
	s->ra = in->sin_addr.s_addr;
	s->rp = ntohs(in->sin_port);
	if (sim_neterr(sim_e_conn, 4))
		return -1;
	e = sim_on_connect ? sim_on_connect(s->ra, s->rp) : 0;
	if (e) {
		errno = e;
		return -1;
	}
	if (s->shut) {
		errno = EINVAL;
		return -1;
	}
	sim_mkstream(s);
	if (sim_on_stream)
		sim_on_stream(s);
	sim_yield();
	return 0;
}
struct sim_io { struct sim_sock *s; };
static int sim_can_accept(void *a) { struct sim_sock *s = a; return s->bl_n > s->bl_pos || s->shut || !s->open; }
static int sim_accept_fail_at;
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	struct sim_sock *s, *c;
	struct sockaddr_in in;
	if (fd < 0) {
		errno = EBADF;
		return -1;
	}
	s = sim_sk(fd, "accept");
	s->users++;
	sim_block(sim_can_accept, s, -1, "accept");
	s->users--;
	if (s->shut) {
		errno = EINVAL;
		return -1;
	}
	if (sim_accept_fail_at && --sim_accept_fail_at == 0) {
		s->bl_pos++;
		errno = ECONNABORTED;
		return -1;
	}
	if (sim_neterr(sim_e_gen, 2))
		return -1;
	c = &sim_s[s->backlog[s->bl_pos++ % 32]];
	c->accepted = 1;
	memset(&in, 0, sizeof(in));
	in.sin_family = AF_INET;
	in.sin_port = htons(c->rp);
	in.sin_addr.s_addr = c->ra;
	memcpy(a, &in, *l < sizeof(in) ? *l : sizeof(in));
	*l = sizeof(in);
	return sim_newfd(c);
}
int __real_close(int fd);
int __wrap_close(int fd)
{
	struct sim_sock *s;
	if (fd >= 0 && fd < 500)
		return __real_close(fd);
	s = sim_sk(fd, "close");
	if (s->users)
		nat_fail("a descriptor is closed while a thread is using it");
	s->open = 0;
	s->closes++;
	sim_fd[fd - SIM_FD0] = 0;
	s->fd = -1;
	sim_yield();
	return 0;
}
int __wrap_shutdown(int fd, int how)
{
	struct sim_sock *s = sim_sk(fd, "shutdown");
	(void)how;
	s->shut = 1;
	if (s->kind == K_UDP || s->kind == K_TCP) {
		errno = ENOTCONN;
		return -1;
	}
	sim_yield();
	return 0;
}
static int sim_can_send(void *a) { struct sim_sock *s = a; return s->shut || s->dead || s->out_err || s->out_n < s->out_limit; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags)
{
	struct sim_sock *s = sim_sk(fd, "send");
	size_t m;
	(void)flags;
	if (s->kind != K_STREAM) {
		errno = ENOTCONN;
		return -1;
	}
	s->users++;
	sim_block(sim_can_send, s, -1, "send");
	s->users--;
	if (s->shut || s->dead) {
		errno = s->dead ? ECONNRESET : EPIPE;
		return -1;
	}
	if (s->out_err) {
		errno = s->out_err;
		return -1;
	}
	if (sim_neterr(sim_e_io, 6))
		return -1;
	m = n;
	if (n > 1 && nat_p(sim_short_pct))
		m = 1 + nat_rnd((unsigned)n);
	if (m > (size_t)(s->out_limit - s->out_n))
		m = (size_t)(s->out_limit - s->out_n);
	memcpy(s->out + s->out_n, b, m);
	s->out_n += (int)m;
	sim_yield();
	return (ssize_t)m;
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *to, socklen_t tl)
{
	struct sim_sock *s = sim_sk(fd, "sendto");
	const struct sockaddr_in *in = (const struct sockaddr_in *)to;
	struct sim_dg *d;
	(void)flags; (void)tl;
	sim_yield();
	if (s->kind != K_UDP) {
		errno = EISCONN;
		return -1;
	}
	if (s->shut) {
		errno = EPIPE;
		return -1;
	}
	if (!s->o)
		s->o = sim_get(sizeof(*s->o) * 400);
	if (s->o_n >= 400)
		nat_fail("the harness is out of datagrams");
	d = &s->o[s->o_n];
	d->addr = in->sin_addr.s_addr;
	d->port = ntohs(in->sin_port);
	d->len = (int)n;
	d->data = NULL;
	if (s->out_err || sim_neterr(sim_e_dg, 4)) {
		if (s->out_err)
			errno = s->out_err;
		d->len = -1 - (int)n;	/* recorded as failed */
		s->o_n++;
		return -1;
	}
	d->data = sim_get(n + 1);
	memcpy(d->data, b, n);
	s->o_n++;
	return (ssize_t)n;
}
static int sim_can_recv(void *a)
{
	struct sim_sock *s = a;
	return s->shut || s->in_err || s->dead || (s->kind == K_UDP ? s->q_n > s->q_pos : s->in_n > s->in_pos || s->eof);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *from, socklen_t *fl)
{
	struct sim_sock *s = sim_sk(fd, "receive");
	size_t m;
	(void)flags;
	if (s->kind != K_UDP && s->kind != K_STREAM) {
		errno = ENOTCONN;
		return -1;
	}
	s->users++;
	sim_block(sim_can_recv, s, -1, s->kind == K_UDP ? "receive datagram" : "receive");
	s->users--;
	if (s->in_err) {
		errno = s->in_err;
		if (s->kind == K_UDP)
			s->in_err = 0;
		return -1;
	}
	if (s->kind == K_UDP) {
		struct sim_dg *d;
		struct sockaddr_in in;
		if (s->shut && !(s->q_n > s->q_pos && nat_p(50))) {
			if (fl)
				*fl = 0;
			return 0;
		}
		if (s->q_n <= s->q_pos)
			nat_fail("the harness is confused");
		if (sim_neterr(sim_e_io, 6))
			return -1;
		d = &s->q[s->q_pos++ % SIM_DGQ];
		m = (size_t)d->len < n ? (size_t)d->len : n;
		memcpy(b, d->data, m);
		memset(&in, 0, sizeof(in));
		in.sin_family = AF_INET;
		in.sin_port = htons(d->port);
		in.sin_addr.s_addr = d->addr;
		if (from) {
			memcpy(from, &in, *fl < sizeof(in) ? *fl : sizeof(in));
			*fl = sizeof(in);
		}
		return (ssize_t)m;
	}
	if (from)
		*fl = 0;
	if (s->dead) {
		errno = ECONNRESET;
		return -1;
	}
	if (s->shut)
		return 0;
	if (sim_neterr(sim_e_io, 6))
		return -1;
	m = (size_t)(s->in_n - s->in_pos);
	if (m == 0)
		return 0;	/* end of stream */
	if (m > n)
		m = n;
	if (m > 1 && nat_p(sim_short_pct))
		m = 1 + nat_rnd((unsigned)m);
	memcpy(b, s->in + s->in_pos, m);
	s->in_pos += (int)m;
	return (ssize_t)m;
}
int __wrap_getaddrinfo(const char *n, const char *sv, const struct addrinfo *h, struct addrinfo **r)
{
	struct addrinfo *a;
	struct sockaddr_in *in;
	uint32_t ad = 0;
	sim_yield();
	if (n != NULL && inet_pton(AF_INET, n, &ad) != 1) {
		if (!sim_named_addr)
			return EAI_NONAME;
		ad = sim_named_addr;
	}
	if (sim_neterr(sim_e_gen, 1))
		return EAI_AGAIN;
	a = __real_calloc(1, sizeof(*a) + sizeof(*in));
	in = (struct sockaddr_in *)(a + 1);
	in->sin_family = AF_INET;
	in->sin_port = htons((uint16_t)atoi(sv ? sv : "0"));
	in->sin_addr.s_addr = ad;
	a->ai_family = AF_INET;
	a->ai_socktype = h ? h->ai_socktype : SOCK_STREAM;
	a->ai_addr = (struct sockaddr *)in;
	a->ai_addrlen = sizeof(*in);
	sim_gai_live++;
	*r = a;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { sim_gai_live--; __real_free(a); }

/* the other ends */
static struct sim_sock *sim_listener(uint16_t port)
{
	int i;
	for (i = sim_ns - 1; i >= 0; i--)
		if (sim_s[i].kind == K_LISTEN && sim_s[i].open && sim_s[i].lp == port)
			return &sim_s[i];
	return NULL;
}
static struct sim_sock *sim_client(uint16_t port)
{
	struct sim_sock *l = sim_listener(port), *c;
	if (!l || l->shut)
		return NULL;
	c = sim_newsock(K_STREAM);
	sim_mkstream(c);
	c->ra = htonl(0x0a000000u + (uint32_t)sim_ns);
	c->rp = (uint16_t)(20000 + sim_ns);
	c->lp = port;
	l->backlog[l->bl_n++ % 32] = (int)(c - sim_s);
	return c;
}
static void sim_feed(struct sim_sock *s, const void *p, size_t n)
{
	if (s->in_n + n > SIM_BUF)
		nat_fail("the harness feeds too much");
	memcpy(s->in + s->in_n, p, n);
	s->in_n += (int)n;
}
static struct sim_sock *sim_udp(uint32_t la, uint16_t lp)
{
	int i;
	for (i = sim_ns - 1; i >= 0; i--)
		if (sim_s[i].kind == K_UDP && sim_s[i].open && !sim_s[i].shut && sim_s[i].bound && sim_s[i].la == la && sim_s[i].lp == lp)
			return &sim_s[i];
	return NULL;
}
static int sim_datagram(struct sim_sock *s, uint32_t from, uint16_t port, const void *p, int n)
{
	struct sim_dg *d;
	if (s->q_n - s->q_pos >= SIM_DGQ)
		return 0;
	d = &s->q[s->q_n++ % SIM_DGQ];
	d->addr = from;
	d->port = port;
	d->len = n;
	d->data = sim_get((size_t)n + 1);
	memcpy(d->data, p, (size_t)n);
	return 1;
}
static void sim_begin(void)
{
	int i;
	for (i = 1; i < sim_nt; i++)
		if (sim_t[i].used && !sim_t[i].joined)
			nat_fail("harness: a thread of the previous scenario is left");
	memset(sim_t, 0, sizeof(sim_t));
	memset(sim_cw, 0, sizeof(sim_cw));
	memset(sim_blk, 0, sizeof(sim_blk));
	memset(sim_fd, 0, sizeof(sim_fd));
	if (sim_arena) {
		/* buffers are rewritten before they are read */
		sim_arena_p = sim_arena;
	}
	sim_nt = 1;
	sim_me = sim_cur = 0;
	sem_init(&sim_t[0].sem, 0, 0);
	sim_t[0].used = 1;
	sim_nmx = sim_ns = 0;
	sim_live = sim_allocs = sim_alloc_fail_pct = sim_alloc_fail_at = sim_alloc_seen = 0;
	sim_net_fail_pct = 0; sim_net_fail_at = 0; sim_accept_fail_at = 0;
	sim_thread_fail_pct = 0; sim_fail_next_create = 0; sim_creates = 0;
	sim_lockinit_fail_pct = 0; sim_fault_at = sim_fault_fired = 0;
	sim_lock_fail_pct = sim_unlock_fail_pct = sim_wait_fail_pct = sim_lock_errs = 0;
	sim_spurious_pct = nat_p(50) ? 0 : 5;
	sim_steps = 0; sim_wait_advances = 0;
	sim_now_ms = 1000000 + nat_rnd(5000);
	sim_on_connect = NULL; sim_on_stream = NULL;
	sim_gai_live = 0; sim_connects = 0;
	sim_named_addr = 0;
	sim_switch_pct = nat_p(40) ? 5 : nat_p(50) ? 30 : 80;
	sim_short_pct = nat_p(30) ? 0 : 50;
	sim_on = 1;
}
#define SIM_WRAP "pthread_create pthread_join ..."
#endif
