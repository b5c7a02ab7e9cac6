/* One real worker, controlled by one or several threads. */
#include "sim.h"
#include "worker.h"

static struct worker_handle wh;
static int inside, runs, self_wakes, up, joined_state, stopping;
static unsigned long clk, last_begin, last_wake, last_self;
static int slow;

static void work(struct worker_handle *w)
{
	CHECK(w == &wh, "the work gets another worker");
	CHECK(!inside, "the work runs twice at the same time");
	CHECK(up, "the work runs while the worker is stopped");
	inside = 1;
	runs++;
	last_begin = ++clk;
	if (slow)
		sim_some(nat_rnd(6));
	else
		sim_yield();
	if (self_wakes > 0 && nat_p(30)) {
		unsigned long t = ++clk;
		self_wakes--;
		if (worker_wake(w) == 0 && t > last_self)
			last_self = t;
	}
	CHECK(worker_is_idle(w) == 0, "a worker is idle while it works");
	sim_yield();
	inside = 0;
}
static int fin, nwake_ok;
static void *waker(void *a)
{
	int n = 2 + (int)nat_rnd(6), r;
	(void)a;
	while (n--) {
		unsigned long t = ++clk;
		r = worker_wake(&wh);
		CHECK(r <= 0, "worker_wake returns %d", r);
		if (r == 0 && t > last_wake)
			last_wake = t;
		nwake_ok += r == 0;
		if (nat_p(20)) {
			r = worker_wait_idle(&wh);
			CHECK(r <= 0, "worker_wait_idle returns %d", r);
		}
		sim_some(nat_rnd(4));
	}
	fin++;
	return NULL;
}

static void scenario(unsigned long index)
{
	int i, r, steps = 2 + (int)nat_rnd(16), many, nw = 0;
	pthread_t t[4];
	(void)index;
	sim_begin();
	memset(&wh, 0, sizeof(wh));
	inside = runs = up = 0; clk = last_begin = last_wake = last_self = 0; fin = nwake_ok = 0;
	self_wakes = nat_p(30) ? 2 : 0;
	slow = nat_p(60);
	wh.func_ptr = work;
	wh.stack_size = nat_p(50) ? 65536 * 4 : 0;
	wh.periodic_wake = nat_p(30) ? 1 + nat_rnd(5000) : 0;
	many = nat_p(40);
	r = worker_init(&wh);
	CHECK(r == 0, "worker_init returns %d", r);
	if (nat_p(30)) {
		r = worker_wake(&wh);
		CHECK(r < 0, "a worker that was never started can be woken");
		r = worker_wait_idle(&wh);
		CHECK(r < 0, "waiting for a worker that was never started returns %d", r);
	}
	while (steps--) {
		if (!up) {
			int f = nat_p(10);
			nat_note("start%s\n", f ? ", the thread cannot be created" : "");
			sim_fail_next_create = f;
			up = 1;
			r = worker_start(&wh);
			sim_fail_next_create = 0;
			CHECK(f ? r < 0 : r == 0, "worker_start returns %d", r);
			if (f) {
				up = 0;
				r = worker_wake(&wh);
				CHECK(r < 0, "a worker whose thread could not be created can be woken");
				r = worker_wait_idle(&wh);
				CHECK(r < 0, "waiting for a worker whose thread could not be created returns %d", r);
				CHECK(!worker_is_idle(&wh), "a worker whose thread could not be created is idle");
				worker_join(&wh);
				continue;
			}
			sim_some(nat_rnd(4));
			continue;
		}
		if (many && nw < 3 && nat_p(30)) {
			nat_note("another thread wakes the worker\n");
			pthread_create(&t[nw++], NULL, waker, NULL);
			continue;
		}
		switch (nat_rnd(8)) {
		case 0: case 1: case 2: {
			unsigned long c = ++clk;
			nat_note("wake\n");
			r = worker_wake(&wh);
			CHECK(r == 0, "waking a running worker returns %d", r);
			if (c > last_wake)
				last_wake = c;
			break;
		}
		case 3:
			nat_note("wait until idle\n");
			r = worker_wait_idle(&wh);
			CHECK(r == 0, "waiting for a running worker to be idle returns %d", r);
			if (nw == 0 && wh.periodic_wake == 0) {
				CHECK(!inside, "worker_wait_idle returned while the work runs");
				CHECK(last_wake < last_begin || last_wake == 0, "worker_wait_idle returned before a successful wake was served");
				CHECK(last_self < last_begin || last_self == 0, "worker_wait_idle returned before the worker's own wake was served");
			}
			break;
		case 4: case 5:
			sim_some(nat_rnd(8));
			break;
		case 6: {
			int before;
			sim_settle();
			CHECK(last_wake < last_begin || last_wake == 0, "a successful wake is never served");
			CHECK(last_self < last_begin || last_self == 0, "the worker's own wake is never served");
			if (nw == 0 || fin == nw) {
				CHECK(!inside, "the harness is confused");
				CHECK(worker_is_idle(&wh), "a worker without work is not idle");
			}
			if (wh.periodic_wake) {
				sim_settle();
				before = runs;
				sim_advance(wh.periodic_wake);
				sim_settle();
				CHECK(runs > before, "a periodic worker did not run within its period");
			}
			break;
		}
		case 7:
			nat_note("join\n");
			r = worker_join(&wh);
			CHECK(r == 0, "worker_join returns %d", r);
			CHECK(!inside, "worker_join returned while the work runs");
			up = 0;
			CHECK(last_wake < last_begin || last_wake == 0, "a wake succeeded before the worker was joined, but the work never ran after it");
			CHECK(last_self < last_begin || last_self == 0, "the worker woke itself before it was joined, but the work never ran after it");
			r = worker_wake(&wh);
			CHECK(r < 0, "a joined worker can be woken");
			CHECK(!worker_is_idle(&wh), "a joined worker is idle");
			r = worker_wait_idle(&wh);
			CHECK(r < 0, "waiting for a joined worker returns %d", r);
			break;
		}
	}
	if (nat_p(50)) {
		worker_join(&wh);
		up = 0;
		CHECK(last_wake < last_begin || last_wake == 0, "a wake succeeded before the worker was joined, but the work never ran after it");
	}
	sim_settle();
	if (up)
		worker_join(&wh);
	for (i = 0; i < nw; i++)
		pthread_join(t[i], NULL);
	worker_free(&wh);
	up = 0;
	CHECK(last_wake < last_begin || last_wake == 0, "a successful wake was never served");
	CHECK(sim_nmx == 0 && sim_live == 0 && sim_threads_alive() == 0, "%d locks, %u blocks and %d threads are left", sim_nmx, sim_live, sim_threads_alive());
}
NAT_MAIN
