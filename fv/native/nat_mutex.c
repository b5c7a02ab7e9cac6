/* Threads that lock, share and wait on one real lock under a simulated
 * scheduler; who is inside is tracked independently of the lock. */
#include "sim.h"
#include "mutex.h"

static struct mutex_handle mx;
static struct condvar_handle cv;
static int writers, readers, stop, waiting, rounds;
static int64_t guarded, expect;

static void in_w(const char *how)
{
	CHECK(writers == 0, "%s returned while another thread holds the lock exclusively", how);
	CHECK(readers == 0, "%s returned while %d threads hold the lock shared", how, readers);
	writers = 1;
	CHECK(guarded == expect, "the guarded value changed unexpectedly");
}
static void out_w(void) { writers = 0; }
static void *body(void *a)
{
	int n = rounds, r;
	(void)a;
	while (n-- > 0) {
		switch (nat_rnd(6)) {
		case 0: case 1:
			r = mutex_lock(&mx);
			CHECK(r <= 0, "mutex_lock returns %d", r);
			if (r == 0) {
				in_w("mutex_lock");
				sim_yield();
				expect = ++guarded;
				sim_yield();
				if (nat_p(30)) {
					int t = nat_p(60), e = sim_wait_fail_pct;
					uint32_t ms = nat_p(50) ? nat_rnd(3000) : nat_rnd(10);
					int64_t t0 = sim_now_ms;
					out_w();
					waiting++;
					r = t ? condvar_wait_time(&cv, &mx, ms) : condvar_wait(&cv, &mx);
					waiting--;
					(void)e;
					in_w(t ? "condvar_wait_time" : "condvar_wait");
					CHECK(t ? r == 0 || r == 1 || r < 0 : r <= 0, "a wait returns %d", r);
					CHECK(r != 1 || sim_now_ms >= t0 + ms, "a wait of %u ms times out after %d ms", ms, (int)(sim_now_ms - t0));
					sim_yield();
					expect = ++guarded;
				}
				sim_yield();
				out_w();
				r = mutex_unlock(&mx);
				CHECK(r == 0, "mutex_unlock returns %d", r);
			}
			break;
		case 2: case 3: case 4:
			r = mutex_lock_shared(&mx);
			CHECK(r <= 0, "mutex_lock_shared returns %d", r);
			if (r == 0) {
				int64_t v;
				CHECK(writers == 0, "a shared lock is granted while the lock is held exclusively");
				readers++;
				v = guarded;
				sim_yield();
				sim_yield();
				CHECK(v == guarded, "the guarded value changed during a shared lock");
				readers--;
				do {
					r = mutex_unlock_shared(&mx);
					CHECK(r <= 0, "mutex_unlock_shared returns %d", r);
				} while (r < 0);
			}
			break;
		case 5:
			r = nat_p(50) ? condvar_wake_all(&cv) : condvar_wake_one(&cv);
			CHECK(r == 0, "a wake returns %d", r);
			break;
		}
		sim_yield();
	}
	stop++;
	return NULL;
}
static int all_done(void *a) { (void)a; return 0; }

static void scenario(unsigned long index)
{
	pthread_t t[6];
	int i, n = 2 + (int)nat_rnd(4), r;
	sim_begin();
	(void)index; (void)all_done;
	memset(&mx, 0, sizeof(mx)); memset(&cv, 0, sizeof(cv));
	writers = readers = stop = waiting = 0;
	guarded = expect = 0;
	r = mutex_init(&mx);
	CHECK(r == 0, "mutex_init returns %d", r);
	r = condvar_init(&cv);
	CHECK(r == 0, "condvar_init returns %d", r);
	rounds = 3 + (int)nat_rnd(20);
	/* alone */
	if (nat_p(50)) {
		uint32_t ms = nat_p(50) ? nat_rnd(5000) : nat_rnd(100000);
		int64_t t0;
		unsigned sp = sim_spurious_pct;
		sim_spurious_pct = 0;
		r = mutex_lock(&mx);
		CHECK(r == 0, "locking a free lock returns %d", r);
		t0 = sim_now_ms;
		r = condvar_wait_time(&cv, &mx, ms);
		CHECK(r == 1 && sim_now_ms == t0 + ms, "a wait of %u ms that nobody ends returns %d after %d ms", ms, r, (int)(sim_now_ms - t0));
		sim_unlock_fail_pct = nat_p(50) ? 100 : 0;
		r = mutex_unlock(&mx);
		CHECK(sim_unlock_fail_pct ? r < 0 : r == 0, "unlocking %s returns %d", sim_unlock_fail_pct ? "failed, it" : "", r);
		sim_unlock_fail_pct = 0;
		sim_lock_fail_pct = 100;
		r = nat_p(50) ? mutex_lock(&mx) : mutex_lock_shared(&mx);
		CHECK(r < 0, "a failed lock call returns %d", r);
		sim_lock_fail_pct = 0;
		r = mutex_lock(&mx);
		CHECK(r == 0, "the lock is held after a failed lock call (%d)", r);
		mutex_unlock(&mx);
		/* a reader is inside and waiting for it fails */
		mutex_lock_shared(&mx);
		sim_wait_fail_pct = 100;
		r = mutex_lock(&mx);
		CHECK(r < 0, "locking while a reader is inside and waiting fails returns %d", r);
		sim_wait_fail_pct = 0;
		for (i = 0; i < sim_nmx; i++)
			CHECK(sim_mx[i].owner < 0, "the lock is held after a failed lock call");
		r = mutex_unlock_shared(&mx);
		CHECK(r == 0, "unlocking returns %d", r);
		sim_spurious_pct = sp;
		sim_wait_advances = 0;
	}
	sim_lock_fail_pct = nat_p(30) ? 5 : 0;
	nat_note("%d threads, %d rounds each\n", n, rounds);
	for (i = 0; i < n; i++)
		pthread_create(&t[i], NULL, body, NULL);
	for (;;) {
		sim_settle();
		if (stop == n)
			break;
		sim_lock_fail_pct = 0;
		CHECK(waiting > 0, "the threads are stuck: nobody waits for a condition, %d of %d have ended", stop, n);
		sim_advance(3000);
		condvar_wake_all(&cv);
	}
	for (i = 0; i < n; i++)
		pthread_join(t[i], NULL);
	mutex_free(&mx);
	condvar_free(&cv);
	CHECK(sim_nmx == 0 && sim_live == 0, "%d locks and %u blocks are left", sim_nmx, sim_live);
}
NAT_MAIN
