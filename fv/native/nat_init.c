/* Every initialisation (NAT_SEL & 1) and the life of a proxy (NAT_SEL & 2) with
 * one call failing: memory, a lock, a thread, the network. */
#include "sim.h"
#include "openelp/openelp.h"
#include "conf.h"
#include "conn.h"
#include "log.h"
#include "mutex.h"
#include "proxy_client.h"
#include "proxy_conn.h"
#include "rand.h"
#include "regex.h"
#include "registration.h"
#include "thread.h"
#include "worker.h"

static int live_cond;
struct held { unsigned mem; int mx, fds, threads; };
static struct held held(void)
{
	struct held h;
	h.mem = sim_live;
	h.mx = sim_nmx;
	h.fds = sim_open_fds();
	h.threads = sim_threads_alive();
	return h;
}
static void same(struct held a, const char *n, const char *when)
{
	struct held b = held();
	CHECK(a.mem == b.mem, "%s %s: %d memory blocks more than before", n, when, (int)(b.mem - a.mem));
	CHECK(a.mx == b.mx, "%s %s: %d locks more than before", n, when, b.mx - a.mx);
	CHECK(a.fds == b.fds, "%s %s: %d descriptors more than before", n, when, b.fds - a.fds);
	CHECK(a.threads == b.threads, "%s %s: %d threads more than before", n, when, b.threads - a.threads);
}
static struct proxy_handle ph;
static void wfunc(struct worker_handle *w) { (void)w; }
static void *tfunc(void *c) { (void)c; return NULL; }

static struct conn_handle c_conn;
static struct mutex_handle c_mutex;
static struct condvar_handle c_cond;
static struct thread_handle c_thread;
static struct worker_handle c_worker;
static struct log_handle c_log;
static struct regex_handle c_regex;
static struct proxy_conn_handle c_pc;
static struct proxy_client_handle c_client;
static struct registration_service_handle c_reg;
static struct proxy_handle c_ph;
enum { CONN, MUTEX, COND, THREAD, WORKER, LOG, REGEX, PC, CLIENT, REG, PROXY, KINDS };
static const char *const names[] = { "conn", "mutex", "condvar", "thread", "worker", "log", "regex", "proxy_conn", "proxy_client", "registration_service", "proxy" };
static void clear(int k)
{
	switch (k) {
	case CONN: memset(&c_conn, 0, sizeof(c_conn)); c_conn.type = nat_p(50) ? CONN_TYPE_TCP : CONN_TYPE_UDP; break;
	case MUTEX: memset(&c_mutex, 0, sizeof(c_mutex)); break;
	case COND: memset(&c_cond, 0, sizeof(c_cond)); break;
	case THREAD: memset(&c_thread, 0, sizeof(c_thread)); c_thread.func_ptr = tfunc; break;
	case WORKER: memset(&c_worker, 0, sizeof(c_worker)); c_worker.func_ptr = wfunc; break;
	case LOG: memset(&c_log, 0, sizeof(c_log)); break;
	case REGEX: memset(&c_regex, 0, sizeof(c_regex)); break;
	case PC: memset(&c_pc, 0, sizeof(c_pc)); c_pc.ph = &ph; c_pc.control_port = "5199"; c_pc.data_port = "5198"; break;
	case CLIENT: memset(&c_client, 0, sizeof(c_client)); break;
	case REG: memset(&c_reg, 0, sizeof(c_reg)); break;
	default: memset(&c_ph, 0, sizeof(c_ph)); break;
	}
}
static int init(int k)
{
	switch (k) {
	case CONN: return conn_init(&c_conn);
	case MUTEX: return mutex_init(&c_mutex);
	case COND: return condvar_init(&c_cond);
	case THREAD: return thread_init(&c_thread);
	case WORKER: return worker_init(&c_worker);
	case LOG: return log_init(&c_log);
	case REGEX: return regex_init(&c_regex);
	case PC: return proxy_conn_init(&c_pc);
	case CLIENT: return proxy_client_init(&c_client);
	case REG: return registration_service_init(&c_reg);
	default: return proxy_init(&c_ph);
	}
}
static void fini(int k)
{
	switch (k) {
	case CONN: conn_free(&c_conn); break;
	case MUTEX: mutex_free(&c_mutex); break;
	case COND: condvar_free(&c_cond); break;
	case THREAD: thread_free(&c_thread); break;
	case WORKER: worker_free(&c_worker); break;
	case LOG: log_free(&c_log); break;
	case REGEX: regex_free(&c_regex); break;
	case PC: proxy_conn_free(&c_pc); break;
	case CLIENT: proxy_client_free(&c_client); break;
	case REG: registration_service_free(&c_reg); break;
	default: proxy_free(&c_ph); break;
	}
}
/* an object that has been initialised works */
static void use(int k)
{
	int r;
	char t[60];
	switch (k) {
	case MUTEX:
		CHECK(mutex_lock(&c_mutex) == 0 && mutex_unlock(&c_mutex) == 0, "a lock cannot be used");
		CHECK(mutex_lock_shared(&c_mutex) == 0 && mutex_unlock_shared(&c_mutex) == 0, "a lock cannot be shared");
		break;
	case THREAD:
		r = thread_start(&c_thread);
		CHECK(r == 0, "thread_start returns %d", r);
		if (nat_p(50)) {
			r = thread_join(&c_thread);
			CHECK(r == 0, "thread_join returns %d", r);
		}
		break;
	case WORKER:
		r = worker_start(&c_worker);
		CHECK(r == 0, "worker_start returns %d", r);
		sim_settle();
		r = worker_wake(&c_worker);
		CHECK(r == 0, "worker_wake returns %d", r);
		break;
	case LOG:
		log_select_medium(&c_log, LOG_MEDIUM_FILE, "/dev/null");
		log_printf(&c_log, LOG_LEVEL_FATAL, "x\n");
		break;
	case REGEX:
		r = regex_compile(&c_regex, "^A");
		CHECK(r == 0, "regex_compile returns %d", r);
		CHECK(regex_is_match(&c_regex, "AB") == 1 && regex_is_match(&c_regex, "BA") == 0, "a pattern does not match");
		break;
	case CONN:
		conn_get_remote_addr(&c_conn, t);
		conn_close(&c_conn);
		break;
	case PC:
		CHECK(proxy_conn_in_use(&c_pc) == 0, "a slot without a client is in use");
		r = proxy_conn_start(&c_pc);
		CHECK(r == 0, "proxy_conn_start returns %d", r);
		if (nat_p(50)) {
			r = proxy_conn_stop(&c_pc);
			CHECK(r == 0, "proxy_conn_stop returns %d", r);
		}
		break;
	case REG:
		registration_service_update(&c_reg, 0, 1);
		break;
	default: break;
	}
}
static void component(void)
{
	int k = (int)nat_rnd(KINDS), r, i;
	struct held before;
	r = proxy_init(&ph);
	CHECK(r == 0, "proxy_init returns %d", r);
	before = held();
	clear(k);
	for (i = 0; i < 4; i++) {
		int n = nat_p(20) ? 0 : 1 + (int)nat_rnd(k == PROXY ? 40 : k >= PC || k == CONN ? 16 : 8);
		sim_fault_at = n;
		sim_fault_fired = 0;
		r = init(k);
		sim_fault_at = 0;
		nat_note("%s: call %d fails%s: %d\n", names[k], n, sim_fault_fired ? "" : " (there are fewer)", r);
		CHECK(r <= 0, "%s_init returns %d", names[k], r);
		CHECK((r < 0) == sim_fault_fired, "%s_init returns %d although %s", names[k], r, sim_fault_fired ? "a call failed" : "nothing failed");
		if (r < 0) {
			same(before, names[k], "after a failed initialisation");
			if (nat_p(50)) {
				fini(k);
				same(before, names[k], "freed after a failed initialisation");
			}
			continue;
		}
		if (nat_p(60))
			use(k);
		fini(k);
		same(before, names[k], "after it has been freed");
		if (nat_p(30)) {
			fini(k);
			same(before, names[k], "freed twice");
		}
		if (nat_p(30))
			clear(k);
	}
	proxy_free(&ph);
}
/* --------------------------------------------------------- life of a proxy */
static char *dup_(const char *s)
{
	char *p = __real_malloc(strlen(s) + 1);
	strcpy(p, s);
	sim_blk_add(p);
	return p;
}
static int on_connect(uint32_t a, uint16_t p) { (void)a; (void)p; return ECONNREFUSED; }
static void proxy_life(void)
{
	int r, i, n, steps = 3 + (int)nat_rnd(10), nslot = 1 + (int)nat_rnd(4), is_open = 0, started = 0;
	struct held opened;
	char t[40];
	if (freopen("/dev/null", "w", stdout) == NULL)	/* the log; the child process only */
		nat_fail("harness: no /dev/null");
	sim_on_connect = on_connect;
	sim_named_addr = htonl(0x01020304);
	memset(&ph, 0, sizeof(ph));
	r = proxy_init(&ph);
	CHECK(r == 0, "proxy_init returns %d", r);
	ph.conf.port = 8100;
	ph.conf.password = dup_("x");
	if (nat_p(50))
		ph.conf.reg_name = dup_("AA1A");
	ph.conf.bind_addr_ext = dup_("127.0.1.1");
	if (nslot > 1) {
		ph.conf.bind_addr_ext_add = __real_calloc((size_t)nslot - 1, sizeof(char *));
		sim_blk_add(ph.conf.bind_addr_ext_add);
		for (i = 1; i < nslot; i++) {
			sprintf(t, "127.0.1.%d", i + 1);
			ph.conf.bind_addr_ext_add[i - 1] = dup_(t);
		}
		ph.conf.bind_addr_ext_add_len = (uint16_t)(nslot - 1);
	}
	proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, nat_p(90) ? "/dev/null" : "/nonexistent/x");
	proxy_log_level(&ph, LOG_LEVEL_FATAL);
	nat_note("%d slots\n", nslot);
	opened = held();
	for (i = 0; i < steps; i++) {
		int op = (int)nat_rnd(10);
		n = nat_p(40) ? 0 : 1 + (int)nat_rnd(60);
		sim_fault_fired = 0;
		if (!is_open && op < 7) {
			char **f = nat_p(50) ? &ph.conf.calls_allowed : &ph.conf.calls_denied, *pat = NULL;
			if (*f) {
				sim_blk_del(*f);
				__real_free(*f);
				*f = NULL;
			}
			if (nat_p(60))
				*f = dup_(pat = (nat_p(15) ? "(" : "^A"));
			opened.mem = sim_live;
			sim_fault_at = n;
			r = proxy_open(&ph);
			sim_fault_at = 0;
			nat_note("open (call %d fails%s, pattern %s): %d\n", n, sim_fault_fired ? "" : "; there are fewer", pat ? pat : "-", r);
			CHECK(r <= 0, "proxy_open returns %d", r);
			CHECK(!sim_fault_fired || r < 0, "proxy_open returns %d although a call failed", r);
			if (r < 0) {
				CHECK(sim_listener(8100) == NULL, "the proxy listens although it could not be opened");
				if (pat && *pat == '(') {
					sim_blk_del(*f);
					__real_free(*f);
					*f = NULL;
					opened.mem--;
				}
				CHECK(sim_live <= opened.mem, "%d memory blocks more than before after the proxy could not be opened", (int)(sim_live - opened.mem));
				opened.mem = sim_live;
				same(opened, "proxy", "after it could not be opened");
			} else {
				CHECK(sim_listener(8100) != NULL, "the proxy has been opened but does not listen");
				CHECK(!pat || *pat != '(', "the proxy has been opened with an invalid pattern");
				is_open = 1;
			}
		} else if (is_open && !started && op < 7) {
			int w = sim_threads_alive();
			sim_fault_at = n;
			r = proxy_start(&ph);
			sim_fault_at = 0;
			nat_note("start (call %d fails%s): %d\n", n, sim_fault_fired ? "" : "; there are fewer", r);
			CHECK(r <= 0, "proxy_start returns %d", r);
			CHECK(!sim_fault_fired || r < 0 || ph.conf.reg_name, "proxy_start returns %d although a call failed", r);
			if (r == 0) {
				started = 1;
				CHECK(sim_threads_alive() >= w + 4 * nslot, "only %d threads run for %d slots", sim_threads_alive() - w, nslot);
				sim_settle();
			} else
				CHECK(sim_threads_alive() == w, "%d threads run after the proxy could not be started", sim_threads_alive() - w);
		} else if (op < 9) {
			if (nat_p(50))
				proxy_shutdown(&ph);
			if (nat_p(30))
				proxy_drop(&ph);
			nat_note("close\n");
			proxy_close(&ph);
			CHECK(sim_listener(8100) == NULL, "a closed proxy listens");
			if (is_open)
				CHECK(sim_threads_alive() == opened.threads, "%d threads run after the proxy has been closed", sim_threads_alive() - opened.threads);
			is_open = started = 0;
		} else
			break;
	}
	nat_note("free\n");
	proxy_free(&ph);
}
static void scenario(unsigned long index)
{
	sim_begin();
	(void)live_cond;
	(void)index;
	if (NAT_SEL & 2)
		proxy_life();
	else
		component();
	CHECK(sim_open_fds() == 0, "%d descriptors are open in the end", sim_open_fds());
	CHECK(sim_live == 0, "%u memory blocks are not released in the end", sim_live);
	CHECK(sim_threads_alive() == 0, "%d threads were never joined", sim_threads_alive());
	CHECK(sim_nmx == 0, "%d locks were never destroyed", sim_nmx);
}
NAT_MAIN
