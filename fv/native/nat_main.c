/* The daemon's main on random argument vectors, with the library and the system
 * calls it makes recorded and failing at random; each run in a process of its own.
 * What has to happen comes from a reference reading of the argument vector. */
#define _GNU_SOURCE
#include "nat.h"
#include <sys/stat.h>
#include <setjmp.h>
#include "openelp/openelp.h"

enum { GO, END_OK, END_FAIL };
/* ------------------------------------------------------------- what happened */
static int n_init, n_load, n_open, n_start, n_process, n_free, n_fork, n_shutdown, n_sigs, n_sid, n_cd;
static int level = -1, medium = -1, medium_ret, level_at_load, fork_before_open, started_medium, failed;
static char medium_path[4000], load_path[4000];
static int fail_at, fallible, as_parent, access_ret, process_left, intr, bad_process, told, parent_free;
static char text[100000];
static jmp_buf out;
static int exited, exit_code;
static void (*handler[65])(int, siginfo_t *, void *);

static int may_fail(const char *what)
{
	if (++fallible == fail_at) {
		nat_note(" %s fails", what);
		failed = 1;
		return 1;
	}
	return 0;
}
int proxy_init(struct proxy_handle *p)
{
	(void)p;
	n_init++;
	return may_fail("proxy_init") ? -ENOMEM : 0;
}
void proxy_log_level(struct proxy_handle *p, enum LOG_LEVEL l)
{
	(void)p;
	CHECK(n_init == 1 && n_free == 0, "a level is set on a proxy that is not initialised");
	level = l;
}
int proxy_log_select_medium(struct proxy_handle *p, enum LOG_MEDIUM m, const char *t)
{
	(void)p;
	CHECK(n_init == 1 && n_free == 0, "the log of a proxy that is not initialised");
	medium = m;
	medium_path[0] = 0;
	if (m == LOG_MEDIUM_FILE)
		snprintf(medium_path, sizeof(medium_path), "%s", t);
	if (m == LOG_MEDIUM_STDOUT)
		return may_fail("log to stdout") ? -EIO : 0;
	return nat_p(10) ? -EIO : 0;
}
int proxy_load_conf(struct proxy_handle *p, const char *t)
{
	(void)p;
	CHECK(n_init == 1 && n_free == 0 && !failed, "the configuration is read after a failure");
	n_load++;
	snprintf(load_path, sizeof(load_path), "%s", t);
	level_at_load = level;
	return may_fail("proxy_load_conf") ? -ENOENT : 0;
}
int proxy_open(struct proxy_handle *p)
{
	(void)p;
	CHECK(n_load == 1 && n_free == 0 && !failed, "opened without a configuration");
	n_open++;
	return may_fail("proxy_open") ? -EADDRINUSE : 0;
}
int proxy_start(struct proxy_handle *p)
{
	(void)p;
	CHECK(n_open == 1 && n_free == 0 && !failed, "started but not open");
	n_start++;
	return may_fail("proxy_start") ? -EIO : 0;
}
static void send_signal(int s)
{
	siginfo_t si;
	memset(&si, 0, sizeof(si));
	CHECK(handler[s] != NULL, "no handler for signal %d", s);
	nat_note(" sig%d", s);
	told = told || s != SIGUSR1;
	n_shutdown = 0;
	handler[s](s, &si, NULL);
	CHECK(n_shutdown > 0, "signal %d does not shut the proxy down", s);
}
int proxy_process(struct proxy_handle *p)
{
	(void)p;
	CHECK(n_start == 1 && n_free == 0 && !failed, "a connection is awaited but the proxy is not started");
	CHECK(!told, "a connection is awaited after the end was asked for");
	CHECK(!bad_process, "a connection is awaited after a fatal error");
	n_process++;
	if (process_left-- > 0)
		return 0;
	switch (nat_rnd(3)) {
	case 0:
		bad_process = 1;
		return -EBADF;
	case 1:
		send_signal(nat_rnd(2) ? SIGTERM : SIGINT);
		return nat_rnd(2) ? -EINTR : 0;
	default:
		send_signal(SIGUSR1);
		return -EINTR;
	}
}
void proxy_shutdown(struct proxy_handle *p)
{
	(void)p;
	n_shutdown++;
}
void proxy_free(struct proxy_handle *p)
{
	(void)p;
	n_free++;
}
void proxy_close(struct proxy_handle *p) { (void)p; }
void proxy_drop(struct proxy_handle *p) { (void)p; }
void proxy_log(struct proxy_handle *p, enum LOG_LEVEL l, const char *f, ...)
{
	va_list a;
	(void)p; (void)l;
	va_start(a, f);
	vsnprintf(text, sizeof(text), f, a);
	va_end(a);
}
static int print(const char *f, ...)
{
	va_list a;
	va_start(a, f);
	vsnprintf(text, sizeof(text), f, a);
	va_end(a);
	return 1;
}
static void my_exit(int c)
{
	exited = 1;
	exit_code = c;
	longjmp(out, 1);
}
static pid_t my_fork(void)
{
	n_fork++;
	fork_before_open += n_open == 0;
	if (may_fail("fork"))
		return -1;
	return as_parent ? 1234 : 0;
}
static pid_t my_setsid(void)
{
	n_sid++;
	if (!may_fail("setsid"))
		return 99;
	errno = EPERM;
	return -1;
}
static int my_chdir(const char *p)
{
	CHECK(strcmp(p, "/") == 0, "wrong directory");
	n_cd++;
	if (!may_fail("chdir"))
		return 0;
	errno = EACCES;
	return -1;
}
static int my_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	(void)o;
	CHECK((a->sa_flags & SA_SIGINFO) && s > 0 && s < 65, "signal handler");
	handler[s] = a->sa_sigaction;
	return 0;
}
static int my_usleep(useconds_t t)
{
	(void)t;
	if (nat_p(30))
		send_signal(SIGTERM);
	return 0;
}
static int my_access(const char *p, int m)
{
	CHECK(strcmp(p, "ELProxy.conf") == 0 && m == R_OK, "readability of what?");
	return access_ret;
}
#define sigaction(a, b, c) my_sigaction(a, b, c)
#define fork my_fork
#define setsid my_setsid
#define chdir my_chdir
#define usleep my_usleep
#define access my_access
#define umask(m) ((void)(m))
#define close(f) ((void)(f))
#define exit my_exit
#define printf(...) print(__VA_ARGS__)
#define fprintf(f, ...) print(__VA_ARGS__)
#define main fv_main
#include "proxyd.c"
#undef main
#undef fork
#undef exit
#undef printf
#undef fprintf

/* ------------------------------------------------------- what has to happen */
struct want { int end; const char *config, *log; int debug, quiet, syslog, foreground; };
static struct want reading(int n, const char *const *v)
{
	struct want w;
	int i;
	const char *p;
	memset(&w, 0, sizeof(w));
	for (i = 1; i < n && w.end == GO; i++) {
		p = v[i];
		if (!strcmp(p, "--help") || !strcmp(p, "--version"))
			w.end = END_OK;
		else if (!strcmp(p, "--debug"))
			w.debug = 1;
		else if (!strcmp(p, "--quiet"))
			w.quiet = 1;
		else if (!*p || (p[0] == '-' && p[1] == '-'))
			w.end = END_FAIL;
		else if (p[0] != '-' || !p[1]) {
			if (w.config)
				w.end = END_FAIL;
			w.config = p;
		} else {
			while (*++p && w.end == GO) {
				if (*p == 'd')
					w.debug = 1;
				else if (*p == 'q')
					w.quiet = 1;
				else if (*p == 'F')
					w.foreground = 1;
				else if (*p == 'h' || *p == 'V')
					w.end = END_OK;
				else if (*p == 'S') {
					w.syslog = 1;
					if (w.log)
						w.end = END_FAIL;
				} else if (*p == 'L') {
					if (w.syslog)
						w.end = END_FAIL;
					w.log = p[1] ? p + 1 : i + 1 < n ? v[++i] : NULL;
					if (!w.log)
						w.end = END_FAIL;
					break;
				} else
					w.end = END_FAIL;
			}
		}
	}
	return w;
}
static char *argument(void)
{
	static const char *words[] = { "--debug", "--quiet", "--help", "--version", "-", "--", "", "-F", "-d", "-q", "-S", "-L", "-V", "-h", "x.conf",
		"/etc/p.conf", "-dFq", "-FdL", "-Lfile", "-dLfile", "-SFd", "--debu", "--debugx", "--quie", "--versio", "-E", "-FE", "--Debug", "-L-", "a" };
	static const char flags[] = "dFqdFqdFqdFqLSdFqhVE-x";
	char t[4000];
	int i, n;
	if (nat_p(60))
		return strdup(words[nat_rnd(sizeof(words) / sizeof(words[0]))]);
	if (nat_p(60)) {
		n = (int)nat_rnd(6) + 1;
		t[0] = '-';
		for (i = 1; i <= n; i++)
			t[i] = flags[nat_rnd(sizeof(flags) - 1)];
		t[n + 1] = 0;
		return strdup(t);
	}
	n = (int)nat_rnd(nat_p(5) ? 3000 : 9);
	for (i = 0; i < n; i++)
		t[i] = nat_p(30) ? "-LSFdqhV"[nat_rnd(8)] : (char)(nat_rnd(255) + 1);
	t[n] = 0;
	return strdup(t);
}
static void run(unsigned long index)
{
	struct want w;
	int n, i, ret, status, ok;
	char **v;
	(void)index;
	n = nat_p(3) ? 0 : 1 + (int)nat_rnd(nat_p(50) ? 4 : 9);
	v = malloc(sizeof(*v) * (size_t)(n + 1));	/* exact, so that reading beyond is seen */
	for (i = 0; i < n; i++) {
		v[i] = i ? argument() : strdup("openelpd");
		nat_note("%.60s%s", v[i], i + 1 < n ? " | " : "");
	}
	v[n] = NULL;
	fail_at = nat_p(30) ? 1 + (int)nat_rnd(8) : 0;
	as_parent = nat_p(25);
	access_ret = nat_p(50) ? 0 : -1;
	process_left = (int)nat_rnd(4);
	w = reading(n, (const char *const *)v);
	if (setjmp(out) == 0) {
		ret = fv_main(n, (const char *const *)v);
	} else
		ret = exit_code;
	status = ret & 0xff;
	if (w.end != GO) {
		CHECK((status == 0) == (w.end == END_OK), "status %d after a %s command line", status, w.end == END_OK ? "help or version" : "bad");
		CHECK(!n_open && !n_load && !n_fork && !n_start, "something is opened although the command line ends the program");
		return;
	}
	CHECK(n_init == 1, "the proxy is initialised once, not %d times", n_init);
	CHECK(!n_load || !strcmp(load_path, w.config ? w.config : access_ret == 0 ? "ELProxy.conf" : "../etc/ELProxy.conf"), "configuration read from %s", load_path);
	CHECK(!n_load || level_at_load == (w.quiet ? LOG_LEVEL_WARN : w.debug ? LOG_LEVEL_DEBUG : LOG_LEVEL_INFO), "level %d while the configuration is read", level_at_load);
	CHECK(!fork_before_open, "forks before it is open");
	CHECK(!(w.foreground && n_fork), "forks in the foreground");
	CHECK(n_load == 1 || failed, "no configuration read");
	CHECK(n_open == 1 || failed, "not opened");
	if (n_fork && as_parent && !failed) {
		CHECK(exited && status == 0 && !n_start && !n_free, "the parent has to leave at once");
		return;
	}
	CHECK(n_start == 1 || failed, "not started");
	CHECK(w.foreground || n_fork || failed, "does not go to the background");
	CHECK(w.foreground || !n_start || (n_sid == 1 && n_cd == 1), "not detached");
	if (n_start) {
		if (w.log)
			CHECK(medium == LOG_MEDIUM_FILE && !strcmp(medium_path, w.log), "the log is medium %d %s", medium, medium_path);
		else
			CHECK(medium == (w.syslog ? LOG_MEDIUM_SYSLOG : LOG_MEDIUM_STDOUT), "the log is medium %d", medium);
	}
	ok = !failed && !bad_process;
	CHECK((status == 0) == ok, "status %d, failed %d", status, !ok);
	CHECK(!ok || told, "ends although nobody asked");
	CHECK(n_free == 1 || (n_free == 0 && failed && fail_at == 1), "the proxy is released %d times", n_free);
	for (i = 0; i < n; i++)
		free(v[i]);
	free(v);
}
static void scenario(unsigned long index)
{
	int st;
	pid_t p = fork();
	if (p == 0) {
		alarm(15);
		run(index);
		_exit(0);
	}
	CHECK(p > 0 && waitpid(p, &st, 0) == p, "harness: fork");
	if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
		nat_fail(WIFSIGNALED(st) ? "killed by signal %d" : "crashed, status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
}
NAT_MAIN
