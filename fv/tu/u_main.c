/* Contracts on proxyd.c: the command line, and what the daemon does with it.
 *
 * parse_args: the strings of the arguments lie in a buffer of arbitrary size and
 * contents, argument i at an arbitrary place; the loop contracts forget the
 * contents, so every argument is arbitrary.  Ghost code at the head of each loop
 * computes from the text what the options have to become (e) or with which status
 * the program has to end (pend), before the code sees the argument. */
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "openelp/openelp.h"
struct e_opts { const char *config, *log; int debug, eventlog, foreground, syslog, quiet; } e;
enum { GO, END_OK, END_FAIL };
int g_pend, g_next, g_cur, g_done, g_argc;
size_t g_len, g_alen, g_jn;
int g_w[4];	/* the current argument is this word */
char *g_buf;
const char **g_argv;
size_t g_o;		/* where the current argument begins */
struct proxy_opts;
extern struct proxy_opts g_opts;
#ifdef FV_ARGS
#define SAME (g_opts.config_path == e.config && g_opts.log_path == e.log && g_opts.debug == e.debug && g_opts.eventlog == e.eventlog && \
	g_opts.foreground == e.foreground && g_opts.syslog == e.syslog && g_opts.quiet == e.quiet)
#define FLAGS (e.debug >= 0 && e.debug <= 1 && e.foreground >= 0 && e.foreground <= 1 && e.syslog >= 0 && e.syslog <= 1 && e.quiet >= 0 && e.quiet <= 1 && e.eventlog == 0)
#define TARGETS g_opts, e, g_pend, g_next, g_jn, g_done
#define FV_COND_parse_args_0 spec_arg(i),
#define FV_COND_parse_args_1 spec_flag(j),
#define FV_LOOP_parse_args_0 \
	__CPROVER_assigns(i, j, arg_len, TARGETS, g_cur, g_o, g_w, g_alen, __CPROVER_object_whole(g_buf), __CPROVER_object_whole(g_argv)) \
	__CPROVER_loop_invariant(i >= 1 && i <= g_argc && i == g_next && g_pend == GO && SAME && FLAGS) \
	__CPROVER_decreases(g_argc - i)
#define FV_LOOP_parse_args_1 \
	__CPROVER_assigns(i, j, TARGETS) \
	__CPROVER_loop_invariant(g_pend == GO && SAME && FLAGS && arg_len == g_alen && g_cur >= 1 && g_cur < g_argc) \
	__CPROVER_loop_invariant(g_done ? j >= arg_len && j <= arg_len + 1 && (i == g_cur || i == g_cur + 1) && i < g_argc : j == g_jn && j >= 1 && j <= arg_len && i == g_cur) \
	__CPROVER_loop_invariant(g_next == i + 1) \
	__CPROVER_decreases(arg_len + 1 - j)
static void spec_arg(int i);
static void spec_flag(size_t j);
#endif
#ifdef FV_MAIN
#define RUNNING g_failed, g_told, g_told_now, g_processed, sentinel
#define FV_LOOP_main_0 \
	__CPROVER_assigns(ret, RUNNING) \
	__CPROVER_loop_invariant((g_failed == 0 || g_failed == 1) && (g_told == 0 || g_told == 1) && (g_failed == 1) == (ret < 0) && ret <= 0 && ret > -256 && \
		(sentinel != 0) == (g_told == 1))
#define FV_LOOP_main_1 \
	__CPROVER_assigns(g_told, sentinel) \
	__CPROVER_loop_invariant((g_told == 0 || g_told == 1) && (sentinel != 0) == (g_told == 1) && g_failed == 0)
int g_failed, g_told, g_told_now, g_processed;
int g_init, g_load, g_open, g_start, g_free, g_fork, g_sid, g_cd, g_level, g_medium, g_medium_done, g_access, g_child, g_handlers, g_want_status, g_exited;
const char *g_medium_path;
int fv_fork(void), fv_setsid(void), fv_chdir(const char *p), fv_usleep(unsigned t), fv_access(const char *p, int m);
struct sigaction;
int fv_sigaction(int s, const struct sigaction *a, void *o);
#define fork fv_fork
#define setsid fv_setsid
#define chdir fv_chdir
#define usleep fv_usleep
#define access fv_access
#define sigaction(s, a, o) fv_sigaction(s, a, o)
#define umask(m) ((void)(m))
#define close(f) ((void)(f))
#define strerror(x) "?"
#endif
#include "fv_loop_defaults.h"
void fv_exit(int code);
#define exit fv_exit
#define printf(...) ((void)0)
#define fprintf(...) ((void)0)
#define proxy_log(...) ((void)0)
#define main fv_main
size_t fv_strlen(const char *s);
int fv_strcmp(const char *a, const char *b);
#ifdef FV_ARGS
#define strlen fv_strlen
#define strcmp fv_strcmp
#endif
#include "proxyd.c"
#undef strlen
#undef strcmp
#undef exit
#undef main
#undef proxy_log
struct proxy_opts g_opts;

#ifdef FV_ARGS
/* ------------------------------------------------------------ specification */
static int is(const char *p, size_t n, const char *w, size_t k)
{
#define CH(q) (k <= q || p[q] == w[q])
	return n == k && CH(0) && CH(1) && CH(2) && CH(3) && CH(4) && CH(5) && CH(6) && CH(7);
}
/* at the head of the outer loop: argument i is next */
static void spec_arg(int i)
{
	const char *s;
	if (i >= g_argc)
		return;
	g_o = nondet_size_t();
	FV_ASSUME(g_o <= g_len && g_buf[g_len] == 0);	/* the string ends there */
	s = g_argv[i] = g_buf + g_o;
	g_alen = g_len - g_o;
	g_cur = i;
#ifdef FV_KIND	/* case split: the argument of this, arbitrary, iteration */
	FV_ASSUME((FV_KIND == 0) == (g_alen <= 1 || s[0] != '-') && (FV_KIND == 1) == (g_alen > 1 && s[0] == '-' && s[1] == '-'));
#endif
	g_next = i + 1;
	g_jn = 1;
	g_done = 0;
	if (g_alen == 0) {
		g_pend = END_FAIL;
	} else if (g_alen == 1 || s[0] != '-') {
		if (e.config != NULL)
			g_pend = END_FAIL;
		else
			e.config = s;
	} else if (s[1] == '-') {
		g_w[0] = is(s + 2, g_alen - 2, "debug", 5);
		g_w[1] = is(s + 2, g_alen - 2, "quiet", 5);
		g_w[2] = is(s + 2, g_alen - 2, "help", 4);
		g_w[3] = is(s + 2, g_alen - 2, "version", 7);
		if (g_w[0])
			e.debug = 1;
		else if (g_w[1])
			e.quiet = 1;
		else if (g_w[2] || g_w[3])
			g_pend = END_OK;
		else
			g_pend = END_FAIL;
	}
}
/* at the head of the inner loop: flag j of the current argument is next */
static void spec_flag(size_t j)
{
	const char *s = g_buf + g_o;
	if (j >= g_alen)
		return;
#ifdef FV_KIND
	FV_ASSUME((FV_KIND == 2) == (s[j] == 'L'));
#endif
	g_jn = j + 1;
	switch (s[j]) {
	case 'd': e.debug = 1; break;
	case 'F': e.foreground = 1; break;
	case 'q': e.quiet = 1; break;
	case 'h': case 'V': g_pend = END_OK; break;
	case 'S':
		if (e.log != NULL)
			g_pend = END_FAIL;
		else
			e.syslog = 1;
		break;
	case 'L':
		g_done = 1;
		if (e.syslog)
			g_pend = END_FAIL;
		else if (j + 1 < g_alen)
			e.log = s + j + 1;
		else if (g_cur + 1 < g_argc) {
			e.log = g_argv[g_cur + 1];
			FV_ASSUME(e.log != NULL);
			g_next = g_cur + 2;
		} else
			g_pend = END_FAIL;
		break;
	default:
		g_pend = END_FAIL;
	}
}
/* ---------------------------------------------------------------- stand-ins */
void fv_exit(int code)
{
	FV_ASSERT(g_pend != GO, "the program ends only where it has to");
	FV_ASSERT((g_pend == END_OK) == ((code & 0xff) == 0), "a bad command line gives a failure status, help and version do not");
#if !defined(FV_KIND) || FV_KIND == 3
	FV_CANARY_IF(g_pend == END_OK, "ends");
#elif FV_KIND != 1
	FV_CANARY_IF(g_pend == END_FAIL, "rejected");
#endif
	FV_ASSUME(0);
}
size_t fv_strlen(const char *s)
{
	FV_ASSERT(s == g_argv[g_cur], "the length of the current argument");
	return g_alen;
}
int fv_strcmp(const char *a, const char *b)
{
	size_t o = __CPROVER_POINTER_OFFSET(a);
	size_t k = !b[0] ? 0 : !b[1] ? 1 : !b[2] ? 2 : !b[3] ? 3 : !b[4] ? 4 : !b[5] ? 5 : !b[6] ? 6 : !b[7] ? 7 : 8;
	FV_ASSERT(__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(g_buf) && o <= g_len, "a text of the current argument");
	FV_ASSERT(b[k] == 0, "ghost hint: the literal is short");
	int r;
	if (o == g_o + 2 && g_alen >= 2 && k == 5 && b[0] == 'd' && b[1] == 'e' && b[2] == 'b' && b[3] == 'u' && b[4] == 'g')
		r = g_w[0];
	else if (o == g_o + 2 && g_alen >= 2 && k == 5 && b[0] == 'q' && b[1] == 'u' && b[2] == 'i' && b[3] == 'e' && b[4] == 't')
		r = g_w[1];
	else if (o == g_o + 2 && g_alen >= 2 && k == 4 && b[0] == 'h' && b[1] == 'e' && b[2] == 'l' && b[3] == 'p')
		r = g_w[2];
	else if (o == g_o + 2 && g_alen >= 2 && k == 7 && b[0] == 'v' && b[1] == 'e' && b[2] == 'r' && b[3] == 's' && b[4] == 'i' && b[5] == 'o' && b[6] == 'n')
		r = g_w[3];
	else
		r = is(a, g_len - o, b, k);
	return r ? 0 : nondet_bool() ? 1 : -1;
}
static void parse_args(int argc, const char * const argv[], struct proxy_opts *opts)
__CPROVER_requires(opts == &g_opts && argc == g_argc && argv == g_argv)
__CPROVER_assigns(TARGETS, g_cur, g_o, g_w, g_alen, __CPROVER_object_whole(g_buf), __CPROVER_object_whole(g_argv))
__CPROVER_ensures(SAME && g_pend == GO && (g_argc < 1 || g_next == g_argc));
void h_parse_args(void)
{
	g_argc = nondet_int();
	g_len = nondet_size_t();
	FV_ASSUME(g_argc >= 0 && g_argc <= 0x100000 && g_len < 0x10000000);
	g_buf = malloc(g_len + 1);
	g_argv = malloc(sizeof(char *) * (size_t)(g_argc + 1));
	FV_ASSUME(g_buf != NULL && g_argv != NULL);
	g_opts = (struct proxy_opts){ 0 };
	e = (struct e_opts){ 0 };
	g_pend = GO;
	g_next = 1;
	parse_args(g_argc, (const char * const *)g_argv, &g_opts);
#if !defined(FV_KIND) || FV_KIND != 2
	FV_CANARY_IF(g_argc > 3, "accepted");
#endif
}
#endif

#ifdef FV_MAIN
#undef sigaction
static void parse_args(int argc, const char * const argv[], struct proxy_opts *opts)
__CPROVER_requires(argc == g_argc && argv == g_argv)
__CPROVER_requires(opts->config_path == NULL && opts->log_path == NULL && opts->debug == 0 && opts->eventlog == 0 && opts->foreground == 0 && opts->syslog == 0 && opts->quiet == 0)
__CPROVER_assigns(*opts)
__CPROVER_ensures(opts->config_path == e.config && opts->log_path == e.log && opts->debug == e.debug && opts->eventlog == e.eventlog && opts->foreground == e.foreground && opts->syslog == e.syslog && opts->quiet == e.quiet);
#define FALLIBLE(f) int r = nondet_int(); FV_ASSUME(r <= 0 && r > -256); if (r < 0) g_failed = 1; return r
#define LIVE FV_ASSERT(g_init == 1 && !g_failed && g_free == 0, "used while it is alive and nothing has failed")
#define W(p, w, n) (sizeof(w) == n + 1 && p[0] == w[0] && p[1] == w[1] && p[2] == w[2] && p[3] == w[3] && p[4] == w[4] && p[5] == w[5] && p[6] == w[6] && p[7] == w[7] && \
	p[8] == w[8] && p[9] == w[9] && p[10] == w[10] && p[11] == w[11] && p[12] == w[12])
int proxy_init(struct proxy_handle *p)
{
	FV_ASSERT(p->priv == NULL && g_init == 0, "initialised once");
	g_init = 1;
	FALLIBLE(init);
}
void proxy_log_level(struct proxy_handle *p, enum LOG_LEVEL l)
{
	LIVE;
	g_level = (int)l;
}
int proxy_log_select_medium(struct proxy_handle *p, enum LOG_MEDIUM m, const char *t)
{
	LIVE;
	g_medium = (int)m;
	g_medium_path = t;
	if (m == LOG_MEDIUM_STDOUT) {
		FALLIBLE(log);
	}
	return nondet_int();
}
int proxy_load_conf(struct proxy_handle *p, const char *t)
{
	LIVE;
	if (e.config != NULL)
		FV_ASSERT(t == e.config, "the configuration path of the command line");
	else if (g_access == 0)
		FV_ASSERT(W(t, "ELProxy.conf", 12), "the default path");
	else
		FV_ASSERT(t[0] == '.' && t[1] == '.' && t[2] == '/' && t[3] == 'e' && t[4] == 't' && t[5] == 'c' && t[6] == '/' && W((t + 7), "ELProxy.conf", 12), "the path hint");
	FV_ASSERT(g_level == (int)(e.quiet ? LOG_LEVEL_WARN : e.debug ? LOG_LEVEL_DEBUG : LOG_LEVEL_INFO), "the log level of the command line");
	FV_ASSERT(g_load == 0, "read once");
	g_load = 1;
	FALLIBLE(load);
}
int proxy_open(struct proxy_handle *p)
{
	LIVE;
	FV_ASSERT(g_load == 1 && g_open == 0, "opened with its configuration");
	g_open = 1;
	FALLIBLE(open);
}
int proxy_start(struct proxy_handle *p)
{
	LIVE;
	FV_ASSERT(g_open == 1 && g_start == 0, "started when it is open");
	FV_ASSERT(e.foreground ? g_fork == 0 : g_fork == 1 && g_child && g_sid == 1 && g_cd == 1, "in the background unless told otherwise");
	FV_ASSERT(e.log != NULL ? g_medium == (int)LOG_MEDIUM_FILE && g_medium_path == e.log : g_medium == (int)(e.syslog ? LOG_MEDIUM_SYSLOG : LOG_MEDIUM_STDOUT), "the log of the command line");
	FV_ASSERT(g_handlers == 3, "signals are handled");
	g_start = 1;
	FALLIBLE(start);
}
int proxy_process(struct proxy_handle *p)
{
	int r = nondet_int();
	LIVE;
	FV_ASSERT(g_start == 1 && !g_told, "connections are awaited until the end is asked for");
	FV_ASSUME(r <= 0 && r > -256);
	g_processed = 1;
	if (nondet_bool()) {
		g_told = 1;
		sentinel = 1;
	}
	if (r < 0 && r != -EINTR)
		g_failed = 1;
	return r;
}
void proxy_free(struct proxy_handle *p)
{
	FV_ASSERT(g_free == 0, "released once");
	g_free = 1;
}
void proxy_shutdown(struct proxy_handle *p)
{
}
int fv_fork(void)
{
	int r = nondet_int();
	LIVE;
	FV_ASSERT(g_open == 1 && g_fork == 0, "goes to the background once it is open");
	FV_ASSUME(r >= -1);
	g_fork = 1;
	g_child = r == 0;
	g_failed = r < 0;
	return r;
}
int fv_setsid(void)
{
	g_sid = 1;
	if (nondet_bool())
		return 7;
	g_failed = 1;
	errno = EPERM;
	return -1;
}
int fv_chdir(const char *p)
{
	FV_ASSERT(p[0] == '/' && p[1] == 0, "the root directory");
	g_cd = 1;
	if (nondet_bool())
		return 0;
	g_failed = 1;
	errno = nondet_int();
	FV_ASSUME(errno > 0 && errno < 256);
	return -1;
}
int fv_usleep(unsigned t)
{
	if (nondet_bool()) {
		g_told = 1;
		sentinel = 1;
	}
	return 0;
}
int fv_access(const char *p, int m)
{
	FV_ASSERT(W(p, "ELProxy.conf", 12), "is the default there");
	return g_access;
}
int fv_sigaction(int s, const struct sigaction *a, void *o)
{
	FV_ASSERT(s == SIGINT || s == SIGTERM || s == SIGUSR1, "signals");
	g_handlers++;
	return 0;
}
void fv_exit(int code)
{
	FV_ASSERT(g_fork == 1 && !g_child && !g_failed && code == 0 && g_start == 0 && g_free == 0, "only the parent leaves early, and leaves the proxy to its child");
	FV_CANARY("parent");
	FV_ASSUME(0);
}
int fv_main(int argc, const char * const argv[])
__CPROVER_requires(argc == g_argc && argv == g_argv && sentinel == 0 && ph.priv == NULL)
__CPROVER_requires(g_init == 0 && g_load == 0 && g_open == 0 && g_start == 0 && g_free == 0 && g_fork == 0 && g_failed == 0 && g_told == 0 && g_sid == 0 && g_cd == 0 && g_handlers == 0 && g_processed == 0)
__CPROVER_assigns(ph, RUNNING, errno, g_init, g_load, g_open, g_start, g_free, g_fork, g_child, g_sid, g_cd, g_level, g_medium, g_medium_path, g_handlers)
__CPROVER_ensures((__CPROVER_return_value & 0xff) == 0 ? g_failed == 0 && g_told == 1 && g_start == 1 : g_failed == 1)
__CPROVER_ensures(g_free == 1 || (g_failed == 1 && g_load == 0));
void h_main(void)
{
	int r;
	e = (struct e_opts){ 0 };
	e.config = nondet_bool() ? NULL : "c";
	e.log = nondet_bool() ? NULL : "l";
	e.debug = nondet_bool(); e.quiet = nondet_bool(); e.syslog = nondet_bool(); e.foreground = nondet_bool();
	FV_ASSUME(e.log == NULL || !e.syslog);
	g_access = nondet_bool() ? 0 : -1;
	g_init = g_load = g_open = g_start = g_free = g_fork = g_child = g_failed = g_told = g_sid = g_cd = g_handlers = g_processed = 0;
	g_argc = nondet_int();
	r = fv_main(g_argc, (const char * const *)g_argv);
	FV_CANARY_IF(r == 0 && g_processed, "ended well");
	FV_CANARY_IF(r != 0 && g_processed, "ended badly");
}
#endif
