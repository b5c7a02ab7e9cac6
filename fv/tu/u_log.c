/* Contracts on log.c: which medium is open, and where a message goes.  The
 * resources of a medium are a log file and the connection to syslog. */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <stdarg.h>
#include <syslog.h>
#include "openelp/openelp.h"
#include "log.h"

struct fv_file { int x; };
FILE *fv_fopen(const char *f, const char *m);
int fv_fclose(FILE *f);
void fv_openlog(void);
void fv_closelog(void);
void fv_vout(FILE *f, const char *fmt);
void fv_prefix(FILE *f);
int fv_fflush(FILE *f);
void fv_vsyslog(int lev, const char *fmt);
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#define fopen fv_fopen
#define fclose fv_fclose
#define openlog(...) fv_openlog()
#define closelog fv_closelog
#define vfprintf(f, fmt, a) fv_vout(f, fmt)
#define vprintf(fmt, a) fv_vout(stdout, fmt)
#define fprintf(f, ...) fv_prefix(f)
#define fflush fv_fflush
#define vsyslog(l, fmt, a) fv_vsyslog(l, fmt)
#define vsnprintf(b, n, fmt, a) fv_vsnprintf(b, n)
int fv_vsnprintf(char *b, size_t n);
#define time(p) (*(p) = nondet_long())
#define localtime_r(a, b) (b)
#define strftime(b, n, ...) fv_strftime(b, n)
size_t fv_strftime(char *b, size_t n);
#define calloc fv_calloc
#define free fv_free
#include "fv_loop_defaults.h"
#include "log.c"
#undef calloc
#undef free
#define RET __CPROVER_return_value

int fv_vsnprintf(char *b, size_t n)
{
	FV_ASSERT(0, "no message is cut to fit a buffer");
	return 0;
}
struct log_handle g_log;
struct log_priv g_lp;
struct fv_file file[2];
#define F(i) ((FILE *)&file[i])
char g_target[1], g_fmt[1];
struct fv_g {
	int open[2], syslog;	/* what is open */
	int opened, failed, mem;
	int out, out_flushed, sys, sys_level, prefix;
	FILE *out_to;
} g;
int v_medium0, v_file0;

FILE *fv_fopen(const char *f, const char *m)
{
	FV_ASSERT(f == g_target && m[0] == 'a' && m[1] == 0, "the target is opened for appending");
	FV_ASSERT(g.opened == 0, "one file is opened");
	g.opened = 1;
	if (nondet_bool()) {
		g.failed = 1;
		g_errno = nondet_int();
		FV_ASSUME(g_errno > 0 && g_errno < 4096);
		return NULL;
	}
	FV_ASSERT(g.open[1] == 0, "one new file");
	g.open[1] = 1;
	return F(1);
}
int fv_fclose(FILE *f)
{
	FV_ASSERT(f == F(0) || f == F(1), "a log file is closed");
	int i = f == F(1);
	FV_ASSERT(g.open[i] == 1, "a file is closed once");
	g.open[i] = 0;
	return 0;
}
void fv_openlog(void)
{
	FV_ASSERT(g.syslog == 0, "syslog is opened once");
	g.syslog = 1;
}
void fv_closelog(void)
{
	FV_ASSERT(g.syslog == 1, "syslog is closed once");
	g.syslog = 0;
}
/* the medium that is selected owns exactly what is open */
#define FP(p) ((p)->medium_file.fp)
#define INV_MEDIUM(m) ((m) == LOG_MEDIUM_NONE || (m) == LOG_MEDIUM_STDOUT || (m) == LOG_MEDIUM_FILE || (m) == LOG_MEDIUM_SYSLOG)
#define INV(m) (INV_MEDIUM(m) && g.syslog == ((m) == LOG_MEDIUM_SYSLOG) && g.open[0] + g.open[1] == ((m) == LOG_MEDIUM_FILE) && \
	g_lp.medium_eventlog.handle == NULL && \
	((m) == LOG_MEDIUM_FILE ? FP(&g_lp) == F(g.open[1]) : FP(&g_lp) == NULL))

#ifndef FV_PRINT
void log_close(struct log_handle *log)
__CPROVER_requires(log == &g_log && log->priv == &g_lp && INV(log->medium))
__CPROVER_assigns(log->medium, g_lp, g)
__CPROVER_ensures(log->medium == LOG_MEDIUM_NONE && INV(LOG_MEDIUM_NONE));

int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium, const char *target)
__CPROVER_requires(log == &g_log && log->priv == &g_lp && INV(log->medium))
__CPROVER_assigns(log->medium, g_lp, g, g_errno)
__CPROVER_ensures(INV(log->medium))
__CPROVER_ensures(RET == (medium == LOG_MEDIUM_EVENTLOG ? -ENOTSUP : medium == LOG_MEDIUM_FILE && g.failed ? -g_errno : 0))
__CPROVER_ensures(log->medium == (RET == 0 ? medium : __CPROVER_old(log->medium)))
__CPROVER_ensures(RET != 0 ==> g.open[0] == __CPROVER_old(g.open[0]) && g.open[1] == 0 && g.syslog == __CPROVER_old(g.syslog))
__CPROVER_ensures(RET == 0 && medium == LOG_MEDIUM_FILE ==> g.open[1] == 1);

int log_open(struct log_handle *log)
__CPROVER_requires(log == &g_log && log->priv == &g_lp && INV(log->medium))
__CPROVER_assigns(log->medium, g_lp, g, g_errno)
__CPROVER_ensures(RET == 0 && INV(log->medium))
__CPROVER_ensures(log->medium == (__CPROVER_old(log->medium) == LOG_MEDIUM_NONE ? LOG_MEDIUM_STDOUT : __CPROVER_old(log->medium)));

int log_init(struct log_handle *log)
__CPROVER_requires(log == &g_log && (log->priv == NULL || log->priv == &g_lp))
__CPROVER_assigns(*log, g_lp, g)
__CPROVER_ensures(RET == (g.failed ? -ENOMEM : 0))
__CPROVER_ensures(RET == 0 ==> log->priv == &g_lp && log->medium == LOG_MEDIUM_NONE && log->level == LOG_LEVEL_INFO && INV(LOG_MEDIUM_NONE) && g.mem == 1)
__CPROVER_ensures(RET != 0 ==> log->priv == NULL && g.mem == 0);

void log_free(struct log_handle *log)
__CPROVER_requires(log == &g_log && (log->priv == NULL || (log->priv == &g_lp && INV(log->medium))))
__CPROVER_assigns(*log, g_lp, g)
__CPROVER_ensures(log->priv == NULL && g.mem == 0 && g.open[0] == 0 && g.open[1] == 0 && g.syslog == 0);

void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s >= sizeof(g_lp) && g.mem == 0, "one block is allocated");
	if (nondet_bool()) {
		g.failed = 1;
		return NULL;
	}
	g.mem = 1;
	memset(&g_lp, 0, sizeof(g_lp));
	return &g_lp;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == &g_lp && g.mem == 1, "the block is released once");
	g.mem = 0;
}
static void start(void)
{
	int m = nondet_int();
	FV_ASSUME(INV_MEDIUM(m));
	g = (struct fv_g){ 0 };
	g_log.priv = &g_lp;
	g_log.level = nondet_uint();
	g_log.medium = (uint32_t)m;
	g.mem = 1;
	g_lp.medium_eventlog.handle = NULL;
	g_lp.medium_file.fp = NULL;
	if (m == LOG_MEDIUM_FILE) {
		g.open[0] = 1;
		g_lp.medium_file.fp = F(0);
	}
	g.syslog = m == LOG_MEDIUM_SYSLOG;
	v_medium0 = m;
}
void h_log_select_medium(void)
{
	start();
	int m = nondet_int();
	FV_ASSUME(m >= 0 && m <= LOG_MEDIUM_EVENTLOG);
	int ret = log_select_medium(&g_log, m, g_target);
	FV_CANARY_IF(ret == 0 && m == LOG_MEDIUM_FILE && v_medium0 == LOG_MEDIUM_FILE, "from file to file");
	FV_CANARY_IF(ret == 0 && m == LOG_MEDIUM_SYSLOG && v_medium0 == LOG_MEDIUM_FILE, "from file to syslog");
	FV_CANARY_IF(ret != 0 && m == LOG_MEDIUM_FILE && v_medium0 == LOG_MEDIUM_SYSLOG, "no file");
}
void h_log_close(void)
{
	start();
	log_close(&g_log);
	FV_CANARY_IF(v_medium0 == LOG_MEDIUM_FILE, "from a file");
}
void h_log_open(void)
{
	start();
	log_open(&g_log);
	FV_CANARY_IF(v_medium0 == LOG_MEDIUM_FILE, "already open");
	FV_CANARY_IF(v_medium0 == LOG_MEDIUM_NONE, "opened");
}
void h_log_init(void)
{
	start();
	g.open[0] = g.syslog = 0;
	g_lp.medium_file.fp = NULL;
	if (nondet_bool()) {
		g_log.priv = NULL;
		g.mem = 0;
	}
	int ret = log_init(&g_log);
	FV_CANARY_IF(ret == 0, "done");
	FV_CANARY_IF(ret != 0, "no memory");
}
void h_log_free(void)
{
	start();
	if (v_medium0 == LOG_MEDIUM_NONE && nondet_bool()) {
		g_log.priv = NULL;
		g.mem = 0;
	}
	log_free(&g_log);
	FV_CANARY_IF(v_medium0 == LOG_MEDIUM_SYSLOG, "from syslog");
	FV_CANARY_IF(v_medium0 == LOG_MEDIUM_FILE, "from a file");
}
void fv_vout(FILE *f, const char *fmt) { FV_ASSERT(0, "no message is written"); }
void fv_prefix(FILE *f) { FV_ASSERT(0, "no message is written"); }
void fv_vsyslog(int l, const char *fmt) { FV_ASSERT(0, "no message is written"); }
int fv_fflush(FILE *f) { return 0; }
size_t fv_strftime(char *b, size_t n) { return 0; }
#else
void *fv_calloc(size_t n, size_t s) { FV_ASSERT(0, "nothing is allocated"); return NULL; }
void fv_free(void *p) { FV_ASSERT(0, "nothing is released"); }
void fv_vout(FILE *f, const char *fmt)
{
	FV_ASSERT(fmt == g_fmt, "the message is written");
	FV_ASSERT(g.out == 0, "once");
	g.out++;
	g.out_to = f;
	g.out_flushed = 0;
}
void fv_prefix(FILE *f)
{
	FV_ASSERT(f == F(0) && g.open[0] == 1 && g.out == 0, "the time is written in front of the message in the file");
	g.prefix++;
}
int fv_fflush(FILE *f)
{
	if (g.out && f == g.out_to)
		g.out_flushed = 1;
	return 0;
}
void fv_vsyslog(int l, const char *fmt)
{
	FV_ASSERT(fmt == g_fmt && g.sys == 0, "the message is sent to syslog once");
	g.sys++;
	g.sys_level = l;
}
size_t fv_strftime(char *b, size_t n)
{
	FV_ASSERT(__CPROVER_w_ok(b, n) && n >= 16, "the time fits");
	b[0] = 0;
	return 0;
}
static void start(void)
{
	int m = nondet_int();
	FV_ASSUME(INV_MEDIUM(m));
	g = (struct fv_g){ 0 };
	g_log.priv = &g_lp;
	g_log.level = nondet_uint();
	g_log.medium = (uint32_t)m;
	g_lp.medium_eventlog.handle = NULL;
	g_lp.medium_file.fp = NULL;
	if (m == LOG_MEDIUM_FILE) {
		g.open[0] = 1;
		g_lp.medium_file.fp = F(0);
	}
	g.syslog = m == LOG_MEDIUM_SYSLOG;
}
static void written(int m, uint32_t level, int lev)
{
	int on = (uint32_t)lev <= level;
	FV_ASSERT(g.out == (on && (m == LOG_MEDIUM_STDOUT || m == LOG_MEDIUM_FILE)), "the message is written if it is enabled");
	FV_ASSERT(g.sys == (on && m == LOG_MEDIUM_SYSLOG), "the message is sent to syslog if that is selected");
	FV_ASSERT(!g.out || (m == LOG_MEDIUM_FILE ? g.out_to == F(0) : g.out_to == stdout || g.out_to == stderr), "to the medium selected");
	FV_ASSERT(!g.out || g.out_flushed, "and completely");
	FV_ASSERT(!g.sys || g.sys_level == (lev == 0 ? LOG_CRIT : lev == 1 ? LOG_ERR : lev == 2 ? LOG_WARNING : lev == 3 ? LOG_INFO : LOG_DEBUG), "with its level");
	FV_ASSERT(g.prefix == 0 || (on && m == LOG_MEDIUM_FILE), "nothing else is written");
	FV_ASSERT(g_log.medium == (uint32_t)m && g_log.level == level && INV(m), "writing changes nothing");
	FV_CANARY_IF(on && m == LOG_MEDIUM_FILE, "to the file");
	FV_CANARY_IF(on && m == LOG_MEDIUM_SYSLOG && lev == 4, "to syslog");
	FV_CANARY_IF(!on && m == LOG_MEDIUM_STDOUT, "not enabled");
}
static void call_vprintf(int lev, const char *fmt, ...)
{
	va_list a;
	va_start(a, fmt);
	log_vprintf(&g_log, lev, fmt, a);
	va_end(a);
}
void h_log_vprintf(void)
{
	int lev = nondet_int();
	FV_ASSUME(lev >= 0 && lev <= LOG_LEVEL_DEBUG);
	start();
	int m = (int)g_log.medium;
	uint32_t level = g_log.level;
	call_vprintf(lev, g_fmt, 1, "x");
	written(m, level, lev);
}
void h_log_printf(void)
{
	int lev = nondet_int();
	FV_ASSUME(lev >= 0 && lev <= LOG_LEVEL_DEBUG);
	start();
	int m = (int)g_log.medium;
	uint32_t level = g_log.level;
	log_printf(&g_log, lev, g_fmt, 1, "x");
	written(m, level, lev);
}
#endif
