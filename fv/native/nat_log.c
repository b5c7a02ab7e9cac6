/* Sequences of medium selections, levels and messages on the real log code;
 * stdout, stderr and the log files are memory files, syslog is recorded. */
#define _GNU_SOURCE
#include "nat.h"
#include <syslog.h>
#include "openelp/openelp.h"
#include "log.h"

#define NF 5			/* stdout, stderr, three files */
static int fd[NF];
static char *seen[NF];
static size_t len[NF];
static int sys_open, sys_n, sys_level;
static char sys_text[20000];
void __wrap_openlog(const char *i, int o, int f)
{
	(void)i; (void)o; (void)f;
	sys_open++;
}
void __wrap_closelog(void)
{
	CHECK(sys_open > 0, "syslog is closed but was not open");
	sys_open = 0;
}
void __wrap_vsyslog(int l, const char *f, va_list a)
{
	sys_n++;
	sys_level = l & 7;
	vsnprintf(sys_text, sizeof(sys_text), f, a);
}
void __wrap_syslog(int l, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	__wrap_vsyslog(l, f, a);
	va_end(a);
}
static int open_fds(void)
{
	int i, n = 0;
	for (i = 0; i < 256; i++)
		n += fcntl(i, F_GETFD) >= 0;
	return n;
}
/* what has been added to file i since the last look; earlier text is kept */
static char *look(int i, size_t *n)
{
	off_t size;
	char *p;
	size = lseek(fd[i], 0, SEEK_END);
	p = malloc((size_t)size + 1);
	CHECK(pread(fd[i], p, (size_t)size, 0) == size, "harness: read");
	p[size] = 0;
	CHECK((size_t)size >= len[i] && memcmp(p, seen[i], len[i]) == 0, "text written earlier is gone");
	*n = (size_t)size - len[i];
	free(seen[i]);
	seen[i] = p;
	len[i] = (size_t)size;
	return p + size - *n;
}
static struct log_handle lh;
static int medium, file, base;
static void state(const char *after)
{
	CHECK((int)lh.medium == medium, "%s: medium %u is selected, not %d", after, lh.medium, medium);
	CHECK(sys_open == (medium == LOG_MEDIUM_SYSLOG), "%s: syslog is %sopen with medium %d", after, sys_open ? "" : "not ", medium);
	CHECK(open_fds() == base + (medium == LOG_MEDIUM_FILE), "%s: %d more files are open than before, medium %d", after, open_fds() - base, medium);
}
static void msg_v(int lev, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	log_vprintf(&lh, lev, f, a);
	va_end(a);
}
static void message(unsigned id)
{
	static const int want[] = { LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_INFO, LOG_DEBUG };
	static char text[9000], full[9100];
	int lev = (int)nat_rnd(5), kind = (int)nat_rnd(4), i, on = (unsigned)lev <= lh.level, found = 0;
	size_t n = nat_p(20) ? nat_rnd(8000) : nat_p(30) ? 250 + nat_rnd(20) : nat_rnd(60), k;
	for (k = 0; k < n; k++)
		text[k] = (char)(nat_p(5) ? '%' : nat_p(3) ? 's' : 33 + nat_rnd(94));
	text[n] = 0;
	sys_n = 0;
	nat_note("message %u level %d (enabled to %u) length %lu kind %d\n", id, lev, lh.level, (unsigned long)n, kind);
	if (kind == 0)
		snprintf(full, sizeof(full), "plain\n"), log_printf(&lh, lev, "plain\n");
	else if (kind == 1)
		snprintf(full, sizeof(full), "<%u>%s\n", id, text), log_printf(&lh, lev, "<%u>%s\n", id, text);
	else if (kind == 2)
		snprintf(full, sizeof(full), "<%u>%s%d%%\n", id, text, lev), msg_v(lev, "<%u>%s%d%%\n", id, text, lev);
	else
		snprintf(full, sizeof(full), "%s", text), log_printf(&lh, lev, "%s", text);
	for (i = 0; i < NF; i++) {
		size_t m;
		char *p = look(i, &m);
		int here = on && (medium == LOG_MEDIUM_STDOUT ? i < 2 : medium == LOG_MEDIUM_FILE && i == 2 + file);
		CHECK(here || m == 0, "text is written to %s, which is not selected or not enabled: %.60s", i < 2 ? "the console" : "a file", p);
		if (!here || m == 0)
			continue;
		CHECK(m >= strlen(full) && strcmp(p + m - strlen(full), full) == 0, "the message is not written completely: %.60s...", p);
		m -= strlen(full);
		CHECK(m <= (medium == LOG_MEDIUM_FILE ? 40u : 0u) && memchr(p, '\n', m) == NULL, "something else is written: %.60s", p);
		found++;
	}
	if (*full || medium == LOG_MEDIUM_FILE)
		CHECK(found == (on && (medium == LOG_MEDIUM_STDOUT || medium == LOG_MEDIUM_FILE)), "level %d of %u, medium %d: the message is written %d times", lev, lh.level, medium, found);
	CHECK(sys_n == (on && medium == LOG_MEDIUM_SYSLOG), "level %d of %u, medium %d: the message is sent to syslog %d times", lev, lh.level, medium, sys_n);
	if (sys_n) {
		CHECK(strcmp(sys_text, full) == 0, "syslog gets another message: %.60s", sys_text);
		CHECK(sys_level == want[lev], "level %d is sent as %d", lev, sys_level);
	}
	state("after a message");
}
static void scenario(unsigned long index)
{
	int i, steps = 3 + (int)nat_rnd(12);
	char path[64];
	(void)index;
	for (i = 0; i < NF; i++) {
		if (fd[i] == 0)
			fd[i] = fcntl(memfd_create("log", 0), F_DUPFD, 40);
		CHECK(ftruncate(fd[i], 0) == 0 && fd[i] > 0, "harness: memory file");
		free(seen[i]);
		seen[i] = calloc(1, 1);
		len[i] = 0;
	}
	dup2(fd[0], 1);
	dup2(fd[1], 2);
	fcntl(1, F_SETFL, O_APPEND);
	fcntl(2, F_SETFL, O_APPEND);
	base = open_fds();
	memset(&lh, 0, sizeof(lh));
	sys_open = 0;
	medium = LOG_MEDIUM_NONE;
	CHECK(log_init(&lh) == 0, "log_init fails");
	CHECK(lh.level == LOG_LEVEL_INFO, "level %u at first", lh.level);
	state("log_init");
	for (i = 0; i < steps; i++) {
		int r, act = (int)nat_rnd(10), bad;
		if (act < 4) {
			int m = (int)nat_rnd(5), f = (int)nat_rnd(3);
			bad = m == LOG_MEDIUM_EVENTLOG || (m == LOG_MEDIUM_FILE && nat_p(25));
			snprintf(path, sizeof(path), bad ? "/proc/self/fd/%d/none" : "/proc/self/fd/%d", fd[2 + f]);
			nat_note("select %d %s\n", m, m == LOG_MEDIUM_FILE ? path : "");
			r = log_select_medium(&lh, m, m == LOG_MEDIUM_FILE ? path : NULL);
			CHECK(bad ? r < 0 : r == 0, "selecting medium %d returns %d", m, r);
			CHECK(!(bad && m == LOG_MEDIUM_FILE) || r == -ENOTDIR, "a file that cannot be opened: %d", r);
			if (!bad) {
				medium = m;
				file = f;
			}
			state("select");
		} else if (act == 4) {
			nat_note("close\n");
			log_close(&lh);
			medium = LOG_MEDIUM_NONE;
			state("close");
		} else if (act == 5) {
			nat_note("open\n");
			CHECK(log_open(&lh) == 0, "log_open fails");
			if (medium == LOG_MEDIUM_NONE)
				medium = LOG_MEDIUM_STDOUT;
			state("open");
		} else if (act == 6) {
			lh.level = nat_rnd(5);
		} else {
			message((unsigned)i);
		}
	}
	log_free(&lh);
	CHECK(lh.priv == NULL, "log_free leaves its data");
	CHECK(sys_open == 0 && open_fds() == base, "%d files and %d connections to syslog are open in the end", open_fds() - base, sys_open);
	log_free(&lh);
}
NAT_MAIN
