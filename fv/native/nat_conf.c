/* conf_parse_file on generated files, against a parser written from the
 * property's text; every block is tracked. */
#include "nat.h"
#include <ctype.h>
#include "openelp/openelp.h"
#include "conf.h"
#include "log.h"

#ifndef NAT_SEL
#define NAT_SEL 3		/* 1: C01, 2: C02 */
#endif
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t s);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
static int tracking, fail_at, calls, live, failed_one;
static void *mine[70000];
static int nmine;
static int fails(void)
{
	if (!tracking)
		return 0;
	if (++calls == fail_at) {
		errno = ENOMEM;
		failed_one = 1;
		return 1;
	}
	return 0;
}
static void *add(void *p)
{
	if (tracking && p) {
		mine[nmine++ % 70000] = p;
		live++;
	}
	return p;
}
static int drop(void *p)
{
	int i;
	for (i = (nmine < 70000 ? nmine : 70000) - 1; p && i >= 0; i--)
		if (mine[i] == p) {
			mine[i] = NULL;
			live--;
			return 1;
		}
	return 0;
}
void *__wrap_malloc(size_t n) { return fails() ? NULL : add(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t s) { return fails() ? NULL : add(__real_calloc(n, s)); }
void *__wrap_realloc(void *p, size_t n)
{
	void *q;
	if (fails())
		return NULL;
	q = __real_realloc(p, n);
	if (tracking && q) {
		drop(p);
		add(q);
	}
	return q;
}
void __wrap_free(void *p)
{
	drop(p);
	__real_free(p);
}

/* ---------------------------------------------------------------- expected */
static const char *NAMES[] = { "BindAddress", "ExternalBindAddress", "CallsignsAllowed", "CallsignsDenied", "RegistrationName", "RegistrationComment", "PublicAddress",
	"Password", "Port", "ConnectionTimeout", "AdditionalExternalBindAddresses" };
enum { PASSWORD = 7, PORT, TIMEOUT, LIST, NAMED };
struct want { char *text[8]; int list_n; char **list; unsigned port; uint32_t timeout; };
static struct want w;
static int w_ret;
static char *dup_n(const char *s, size_t n)
{
	char *p = __real_malloc(n + 1);
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
static int blank(char c) { return c == ' ' || c == '\t'; }
static int blank_nl(char c) { return blank(c) || c == '\n' || c == '\r'; }
static int number(const char *v, size_t n, uint64_t max, uint64_t *out)
{
	uint64_t x = 0;
	size_t i;
	if (n == 0)
		return 0;
	for (i = 0; i < n; i++) {
		if (v[i] < '0' || v[i] > '9')
			return 0;
		x = x * 10 + (uint64_t)(v[i] - '0');
		if (x > max)
			return 0;
	}
	*out = x;
	return 1;
}
/* one line, without what follows an embedded NUL */
static int expect_line(const char *l, size_t n)
{
	size_t ks = 0, ke, vs, ve, e;
	int f;
	uint64_t x;
	n = strnlen(l, n);
	while (ks < n && blank_nl(l[ks]))
		ks++;
	if (ks == n || l[ks] == '#' || l[ks] == '=')
		return 0;
	for (e = ks; e < n && l[e] != '='; e++)
		;
	if (e == n)
		return 0;
	for (ke = e; ke > ks && blank(l[ke - 1]); ke--)
		;
	for (vs = e + 1; vs < n && blank(l[vs]); vs++)
		;
	for (ve = n; ve > vs && blank_nl(l[ve - 1]); ve--)
		;
	for (f = 0; f < NAMED; f++)
		if (strlen(NAMES[f]) == ke - ks && memcmp(NAMES[f], l + ks, ke - ks) == 0)
			break;
	l += vs;
	n = ve - vs;
	if (f == NAMED)
		return 0;
	if (f == PORT || f == TIMEOUT) {
		if (!number(l, n, f == PORT ? 65535 : 4294967295u, &x))
			return -EINVAL;
		if (f == PORT)
			w.port = (unsigned)x;
		else
			w.timeout = (uint32_t)x;
	} else if (f == LIST) {
		size_t i, c = 1, s = 0;
		w.list = NULL;
		w.list_n = 0;
		if (n == 0)
			return 0;
		for (i = 0; i < n; i++)
			c += l[i] == ',';
		if (c > 65535)
			return -EINVAL;
		w.list = __real_malloc(c * sizeof(char *));
		for (i = 0; i <= n; i++)
			if (i == n || l[i] == ',') {
				w.list[w.list_n++] = dup_n(l + s, i - s);
				s = i + 1;
			}
	} else {
		w.text[f] = n || f == PASSWORD ? dup_n(l, n) : NULL;
		if (f == PASSWORD && n == 6 && memcmp(l, "notset", 6) == 0) {
			w.text[f] = NULL;
			return -EINVAL;
		}
	}
	return 0;
}

/* -------------------------------------------------------------- generation */
static char *t;
static size_t tn, tcap;
static void put(const char *s, size_t n)
{
	if (tn + n + 1 > tcap) {
		tcap = (tn + n + 1) * 2;
		t = __real_realloc(t, tcap);
	}
	memcpy(t + tn, s, n);
	tn += n;
	t[tn] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void blanks(int nl)
{
	unsigned n = nat_p(50) ? 0 : nat_rnd(4);
	while (n--)
		put(nl && nat_p(20) ? "\r" : nat_p(50) ? " " : "\t", 1);
}
static void word(unsigned n)
{
	while (n--)
		put(&"abcXYZ019.-_/%^$#=,;: \t"[nat_rnd(23)], 1);
}
static void gen_line(void)
{
	unsigned f, i;
	blanks(1);
	if (nat_p(8)) {
		puts_(nat_p(50) ? "#" : nat_p(50) ? "=" : "");
		word(nat_rnd(20));
		return;
	}
	f = nat_p(25) ? nat_p(50) ? LIST : PASSWORD : nat_p(30) ? nat_p(50) ? PORT : TIMEOUT : nat_rnd(NAMED);
	if (nat_p(12)) {	/* almost a name */
		char k[40];
		strcpy(k, NAMES[f]);
		switch (nat_rnd(5)) {
		case 0: k[nat_rnd((unsigned)strlen(k))] ^= 0x20; break;
		case 1: k[strlen(k) - 1] = 0; break;
		case 2: strcat(k, "s"); break;
		case 3: k[nat_rnd((unsigned)strlen(k))] = 'q'; break;
		default: strcpy(k, k + 1);
		}
		puts_(k);
	} else {
		puts_(NAMES[f]);
	}
	blanks(0);
	if (nat_p(96))
		puts_("=");
	blanks(0);
	if (f == PORT || f == TIMEOUT) {
		char b[40];
		if (nat_p(90))
			sprintf(b, "%llu", (unsigned long long)(f == PORT ? (nat_p(80) ? nat_rnd(65536) : 65520 + nat_rnd(32)) : (nat_p(80) ? nat_rnd(1u << 31) : 4294967290ull + nat_rnd(6))));
		else
			strcpy(b, nat_p(20) ? "" : nat_p(20) ? "00000000000000000000080" : nat_p(20) ? "18446744073709551616" : nat_p(30) ? "4294967376" : nat_p(30) ? "-1" : nat_p(30) ? "+5" : nat_p(30) ? "80a" : "65536");
		puts_(b);
	} else if (f == LIST) {
		unsigned n = nat_p(3) ? 65530 + nat_rnd(10) : nat_p(20) ? nat_rnd(300) : nat_rnd(6);
		for (i = 0; i < n; i++) {
			char b[20];
			if (n > 1000 ? nat_p(1) : nat_p(70)) {
				sprintf(b, "%u.%u", nat_rnd(256), nat_rnd(2560));
				if (nat_p(8))
					puts_(" ");
				puts_(b);
				if (nat_p(4))
					puts_("\t");
			}
			if (i + 1 < n || nat_p(20))
				puts_(",");
		}
	} else if (f == PASSWORD && nat_p(40)) {
		puts_(nat_p(20) ? "notset" : nat_p(40) ? "notset1" : nat_p(30) ? "notse" : nat_p(50) ? "Notset" : "");
	} else {
		word(nat_p(15) ? 0 : nat_p(85) ? nat_rnd(30) : 100 + nat_rnd(500));
	}
	if (nat_p(3)) {
		put("\0", 1);
		word(nat_rnd(10));
	}
	blanks(1);
}

static void scenario(unsigned long index)
{
	static struct log_handle log;
	struct proxy_conf c;
	char path[64];
	FILE *f;
	size_t s, e;
	int r, i, nl, n, fds;
	memset(&w, 0, sizeof(w));
	nmine = live = calls = failed_one = 0;
	tn = 0;
	put("", 0);
	n = (int)nat_rnd(nat_p(80) ? 6 : 30);
	for (i = 0; i < n; i++) {
		if (nat_p(5)) {		/* a line around the size of the buffer */
			size_t b = tn, want_n = 124 + nat_rnd(8) + 128 * nat_rnd(3);
			puts_(NAMES[nat_rnd(8)]);
			puts_("=");
			while (tn - b < want_n)
				put(&"abcdefg"[nat_rnd(7)], 1);
		} else
			gen_line();
		if (i + 1 < n || nat_p(60))
			puts_("\n");
	}
	snprintf(path, sizeof(path), "nc-%d", (int)getpid());
	f = fopen(path, "wb");
	fwrite(t, 1, tn, f);
	fclose(f);
	memset(&c, 0, sizeof(c));
	memset(&log, 0, sizeof(log));
	conf_init(&c);
	w.port = 8100;
	w_ret = 0;
	for (s = 0, nl = 0; s < tn && w_ret == 0; s = e, nl++) {
		for (e = s; e < tn && t[e] != '\n'; e++)
			;
		if (e < tn)
			e++;
		w_ret = expect_line(t + s, e - s);
	}
	nat_note("a file of %u bytes:\n%.4000s\n", (unsigned)tn, t);
	fail_at = (NAT_SEL & 2) && nat_p(35) ? 2 + (int)nat_rnd(nat_p(70) ? 12 : 80) : 0;
	if (fail_at)
		nat_note("allocation %d fails\n", fail_at);
	for (i = 0, fds = 0; i < 64; i++)
		fds += fcntl(i, F_GETFD) >= 0;
	tracking = 1;
	r = conf_parse_file(path, &c, &log);
	tracking = 0;
	unlink(path);
	for (i = 0; i < 64; i++)
		fds -= fcntl(i, F_GETFD) >= 0;
	CHECK(!(NAT_SEL & 2) || fds == 0, "the file is left open");
	if (!failed_one && (NAT_SEL & 1)) {
		char *got[] = { c.bind_addr, c.bind_addr_ext, c.calls_allowed, c.calls_denied, c.reg_name, c.reg_comment, c.public_addr, c.password };
		CHECK(r == w_ret, "returns %d instead of %d (line %d)", r, w_ret, nl);
		for (i = 0; i < 8; i++)
			CHECK(!got[i] == !w.text[i] && (!got[i] || strcmp(got[i], w.text[i]) == 0), "%s is '%.60s' instead of '%.60s'", NAMES[i],
			      got[i] ? got[i] : "(none)", w.text[i] ? w.text[i] : "(none)");
		CHECK(c.port == w.port, "the port is %u instead of %u", c.port, w.port);
		CHECK(c.connection_timeout == w.timeout, "the timeout is %u instead of %u", c.connection_timeout, w.timeout);
		CHECK(c.bind_addr_ext_add_len == w.list_n, "the list has %d elements instead of %d", c.bind_addr_ext_add_len, w.list_n);
		for (i = 0; i < w.list_n; i++)
			CHECK(strcmp(c.bind_addr_ext_add[i], w.list[i]) == 0, "element %d is '%.60s' instead of '%.60s'", i, c.bind_addr_ext_add[i], w.list[i]);
	}
	if (NAT_SEL & 2) {
		if (failed_one && fail_at > 1)
			CHECK(r == -ENOMEM || r == w_ret, "returns %d without memory", r);
		for (i = 0; i < c.bind_addr_ext_add_len; i++)
			CHECK(c.bind_addr_ext_add && c.bind_addr_ext_add[i] && strlen(c.bind_addr_ext_add[i]) < 100000, "the list does not match its length");
		CHECK(c.bind_addr_ext_add_len > 0 || c.bind_addr_ext_add == NULL, "a list of no elements");
	}
	tracking = 1;
	fail_at = 0;
	conf_free(&c);
	tracking = 0;
	if (NAT_SEL & 2) {
		CHECK(live == 0, "%d blocks are not released", live);
		CHECK(!c.password && !c.bind_addr && !c.bind_addr_ext_add && !c.reg_name, "conf_free leaves a text behind");
	}
	if (t)
		t[0] = 0;
}
NAT_MAIN
