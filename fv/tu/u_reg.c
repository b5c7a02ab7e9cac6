/* Contracts on registration.c.
 *
 * Texts of any length are represented by what they consist of: single
 * characters, the configured texts as a whole, numbers, the digest.  Printing
 * into a buffer appends such items; each is compared with the text that is
 * expected there, and its length is added to the exact length of the text,
 * which has to stay inside the buffer. */
#include <stdio.h>
#include "openelp/openelp.h"
#include "digest.h"
#include "conn.h"
#include "mutex.h"
#include "registration.h"
#include "worker.h"

#ifdef FV_TEXT
#define FV_N(...) FV_N_(__VA_ARGS__, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define FV_N_(a, b, c, d, e, f, g, h, i, n, ...) n
#define FV_CAT(a, b) FV_CAT_(a, b)
#define FV_CAT_(a, b) a##b
/* every argument is passed as a text and as a number, one of which applies */
#define P(x) _Generic((x) + 0, char *: (x), const char *: (x), default: (const char *)0)
#define V(x) _Generic((x) + 0, char *: 0l, const char *: 0l, default: (long)(x))
#define fv_sp1(d, f) fv_print(d, f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
#define fv_sp2(d, f, a) fv_print(d, f, P(a), V(a), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
#define fv_sp3(d, f, a, b) fv_print(d, f, P(a), V(a), P(b), V(b), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
#define fv_sp4(d, f, a, b, c) fv_print(d, f, P(a), V(a), P(b), V(b), P(c), V(c), 0, 0, 0, 0, 0, 0, 0, 0)
#define fv_sp5(d, f, a, b, c, e) fv_print(d, f, P(a), V(a), P(b), V(b), P(c), V(c), P(e), V(e), 0, 0, 0, 0, 0, 0)
#define fv_sp6(d, f, a, b, c, e, h) fv_print(d, f, P(a), V(a), P(b), V(b), P(c), V(c), P(e), V(e), P(h), V(h), 0, 0, 0, 0)
#define fv_sp7(d, f, a, b, c, e, h, i) fv_print(d, f, P(a), V(a), P(b), V(b), P(c), V(c), P(e), V(e), P(h), V(h), P(i), V(i), 0, 0)
#define fv_sp8(d, f, a, b, c, e, h, i, j) fv_print(d, f, P(a), V(a), P(b), V(b), P(c), V(c), P(e), V(e), P(h), V(h), P(i), V(i), P(j), V(j))
#define sprintf(d, ...) FV_CAT(fv_sp, FV_N(__VA_ARGS__))(d, __VA_ARGS__)
#define FV_ARGS const char *a0, long v0, const char *a1, long v1, const char *a2, long v2, const char *a3, long v3, const char *a4, long v4, const char *a5, long v5, const char *a6, long v6
int fv_print(char *d, const char *f, FV_ARGS);
#define strlen fv_strlen
#define strcmp fv_strcmp
#define strncmp fv_strncmp
#define malloc fv_malloc
#define free fv_free
size_t fv_strlen(const char *s);
int fv_strcmp(const char *a, const char *b);
int fv_strncmp(const char *a, const char *b, size_t n);
void *fv_malloc(size_t n);
#endif
#ifdef FV_LIFE
#define free fv_free
#endif
#define calloc fv_calloc
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#include "fv_loop_defaults.h"
#include "registration.c"
#undef calloc
#undef malloc
#undef free

struct registration_service_handle g_rs;
struct registration_service_priv g_rp;
struct proxy_conf g_conf;
#define RET __CPROVER_return_value
static int fv_err(void)
{
	int r = nondet_int();
	FV_ASSUME(r < 0 && r > -4096);
	return r;
}
struct fv_reg {
	int held, writes_ok;
	int connected, init, sent, answered, fail, freed_conn;
	int match;
	int mem, mem_used, started, woken, start_fail, wake_fail, joined, join_ret;
	int digests, old_freed;
	int mx, wk, suffix, own;
	/* the text being printed */
	int n[3], phase;
	size_t len[3];
	int reports;
	int wake_ret;
} g;
struct fv_in { int status; size_t used, total; } in;

#ifdef FV_TEXT
char tok[8];		/* stand-ins for texts of any length */
#define T_NAME (&tok[0])
#define T_COMMENT (&tok[1])
#define T_SUFFIX (&tok[2])
#define T_ADDR (&tok[3])
#define T_DIGEST (&tok[4])
#define T_PASS (&tok[5])
size_t l_name, l_comment, l_suffix, l_addr;
char *g_mem;		/* the allocated buffer */
size_t g_mem_n;
char *g_head;		/* the header buffer */
struct conn_handle *g_cn;
enum { I_CHAR = 1, I_TEXT, I_NUM };
struct item { int kind; const char *s; long v; };
#define MAXI 70
/* [0] and [1]: body, digest input or suffix; [2]: header */
struct item E[3][MAXI];
int e_n[3];

static void lit(int t, const char *s)
{
	int i;
	for (i = 0; s[i] != 0; i++) {
		E[t][e_n[t]].kind = I_CHAR;
		E[t][e_n[t]++].v = s[i];
	}
}
static void put(int t, const char *s) { E[t][e_n[t]].kind = I_TEXT; E[t][e_n[t]++].s = s; }
static void num(int t, int kind, long v) { E[t][e_n[t]].kind = kind; E[t][e_n[t]++].v = v; }

static size_t digits(unsigned long v)
{
	return 1 + (v >= 10ul) + (v >= 100ul) + (v >= 1000ul) + (v >= 10000ul) + (v >= 100000ul) + (v >= 1000000ul) + (v >= 10000000ul) + (v >= 100000000ul) +
		(v >= 1000000000ul) + (v >= 10000000000ul) + (v >= 100000000000ul) + (v >= 1000000000000ul) + (v >= 10000000000000ul) + (v >= 100000000000000ul) +
		(v >= 1000000000000000ul) + (v >= 10000000000000000ul) + (v >= 100000000000000000ul) + (v >= 1000000000000000000ul) + (v >= 10000000000000000000ul);
}
static int is_tok(const void *p) { return p == T_NAME || p == T_COMMENT || p == T_SUFFIX || p == T_ADDR || p == T_DIGEST; }
size_t fv_strlen(const char *s)
{
	if (s == T_NAME) return l_name;
	if (s == T_COMMENT) return l_comment;
	if (s == T_SUFFIX) return l_suffix;
	if (s == T_ADDR) return l_addr;
	FV_ASSERT(s != NULL && s[0] == 0, "length of a configured text, or of no text");
	return 0;
}
static void item(int t, int kind, const char *s, long v, size_t l)
{
	FV_ASSERT(g.n[t] < e_n[t], "nothing but the expected text is printed");
	if (g.n[t] < e_n[t]) {
		struct item *e = &E[t][g.n[t]];
		FV_ASSERT(e->kind == kind, "the expected kind of text is printed");
		if (kind == I_TEXT)
			FV_ASSERT(e->s == s, "the expected text is printed");
		else if (t == 2 && kind == I_NUM)
			FV_ASSERT(v == (long)g.len[g.phase] && g.n[g.phase] == e_n[g.phase], "the announced length is that of the body");
		else
			FV_ASSERT(kind == I_CHAR ? (char)e->v == (char)v : e->v == v, "the expected text is printed");
	}
	g.n[t]++;
	g.len[t] += l;
}
static void text(int t, const char *s)
{
	int i;
	if (is_tok(s)) {
		item(t, I_TEXT, s, 0, fv_strlen(s));
		return;
	}
	if (s == http_message) {
		item(t, I_TEXT, s, 0, sizeof(http_message) - 1);
		return;
	}
	FV_ASSERT(s != NULL, "a text is printed");
	for (i = 0; s[i] != 0; i++)
		item(t, I_CHAR, NULL, s[i], 1);
}
int fv_print(char *d, const char *f, FV_ARGS)
{
	const char *a[7];
	long v[7];
	int i, k = 0, t;
	size_t off = __CPROVER_POINTER_OFFSET(d), before;
	a[0] = a0; a[1] = a1; a[2] = a2; a[3] = a3; a[4] = a4; a[5] = a5; a[6] = a6;
	v[0] = v0; v[1] = v1; v[2] = v2; v[3] = v3; v[4] = v4; v[5] = v5; v[6] = v6;
	if (g.mem && __CPROVER_same_object(d, g_mem))
		t = g.phase;
	else {
		t = 2;
		if (g.n[2] == 0)
			g_head = d;
		FV_ASSERT(__CPROVER_same_object(d, g_head), "text is printed into one of the buffers");
	}
	FV_ASSERT(off == g.len[t], "text is appended to what has been printed");
	before = g.len[t];
	for (i = 0; f[i] != 0; i++) {
		if (f[i] != '%') {
			item(t, I_CHAR, NULL, f[i], 1);
			continue;
		}
		i++;
		if (f[i] == 'l' || f[i] == 'z')
			i++;
		FV_ASSERT(f[i] == 's' || f[i] == 'c' || f[i] == 'd' || f[i] == 'u' || f[i] == 'i', "a conversion without flags");
		if (f[i] == 's')
			text(t, a[k]);
		else if (f[i] == 'c')
			item(t, I_CHAR, NULL, v[k], 1);
		else {
			FV_ASSERT(f[i] == 'u' || v[k] >= 0, "numbers are not negative");
			item(t, I_NUM, NULL, v[k], digits((unsigned long)v[k]));
		}
		k++;
	}
	FV_ASSERT(g.len[t] + 1 <= __CPROVER_OBJECT_SIZE(d), "the text and its end fit into the buffer");
	return (int)(g.len[t] - before);
}
int fv_strcmp(const char *a, const char *b)
{
	FV_ASSERT(a == T_PASS && b[0] == 'P' && b[1] == 'U' && b[2] == 'B' && b[3] == 'L' && b[4] == 'I' && b[5] == 'C' && b[6] == 0, "the password is compared with PUBLIC");
	return g.match ? 0 : nondet_bool() ? 1 : -1;
}
void *fv_malloc(size_t n)
{
	FV_ASSERT(!g.mem, "one buffer is allocated");
#ifdef FV_NOMEM
	g.fail = -ENOMEM;
	return NULL;
#endif
	g_mem = __CPROVER_allocate(n, 0);
	g_mem_n = n;
	g.mem = 1;
	return g_mem;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	if (p == (void *)T_SUFFIX) {
		FV_ASSERT(g.held && !g.old_freed && g.own, "the old suffix is released once");
		g.old_freed = 1;
		return;
	}
	FV_ASSERT(g.mem && p == (void *)g_mem, "only what was allocated is released, once");
	g.mem = 0;
}
#endif
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s == sizeof(struct registration_service_priv) && !g.mem, "the private data is allocated once");
	if (nondet_bool()) {
		g.fail = -ENOMEM;
		return NULL;
	}
	g.mem = 1;
	g_rp = (struct registration_service_priv){ 0 };
	return &g_rp;
}

/* ------------------------------------------------------------ environment */
int mutex_lock(struct mutex_handle *m) { FV_ASSERT(m == &g_rp.mutex && !g.held, "the lock of the service"); g.held = 1; return 0; }
int mutex_unlock(struct mutex_handle *m) { FV_ASSERT(m == &g_rp.mutex && g.held, "the lock of the service"); g.held = 0; return 0; }
int worker_start(struct worker_handle *w)
{
	FV_ASSERT(w == &g_rp.worker && !g.started, "the worker of the service is started once");
	g.started = 1;
	return g.fail = IFC_ANY(worker_start);
}
int worker_wake(struct worker_handle *w)
{
	FV_ASSERT(w == &g_rp.worker, "the worker of the service is woken");
	FV_ASSERT(g.held, "the worker is woken after the change, under the lock");
	g.woken++;
	in.status = g_rp.status;
	in.used = g_rp.slots_used;
	in.total = g_rp.slots_total;
	g.wake_ret = IFC_ANY(worker_wake);
	if (g.started)
		g.fail = g.wake_ret;
	return g.wake_ret;
}
int worker_join(struct worker_handle *w)
{
	FV_ASSERT(w == &g_rp.worker && !g.held, "the worker is joined without the lock it needs");
	FV_ASSERT(g.woken && in.status == REGISTRATION_STATUS_OFF, "the worker has been told to report that the proxy is off");
	g.joined++;
	return g.join_ret = IFC_ANY(worker_join);
}
#ifdef FV_TEXT
int conn_init(struct conn_handle *c)
{
	FV_ASSERT(c->type == CONN_TYPE_TCP && !g.init && c->priv == NULL, "a new TCP connection");
	if (nondet_bool())
		return g.fail = IFC_FAIL(conn_init);
	g_cn = c;
	g.init = 1;
	return 0;
}
static int eq(const char *a, const char *b)
{
	int i;
	for (i = 0; b[i] != 0; i++)
		if (a[i] != b[i])
			return 0;
	return a[i] == 0;
}
int conn_connect(struct conn_handle *c, const char *addr, const char *port)
{
	FV_ASSERT(c == g_cn && g.init && !g.connected, "the connection is opened once");
	FV_ASSERT(c->source_addr == NULL && c->source_port == NULL, "from any address");
	FV_ASSERT(eq(addr, "www.echolink.org") && eq(port, "80"), "to the registrar");
	if (nondet_bool())
		return g.fail = IFC_FAIL(conn_connect);
	g.connected = 1;
	return 0;
}
int conn_send(struct conn_handle *c, const uint8_t *buf, size_t n)
{
	FV_ASSERT(c == g_cn && g.connected && !g.fail, "the report is sent over the connection");
	FV_ASSERT(g.sent < 2, "one report is sent");
	if (g.sent == 0) {
		FV_ASSERT((const char *)buf == g_head && __CPROVER_POINTER_OFFSET(buf) == 0, "the header is sent first");
		FV_ASSERT(n == g.len[2] && g.n[2] == e_n[2], "the whole header is sent");
	} else {
		FV_ASSERT((const char *)buf == g_mem && g.mem, "then the body");
		FV_ASSERT(n == g.len[g.phase] && g.n[g.phase] == e_n[g.phase], "the whole body is sent");
	}
	g.sent++;
	if (nondet_bool())
		return g.fail = fv_err();
	return 0;
}
int conn_recv(struct conn_handle *c, uint8_t *buf, size_t n)
{
	FV_ASSERT(c == g_cn && g.sent == 2 && !g.fail, "the answer is read after the report");
	FV_ASSERT(n == 13 && __CPROVER_w_ok(buf, 13), "the status line of the answer fits into the buffer");
	if (nondet_bool())
		return g.fail = fv_err();
	g.answered = 1;
	return 13;
}
int fv_strncmp(const char *a, const char *b, size_t n)
{
	FV_ASSERT(g.answered && n == 13 && eq(b, "HTTP/1.1 200 "), "the answer is compared with success");
	return g.match ? 0 : nondet_bool() ? 1 : -1;
}
void conn_free(struct conn_handle *c)
{
	FV_ASSERT(!g.init || c == g_cn, "the connection is closed");
	FV_ASSERT(g.init || c->priv == NULL, "a connection that was not initialised has nothing to release");
	g.init = g.connected = 0;
}
static int send_report(struct registration_service_handle *rs, enum REGISTRATION_STATUS status, size_t used, size_t total)
__CPROVER_requires(__CPROVER_pointer_equals(rs, &g_rs) && __CPROVER_pointer_equals(g_rs.priv, (void *)&g_rp))
__CPROVER_requires(__CPROVER_pointer_equals(g_rp.reg_name, T_NAME) && __CPROVER_pointer_equals(g_rp.reg_comment, T_COMMENT) && __CPROVER_pointer_equals(g_rp.reg_suffix, T_SUFFIX))
__CPROVER_requires(l_name < 0x10000000 && l_comment < 0x10000000 && l_suffix < 0x20000100)
__CPROVER_requires((int)status == in.status && used == in.used && total == in.total)
/* more slots than that do not fit into the address space */
__CPROVER_requires(in.status >= 0 && in.status <= 3 && used < 10000000000000000000ul && total < 10000000000000000000ul)
__CPROVER_assigns(g, g_mem, g_mem_n, g_head, g_cn)
__CPROVER_ensures(!g.mem && !g.init)
__CPROVER_ensures((RET >= 0) == (in.status != 0 && !g.fail && g.sent == 2 && g.answered && g.match))
__CPROVER_ensures(g.fail ==> RET == g.fail)
__CPROVER_ensures(in.status == 0 ==> g.sent == 0)
;
/* the verifier forgets the initial values of arrays of constants (they are
 * checked in h_header) */
static void consts(void)
{
	int i;
	l_name &= 0xfffffff;
	l_comment &= 0xfffffff;
	l_addr &= 0xfffffff;
	l_suffix &= 0x1fffffff;
	for (i = 0; i < 7; i++) {
		((char *)digest_salt)[i] = "#5A!zu"[i];
		((char *)protocol_version)[i] = "1.2.3o"[i];
	}
	for (i = 0; i < 17; i++)
		((char *)http_host)[i] = "www.echolink.org"[i];
	((const char **)status_phrase)[0] = NULL;
	((const char **)status_phrase)[1] = "Ready";
	((const char **)status_phrase)[2] = "Busy";
	((const char **)status_phrase)[3] = "Off";
}
#ifndef FV_STATUS
#define FV_STATUS 1
#define FV_ONE 1
#endif
void h_send_report(void)
{
	struct registration_service_handle *rs;
	int r;
	const int t = FV_ONE ? 0 : 1;
	consts();
	g = (struct fv_reg){ 0 };
	g.match = nondet_bool();
	in.status = FV_STATUS; in.used = nondet_size_t(); in.total = nondet_size_t();
	FV_ASSUME((in.total == 1) == FV_ONE);
	g.phase = t;
	e_n[0] = e_n[1] = e_n[2] = 0;
	lit(t, "name="); put(t, T_NAME); lit(t, "&comment="); put(t, T_COMMENT);
	if (!FV_ONE) {
		lit(t, " ["); num(t, I_NUM, (long)in.used); lit(t, "/"); num(t, I_NUM, (long)in.total); lit(t, "]");
	}
	lit(t, "&public="); num(t, I_CHAR, g_rp.public); lit(t, "&status=");
	lit(t, FV_STATUS == 1 ? "Ready" : FV_STATUS == 2 ? "Busy" : "Off");
	put(t, T_SUFFIX);
	put(2, http_message); num(2, I_NUM, 0); lit(2, "\r\n\r\n");
	r = send_report(rs, FV_STATUS, in.used, in.total);
#if FV_STATUS == 0
	FV_CANARY_IF(r < 0, "status not known yet");
#else
#ifdef FV_NOMEM
	FV_CANARY_IF(r == -ENOMEM, "no memory");
#else
	FV_CANARY_IF(r >= 0, "reported");
	FV_CANARY_IF(r < 0 && g.answered, "refused");
	FV_CANARY_IF(r < 0 && g.sent == 1, "failed");
#endif
#endif
}
/* the constant part of the header */
void h_header(void)
{
	static const char *const line[] = {
		"POST /proxypost.jsp HTTP/1.1\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Host: www.echolink.org\r\n" };
	int i, j, k, hit = 0, lines = 0;
	for (i = 0; i < (int)sizeof(http_message) - 1; i++)
		if (i == 0 || http_message[i - 1] == '\n') {
			lines++;
			for (j = 0; j < 3; j++) {
				for (k = 0; line[j][k] != 0 && i + k < (int)sizeof(http_message) && http_message[i + k] == line[j][k]; k++)
					;
				if (line[j][k] == 0) {
					FV_ASSERT(j != 0 || i == 0, "the request line comes first");
					hit++;
				}
			}
			FV_ASSERT(http_message[i] != '\r' && http_message[i] != '\n', "the header does not end early");
		}
	FV_ASSERT(hit == 3 && lines >= 4, "the request names the registrar, the resource and the type of the body");
	FV_ASSERT(eq(http_message + sizeof(http_message) - 1 - 18, "\r\nContent-Length: "), "the header ends with the length");
	FV_ASSERT(eq(digest_salt, "#5A!zu") && eq(protocol_version, "1.2.3o") && eq(http_host, "www.echolink.org"), "salt, version and registrar");
	FV_ASSERT(sizeof(status_phrase) == 4 * sizeof(status_phrase[0]) && status_phrase[0] == NULL, "no phrase for the unknown status");
	FV_ASSERT(eq(status_phrase[1], "Ready") && eq(status_phrase[2], "Busy") && eq(status_phrase[3], "Off"), "the phrases");
	FV_CANARY("header");
}
/* --------------------------------------------- registration_service_start */
void digest_get(const uint8_t *d, unsigned int n, uint8_t out[16])
{
	FV_ASSERT(g.phase == 0 && g.mem && (char *)d == g_mem && n == (unsigned)g.len[0] && g.n[0] == e_n[0], "the digest is taken of the name, the address and the salt");
	g.phase = 1;
	g.digests++;
}
void digest_to_str(const uint8_t d[16], char *out)
{
	FV_ASSERT(g.digests == 1, "the digest has been computed");
	FV_ASSERT(__CPROVER_same_object(out, g_mem) && __CPROVER_POINTER_OFFSET(out) == g.len[1], "the digest follows the text");
	FV_ASSERT(__CPROVER_w_ok(out, 33), "the digest fits into the buffer");
	item(1, I_TEXT, T_DIGEST, 0, 32);
}
int registration_service_start(struct registration_service_handle *rs, const struct proxy_conf *conf)
__CPROVER_requires(__CPROVER_pointer_equals(rs, &g_rs) && __CPROVER_pointer_equals(g_rs.priv, (void *)&g_rp) && __CPROVER_pointer_equals(conf, &g_conf))
__CPROVER_requires(g_conf.reg_name == NULL || g_conf.reg_name == T_NAME)
__CPROVER_requires(g_conf.reg_comment == NULL || __CPROVER_pointer_equals(g_conf.reg_comment, T_COMMENT))
__CPROVER_requires(g_conf.public_addr == NULL || g_conf.public_addr == T_ADDR)
__CPROVER_requires(g_conf.password == NULL || __CPROVER_pointer_equals(g_conf.password, T_PASS))
__CPROVER_requires(g.own ? __CPROVER_pointer_equals(g_rp.reg_suffix, T_SUFFIX) : g_rp.reg_suffix == NULL)
__CPROVER_requires(l_name < 0x10000000 && l_comment < 0x10000000 && l_addr < 0x10000000)
__CPROVER_assigns(g, in, g_rp, g_mem, g_mem_n, g_head)
__CPROVER_ensures(IFC_registration_service_start(RET))
__CPROVER_ensures(g.held == 0 && RET == g.fail)
/* without a name nothing is registered */
__CPROVER_ensures(g_conf.reg_name == NULL ==> (RET == 0 && !g.started && !g.woken && !g.mem))
/* the service reports the configured identity */
__CPROVER_ensures((g_conf.reg_name != NULL && RET == 0) ==> (g.started && g.woken && g.mem && g_rp.reg_suffix == g_mem && g.phase == 1 && g.n[1] == e_n[1] && g.digests == 1))
__CPROVER_ensures((g_conf.reg_name != NULL && RET == 0) ==> (g_rp.reg_name == T_NAME && g_rp.public == (g_conf.password != NULL && g.match ? 'Y' : 'N')))
__CPROVER_ensures((g_conf.reg_name != NULL && RET == 0) ==> (g_conf.reg_comment == NULL ? (g_rp.reg_comment != NULL && g_rp.reg_comment[0] == 0) : g_rp.reg_comment == T_COMMENT))
__CPROVER_ensures((g_conf.reg_name != NULL && RET == 0) ==> g_rp.status != REGISTRATION_STATUS_OFF)
/* the suffix is owned by the service, or released */
__CPROVER_ensures(g.mem ? g_rp.reg_suffix == g_mem : (g_conf.reg_name == NULL || g_rp.reg_suffix == NULL))
__CPROVER_ensures((g.own && g_conf.reg_name != NULL) ==> g.old_freed)
;
#ifndef FV_ADDR
#define FV_ADDR 0
#define FV_NAME 0
#endif
void h_registration_service_start(void)
{
	struct registration_service_handle *rs;
	const struct proxy_conf *c;
	int r;
	consts();
	g = (struct fv_reg){ 0 };
	g.match = nondet_bool();
	g.own = nondet_bool();
	e_n[0] = e_n[1] = e_n[2] = 0;
	g_conf.public_addr = FV_ADDR ? T_ADDR : NULL;
	g_conf.reg_name = FV_NAME ? T_NAME : NULL;
	put(0, T_NAME);
	if (FV_ADDR)
		put(0, T_ADDR);
	lit(0, "#5A!zu");
	lit(1, "&a=");
	if (FV_ADDR)
		put(1, T_ADDR);
	lit(1, "&d="); put(1, T_DIGEST); lit(1, "&p=");
	num(1, I_NUM, g_conf.port);
	lit(1, "&v=1.2.3o");
	r = registration_service_start(rs, c);
#ifdef FV_NOMEM
	FV_CANARY_IF(r == -ENOMEM && !g.started, "no memory");
#elif FV_NAME
	FV_CANARY_IF(r == 0 && g.started && g.own, "started");
#else
	FV_CANARY_IF(r == 0 && !g.started, "no name");
#endif
}
#else
/* ------------------------------------------------ counts and status (G02) */
static int send_report(struct registration_service_handle *rs, enum REGISTRATION_STATUS status, size_t used, size_t total)
__CPROVER_requires(rs == &g_rs && g.held == 0 && g.reports == 0)
__CPROVER_requires((int)status == in.status && used == in.used && total == in.total)
__CPROVER_assigns(g.reports)
__CPROVER_ensures(g.reports == 1)
;
static void registration_func(struct worker_handle *wh)
__CPROVER_requires(__CPROVER_pointer_equals(wh, &g_rp.worker) && __CPROVER_pointer_equals(g_rp.worker.func_ctx, (void *)&g_rs) && __CPROVER_pointer_equals(g_rs.priv, (void *)&g_rp))
__CPROVER_requires(g.held == 0 && g.reports == 0 && in.status == (int)g_rp.status && in.used == g_rp.slots_used && in.total == g_rp.slots_total && in.status >= 0 && in.status <= 3)
__CPROVER_assigns(g)
/* exactly one report of the present counts and status, once they are known */
__CPROVER_ensures(g.held == 0 && g.reports == (in.status != REGISTRATION_STATUS_UNKNOWN))
;
#define RS(rs) (__CPROVER_pointer_equals(rs, &g_rs) && __CPROVER_pointer_equals(g_rs.priv, (void *)&g_rp) && g.held == 0 && (int)g_rp.status >= 0 && (int)g_rp.status <= 3)
void registration_service_update(struct registration_service_handle *rs, size_t used, size_t total)
__CPROVER_requires(RS(rs))
__CPROVER_assigns(g, in, g_rp.status, g_rp.slots_used, g_rp.slots_total)
__CPROVER_ensures(g.held == 0)
/* off is final */
__CPROVER_ensures(__CPROVER_old(g_rp.status) == REGISTRATION_STATUS_OFF ==> (g_rp.status == REGISTRATION_STATUS_OFF && g_rp.slots_used == __CPROVER_old(g_rp.slots_used) && g_rp.slots_total == __CPROVER_old(g_rp.slots_total) && g.woken == 0))
__CPROVER_ensures(__CPROVER_old(g_rp.status) != REGISTRATION_STATUS_OFF ==> (g_rp.slots_used == used && g_rp.slots_total == total && g.woken == 1 && in.used == used && in.total == total))
__CPROVER_ensures(__CPROVER_old(g_rp.status) != REGISTRATION_STATUS_OFF ==> ((int)g_rp.status == in.status && (int)g_rp.status == (used >= total ? REGISTRATION_STATUS_BUSY : REGISTRATION_STATUS_READY)))
;
int registration_service_stop(struct registration_service_handle *rs)
__CPROVER_requires(RS(rs))
__CPROVER_assigns(g, in, g_rp.status)
__CPROVER_ensures(IFC_registration_service_stop(RET))
__CPROVER_ensures(g.held == 0 && g_rp.status == REGISTRATION_STATUS_OFF && g.woken == 1 && g.joined == 1 && RET == g.join_ret)
;
/* life cycle */
int mutex_init(struct mutex_handle *m) { FV_ASSERT(m == &g_rp.mutex && !g.mx, "the lock of the service"); if (nondet_bool()) return g.fail = fv_err(); g.mx = 1; return 0; }
void mutex_free(struct mutex_handle *m) { FV_ASSERT(m == &g_rp.mutex && !g.held && !g.wk, "the lock outlives the worker"); g.mx = 0; }
int worker_init(struct worker_handle *w)
{
	FV_ASSERT(w == &g_rp.worker && !g.wk, "the worker of the service");
	FV_ASSERT(w->func_ptr == registration_func && w->func_ctx == (void *)&g_rs && w->periodic_wake > 0 && w->periodic_wake <= 600000, "it reports at least every ten minutes");
	if (nondet_bool())
		return g.fail = fv_err();
	g.wk = 1;
	return 0;
}
void worker_free(struct worker_handle *w) { FV_ASSERT(w == &g_rp.worker, "the worker of the service"); FV_ASSERT(!g.wk || g.joined, "the worker has stopped"); g.wk = 0; }
void fv_free(void *p)
{
	if (p == NULL)
		return;
	if (p == (void *)&g.suffix) {
		FV_ASSERT(g.suffix && !g.wk, "the suffix is released once, after its user");
		g.suffix = 0;
		return;
	}
	FV_ASSERT(p == (void *)&g_rp && g.mem && !g.mx && !g.wk && !g.suffix, "only what was allocated is released, once, after its parts");
	g.mem = 0;
}
int registration_service_init(struct registration_service_handle *rs)
__CPROVER_requires(__CPROVER_pointer_equals(rs, &g_rs) && g_rs.priv == NULL && !g.mem && !g.mx && !g.wk && !g.fail)
__CPROVER_assigns(g, g_rp, g_rs.priv)
__CPROVER_ensures(IFC_registration_service_init(RET))
__CPROVER_ensures(RET == g.fail)
__CPROVER_ensures(RET == 0 ? (g.mem && g.mx && g.wk && g_rs.priv == (void *)&g_rp && g_rp.reg_suffix == NULL && g_rp.status == REGISTRATION_STATUS_UNKNOWN) :
	(!g.mem && !g.mx && !g.wk && g_rs.priv == NULL))
;
void registration_service_free(struct registration_service_handle *rs)
__CPROVER_requires(__CPROVER_pointer_equals(rs, &g_rs) && (g.mem ? __CPROVER_pointer_equals(g_rs.priv, (void *)&g_rp) : g_rs.priv == NULL))
__CPROVER_requires(g.mx == g.mem && g.wk == g.mem && (g.suffix ? (g.mem && __CPROVER_pointer_equals(g_rp.reg_suffix, (char *)&g.suffix)) : g_rp.reg_suffix == NULL) && g.held == 0)
__CPROVER_assigns(g, in, g_rp, g_rs.priv)
__CPROVER_ensures(g_rs.priv == NULL && !g.mem && !g.mx && !g.wk && !g.suffix)
;
#define Z g = (struct fv_reg){ 0 }
void h_registration_func(void) { struct worker_handle *w; Z; registration_func(w); FV_CANARY_IF(g.reports, "reported"); FV_CANARY_IF(!g.reports, "nothing known yet"); }
void h_registration_service_update(void) { struct registration_service_handle *rs; size_t u, t; Z; registration_service_update(rs, u, t); FV_CANARY_IF(g_rp.status == REGISTRATION_STATUS_BUSY, "busy"); FV_CANARY_IF(g_rp.status == REGISTRATION_STATUS_READY, "ready"); FV_CANARY_IF(g_rp.status == REGISTRATION_STATUS_OFF, "off"); }
void h_registration_service_stop(void) { struct registration_service_handle *rs; Z; registration_service_stop(rs); FV_CANARY("stopped"); }
void h_registration_service_init(void) { struct registration_service_handle *rs; Z; int r = registration_service_init(rs); FV_CANARY_IF(r == 0, "ready"); FV_CANARY_IF(r < 0, "failed"); }
void h_registration_service_free(void) { struct registration_service_handle *rs; Z; g.mem = g.mx = g.wk = nondet_bool(); g.suffix = g.mem ? nondet_bool() : 0; registration_service_free(rs); FV_CANARY("freed"); }
#endif
