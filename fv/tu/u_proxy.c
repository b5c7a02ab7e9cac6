/* Contracts on proxy.c, first part: password response, handshake, policy. */
#include <stdarg.h>
#include "openelp/openelp.h"
#include "conn.h"
#include "digest.h"
#include "regex.h"
#include "log.h"

struct fv_d16 { uint8_t b[16]; };
#define HEXL(v) ((uint8_t)((v) < 10 ? '0' + (v) : 'a' + (v) - 10))
#define HEXDIG(n, i) HEXL(((n) >> (28 - 4 * (i))) & 15)

#ifdef FV_OB_h_get_password_response
#define UPPER(c) ((c) >= 'a' && (c) <= 'z' ? (c) - 'a' + 'A' : (c))
struct fv_pw_ghost {
	size_t len;		/* strlen(password) */
	size_t k;		/* arbitrary index into the hashed text */
	size_t buf_len;
	int live, digests;
	uint32_t nonce;
	uint8_t digest[16];
} gp;
const char *g_pass;
uint8_t *g_buf;		/* what was allocated */
#define FV_OFFS (__CPROVER_POINTER_OFFSET(password) - __CPROVER_POINTER_OFFSET(g_pass))
#define FV_GHOST_get_password_response_0 { size_t o = FV_OFFS; \
	FV_REBASE(password, g_pass + o) FV_REBASE(iter, (char *)g_buf + o) }
#define FV_LOOP_get_password_response_0 \
	__CPROVER_assigns(password, iter, __CPROVER_object_whole(g_buf)) \
	__CPROVER_loop_invariant(__CPROVER_same_object(password, g_pass) && FV_OFFS <= gp.len) \
	__CPROVER_loop_invariant(iter == (char *)g_buf + FV_OFFS) \
	__CPROVER_loop_invariant(!(gp.k < FV_OFFS) || g_buf[gp.k] == (uint8_t)UPPER(g_pass[gp.k])) \
	__CPROVER_decreases(gp.len - FV_OFFS)
#define malloc fv_malloc
#define free fv_free
#define strlen fv_strlen
void *fv_malloc(size_t n);
void fv_free(void *p);
size_t fv_strlen(const char *s);
#endif

#include "fv_loop_defaults.h"
#include "proxy.c"

#ifdef FV_OB_h_get_password_response
#undef malloc
size_t fv_strlen(const char *s)
{
	FV_ASSERT(s == g_pass, "length of the password itself");
	return gp.len;
}
void *fv_malloc(size_t n)
{
	FV_ASSERT(!gp.live, "one buffer");
	if (nondet_bool())
		return NULL;
	g_buf = malloc(n);
	FV_ASSUME(g_buf != NULL);
	gp.buf_len = n;
	gp.live = 1;
	return g_buf;
}
void fv_free(void *p)
{
	FV_ASSERT(p == NULL || (gp.live && p == g_buf), "only the buffer is released, once");
	if (p != NULL)
		gp.live = 0;
}
void digest_to_hex32(uint32_t data, char result[8])
{
	size_t o = (size_t)((uint8_t *)result - g_buf);
	FV_ASSERT(__CPROVER_same_object(result, g_buf) && o <= gp.buf_len && gp.buf_len - o >= 8, "nonce text stays inside the buffer");
	FV_ASSUME(o >= gp.len || g_pass[o] != 0);	/* definition of gp.len, instance o */
	FV_ASSERT(data == gp.nonce, "the nonce of the handshake is hashed");
	g_buf[o] = HEXDIG(data, 0); g_buf[o + 1] = HEXDIG(data, 1); g_buf[o + 2] = HEXDIG(data, 2); g_buf[o + 3] = HEXDIG(data, 3);
	g_buf[o + 4] = HEXDIG(data, 4); g_buf[o + 5] = HEXDIG(data, 5); g_buf[o + 6] = HEXDIG(data, 6); g_buf[o + 7] = HEXDIG(data, 7);
}
void digest_get(const uint8_t *data, unsigned int len, uint8_t result[DIGEST_LEN])
{
	FV_ASSERT(data == g_buf && gp.live, "the text built is hashed");
	FV_ASSERT(len == gp.len + 8, "exactly password and nonce are hashed");
	FV_ASSERT(gp.k >= gp.len || g_buf[gp.k] == (uint8_t)UPPER(g_pass[gp.k]), "the password is hashed with ASCII letters in upper case");
	FV_ASSERT(!(gp.k >= gp.len && gp.k < gp.len + 8) || g_buf[gp.k] == HEXDIG(gp.nonce, gp.k - gp.len), "the nonce follows as 8 lower-case digits");
	*(struct fv_d16 *)result = *(struct fv_d16 *)gp.digest;
	gp.digests++;
}
int get_password_response(uint32_t nonce, const char *password, uint8_t response[PROXY_PASS_RES_LEN])
__CPROVER_requires(gp.len < 0xfffffff0u)
__CPROVER_requires(nondet_bool() ? password == NULL : __CPROVER_is_fresh(password, gp.len + 1))
__CPROVER_requires(g_pass == NULL ? password == NULL : __CPROVER_pointer_equals(g_pass, password))
__CPROVER_requires(password == NULL || password[gp.len] == 0)
__CPROVER_requires(__CPROVER_is_fresh(response, PROXY_PASS_RES_LEN))
__CPROVER_requires(nonce == gp.nonce && gp.live == 0 && gp.digests == 0)
__CPROVER_assigns(__CPROVER_object_upto(response, PROXY_PASS_RES_LEN), g_buf, gp.live, gp.buf_len, gp.digests)
__CPROVER_ensures(IFC_get_password_response(__CPROVER_return_value) && gp.live == 0)
__CPROVER_ensures((__CPROVER_return_value == 0) == (gp.digests == 1))
__CPROVER_ensures(__CPROVER_return_value != 0 || password != NULL)
__CPROVER_ensures(__CPROVER_return_value != 0 || (response[0] == gp.digest[0] && response[1] == gp.digest[1] && response[2] == gp.digest[2] && response[3] == gp.digest[3] &&
	response[4] == gp.digest[4] && response[5] == gp.digest[5] && response[6] == gp.digest[6] && response[7] == gp.digest[7] &&
	response[8] == gp.digest[8] && response[9] == gp.digest[9] && response[10] == gp.digest[10] && response[11] == gp.digest[11] &&
	response[12] == gp.digest[12] && response[13] == gp.digest[13] && response[14] == gp.digest[14] && response[15] == gp.digest[15]))
;
void h_get_password_response(void)
{
	uint32_t nonce;
	const char *pw;
	uint8_t *resp;
	int r = get_password_response(nonce, pw, resp);
	FV_CANARY_IF(r == 0, "get_password_response succeeds");
	FV_CANARY_IF(r < 0, "get_password_response fails");
}
#endif

/* log_vprintf does not matter here; proxy_log is replaced by this contract
 * because frame checks do not reach variadic functions */
void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(1)
;

#ifdef FV_AUTH
/* ------------------------------------------------------------- handshake
 * in[] is what the client sends, out[] what it receives. */
#define RESP 16
struct fv_auth_const {
	uint8_t in[32];
	uint32_t nonce;
	uint8_t resp[RESP];
	int nl;		/* index of the first newline of in[], or 99 */
	int end;	/* length of the callsign as text */
	int match;	/* the 16 bytes after the newline are the response */
	int permit;	/* the callsign is permitted */
} ac;
struct fv_auth {
	int pos, outpos;
	uint8_t out[32];
	int rx_failed, tx_failed, nonce_failed, pw_failed, asked;
} ga;
struct proxy_handle g_ph;
struct conn_handle g_conn;
struct proxy_worker g_pw;

int conn_send(struct conn_handle *c, const uint8_t *buff, size_t n)
{
	size_t i;
	FV_ASSERT(c == &g_conn, "the client is answered");
	FV_ASSERT(!ga.tx_failed && !ga.rx_failed && !ga.nonce_failed && !ga.pw_failed, "nothing is sent after a failure");
	FV_ASSERT(n >= 1 && n <= 20 && ga.outpos + n <= 20, "a short answer is sent");
	for (i = 0; i < 20; i++)
		if (i < n)
			ga.out[ga.outpos + i] = buff[i];
	ga.outpos += (int)n;
	if (nondet_bool()) {
		int r = IFC_FAIL(conn_send);
		ga.tx_failed = 1;
		return r;
	}
	return 0;
}
int conn_recv(struct conn_handle *c, uint8_t *buff, size_t n)
{
	size_t i;
	FV_ASSERT(c == &g_conn, "the client is read");
	FV_ASSERT(ga.outpos == 8, "the nonce is sent before anything is read");
	FV_ASSERT(!ga.tx_failed && !ga.rx_failed, "nothing is read after a failure");
	FV_ASSERT(n <= 28 && ga.pos + (int)n <= (ac.nl <= 10 ? ac.nl + 17 : 28), "only bytes of the handshake are consumed");
	for (i = 0; i < 28; i++)
		if (i < n)
			buff[i] = ac.in[ga.pos + i];
	if (nondet_bool()) {
		int r = nondet_int();
		FV_ASSUME(IFC_conn_recv(r, n) && r < 0);
		ga.rx_failed = 1;
		return r;
	}
	ga.pos += (int)n;
	return (int)n;
}
void digest_to_hex32(uint32_t data, char result[8])
{
	int i;
	for (i = 0; i < 8; i++)
		result[i] = HEXDIG(data, i);
}
int get_nonce(uint32_t *nonce)
__CPROVER_assigns(*nonce, ga.nonce_failed)
__CPROVER_ensures(IFC_get_nonce(__CPROVER_return_value) && (__CPROVER_return_value < 0) == (ga.nonce_failed != 0))
__CPROVER_ensures(*nonce == ac.nonce)
;
/* the part of the contract proved for D03 that is needed here */
int get_password_response(uint32_t nonce, const char *password, uint8_t response[PROXY_PASS_RES_LEN])
__CPROVER_requires(nonce == ac.nonce && password == g_ph.conf.password)
__CPROVER_requires(ga.nonce_failed == 0)
__CPROVER_assigns(__CPROVER_object_upto(response, PROXY_PASS_RES_LEN), ga.pw_failed)
__CPROVER_ensures(IFC_get_password_response(__CPROVER_return_value) && (__CPROVER_return_value < 0) == (ga.pw_failed != 0))
__CPROVER_ensures(ga.pw_failed || (response[0] == ac.resp[0] && response[1] == ac.resp[1] && response[2] == ac.resp[2] && response[3] == ac.resp[3] &&
	response[4] == ac.resp[4] && response[5] == ac.resp[5] && response[6] == ac.resp[6] && response[7] == ac.resp[7] &&
	response[8] == ac.resp[8] && response[9] == ac.resp[9] && response[10] == ac.resp[10] && response[11] == ac.resp[11] &&
	response[12] == ac.resp[12] && response[13] == ac.resp[13] && response[14] == ac.resp[14] && response[15] == ac.resp[15]))
;
#define CS(s, i) ((i) > ac.end || (uint8_t)(s)[i] == ((i) == ac.end ? 0 : ac.in[i]))
#define IS_CALLSIGN(s) (ac.end <= 10 && CS(s, 0) && CS(s, 1) && CS(s, 2) && CS(s, 3) && CS(s, 4) && CS(s, 5) && CS(s, 6) && CS(s, 7) && CS(s, 8) && CS(s, 9) && CS(s, 10))
int proxy_authorize_callsign(struct proxy_handle *ph, const char *callsign)
__CPROVER_requires(ph == &g_ph && IS_CALLSIGN(callsign))
__CPROVER_assigns(ga.asked)
__CPROVER_ensures(ga.asked == 1 && __CPROVER_return_value == ac.permit)
;
static int proxy_worker_authorize(struct proxy_worker *pw)
__CPROVER_requires(__CPROVER_pointer_equals(pw, &g_pw) && __CPROVER_pointer_equals(g_pw.ph, &g_ph) && __CPROVER_pointer_equals(g_pw.conn_client, &g_conn))
__CPROVER_requires(ga.pos == 0 && ga.outpos == 0 && !ga.rx_failed && !ga.tx_failed && !ga.nonce_failed && !ga.pw_failed && !ga.asked)
__CPROVER_assigns(ga, __CPROVER_object_upto(g_pw.callsign, sizeof(g_pw.callsign)))
__CPROVER_ensures(g_pw.conn_client == &g_conn)
;
void h_proxy_worker_authorize(void)
{
	int i, r, ok;
	ga = (struct fv_auth){ 0 };
	ac.nl = 99;
	for (i = 10; i >= 0; i--)
		if (ac.in[i] == '\n')
			ac.nl = i;
	ac.end = ac.nl;
	for (i = 10; i >= 0; i--)
		if (ac.in[i] == 0 && i < ac.nl)
			ac.end = i;
	ac.match = ac.nl <= 10;
	for (i = 0; i < 16; i++)
		if (ac.nl <= 10 && ac.in[ac.nl + 1 + i] != ac.resp[i])
			ac.match = 0;
	FV_ASSUME(ac.permit == 0 || ac.permit == 1);
	r = proxy_worker_authorize(&g_pw);
	ok = !ga.rx_failed && !ga.tx_failed && !ga.nonce_failed && !ga.pw_failed;
	/* A01 */
	FV_ASSERT(IFC_proxy_worker_authorize(r), "0 or an error");
	FV_ASSERT(r < 0 || (ok && ac.nl <= 10 && ac.match && ac.permit), "only a right response and a permitted callsign are admitted");
	FV_ASSERT(r == 0 || !(ok && ac.nl <= 10 && ac.match && ac.permit), "a right response and a permitted callsign are admitted");
	FV_ASSERT(r < 0 || ga.pos == ac.nl + 17, "the handshake consumes exactly its own bytes");
	FV_ASSERT(r < 0 || IS_CALLSIGN(g_pw.callsign), "the callsign is the one that was sent");
	/* A02 */
	for (i = 0; i < 8; i++)
		FV_ASSERT(i >= ga.outpos || ga.out[i] == HEXDIG(ac.nonce, i), "the nonce is sent as 8 lower-case hexadecimal digits");
	FV_ASSERT(ga.outpos >= 8 || !ok, "the nonce is sent");
	FV_ASSERT(ga.outpos <= 8 || (ac.nl <= 10 && ga.pos == ac.nl + 17 && !ga.rx_failed), "nothing follows the nonce unless the handshake is complete");
	FV_ASSERT(ga.outpos <= 8 || !(ac.match && ac.permit), "an admitted client receives no reject message");
	FV_ASSERT(!(ok && ac.nl <= 10 && !(ac.match && ac.permit)) || ga.outpos == 18, "a rejected client receives a reject message");
	if (ga.outpos > 8) {
		FV_ASSERT(ga.out[8] == 7 && (ga.outpos <= 9 || ga.out[9] == 0) && (ga.outpos <= 10 || ga.out[10] == 0) && (ga.outpos <= 11 || ga.out[11] == 0) && (ga.outpos <= 12 || ga.out[12] == 0), "system message header");
		FV_ASSERT((ga.outpos <= 13 || ga.out[13] == 1) && (ga.outpos <= 14 || ga.out[14] == 0) && (ga.outpos <= 15 || ga.out[15] == 0) && (ga.outpos <= 16 || ga.out[16] == 0), "system message size");
		FV_ASSERT(ga.outpos <= 17 || ga.out[17] == (ac.match ? 2 : 1), "reason of the rejection");
		FV_ASSERT(ga.outpos <= 18, "nothing follows the reject message");
	}
	FV_CANARY_IF(r == 0 && ac.nl == 10, "admitted");
	FV_CANARY_IF(r < 0 && ok && !ac.match, "wrong password");
	FV_CANARY_IF(r < 0 && ok && ac.match && ac.nl == 0, "not permitted");
	FV_CANARY_IF(r < 0 && ok && ac.nl == 99, "malformed");
}
#endif

#ifdef FV_POLICY
/* -------------------------------------------------------- callsign policy */
struct proxy_handle g_ph;
struct proxy_priv g_prv;
struct regex_handle g_deny, g_allow;
struct fv_pol { int deny, allow; } gm;	/* results of matching: 0, 1 or an error */
const char *g_cs;
int regex_is_match(const struct regex_handle *re, const char *subject)
{
	FV_ASSERT(subject == g_cs, "the callsign itself is matched");
	FV_ASSERT(re == &g_deny || re == &g_allow, "a configured pattern is matched");
	return re == &g_deny ? gm.deny : gm.allow;
}
int proxy_authorize_callsign(struct proxy_handle *ph, const char *callsign)
__CPROVER_requires(__CPROVER_pointer_equals(ph, &g_ph) && __CPROVER_pointer_equals(g_ph.priv, (void *)&g_prv))
__CPROVER_requires(__CPROVER_is_fresh(callsign, 12) && __CPROVER_pointer_equals(g_cs, callsign))
__CPROVER_requires(g_prv.re_calls_denied == NULL || __CPROVER_pointer_equals(g_prv.re_calls_denied, &g_deny))
__CPROVER_requires(g_prv.re_calls_allowed == NULL || __CPROVER_pointer_equals(g_prv.re_calls_allowed, &g_allow))
__CPROVER_requires(gm.deny <= 1 && gm.allow <= 1 && gm.deny > -4096 && gm.allow > -4096)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == ((g_prv.re_calls_denied == NULL || gm.deny == 0) && (g_prv.re_calls_allowed == NULL || gm.allow == 1)))
;
void h_proxy_authorize_callsign(void)
{
	struct proxy_handle *ph;
	const char *cs;
	int r = proxy_authorize_callsign(ph, cs);
	FV_CANARY_IF(r == 1 && g_prv.re_calls_denied && g_prv.re_calls_allowed, "permitted");
	FV_CANARY_IF(r == 0, "not permitted");
}
/* --------------------------------------------------------------- nonce */
int g_rand_ret;
uint32_t g_rand;
int rand_get(uint32_t *v) { *v = g_rand; return g_rand_ret; }
int get_nonce(uint32_t *nonce)
__CPROVER_requires(__CPROVER_is_fresh(nonce, sizeof(*nonce)) && g_rand_ret <= 0)
__CPROVER_assigns(*nonce)
__CPROVER_ensures(*nonce == g_rand && __CPROVER_return_value == g_rand_ret)
;
void h_get_nonce(void) { uint32_t *n; int r = get_nonce(n); FV_CANARY_IF(r == 0, "nonce"); }
#endif
