/* Contracts on proxy_client.c: what is sent to a proxy, and the life of a
 * client object.  The connection is conn.c seen through its contract. */
#include "openelp/openelp.h"
#include "conn.h"
#include "digest.h"
#include "proxy_client.h"

struct fv_g {
	int connected, connect_err, received, recv_err, sent, send_err, closed, bad;
	int computed, comp_err;
	int mem, mem_failed, inits, init_err, frees;
} g;
uint32_t v_nonce;
uint8_t v_resp[16], g_resp[16];
char *v_call;
const char *v_pass;
struct proxy_client_handle g_ch;
struct proxy_client_priv *v_priv;

void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
size_t fv_strlen(const char *s);
#define calloc fv_calloc
#define free fv_free
#define strlen fv_strlen
#include "fv_loop_defaults.h"
#include "proxy_client.c"
#undef calloc
#undef free
#undef strlen
#define RET __CPROVER_return_value
struct proxy_client_priv g_po;
size_t v_len;
size_t fv_strlen(const char *s)
{
	FV_ASSERT(s == v_call, "the length of the callsign");
	return v_len;
}
static int fails(void)
{
	int e = nondet_int();
	FV_ASSUME(e < 0 && e > -4096);
	return e;
}
#ifndef FV_LIFE
char g_host[1], g_port[1];
/* assumed here, proved for T01, T02, D02 and D03 */
int conn_connect(struct conn_handle *conn, const char *addr, const char *port)
{
	FV_ASSERT(conn == &g_po.conn && addr == g_host && port == g_port, "the configured proxy is connected to");
	FV_ASSERT(g.connected == 0 && g.connect_err == 0 && g.closed == 0, "once");
	if (nondet_bool())
		return g.connect_err = IFC_FAIL(conn_connect);
	g.connected = 1;
	return 0;
}
int conn_recv(struct conn_handle *conn, uint8_t *buff, size_t len)
{
	FV_ASSERT(conn == &g_po.conn && g.connected == 1 && g.closed == 0, "received from the proxy");
	FV_ASSERT(g.received == 0 && g.recv_err == 0 && len == 8, "exactly the nonce is received");
	FV_ASSERT(__CPROVER_w_ok(buff, 8), "the nonce fits");
	if (nondet_bool())
		return g.recv_err = fails();	/* IFC_conn_recv */
	__CPROVER_havoc_slice(buff, 8);
	g.received = 1;
	return 0;
}
uint32_t hex32_to_digest(const char data[8])
{
	FV_ASSERT(g.received == 1 && __CPROVER_r_ok(data, 8), "the nonce is converted");
	return v_nonce;
}
int get_password_response(uint32_t nonce, const char *password, uint8_t response[PROXY_PASS_RES_LEN])
{
	FV_ASSERT(g.received == 1 && nonce == v_nonce, "the response is for the nonce received");
	FV_ASSERT(v_pass ? password == v_pass : password[0] == 'P' && password[1] == 'U' && password[2] == 'B' && password[3] == 'L' && password[4] == 'I' && password[5] == 'C' && password[6] == 0,
		  "and for the password");
	FV_ASSERT(__CPROVER_w_ok(response, 16), "the response fits");
	if (nondet_bool())
		return g.comp_err = IFC_FAIL(get_password_response);
	for (int i = 0; i < 16; i++)
		response[i] = g_resp[i];
	g.computed = 1;
	return 0;
}
/* 1: callsign sent, 2: and newline, 3: and response */
int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t len)
{
	FV_ASSERT(conn == &g_po.conn && g.connected == 1 && g.closed == 0, "sent to the proxy");
	FV_ASSERT(g.send_err == 0 && g.computed == 1, "nothing is sent after a failure");
	if (v_call != NULL && g.sent == 0) {
		FV_ASSERT(buff == (const uint8_t *)v_call && len == v_len, "first the callsign");
		g.sent = 1;
	} else if (g.sent == (v_call != NULL)) {
		FV_ASSERT(len == 1 && buff[0] == '\n', "then a newline");
		g.sent = 2;
	} else {
		FV_ASSERT(g.sent == 2 && len == 16, "then the response and nothing else");
		for (int i = 0; i < 16; i++)
			FV_ASSERT(buff[i] == g_resp[i], "the response for the nonce and the password");
		g.sent = 3;
	}
	if (nondet_bool())
		return g.send_err = IFC_FAIL(conn_send);
	return 0;
}
void conn_close(struct conn_handle *conn)
{
	FV_ASSERT(conn == &g_po.conn, "the connection is closed");
	g.closed++;
}
#define ANY_ERR (g.connect_err ? g.connect_err : g.recv_err ? g.recv_err : g.comp_err ? g.comp_err : g.send_err)
int proxy_client_connect(struct proxy_client_handle *ch)
__CPROVER_requires(ch == &g_ch && ch->priv == &g_po && ch->host_addr == g_host && ch->host_port == g_port && ch->callsign == v_call && ch->password == v_pass)
__CPROVER_assigns(g, g_po)
__CPROVER_ensures(RET <= 0 && RET == ANY_ERR)
__CPROVER_ensures(RET == 0 ==> g.connected == 1 && g.received == 1 && g.sent == 3 && g.closed == 0)
__CPROVER_ensures(RET < 0 ==> g.closed >= 1);

void proxy_client_disconnect(struct proxy_client_handle *ch)
__CPROVER_requires(ch == &g_ch && ch->priv == &g_po)
__CPROVER_assigns(g, g_po)
__CPROVER_ensures(g.closed >= 1);

int conn_init(struct conn_handle *conn) { FV_ASSERT(0, "a connection is initialised only in proxy_client_init"); return 0; }
void conn_free(struct conn_handle *conn) { FV_ASSERT(0, "a connection is released only in proxy_client_free"); }
void *fv_calloc(size_t n, size_t s) { FV_ASSERT(0, "nothing is allocated"); return NULL; }
void fv_free(void *p) { FV_ASSERT(0, "nothing is released"); }
char g_call[1], g_pass[1];
static void start(void)
{
	g = (struct fv_g){ 0 };
	v_nonce = nondet_uint();
	v_len = nondet_size_t();
	v_call = nondet_bool() ? g_call : NULL;
	v_pass = nondet_bool() ? g_pass : NULL;
	for (int i = 0; i < 16; i++)
		g_resp[i] = nondet_uint8_t();
	g_ch.priv = &g_po;
	g_ch.host_addr = g_host;
	g_ch.host_port = g_port;
	g_ch.callsign = v_call;
	g_ch.password = (char *)v_pass;
}
void h_proxy_client_connect(void)
{
	start();
	int ret = proxy_client_connect(&g_ch);
	FV_CANARY_IF(ret == 0 && v_call && !v_pass, "connected");
	FV_CANARY_IF(ret < 0 && g.sent == 3, "the response is not sent");
	FV_CANARY_IF(ret < 0 && g.connect_err, "not connected");
}
void h_proxy_client_disconnect(void)
{
	start();
	g.connected = 1;
	proxy_client_disconnect(&g_ch);
	FV_CANARY("closed");
}
#else
int conn_connect(struct conn_handle *conn, const char *a, const char *p) { FV_ASSERT(0, "nothing is connected"); return 0; }
int conn_recv(struct conn_handle *conn, uint8_t *b, size_t n) { FV_ASSERT(0, "nothing is received"); return 0; }
int conn_send(struct conn_handle *conn, const uint8_t *b, size_t n) { FV_ASSERT(0, "nothing is sent"); return 0; }
uint32_t hex32_to_digest(const char d[8]) { return 0; }
int get_password_response(uint32_t n, const char *p, uint8_t r[16]) { return 0; }
/* inits - frees: the connection's resources; conn_init releases what it took
 * when it fails, and a failed one may be passed to conn_free */
int conn_init(struct conn_handle *conn)
{
	FV_ASSERT(conn == &g_po.conn && g.mem == 1 && g.inits == 0 && conn->priv == NULL, "a block that is live and not yet initialised");
	FV_ASSERT(conn->type == CONN_TYPE_TCP, "a TCP connection");
	if (nondet_bool()) {
		conn->priv = NULL;
		g.inits = 0;
		return g.init_err = fails();
	}
	conn->priv = (void *)g_resp;
	g.inits = 1;
	return 0;
}
void conn_free(struct conn_handle *conn)
{
	FV_ASSERT(conn == &g_po.conn && g.mem == 1, "a block that is live");
	FV_ASSERT((conn->priv != NULL) == (g.inits == 1), "a valid object");
	conn->priv = NULL;
	g.inits = 0;
}
void conn_close(struct conn_handle *conn)
{
	FV_ASSERT(conn == &g_po.conn && g.mem == 1 && g.inits == 1 && conn->priv != NULL, "a connection that was initialised is closed");
	g.closed++;
}
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s >= sizeof(g_po) && g.mem == 0, "one block is allocated");
	if (nondet_bool()) {
		g.mem_failed = 1;
		return NULL;
	}
	g.mem = 1;
	memset(&g_po, 0, sizeof(g_po));
	return &g_po;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == &g_po && g.mem == 1 && g.inits == 0, "the block is released once, after what it owns");
	g.mem = 0;
}
int proxy_client_init(struct proxy_client_handle *ch)
__CPROVER_requires(ch == &g_ch && ch->priv == NULL && g.mem == 0 && g.inits == 0)
__CPROVER_assigns(*ch, g_po, g)
__CPROVER_ensures(RET == (g.mem_failed ? -ENOMEM : g.init_err))
__CPROVER_ensures(RET == 0 ==> ch->priv == &g_po && g.mem == 1 && g.inits == 1)
__CPROVER_ensures(RET != 0 ==> RET < 0 && ch->priv == NULL && g.mem == 0 && g.inits == 0);

void proxy_client_free(struct proxy_client_handle *ch)
__CPROVER_requires(ch == &g_ch && (ch->priv == NULL ? g.mem == 0 && g.inits == 0 : ch->priv == &g_po && g.mem == 1 && g.inits == 1 && g_po.conn.priv == (void *)g_resp))
__CPROVER_assigns(*ch, g_po, g)
__CPROVER_ensures(ch->priv == NULL && g.mem == 0 && g.inits == 0)
__CPROVER_ensures(__CPROVER_old(ch->priv) != NULL ==> g.closed >= 1);
static void start(void)
{
	g = (struct fv_g){ 0 };
	memset(&g_po, 0, sizeof(g_po));
	g_ch.priv = NULL;
	if (nondet_bool()) {
		g_ch.priv = &g_po;
		g.mem = g.inits = 1;
		g_po.conn.priv = (void *)g_resp;
	}
}
void h_proxy_client_init(void)
{
	start();
	g_ch.priv = NULL;
	g.mem = g.inits = 0;
	int ret = proxy_client_init(&g_ch);
	FV_CANARY_IF(ret == 0, "done");
	FV_CANARY_IF(ret < 0 && g.init_err, "no connection");
}
void h_proxy_client_free(void)
{
	start();
	int m = g.mem;
	proxy_client_free(&g_ch);
	FV_CANARY_IF(m, "released");
	FV_CANARY_IF(!m, "nothing");
}
#endif
