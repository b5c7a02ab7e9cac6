/* Contracts on proxy_conn.c: the relay between a client and the network.
 *
 * Client stream (incoming): one message is hdr[0..8] (type, address, size)
 * followed by `total` payload bytes; the payload byte at the arbitrary,
 * constant index k is followed.  pos counts the bytes consumed so far.
 * Peer side: off counts the payload bytes offered to the network so far.
 * Client stream (outgoing): every transmission has to be one complete message
 * sent while the send lock is held exclusively.  */
#include "openelp/openelp.h"
#include "conn.h"
#include "digest.h"
#include "mutex.h"
#include "proxy_conn.h"
#include "rand.h"
#include "thread.h"
#include "worker.h"

#define SILENT(e) ((e) == -ECONNRESET || (e) == -EINTR || (e) == -ENOTCONN || (e) == -EPIPE)

struct fv_hdr { uint8_t b[9]; };
enum { C_CTL, C_DATA, C_TCP };
/* constants of the message under consideration */
struct fv_pc_const {
	struct fv_hdr hdr;
	size_t total, k;
} gc;
struct fv_pc_ghost {
	size_t pos, off;
	uint8_t v;
	int rx_failed, rx_err;		/* the client stream failed */
	int peer_failed;		/* sending to the TCP peer failed */
	int send_held, client_held;	/* 0 none, 1 shared, 2 exclusive */
	int open[3], idle[3];		/* peer connections open; forwarders idle */
	int closes[3];
	int waits;
	unsigned msgs;
	int msg_type, msg_failed;	/* messages sent to the client */
	uint32_t msg_size, msg_addr;
	uint8_t msg_pay[4];
	int connects, connect_ok, woken, wake_ok;
	int dropped;			/* the client connection was dropped */
	/* forwarders */
	int pending;			/* something received that is not forwarded yet */
	int r;				/* its length */
	uint32_t src;
	int err;			/* error that ended receiving */
	int done;
	/* accept */
	int taken, listens, fail_ret, wakes;
} g;
#define g_client (&g_co)
#define g_priv (&g_po)

/* -------------------------------------------------------- loop contracts */
#define FV_RELAY_INV(size_now) \
	__CPROVER_loop_invariant(g.closes[0] == 0 && g.closes[1] == 0 && g.closes[2] == 0 && g.rx_failed == 0 && (size_now) <= gc.total && g.off == gc.total - (size_now) && g.pos == 9 + g.off && \
		g.msgs == 0 && g.send_held == 0 && g.client_held == 0 && g.dropped == 0 && msg == (struct proxy_msg *)g_po.buff && g_po.conn_client == &g_co) \
	__CPROVER_decreases(size_now)
#ifdef FV_RELAY
#define FV_LOOP_process_control_data_message_0 \
	__CPROVER_assigns(msg_size, ret, g, __CPROVER_object_whole(&g_po)) FV_RELAY_INV(msg_size)
#define FV_LOOP_process_data_message_0 \
	__CPROVER_assigns(msg_size, ret, g, __CPROVER_object_whole(&g_po)) FV_RELAY_INV(msg_size)
#define FV_LOOP_process_tcp_data_message_0 \
	__CPROVER_assigns(msg_size, curr_msg_size, tcp_ret, ret, g, __CPROVER_object_whole(&g_po)) \
	__CPROVER_loop_invariant(g.rx_failed == 0 && msg_size <= gc.total && g.pos == 9 + gc.total - msg_size && \
		g.msgs == 0 && g.send_held == 0 && g.client_held == 0 && g.dropped == 0 && msg == (struct proxy_msg *)g_po.buff && g_po.conn_client == &g_co) \
	__CPROVER_loop_invariant((tcp_ret != 0) == (g.peer_failed != 0) && tcp_ret <= 0 && (g.peer_failed || g.off == gc.total - msg_size)) \
	__CPROVER_loop_invariant(g.closes[C_TCP] == (g.peer_failed ? 1 : 0) && (!g.peer_failed || g.open[C_TCP] == 0)) \
	__CPROVER_decreases(msg_size)
#endif
#ifdef FV_FWD
#define FV_FWD_INV(t) \
	__CPROVER_assigns(ret, FV_ADDR g, __CPROVER_object_whole(buf)) \
	__CPROVER_loop_invariant(msg == (struct proxy_msg *)buf && buf[0] == (t) && g.pending == 0 && g.send_held == 0 && g.client_held == 0 && \
		g.err == 0 && g.msg_failed == 0 && g.dropped == 0 && g.done == 0 && g.closes[FV_FWD] == 0)
#if FV_FWD == 0
#define FV_ADDR addr,
#define FV_LOOP_forwarder_control_0 FV_FWD_INV(PROXY_MSG_TYPE_UDP_CONTROL)
#elif FV_FWD == 1
#define FV_ADDR addr,
#define FV_LOOP_forwarder_data_0 FV_FWD_INV(PROXY_MSG_TYPE_UDP_DATA)
#else
#define FV_ADDR
#define FV_LOOP_forwarder_tcp_0 FV_FWD_INV(PROXY_MSG_TYPE_TCP_DATA)
#endif

#endif

#ifdef FV_OPEN
#define FV_UNREACHED FV_ASSERT(0, "no data is relayed for this type of message"); FV_ASSUME(0);
#define FV_GHOST_process_control_data_message_0 FV_UNREACHED
#define FV_GHOST_process_data_message_0 FV_UNREACHED
#define FV_GHOST_process_tcp_data_message_0 FV_UNREACHED
#if FV_OPEN != 1
#define FV_GHOST_process_tcp_open_message_0 FV_UNREACHED
#endif
/* the verifier's frame checks do not reach variadic functions: up to four arguments */
#define snprintf(d, n, ...) FV_SN(d, n, __VA_ARGS__, 0, 0, 0, 0, 0)
#define FV_SN(d, n, f, a0, a1, a2, a3, ...) fv_snprintf(d, n, f, a0, a1, a2, a3)
int fv_snprintf(char *d, size_t n, const char *fmt, unsigned a0, unsigned a1, unsigned a2, unsigned a3);
#endif
#ifdef FV_LIFE
#define calloc fv_calloc
#define free fv_free
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#endif
#include "fv_loop_defaults.h"
#define FV_OBJECTS \
	struct proxy_conn_priv g_po;	/* the objects under consideration: all contents arbitrary */ \
	struct proxy_conn_handle g_pc; \
	struct conn_handle g_co;
struct proxy_conn_priv;
extern struct proxy_conn_priv g_po;
extern struct proxy_conn_handle g_pc;
extern struct conn_handle g_co;
#include "proxy_conn.c"
#undef snprintf
#undef calloc
#undef free
FV_OBJECTS

/* ----------------------------------------------------- callees: contracts */
void proxy_log(struct proxy_handle *ph, enum LOG_LEVEL lvl, const char *fmt, ...) { (void)ph; (void)lvl; (void)fmt; }

static int which(const struct conn_handle *c)
{
	return c == &g_priv->conn_control ? C_CTL : c == &g_priv->conn_data ? C_DATA : c == &g_priv->conn_tcp ? C_TCP : -1;
}
static int which_w(const struct worker_handle *w)
{
	return w == &g_priv->worker_control ? C_CTL : w == &g_priv->worker_data ? C_DATA : w == &g_priv->worker_tcp ? C_TCP : -1;
}
static uint32_t le32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

#define FV_HDR_BYTE(i) if (g.pos + (i) < 9 && (i) < n) buff[i] = gc.hdr.b[g.pos + (i)];
int conn_recv(struct conn_handle *c, uint8_t *buff, size_t n)
{
	FV_ASSERT(c == g_client, "messages are read from the client");
	FV_ASSERT(g.send_held == 0, "the send lock is not held while reading");
	FV_ASSERT(!g.rx_failed, "nothing is read after a failure");
	FV_ASSERT(n <= 9 + gc.total - g.pos && n <= 0x7fffffff, "only bytes of this message are consumed");
	FV_ASSERT(__CPROVER_w_ok(buff, n), "room for what is read");
	FV_ASSERT(!__CPROVER_same_object(buff, g_priv) || (__CPROVER_POINTER_OFFSET(buff) >= __CPROVER_POINTER_OFFSET(g_priv->buff) &&
		__CPROVER_POINTER_OFFSET(buff) + n <= __CPROVER_POINTER_OFFSET(g_priv->buff) + sizeof(g_priv->buff)), "what is read stays inside the buffer");
	if (nondet_bool()) {
		g.rx_failed = 1;
		g.rx_err = nondet_int();
		FV_ASSUME(IFC_conn_recv(g.rx_err, n) && g.rx_err < 0);
		return g.rx_err;
	}
	if (g.pos == 0 && n == 9) {
		buff[0] = gc.hdr.b[0]; buff[1] = gc.hdr.b[1]; buff[2] = gc.hdr.b[2]; buff[3] = gc.hdr.b[3]; buff[4] = gc.hdr.b[4];
		buff[5] = gc.hdr.b[5]; buff[6] = gc.hdr.b[6]; buff[7] = gc.hdr.b[7]; buff[8] = gc.hdr.b[8];
		g.pos = 9;
		return 9;
	}
	if (g.pos < 9) {
		FV_HDR_BYTE(0) FV_HDR_BYTE(1) FV_HDR_BYTE(2) FV_HDR_BYTE(3) FV_HDR_BYTE(4)
		FV_HDR_BYTE(5) FV_HDR_BYTE(6) FV_HDR_BYTE(7) FV_HDR_BYTE(8)
	}
	/* the buffer holds arbitrary bytes here (havoced by the loop contract, or by
	 * the precondition): the byte found at the index IS the byte that arrives */
	if (9 + gc.k >= g.pos && 9 + gc.k - g.pos < n)
		g.v = buff[9 + gc.k - g.pos];
	g.pos += n;
	return (int)n;
}
int conn_send_to(struct conn_handle *c, const uint8_t *buff, size_t n, uint32_t addr, uint16_t port)
{
	FV_ASSERT(gc.hdr.b[0] == PROXY_MSG_TYPE_UDP_DATA ? which(c) == C_DATA && port == 5198 :
		  gc.hdr.b[0] == PROXY_MSG_TYPE_UDP_CONTROL && which(c) == C_CTL && port == 5199, "a datagram leaves through the socket and to the port of its message type");
	FV_ASSERT(addr == le32(&gc.hdr.b[1]), "a datagram goes to the address in the message");
	FV_ASSERT(n == (gc.total - g.off > 4096 ? 4096 : gc.total - g.off), "every datagram but the last one holds 4096 bytes");
	FV_ASSERT(g.pos == 9 + g.off + n, "what is sent has just been received");
	FV_ASSERT(__CPROVER_r_ok(buff, n), "the datagram is read inside the buffer");
	FV_ASSERT(!(gc.k >= g.off && gc.k - g.off < n) || buff[gc.k - g.off] == g.v, "a datagram carries the bytes of the message");
	g.off += n;
	return IFC_ANY(conn_send_to);
}
#ifdef FV_FWD
#define CLIENT_MSG_CHECK \
	FV_ASSERT(g.done ? (FV_FWD == C_TCP && buff[0] == PROXY_MSG_TYPE_TCP_CLOSE && n == 9) : \
		  (g.pending && n == 9 + (size_t)g.r), "one message for each arrival"); \
	if (!g.done) { \
		FV_ASSERT(buff[0] == (FV_FWD == C_TCP ? PROXY_MSG_TYPE_TCP_DATA : FV_FWD == C_CTL ? PROXY_MSG_TYPE_UDP_CONTROL : PROXY_MSG_TYPE_UDP_DATA), "message of the right type"); \
		FV_ASSERT(FV_FWD == C_TCP || le32(buff + 1) == g.src, "message carries the sender's address"); \
		FV_ASSERT(!(gc.k < (size_t)g.r) || buff[9 + gc.k] == g.v, "message carries the bytes that arrived"); \
		g.pending = 0; \
	}
#else
#define CLIENT_MSG_CHECK
#endif
int conn_send(struct conn_handle *c, const uint8_t *buff, size_t n)
{
	int r = IFC_ANY(conn_send);
	FV_ASSERT(__CPROVER_r_ok(buff, n), "what is sent is read inside the buffer");
	if (c == g_client) {
		FV_ASSERT(g.send_held == 2, "messages to the client are sent under the send lock");
		FV_ASSERT(n >= 9 && le32(buff + 5) == n - 9, "one complete message is sent to the client");
		CLIENT_MSG_CHECK
		g.msgs++;
		g.msg_type = buff[0];
		g.msg_addr = le32(buff + 1);
		g.msg_size = le32(buff + 5);
		if (n >= 13) {
			g.msg_pay[0] = buff[9]; g.msg_pay[1] = buff[10]; g.msg_pay[2] = buff[11]; g.msg_pay[3] = buff[12];
		}
		g.msg_failed = r;
		return r;
	}
	FV_ASSERT(which(c) == C_TCP && gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_DATA, "stream data goes to the client's TCP connection");
	FV_ASSERT(!g.peer_failed, "nothing is sent after the TCP connection failed");
	FV_ASSERT(g.off + n <= gc.total && g.off + n + 9 <= g.pos, "what is sent has been received");
	FV_ASSERT(!(gc.k >= g.off && gc.k - g.off < n) || buff[gc.k - g.off] == g.v, "the stream carries the bytes of the message");
	g.off += n;
	g.peer_failed = r;
	return r;
}
void conn_close(struct conn_handle *c)
{
	int w = which(c);
	FV_ASSERT(w >= 0, "only the client's own peer connections are closed");
	FV_ASSERT(g.send_held == 0, "closing waits for readers, so no lock is held");
	FV_ASSERT(g.client_held == 0, "closing waits for readers, so no lock is held");
#ifdef FV_FWD
	FV_ASSERT(w == FV_FWD, "a forwarder closes its own connection");
#endif
	g.open[w] = 0;
	if (g.closes[w] < 1000)
		g.closes[w]++;
}
void conn_drop(struct conn_handle *c)
{
	FV_ASSERT(c == g_client, "the client connection is dropped");
	FV_ASSERT(g.client_held != 0, "the client is looked at under its lock");
	g.dropped++;
}
int mutex_lock(struct mutex_handle *m)
{
	if (m == &g_priv->mutex_client_send) {
		FV_ASSERT(g.send_held == 0, "the send lock is not taken twice");
		g.send_held = 2;
	} else {
		FV_ASSERT(m == &g_priv->mutex_client && g.client_held == 0, "the client lock is not taken twice");
		FV_ASSERT(g.send_held == 0, "lock order");
		g.client_held = 2;
	}
	return 0;
}
int mutex_lock_shared(struct mutex_handle *m)
{
	if (m == &g_priv->mutex_client_send) {
		FV_ASSERT(g.send_held == 0, "the send lock is not taken twice");
		g.send_held = 1;
	} else {
		FV_ASSERT(m == &g_priv->mutex_client && g.client_held == 0, "the client lock is not taken twice");
		g.client_held = 1;
	}
	return 0;
}
int mutex_unlock(struct mutex_handle *m)
{
	if (m == &g_priv->mutex_client_send) {
		FV_ASSERT(g.send_held == 2, "the send lock is released by its owner");
		g.send_held = 0;
	} else {
		FV_ASSERT(m == &g_priv->mutex_client && g.client_held == 2, "the client lock is released by its owner");
		if (!g.taken && g_priv->conn_client != NULL)
			g.taken = 1;	/* proxy_conn_accept */
		if (g.taken && g_priv->conn_client == NULL) {
			FV_ASSERT(g.dropped, "the client connection is let go after it has been shut down");
			FV_ASSERT(!g.open[0] && !g.open[1] && !g.open[2], "the client connection is let go after the peer connections have been closed");
			FV_ASSERT(g.idle[0] && g.idle[1] && g.idle[2], "the client connection is let go after the forwarders have stopped");
			g.taken = 0;
		}
		g.client_held = 0;
	}
	return 0;
}
int mutex_unlock_shared(struct mutex_handle *m)
{
	if (m == &g_priv->mutex_client_send) {
		FV_ASSERT(g.send_held == 1, "the send lock is released by its owner");
		g.send_held = 0;
	} else {
		FV_ASSERT(m == &g_priv->mutex_client && g.client_held == 1, "the client lock is released by its owner");
		g.client_held = 0;
	}
	return 0;
}
int worker_wait_idle(struct worker_handle *w)
{
	int i = which_w(w);
	FV_ASSERT(i >= 0, "one of the client's forwarders");
	FV_ASSERT(g.client_held == 0 && g.send_held == 0, "no lock is held while waiting for a forwarder, which needs them");
	FV_ASSERT(!g.open[i], "a forwarder is waited for after its connection has been closed");
	g.idle[i] = 1;
	return IFC_ANY(worker_wait_idle);	/* fails when it is not running */
}
int worker_wake(struct worker_handle *w)
{
	int i = which_w(w);
	FV_ASSERT(i >= 0 && g.open[i], "a forwarder is started for an open connection");
	g.wakes++;
	if (nondet_bool()) {
		g.fail_ret = IFC_FAIL(worker_wake);
		return g.fail_ret;
	}
	g.woken |= 1 << i;
	g.idle[i] = 0;
	return 0;
}
int conn_listen(struct conn_handle *c)
{
	int i = which(c);
	FV_ASSERT(i == C_CTL || i == C_DATA, "UDP sockets are opened");
	FV_ASSERT(!g.open[i], "a socket is opened once");
	FV_ASSERT(g.client_held == 0, "no lock is held while opening a socket");
	g.listens++;
	if (nondet_bool()) {
		g.fail_ret = IFC_FAIL(conn_listen);
		return g.fail_ret;
	}
	g.open[i] = 1;
	return 0;
}

/* ------------------------------------------- messages from the client */
#define PC_FRESH(pc) (__CPROVER_pointer_equals(pc, &g_pc) && __CPROVER_pointer_equals(g_pc.priv, (void *)&g_po) && __CPROVER_pointer_equals(g_po.conn_client, &g_co))
#define QUIET (g.pos == 0 && g.off == 0 && !g.rx_failed && !g.peer_failed && !g.send_held && !g.client_held && g.msgs == 0 && g.connects == 0 && \
	g.woken == 0 && g.dropped == 0 && g.waits == 0 && g.rx_err == 0 && g.msg_failed == 0 && g.taken == 0 && \
	g.closes[0] == 0 && g.closes[1] == 0 && g.closes[2] == 0 && g.wakes == 0 && g.listens == 0 && g.pending == 0 && g.done == 0 && g.err == 0 && g.fail_ret == 0)
#define FV_INIT \
	g = (struct fv_pc_ghost){ 0 }; \
	g.open[0] = nondet_int(); g.open[1] = nondet_int(); g.open[2] = nondet_int(); \
	g.idle[0] = nondet_int(); g.idle[1] = nondet_int(); g.idle[2] = nondet_int()
#define SIZE_OF(h) ((h)[5] | (uint32_t)(h)[6] << 8 | (uint32_t)(h)[7] << 16 | (uint32_t)(h)[8] << 24)

#if defined(FV_RELAY) || defined(FV_OPEN)
int proxy_conn_process(struct proxy_conn_handle *pc)
__CPROVER_requires(PC_FRESH(pc) && QUIET)
__CPROVER_requires(gc.total == SIZE_OF(gc.hdr.b) && gc.k < ((size_t)1 << 40))
#ifdef FV_RELAY
__CPROVER_requires(gc.hdr.b[0] == FV_RELAY)
#else
#if FV_OPEN
__CPROVER_requires(gc.hdr.b[0] == FV_OPEN)
#else
__CPROVER_requires(gc.hdr.b[0] == 0 || gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_STATUS || gc.hdr.b[0] > PROXY_MSG_TYPE_UDP_CONTROL)
#endif
#endif
__CPROVER_assigns(g, g_errno, __CPROVER_object_whole(&g_po))
__CPROVER_ensures(g_po.conn_client == &g_co)
__CPROVER_ensures(g.send_held == 0 && g.client_held == 0)
/* R04: an error is reported exactly for a failure of the client connection or an invalid type */
#ifdef FV_RELAY
__CPROVER_ensures((__CPROVER_return_value < 0) == (g.rx_failed != 0))
__CPROVER_ensures(g.rx_failed ==> __CPROVER_return_value == g.rx_err)
/* R01: the whole message was consumed and every byte offered to the network, unless the stream failed */
__CPROVER_ensures(!g.rx_failed ==> g.pos == 9 + gc.total)
__CPROVER_ensures((!g.rx_failed && !g.peer_failed) ==> g.off == gc.total)
#if FV_RELAY == 2
__CPROVER_ensures((g.peer_failed && !g.rx_failed) ==> (g.open[C_TCP] == 0 && g.msgs == 1 && g.msg_type == PROXY_MSG_TYPE_TCP_CLOSE && g.msg_size == 0))
__CPROVER_ensures(!g.peer_failed ==> g.msgs == 0 && g.closes[C_TCP] == 0)
#else
__CPROVER_ensures(g.msgs == 0 && g.closes[0] == 0 && g.closes[1] == 0 && g.closes[2] == 0)
#endif
__CPROVER_ensures(g.dropped == 0)
#else
__CPROVER_ensures(g.rx_failed ==> (__CPROVER_return_value == g.rx_err && g.msgs == 0 && g.connects == 0))
__CPROVER_ensures((!g.rx_failed && gc.hdr.b[0] != PROXY_MSG_TYPE_TCP_OPEN && gc.hdr.b[0] != PROXY_MSG_TYPE_TCP_CLOSE) ==>
	(__CPROVER_return_value < 0 && g.msgs == 0 && g.connects == 0 && g.closes[C_TCP] == 0))
__CPROVER_ensures((!g.rx_failed && gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_CLOSE) ==>
	(__CPROVER_return_value == 0 && g.pos == 9 && g.connects == 0 && g.open[C_TCP] == 0))
/* R03: one status message, saying whether the connection is open now */
__CPROVER_ensures((!g.rx_failed && gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_OPEN) ==>
	(g.pos == 9 && g.connects == 1 && g.msgs == 1 && g.msg_type == PROXY_MSG_TYPE_TCP_STATUS && g.msg_size == 4 &&
	 (__CPROVER_return_value < 0) == (g.msg_failed != 0)))
__CPROVER_ensures((!g.rx_failed && gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_OPEN) ==>
	((g.msg_pay[0] == 0 && g.msg_pay[1] == 0 && g.msg_pay[2] == 0 && g.msg_pay[3] == 0) == (g.connect_ok && (g.woken & (1 << C_TCP)))))
__CPROVER_ensures((!g.rx_failed && gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_OPEN) ==> (g.open[C_TCP] != 0) == (g.connect_ok && (g.woken & (1 << C_TCP))))
__CPROVER_ensures(g.dropped == 0)
#endif
;
void h_proxy_conn_process(void)
{
	FV_INIT;
#ifdef FV_RELAY
	gc.hdr.b[0] = FV_RELAY;
#elif FV_OPEN
	gc.hdr.b[0] = FV_OPEN;
#endif
	int r = proxy_conn_process(&g_pc);
#ifdef FV_RELAY
	FV_CANARY_IF(r >= 0 && gc.total > 10000, "whole message");
	FV_CANARY_IF(r < 0 && g.pos > 5000, "failure inside");
#if FV_RELAY == 2
	FV_CANARY_IF(r >= 0 && g.peer_failed, "peer failed");
#endif
#else
#if FV_OPEN == 1
	FV_CANARY_IF(r >= 0 && g.connect_ok && g.open[C_TCP], "opened");
	FV_CANARY_IF(r >= 0 && g.connects && !g.connect_ok, "refused");
#elif FV_OPEN == 3
	FV_CANARY_IF(r == 0, "closed");
#else
	FV_CANARY_IF(r < 0 && gc.hdr.b[0] > 6, "invalid");
#endif
#endif
}
#endif

#if defined(FV_OPEN) && FV_OPEN == 1
/* the text of an address: four decimal octets */
static uint32_t fv_octet(unsigned v)	/* up to three characters and their number << 24 */
{
	uint32_t c2 = '0' + v / 100, c1 = '0' + v / 10 % 10, c0 = '0' + v % 10;
	return v >= 100 ? c2 | c1 << 8 | c0 << 16 | 3u << 24 : v >= 10 ? c1 | c0 << 8 | 2u << 24 : c0 | 1u << 24;
}
/* external: snprintf for the formats %hu, %hhu, %u, %d with values up to 255 */
int fv_snprintf(char *d, size_t n, const char *fmt, unsigned a0, unsigned a1, unsigned a2, unsigned a3)
{
	size_t o = 0;
	int i = 0, arg = 0;
	while (fmt[i] != 0) {
		if (fmt[i] == '%') {
			unsigned v = arg == 0 ? a0 : arg == 1 ? a1 : arg == 2 ? a2 : a3;
			uint32_t t;
			unsigned l, j;
			FV_ASSERT(arg < 4, "the model of snprintf takes four arguments");
			arg++;
			i++;
			while (fmt[i] == 'h')
				i++;
			FV_ASSERT(fmt[i] == 'u' || fmt[i] == 'd' || fmt[i] == 'i', "a format the model of snprintf knows");
			FV_ASSERT(v <= 255, "an octet is printed");
			t = fv_octet(v & 255);
			l = t >> 24;
			for (j = 0; j < 3; j++)
				if (j < l) {
					if (o + 1 < n)
						d[o] = (char)(t >> (8 * j));
					o++;
				}
		} else {
			if (o + 1 < n)
				d[o] = fmt[i];
			o++;
		}
		i++;
	}
	if (n > 0)
		d[o < n ? o : n - 1] = 0;
	return (int)o;
}
int conn_connect(struct conn_handle *c, const char *addr, const char *port)
{
	int n = 0, i;
	FV_ASSERT(which(c) == C_TCP, "the client's TCP connection is opened");
	FV_ASSERT(!g.open[C_TCP] && g.closes[C_TCP] >= 1, "an earlier TCP connection has been closed before");
	FV_ASSERT(g.idle[C_TCP], "the forwarder of an earlier TCP connection has stopped before");
	FV_ASSERT(gc.hdr.b[0] == PROXY_MSG_TYPE_TCP_OPEN, "a connection is opened on request only");
	for (i = 0; i < 4; i++) {
		uint32_t t = fv_octet(gc.hdr.b[1 + i]);
		unsigned l = t >> 24, j;
		for (j = 0; j < 3; j++)
			if (j < l)
				FV_ASSERT(addr[n + j] == (char)(t >> (8 * j)), "the connection goes to the address in the message");
		n += l;
		FV_ASSERT(addr[n] == (i < 3 ? '.' : 0), "the connection goes to the address in the message");
		n++;
	}
	FV_ASSERT(port[0] == '5' && port[1] == '2' && port[2] == '0' && port[3] == '0' && port[4] == 0, "the connection goes to port 5200");
	g.connects++;
	g.idle[C_TCP] = 1;
	if (nondet_bool()) {
		int r = IFC_FAIL(conn_connect);
		return r;
	}
	g.connect_ok = 1;
	g.open[C_TCP] = 1;
	return 0;
}
#else
#ifdef FV_OPEN
int fv_snprintf(char *d, size_t n, const char *fmt, unsigned a0, unsigned a1, unsigned a2, unsigned a3) { FV_ASSERT(0, "nothing is printed here"); return 0; }
#endif
int conn_connect(struct conn_handle *c, const char *addr, const char *port) { FV_ASSERT(0, "no connection is opened here"); return -1; }
#endif

/* ----------------------------------------------------------- forwarders */
#ifdef FV_FWD
int conn_recv_any(struct conn_handle *c, uint8_t *buff, size_t n, uint32_t *addr, uint16_t *port)
{
	int r = nondet_int();
	FV_ASSERT(which(c) == FV_FWD, "a forwarder reads its own connection");
	FV_ASSERT(!g.pending && !g.done && g.send_held == 0 && g.client_held == 0, "everything received before has been forwarded");
	FV_ASSERT(n >= 1 && n <= 4096 - 9 && __CPROVER_w_ok(buff, n), "what arrives fits the buffer and a message");
	FV_ASSUME(IFC_conn_recv_any(r, n));
	if (r < 0) {
		g.err = r;
		g.done = 1;
		return r;
	}
	g.r = r;
	g.pending = 1;
	g.src = nondet_uint32_t();
	if (addr != NULL)
		*addr = g.src;
	if (gc.k < (size_t)r)
		g.v = buff[gc.k];	/* arbitrary (havoced by the loop contract) */
	return r;
}
#define FORWARDER(fn) \
struct worker_handle g_wh; \
void fn(struct worker_handle *wh) \
__CPROVER_requires(__CPROVER_pointer_equals(wh, &g_wh) && PC_FRESH(g_wh.func_ctx) && QUIET) \
__CPROVER_requires(gc.k < ((size_t)1 << 40)) \
__CPROVER_assigns(g, g_errno) \
__CPROVER_ensures(g.send_held == 0 && g.client_held == 0 && g.pending == 0) \
__CPROVER_ensures(g.closes[FV_FWD] >= 1) \
__CPROVER_ensures((FV_FWD != C_TCP && g.done) ==> (g.dropped != 0) == !SILENT(g.err)) \
__CPROVER_ensures((FV_FWD == C_TCP && g.done) ==> g.dropped == 0) \
__CPROVER_ensures((FV_FWD == C_TCP && g.done) ==> g.msg_type == PROXY_MSG_TYPE_TCP_CLOSE) \
__CPROVER_ensures(!g.done ==> (g.msg_failed != 0 && (g.dropped != 0) == !SILENT(g.msg_failed))) \
; \
void h_##fn(void) \
{ \
	FV_INIT; \
	fn(&g_wh); \
	FV_CANARY_IF(g.done && !SILENT(g.err), "receiving failed"); \
	FV_CANARY_IF(g.done && !g.dropped, "silent end"); \
	FV_CANARY_IF(!g.done, "client failed"); \
}
#if FV_FWD == 0
FORWARDER(forwarder_control)
#elif FV_FWD == 1
FORWARDER(forwarder_data)
#else
FORWARDER(forwarder_tcp)
#endif
#else
int conn_recv_any(struct conn_handle *c, uint8_t *buff, size_t n, uint32_t *addr, uint16_t *port) { FV_ASSERT(0, "nothing else is read here"); return -1; }
#endif

/* ------------------------------------------------- session and life cycle */
#ifdef FV_LIFE
/* external resources: 0-2 connections, 3-4 locks, 5-7 workers, 8 the private data */
enum { L_CONN = 0, L_LOCK = 3, L_WORKER = 5, L_PRIV = 8 };
struct fv_life {
	int live[9], started[3], joined[3];
	int fail;		/* error of the call that failed */
	int join_fail;
} gl;
#define LIVE(n) (gl.live[0] == (n) && gl.live[1] == (n) && gl.live[2] == (n) && gl.live[3] == (n) && gl.live[4] == (n) && \
	gl.live[5] == (n) && gl.live[6] == (n) && gl.live[7] == (n) && gl.live[8] == (n))
static int fv_fail(void)
{
	if (nondet_bool()) {
		gl.fail = nondet_int();
		FV_ASSUME(gl.fail < 0 && gl.fail > -4096);
		return gl.fail;
	}
	return 0;
}
static int fv_acquire(int i)
{
	FV_ASSERT(i >= 0 && i < 9 && gl.live[L_PRIV], "a resource of this slot is acquired");
	FV_ASSERT(!gl.live[i], "a resource is acquired once");
	FV_ASSERT(gl.fail == 0, "nothing is acquired after a failure");
	if (fv_fail())
		return gl.fail;
	gl.live[i] = 1;
	return 0;
}
static void fv_release(int i)
{
	FV_ASSERT(i >= 0 && i < 9 && gl.live[L_PRIV], "a resource of this slot is released");
	gl.live[i] = 0;		/* releasing what was never acquired does nothing (contract of the callee) */
}
static int which_m(const struct mutex_handle *m) { return m == &g_priv->mutex_client ? 3 : m == &g_priv->mutex_client_send ? 4 : -1; }
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(s == sizeof(struct proxy_conn_priv) && n == 1 || n == sizeof(struct proxy_conn_priv) && s == 1, "the private data is allocated");
	FV_ASSERT(!gl.live[L_PRIV] && gl.fail == 0, "the private data is allocated once");
	if (nondet_bool()) {
		gl.fail = -ENOMEM;
		return NULL;
	}
	gl.live[L_PRIV] = 1;
	g_po = (struct proxy_conn_priv){ 0 };
	return &g_po;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == (void *)&g_po && gl.live[L_PRIV], "only what was allocated is released, once");
	FV_ASSERT(!gl.live[0] && !gl.live[1] && !gl.live[2] && !gl.live[3] && !gl.live[4] && !gl.live[5] && !gl.live[6] && !gl.live[7],
		  "the private data is released after everything in it");
	gl.live[L_PRIV] = 0;
}
int conn_init(struct conn_handle *c)
{
	int i = which(c);
	FV_ASSERT(i >= 0 && c->source_addr == g_pc.source_addr, "a peer connection is bound to the address of the slot");
	FV_ASSERT(c->type == (i == C_TCP ? CONN_TYPE_TCP : CONN_TYPE_UDP), "type of a peer connection");
	FV_ASSERT(c->source_port == (i == C_CTL ? g_pc.control_port : i == C_DATA ? g_pc.data_port : NULL), "a peer connection is bound to its port");
	return fv_acquire(L_CONN + i);
}
void conn_free(struct conn_handle *c)
{
	int i = which(c);
	fv_release(L_CONN + i);
}
int mutex_init(struct mutex_handle *m) { return fv_acquire(which_m(m)); }
void mutex_free(struct mutex_handle *m)
{
	FV_ASSERT(!gl.live[5] && !gl.live[6] && !gl.live[7], "a lock is released after the workers that use it");
	fv_release(which_m(m));
}
int worker_init(struct worker_handle *w)
{
	int i = which_w(w);
	FV_ASSERT(i >= 0 && w->func_ctx == (void *)&g_pc && w->func_ptr == (i == C_CTL ? forwarder_control : i == C_DATA ? forwarder_data : forwarder_tcp),
		  "a worker runs the forwarder of its connection");
	return fv_acquire(L_WORKER + i);
}
void worker_free(struct worker_handle *w)
{
	int i = which_w(w);
	fv_release(L_WORKER + i);
}
int worker_start(struct worker_handle *w)
{
	int i = which_w(w);
	FV_ASSERT(i >= 0 && gl.fail == 0, "forwarders are started until one fails");
	if (fv_fail())
		return gl.fail;
	gl.started[i] = 1;
	return 0;
}
int worker_join(struct worker_handle *w)
{
	int i = which_w(w);
	FV_ASSERT(i >= 0, "one of the slot's forwarders is joined");
	FV_ASSERT(g.client_held == 0 && g.send_held == 0, "no lock is held while joining a forwarder");
	FV_ASSERT(g_po.conn_client == NULL, "forwarders are joined after the session has ended");
	gl.joined[i] = 1;
	if (nondet_bool()) {
		int r = IFC_FAIL(worker_join);
		gl.join_fail = 1;
		return r;
	}
	return 0;
}

#define SLOT(pc) (__CPROVER_pointer_equals(pc, &g_pc) && __CPROVER_pointer_equals(g_pc.priv, (void *)&g_po) && \
	(g_po.conn_client == NULL || __CPROVER_pointer_equals(g_po.conn_client, &g_co)))
#define CLOSED3 (!g.open[0] && !g.open[1] && !g.open[2])
#define IDLE3 (g.idle[0] && g.idle[1] && g.idle[2])

#define FV_FINISH g.dropped, g.client_held, g.send_held, g.taken, g.waits, __CPROVER_object_upto(g.open, sizeof(g.open)), \
	__CPROVER_object_upto(g.idle, sizeof(g.idle)), __CPROVER_object_upto(g.closes, sizeof(g.closes))
void proxy_conn_drop(struct proxy_conn_handle *pc)
__CPROVER_requires(SLOT(pc) && g.client_held == 0 && g.send_held == 0)
__CPROVER_assigns(g.dropped, g.client_held)
__CPROVER_ensures(g.client_held == 0)
__CPROVER_ensures(g.dropped == __CPROVER_old(g.dropped) + (g_po.conn_client != NULL))
;
/* S02: the client connection is let go only after it was shut down, its peers
 * closed and the forwarders idle (checked where the lock is released) */
void proxy_conn_finish(struct proxy_conn_handle *pc)
__CPROVER_requires(SLOT(pc) && g.client_held == 0 && g.send_held == 0 && g.dropped == 0)
__CPROVER_requires(g.taken == (g_po.conn_client != NULL))
__CPROVER_assigns(FV_FINISH, g_po.conn_client)
__CPROVER_ensures(g_po.conn_client == NULL && g.taken == 0)
__CPROVER_ensures(g.client_held == 0 && g.send_held == 0)
__CPROVER_ensures((g.dropped != 0) == (__CPROVER_old(g_po.conn_client) != NULL))
__CPROVER_ensures(CLOSED3 && IDLE3)
;
int proxy_conn_in_use(struct proxy_conn_handle *pc)
__CPROVER_requires(SLOT(pc) && g.client_held == 0)
__CPROVER_assigns(g)
__CPROVER_ensures((__CPROVER_return_value != 0) == (g_po.conn_client != NULL) && g.client_held == 0 && g.dropped == 0)
;
int fv_same;		/* the text equals the callsign of the slot's last client */
size_t fv_len;		/* its length */
uint8_t fv_ro;		/* reconnect_only */
int proxy_conn_accept(struct proxy_conn_handle *pc, struct conn_handle *conn_client, const char *callsign, uint8_t reconnect_only)
__CPROVER_requires(SLOT(pc) && g.client_held == 0 && g.send_held == 0 && g.dropped == 0 && g.wakes == 0 && g.listens == 0 && g.woken == 0 && g.fail_ret == 0)
__CPROVER_requires(g.taken == (g_po.conn_client != NULL))
__CPROVER_requires(g_po.conn_client != NULL || (CLOSED3 && IDLE3))
__CPROVER_requires(__CPROVER_pointer_equals(conn_client, &g_co) && __CPROVER_is_fresh(callsign, 12) && fv_len <= 10 && callsign[fv_len] == 0)
__CPROVER_requires((fv_len <= 0 || callsign[0]) && (fv_len <= 1 || callsign[1]) && (fv_len <= 2 || callsign[2]) && (fv_len <= 3 || callsign[3]) && (fv_len <= 4 || callsign[4]) && \
	(fv_len <= 5 || callsign[5]) && (fv_len <= 6 || callsign[6]) && (fv_len <= 7 || callsign[7]) && (fv_len <= 8 || callsign[8]) && (fv_len <= 9 || callsign[9]))
__CPROVER_requires(g_po.callsign[11] == 0 && reconnect_only == fv_ro)
#define SAME(i) (fv_len < (i) || g_po.callsign[i] == callsign[i])
__CPROVER_requires((fv_same != 0) == (SAME(0) && SAME(1) && SAME(2) && SAME(3) && SAME(4) && SAME(5) && SAME(6) && SAME(7) && SAME(8) && SAME(9) && SAME(10)))
__CPROVER_assigns(g, g_po.conn_client, __CPROVER_object_upto(g_po.callsign, sizeof(g_po.callsign)))
__CPROVER_ensures(IFC_proxy_conn_accept(__CPROVER_return_value))
__CPROVER_ensures(g.client_held == 0 && g.send_held == 0)
/* S01: a slot in use, or reserved for another callsign, is never given away, and nothing changes */
__CPROVER_ensures((__CPROVER_old(g_po.conn_client) != NULL || (fv_ro && !fv_same)) ==>
	(__CPROVER_return_value < 0 && g_po.conn_client == __CPROVER_old(g_po.conn_client) && g.listens == 0 && g.wakes == 0 && g.dropped == 0))
__CPROVER_ensures((__CPROVER_old(g_po.conn_client) == NULL && (!fv_ro || fv_same)) ==>
	(__CPROVER_return_value < 0) == (g.fail_ret != 0))
__CPROVER_ensures(g.fail_ret != 0 ==> __CPROVER_return_value == g.fail_ret)
/* a session needs both sockets and both forwarders; a failed start leaves a free slot */
__CPROVER_ensures(__CPROVER_return_value >= 0 ==> (g_po.conn_client == &g_co && g.open[C_CTL] && g.open[C_DATA] && !g.open[C_TCP] &&
	g.woken == 3 && g.dropped == 0 && SAME(0) && SAME(1) && SAME(2) && SAME(3) && SAME(4) && SAME(5) && SAME(6) && SAME(7) && SAME(8) && SAME(9) && SAME(10)))
__CPROVER_ensures((__CPROVER_return_value < 0 && __CPROVER_old(g_po.conn_client) == NULL) ==> (g_po.conn_client == NULL && CLOSED3 && IDLE3 && (g.fail_ret == 0 || g.dropped)))
__CPROVER_ensures(g_po.callsign[11] == 0)
;
int proxy_conn_start(struct proxy_conn_handle *pc)
__CPROVER_requires(SLOT(pc) && g.client_held == 0 && g.send_held == 0 && g.dropped == 0 && gl.fail == 0 && !gl.join_fail && !gl.started[0] && !gl.started[1] && !gl.started[2])
__CPROVER_requires(g.taken == (g_po.conn_client != NULL))
__CPROVER_assigns(g, gl, g_po.conn_client)
/* a failed start leaves no forwarder running */
__CPROVER_ensures(IFC_proxy_conn_start(__CPROVER_return_value))
__CPROVER_ensures(gl.fail != 0 ==> (gl.joined[0] || !gl.started[0]) && (gl.joined[1] || !gl.started[1]) && (gl.joined[2] || !gl.started[2]))
__CPROVER_ensures(g.client_held == 0)
__CPROVER_ensures(__CPROVER_return_value == gl.fail)
__CPROVER_ensures(gl.fail == 0 ==> (gl.started[0] && gl.started[1] && gl.started[2]))
;
int proxy_conn_stop(struct proxy_conn_handle *pc)
__CPROVER_requires(SLOT(pc) && g.client_held == 0 && g.send_held == 0 && g.dropped == 0)
__CPROVER_requires(g.taken == (g_po.conn_client != NULL) && !gl.join_fail)
__CPROVER_assigns(FV_FINISH, gl.join_fail, __CPROVER_object_upto(gl.joined, sizeof(gl.joined)), g_po.conn_client)
__CPROVER_ensures(g_po.conn_client == NULL && CLOSED3 && IDLE3 && g.client_held == 0)
__CPROVER_ensures(gl.joined[0] && gl.joined[1] && gl.joined[2])
__CPROVER_ensures((__CPROVER_return_value < 0) == (gl.join_fail != 0) && __CPROVER_return_value <= 0)
;
int proxy_conn_init(struct proxy_conn_handle *pc)
__CPROVER_requires(__CPROVER_pointer_equals(pc, &g_pc) && g_pc.priv == NULL && LIVE(0) && gl.fail == 0)
__CPROVER_assigns(gl, g_pc.priv, __CPROVER_object_whole(&g_po))
__CPROVER_ensures(IFC_proxy_conn_init(__CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value == gl.fail)
__CPROVER_ensures(gl.fail == 0 ==> (LIVE(1) && g_pc.priv == (void *)&g_po && g_po.conn_client == NULL))
__CPROVER_ensures(gl.fail != 0 ==> (LIVE(0) && g_pc.priv == NULL))
;
void proxy_conn_free(struct proxy_conn_handle *pc)
__CPROVER_requires(__CPROVER_pointer_equals(pc, &g_pc) && (g_pc.priv == NULL || __CPROVER_pointer_equals(g_pc.priv, (void *)&g_po)))
__CPROVER_requires(g_po.conn_client == NULL || __CPROVER_pointer_equals(g_po.conn_client, &g_co))
__CPROVER_requires((g_pc.priv == NULL) ? LIVE(0) : LIVE(1))
__CPROVER_requires(g.client_held == 0 && g.send_held == 0 && g.dropped == 0 && g.taken == (g_pc.priv != NULL && g_po.conn_client != NULL) && !gl.join_fail)
__CPROVER_assigns(g, gl, g_pc.priv, __CPROVER_object_whole(&g_po))
__CPROVER_ensures(LIVE(0) && g_pc.priv == NULL)
;
#define LIFE_INIT FV_INIT; g.taken = nondet_int(); gl = (struct fv_life){ { 0 } }
void h_proxy_conn_drop(void) { LIFE_INIT; proxy_conn_drop(&g_pc); FV_CANARY_IF(g.dropped, "dropped"); FV_CANARY_IF(!g.dropped, "nobody to drop"); }
void h_proxy_conn_finish(void) { LIFE_INIT; proxy_conn_finish(&g_pc); FV_CANARY_IF(g.dropped, "session ended"); }
void h_proxy_conn_in_use(void) { LIFE_INIT; int r = proxy_conn_in_use(&g_pc); FV_CANARY_IF(r, "in use"); FV_CANARY_IF(!r, "free"); }
void h_proxy_conn_accept(void)
{
	struct conn_handle *c;
	const char *cs;
	LIFE_INIT;
	int r = proxy_conn_accept(&g_pc, c, cs, fv_ro);
	FV_CANARY_IF(r >= 0 && fv_ro, "reconnected");
	FV_CANARY_IF(r < 0 && g.dropped, "failed to start");
	FV_CANARY_IF(r < 0 && g.listens == 0, "busy");
}
void h_proxy_conn_start(void) { LIFE_INIT; int r = proxy_conn_start(&g_pc); FV_CANARY_IF(r < 0, "failed"); FV_CANARY_IF(r == 0, "started"); }
void h_proxy_conn_stop(void) { LIFE_INIT; int r = proxy_conn_stop(&g_pc); FV_CANARY_IF(r < 0, "failed"); FV_CANARY_IF(r == 0, "stopped"); }
void h_proxy_conn_init(void) { LIFE_INIT; int r = proxy_conn_init(&g_pc); FV_CANARY_IF(r < 0, "failed"); FV_CANARY_IF(r == 0, "initialised"); }
void h_proxy_conn_free(void)
{
	LIFE_INIT;
	gl.live[0] = gl.live[1] = gl.live[2] = gl.live[3] = gl.live[4] = gl.live[5] = gl.live[6] = gl.live[7] = gl.live[8] = nondet_bool();
	g_pc.priv = gl.live[8] ? &g_po : NULL;
	proxy_conn_free(&g_pc);
	FV_CANARY_IF(g.dropped, "freed during a session");
	FV_CANARY_IF(!gl.joined[0], "freed without initialisation");
}
#endif
