/* Contracts on conn.c: byte streams, datagrams, descriptors, text. */
#include "conn_ghost.h"
#define PRIV(c) ((struct conn_priv *)(c)->priv)

#ifdef FV_OB_h_conn_send
#define FV_LOOP_conn_send_0 \
	__CPROVER_assigns(g_tx_len, g_tx_v, g_errno, ret, buff_len, buff) \
	__CPROVER_loop_invariant(buff_len <= __CPROVER_loop_entry(buff_len)) \
	__CPROVER_loop_invariant(buff == __CPROVER_loop_entry(buff) + (__CPROVER_loop_entry(buff_len) - buff_len)) \
	__CPROVER_loop_invariant(!g_tx_on || g_tx_len - __CPROVER_loop_entry(g_tx_len) == __CPROVER_loop_entry(buff_len) - buff_len) \
	__CPROVER_loop_invariant(g_tx_on || (g_tx_len == __CPROVER_loop_entry(g_tx_len) && g_tx_v == __CPROVER_loop_entry(g_tx_v))) \
	__CPROVER_loop_invariant(g_tx_k >= __CPROVER_loop_entry(g_tx_len) || g_tx_v == __CPROVER_loop_entry(g_tx_v)) \
	__CPROVER_loop_invariant(!(g_tx_k >= __CPROVER_loop_entry(g_tx_len) && g_tx_k < g_tx_len) || \
		g_tx_v == __CPROVER_loop_entry(buff)[g_tx_k - __CPROVER_loop_entry(g_tx_len)]) \
	__CPROVER_decreases(buff_len)
#endif

#ifdef FV_OB_h_conn_recv
#define FV_LOOP_conn_recv_0 \
	__CPROVER_assigns(g_rx_pos, g_errno, g_empty, ret, bytes_read, buff_len, buff, __CPROVER_object_whole(g_buf)) \
	__CPROVER_loop_invariant(buff_len <= g_buf_len) \
	__CPROVER_loop_invariant(buff == g_buf + (g_buf_len - buff_len)) \
	__CPROVER_loop_invariant(bytes_read >= 0 && (size_t)bytes_read == g_buf_len - buff_len && ret == bytes_read) \
	__CPROVER_loop_invariant(!g_rx_on || g_rx_pos - __CPROVER_loop_entry(g_rx_pos) == g_buf_len - buff_len) \
	__CPROVER_loop_invariant(g_rx_on || g_rx_pos == __CPROVER_loop_entry(g_rx_pos)) \
	__CPROVER_loop_invariant(!(g_rx_on && g_rx_k >= __CPROVER_loop_entry(g_rx_pos) && g_rx_k < g_rx_pos) || \
		g_buf[g_rx_k - __CPROVER_loop_entry(g_rx_pos)] == g_rx_v) \
	__CPROVER_decreases(buff_len)
#endif

#ifdef FV_OB_h_conn_send_to
#define FV_LOOP_conn_send_to_0 \
	__CPROVER_assigns(g_dg_n, g_dg_len, g_dg_v, g_dg_stray, g_errno, ret, buff_len, buff) \
	__CPROVER_loop_invariant(buff_len == __CPROVER_loop_entry(buff_len) || buff_len == 0) \
	__CPROVER_loop_invariant(buff_len == 0 || buff == __CPROVER_loop_entry(buff)) \
	__CPROVER_loop_invariant(!g_dg_on || g_dg_len - __CPROVER_loop_entry(g_dg_len) == __CPROVER_loop_entry(buff_len) - buff_len) \
	__CPROVER_loop_invariant(!g_dg_on || g_dg_n - __CPROVER_loop_entry(g_dg_n) == (buff_len == __CPROVER_loop_entry(buff_len) ? 0 : 1)) \
	__CPROVER_loop_invariant(g_dg_on || (g_dg_len == __CPROVER_loop_entry(g_dg_len) && g_dg_n == __CPROVER_loop_entry(g_dg_n) && g_dg_v == __CPROVER_loop_entry(g_dg_v))) \
	__CPROVER_loop_invariant(!!g_dg_stray == (__CPROVER_loop_entry(g_dg_stray) || (g_dg_on && g_dg_len != __CPROVER_loop_entry(g_dg_len) && (addr != g_dg_addr || port != g_dg_port)))) \
	__CPROVER_loop_invariant((g_dg_k >= __CPROVER_loop_entry(g_dg_len) && g_dg_k < g_dg_len) || g_dg_v == __CPROVER_loop_entry(g_dg_v)) \
	__CPROVER_loop_invariant(!(g_dg_k >= __CPROVER_loop_entry(g_dg_len) && g_dg_k < g_dg_len) || \
		g_dg_v == __CPROVER_loop_entry(buff)[g_dg_k - __CPROVER_loop_entry(g_dg_len)]) \
	__CPROVER_decreases(buff_len)
#endif

/* only empty datagrams are skipped; termination depends on the sender */
#ifdef FV_OB_h_conn_recv_any
#define FV_LOOP_conn_recv_any_0 \
	__CPROVER_assigns(g_rx_pos, g_errno, ret, g_empty, PRIV(conn)->remote_addr, PRIV(conn)->remote_addr_len, __CPROVER_object_whole(g_buf)) \
	__CPROVER_loop_invariant(g_rx_pos == __CPROVER_loop_entry(g_rx_pos) && g_empty != 0)
#endif

/* coupling of the call under proof with the watched streams */
int g_tx_on, g_rx_on, g_dg_on;
int g_empty;		/* 1: every arrival so far was an empty datagram */
uint8_t *g_buf;
size_t g_buf_len, g_buf_loc;

#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include "fv_loop_defaults.h"
#include "conn.c"

/* ------------------------------------------------------------------ ghost */

struct conn_priv *g_p;	/* private part of the connection under proof */
struct conn_priv *g_p2;	/* listening connection of conn_accept */
int g_havoc;		/* other threads may act while the lock is not held */
/* lock ghosts, in one object so that the frame is one target */
struct fv_lock_ghost {
	int held, held2;	/* 0 none, 1 shared, 2 exclusive */
	int acq_fd, acq_conn, acq_sock;	/* values at the last acquisition */
	int rel_fd, rel_conn, rel_sock;	/* values at the last release */
	unsigned nacq;
	int shut_conn, shut_sock;	/* descriptors shut down since the last shared acquisition */
	int w_open;		/* the watched descriptor is open */
} gl;
#define g_held gl.held
#define g_held2 gl.held2
#define g_acq_fd gl.acq_fd
#define g_acq_conn gl.acq_conn
#define g_acq_sock gl.acq_sock
#define g_rel_fd gl.rel_fd
#define g_rel_conn gl.rel_conn
#define g_rel_sock gl.rel_sock
#define g_nacq gl.nacq
#define g_shut_conn gl.shut_conn
#define g_shut_sock gl.shut_sock
#define g_w_open gl.w_open
int g_type;		/* 1: descriptor of the connection is a byte stream */

/* descriptor ledger, kept for one arbitrary descriptor number g_w */
int g_w;
int g_w_other;

#define OWNS(p) ((p)->sock_fd == g_w || (p)->conn_fd == g_w)
#define FD_INV(p) ((p)->sock_fd >= -1 && (p)->conn_fd >= -1 && \
	((p)->fd == -1 || (p)->fd == (p)->sock_fd || (p)->fd == (p)->conn_fd) && \
	((p)->sock_fd == -1 || (p)->sock_fd != (p)->conn_fd))
/* the watched descriptor is open exactly when somebody owns it */
#define LEDGER(p) (g_w >= 0 && !(g_w_other && OWNS(p)) && g_w_open == (g_w_other || OWNS(p)))
#define INV(p) (FD_INV(p) && LEDGER(p))

/* -------------------------------------- external: lock module (mutex_posix) */
static void fv_acquired(void)
{
	if (g_havoc) {
		g_p->fd = nondet_int();
		g_p->conn_fd = nondet_int();
		g_p->sock_fd = nondet_int();
		g_w_open = nondet_bool() ? 1 : 0;
		FV_ASSUME(INV(g_p));
	}
	g_acq_fd = g_p->fd;
	g_acq_conn = g_p->conn_fd;
	g_acq_sock = g_p->sock_fd;
	g_nacq++;
}

static void fv_release(void)
{
	FV_ASSERT(FD_INV(g_p), "descriptor fields are consistent when the connection lock is released");
	g_rel_fd = g_p->fd;
	g_rel_conn = g_p->conn_fd;
	g_rel_sock = g_p->sock_fd;
}

int mutex_lock(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_p->mutex, "a connection takes its own lock");
	FV_ASSERT(g_held == 0, "exclusive lock not requested while holding the lock (self-deadlock)");
	fv_acquired();
	g_held = 2;
	return 0;
}

int mutex_unlock(struct mutex_handle *m)
{
	FV_ASSERT(m == &g_p->mutex && g_held == 2, "exclusive lock released only by its holder");
	fv_release();
	g_held = 0;
	return 0;
}

int mutex_lock_shared(struct mutex_handle *m)
{
	if (g_p2 != NULL && m == &g_p2->mutex) {
		FV_ASSERT(g_held2 == 0, "listener lock not nested");
		g_held2 = 1;
		return 0;
	}
	FV_ASSERT(m == &g_p->mutex, "a connection takes its own lock");
	FV_ASSERT(g_held == 0, "shared lock not nested");
	fv_acquired();
	g_shut_conn = g_shut_sock = 0;
	g_held = 1;
	return 0;
}

int mutex_unlock_shared(struct mutex_handle *m)
{
	if (g_p2 != NULL && m == &g_p2->mutex) {
		FV_ASSERT(g_held2 == 1, "listener lock released only by its holder");
		g_held2 = 0;
		return 0;
	}
	FV_ASSERT(m == &g_p->mutex && g_held == 1, "shared lock released only by its holder");
	fv_release();
	g_held = 0;
	return 0;
}

int g_mutex_live;
int mutex_init(struct mutex_handle *m)
{
	int r = nondet_int();
	FV_ASSUME(IFC_mutex_init(r));
	if (r == 0)
		g_mutex_live++;
	return r;
}

void mutex_free(struct mutex_handle *m)
{
	FV_ASSERT(g_held == 0, "lock not destroyed while held");
	g_mutex_live--;
}

/* ------------------------------------------------ external: operating system */
#define FD_USE(x) FV_ASSERT((x) >= 0 && ((x) != g_w || g_w_open), "system call on an open descriptor")

/* position of a pointer into the caller's buffer g_buf[0..g_buf_len) */
#define FV_OFF(b) ((size_t)(__CPROVER_POINTER_OFFSET(b) - __CPROVER_POINTER_OFFSET(g_buf)))
#define FV_IN_BUF(b, n) (__CPROVER_same_object(b, g_buf) && FV_OFF(b) <= g_buf_len && (n) <= g_buf_len - FV_OFF(b))

static int fv_fail(void)
{
	g_errno = nondet_int();
	FV_ASSUME(g_errno > 0 && g_errno < 4096);
	return -1;
}

int socket(int d, int t, int p)
{
	int r = nondet_int();
	FV_ASSUME(r >= -1);
	FV_ASSUME(r != g_w || !g_w_open);
	FV_ASSUME(r == -1 || (r != g_p->sock_fd && r != g_p->conn_fd));
	if (r == -1)
		return fv_fail();
	if (r == g_w)
		g_w_open = 1;
	return r;
}

int close(int fd)
{
	FD_USE(fd);
	FV_ASSERT(g_held != 1, "descriptor not closed while only the shared lock is held");
	if (fd == g_w) {
		FV_ASSERT(!g_w_other, "only descriptors of this connection are closed");
		g_w_open = 0;
	}
	return 0;
}

int shutdown(int fd, int how)
{
	FD_USE(fd);
	FV_ASSERT(how == SHUT_RDWR, "both directions are shut down");
	if (g_held == 1 && fd == g_acq_conn)
		g_shut_conn = 1;
	if (g_held == 1 && fd == g_acq_sock)
		g_shut_sock = 1;
	return 0;
}

unsigned g_rcvtimeo_set;
long g_to_sec, g_to_usec;
int g_to_fd;
int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
	FD_USE(fd);
	FV_ASSERT(__CPROVER_r_ok(val, len), "option value readable");
	if (nondet_bool())
		return fv_fail();
	if (level == SOL_SOCKET && name == SO_RCVTIMEO) {
		FV_ASSERT(len == sizeof(struct timeval), "receive timeout has the right size");
		g_rcvtimeo_set++;
		g_to_fd = fd;
		g_to_sec = ((const struct timeval *)val)->tv_sec;
		g_to_usec = ((const struct timeval *)val)->tv_usec;
	}
	return 0;
}

ssize_t send(int fd, const void *b, size_t n, int flags)
{
	int r = nondet_int();
	FD_USE(fd);
	FV_ASSERT(g_held >= 1 && fd == g_p->fd, "data sent only on the connection's own active descriptor, under its lock");
	FV_ASSERT(flags & MSG_NOSIGNAL, "a broken connection must not raise a signal");
	FV_ASSERT(FV_IN_BUF(b, n), "only bytes of the buffer are sent");
	FV_ASSUME(r >= -1 && (r < 0 || (size_t)r <= n));
	if (r == -1)
		return fv_fail();
	if (r == 0)
		return 0;
	if (g_tx_on) {
		if (g_tx_k >= g_tx_len && g_tx_k - g_tx_len < (size_t)r)
			g_tx_v = g_buf[FV_OFF(b) + (g_tx_k - g_tx_len)];
		g_tx_len += (size_t)r;
	}
	return r;
}

/* datagram sockets: all of the datagram or nothing */
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *to, socklen_t tolen)
{
	const struct sockaddr_in *a = (const struct sockaddr_in *)to;
	FD_USE(fd);
	FV_ASSERT(g_held >= 1 && fd == g_p->fd, "data sent only on the connection's own active descriptor, under its lock");
	FV_ASSERT(flags & MSG_NOSIGNAL, "a broken connection must not raise a signal");
	FV_ASSERT(FV_IN_BUF(b, n), "only bytes of the buffer are sent");
	FV_ASSERT(to != NULL && tolen == sizeof(struct sockaddr_in) && a->sin_family == AF_INET, "an IPv4 destination is given");
	if (nondet_bool())
		return fv_fail();
	if (nondet_bool())
		return 0;
	if (g_dg_on) {
		if (g_dg_k >= g_dg_len && g_dg_k - g_dg_len < n)
			g_dg_v = g_buf[FV_OFF(b) + (g_dg_k - g_dg_len)];
		g_dg_n++;
		g_dg_len += n;
		if (a->sin_addr.s_addr != g_dg_addr || a->sin_port != (uint16_t)((g_dg_port << 8) | (g_dg_port >> 8)))
			g_dg_stray = 1;
	}
	return (ssize_t)n;
}

uint32_t g_from_addr;
uint16_t g_from_port;	/* host order */
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *from, socklen_t *fromlen)
{
	int r = nondet_int();
	FD_USE(fd);
	FV_ASSERT(g_held >= 1 && fd == g_p->fd, "data received only from the connection's own active descriptor, under its lock");
	FV_ASSERT(flags == 0, "received data is consumed");
	FV_ASSERT(FV_IN_BUF(b, n), "received data stays inside the buffer");
	FV_ASSUME(r >= -1 && (r < 0 || (size_t)r <= n));
	if (r != 0 || g_type)
		g_empty = 0;
	if (r == -1)
		return fv_fail();
	/* The received bytes overwrite b[0..r).  The contracts read the buffer at
	 * one location only, that of the watched byte, and the initial content of
	 * the buffer is arbitrary, so only that location needs a new value. */
	if (r > 0 && g_buf_loc < g_buf_len && FV_OFF(b) <= g_buf_loc && g_buf_loc - FV_OFF(b) < (size_t)r)
		g_buf[g_buf_loc] = nondet_uint8_t();
	if (from != NULL) {
		FV_ASSERT(fromlen != NULL && *fromlen >= sizeof(struct sockaddr_in), "room for the source address");
		if (g_type) {
			/* connected byte stream: no source address is reported */
			*fromlen = 0;
		} else {
			/* the end of a socket that was shut down has no sender */
			if (r == 0 && nondet_bool()) {
				*fromlen = 0;
				g_empty = 0;
				return 0;
			}
			((struct sockaddr_in *)from)->sin_family = AF_INET;
			((struct sockaddr_in *)from)->sin_addr.s_addr = g_from_addr;
			((struct sockaddr_in *)from)->sin_port = (uint16_t)((g_from_port << 8) | (g_from_port >> 8));
			*fromlen = sizeof(struct sockaddr_in);
		}
	}
	if (g_rx_on && r > 0) {
		if (g_rx_k >= g_rx_pos && g_rx_k - g_rx_pos < (size_t)r)
			g_buf[FV_OFF(b) + (g_rx_k - g_rx_pos)] = g_rx_v;
		g_rx_pos += (size_t)r;
	}
	return r;
}

#define LOCK_GHOST gl
#define FD_FIELDS(c) PRIV(c)->fd, PRIV(c)->conn_fd, PRIV(c)->sock_fd
#define CONN_FRESH(c) (__CPROVER_is_fresh(c, sizeof(struct conn_handle)) && \
	__CPROVER_is_fresh((c)->priv, sizeof(struct conn_priv)) && \
	__CPROVER_pointer_equals(g_p, (c)->priv) && g_held == 0 && g_p2 == NULL && INV(PRIV(c)))

/* ---------------------------------------------------------------- conn_send */
int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_requires(buff_len <= FV_IO_MAX && __CPROVER_is_fresh(buff, buff_len))
__CPROVER_requires(__CPROVER_pointer_equals(g_buf, (uint8_t *)buff) && g_buf_len == buff_len)
__CPROVER_requires(g_tx_on == (conn == g_tx_conn) && g_tx_len < FV_POS_MAX)
__CPROVER_assigns(g_tx_len, g_tx_v, g_errno, LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(IFC_conn_send(__CPROVER_return_value))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(CONN_SEND_POST(conn, buff, buff_len, __CPROVER_return_value, __CPROVER_old(g_tx_len), __CPROVER_old(g_tx_v)))
__CPROVER_ensures(conn->type != CONN_TYPE_TCP ==> __CPROVER_return_value == -EPROTOTYPE)
__CPROVER_ensures((conn->type == CONN_TYPE_TCP && g_acq_fd == -1) ==> __CPROVER_return_value == -ENOTCONN)
__CPROVER_ensures((conn->type == CONN_TYPE_TCP && g_acq_fd != -1 && buff_len == 0) ==> __CPROVER_return_value == 0)
;
#ifdef FV_OB_h_conn_send
void h_conn_send(void)
{
	struct conn_handle *c; const uint8_t *b; size_t n;
	int r = conn_send(c, b, n);
	FV_CANARY_IF(r == 0 && g_tx_on && n > 5, "success");
	FV_CANARY_IF(r < 0 && g_tx_on && g_tx_len > 3, "failure after a prefix");
}
#endif

/* ---------------------------------------------------------------- conn_recv */
int conn_recv(struct conn_handle *conn, uint8_t *buff, size_t buff_len)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_requires(buff_len <= FV_IO_MAX && __CPROVER_is_fresh(buff, buff_len))
__CPROVER_requires(__CPROVER_pointer_equals(g_buf, buff) && g_buf_len == buff_len && g_buf_loc == g_rx_k - g_rx_pos)
__CPROVER_requires(g_rx_on == (conn == g_rx_conn) && g_rx_pos < FV_POS_MAX)
__CPROVER_assigns(g_rx_pos, g_errno, g_empty, LOCK_GHOST, FD_FIELDS(conn), __CPROVER_object_whole(buff))
__CPROVER_ensures(IFC_conn_recv(__CPROVER_return_value, buff_len))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(CONN_RECV_POST(conn, buff, buff_len, __CPROVER_return_value, __CPROVER_old(g_rx_pos)))
__CPROVER_ensures(conn->type != CONN_TYPE_TCP ==> __CPROVER_return_value == -EPROTOTYPE)
__CPROVER_ensures((conn->type == CONN_TYPE_TCP && g_acq_fd == -1) ==> __CPROVER_return_value == -ENOTCONN)
;
#ifdef FV_OB_h_conn_recv
void h_conn_recv(void)
{
	struct conn_handle *c; uint8_t *b; size_t n;
	int r = conn_recv(c, b, n);
	FV_CANARY_IF(r > 5 && g_rx_on, "success");
	FV_CANARY_IF(r < 0 && g_rx_on && g_rx_pos > 3, "failure after a prefix");
}
#endif

/* ------------------------------------------------------------ conn_recv_any */
int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len, uint32_t *addr, uint16_t *port)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_requires(buff_len > 0 && buff_len <= FV_IO_MAX && __CPROVER_is_fresh(buff, buff_len))
__CPROVER_requires(__CPROVER_pointer_equals(g_buf, buff) && g_buf_len == buff_len && g_buf_loc == g_rx_k - g_rx_pos)
__CPROVER_requires(addr == NULL || __CPROVER_is_fresh(addr, sizeof(*addr)))
__CPROVER_requires(port == NULL || __CPROVER_is_fresh(port, sizeof(*port)))
__CPROVER_requires(conn->type == CONN_TYPE_TCP || conn->type == CONN_TYPE_UDP)
__CPROVER_requires(g_type == (conn->type == CONN_TYPE_TCP) && g_empty == 1)
__CPROVER_requires(g_rx_on == (conn == g_rx_conn) && g_rx_pos < FV_POS_MAX)
__CPROVER_assigns(g_rx_pos, g_errno, g_empty, LOCK_GHOST, FD_FIELDS(conn), PRIV(conn)->remote_addr, PRIV(conn)->remote_addr_len)
__CPROVER_assigns(__CPROVER_object_whole(buff))
__CPROVER_assigns(addr != NULL: *addr; port != NULL: *port)
__CPROVER_ensures(IFC_conn_recv_any(__CPROVER_return_value, buff_len))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(CONN_RECV_ANY_POST(conn, buff, buff_len, __CPROVER_return_value, __CPROVER_old(g_rx_pos)))
__CPROVER_ensures(g_acq_fd == -1 ==> __CPROVER_return_value == -ENOTCONN)
/* a datagram without payload neither is data nor ends the reception */
__CPROVER_ensures(g_acq_fd != -1 ==> g_empty == 0)
__CPROVER_ensures((conn->type == CONN_TYPE_UDP && __CPROVER_return_value > 0 && addr != NULL) ==> *addr == g_from_addr)
__CPROVER_ensures((conn->type == CONN_TYPE_UDP && __CPROVER_return_value > 0 && port != NULL) ==> *port == g_from_port)
;
#ifdef FV_OB_h_conn_recv_any
void h_conn_recv_any(void)
{
	struct conn_handle *c; uint8_t *b; size_t n; uint32_t *a; uint16_t *p;
	int r = conn_recv_any(c, b, n, a, p);
	FV_CANARY_IF(r > 5 && g_rx_on && a != NULL && p != NULL && !g_type, "datagram");
	FV_CANARY_IF(r == -EPIPE, "end of stream");
}
#endif

/* ------------------------------------------------------------- conn_send_to */
int conn_send_to(struct conn_handle *conn, const uint8_t *buff, size_t buff_len, uint32_t addr, uint16_t port)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_requires(buff_len <= FV_IO_MAX && __CPROVER_is_fresh(buff, buff_len))
__CPROVER_requires(__CPROVER_pointer_equals(g_buf, (uint8_t *)buff) && g_buf_len == buff_len)
__CPROVER_requires(g_dg_on == (conn == g_dg_conn) && g_dg_len < FV_POS_MAX && g_dg_n < FV_POS_MAX)
__CPROVER_assigns(g_dg_n, g_dg_len, g_dg_v, g_dg_stray, g_errno, LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(IFC_conn_send_to(__CPROVER_return_value))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(CONN_SEND_TO_POST(conn, buff, buff_len, addr, port, __CPROVER_return_value, __CPROVER_old(g_dg_n), \
	__CPROVER_old(g_dg_len), __CPROVER_old(g_dg_v), __CPROVER_old(g_dg_stray)))
__CPROVER_ensures(conn->type != CONN_TYPE_UDP ==> __CPROVER_return_value == -EPROTOTYPE)
__CPROVER_ensures((conn->type == CONN_TYPE_UDP && g_acq_fd == -1) ==> __CPROVER_return_value == -ENOTCONN)
;
#ifdef FV_OB_h_conn_send_to
void h_conn_send_to(void)
{
	struct conn_handle *c; const uint8_t *b; size_t n; uint32_t a; uint16_t p;
	int r = conn_send_to(c, b, n, a, p);
	FV_CANARY_IF(r == 0 && g_dg_on && n > 5 && !g_dg_stray, "success");
	FV_CANARY_IF(r < 0 && g_dg_on && n > 3, "failure");
}
#endif

/* ------------------------------------------------- descriptors: conn_listen */
int g_gai_left;
/* which lookup produced which address */
struct fv_gai { unsigned n; const struct addrinfo *res[2]; const struct sockaddr *addr[2]; const char *node[2], *svc[2]; int passive[2]; } gg;
const char *g_want_src, *g_want_srcport, *g_want_dst, *g_want_dstport;
static int fv_zero_port(const char *s) { return s[0] == '0' && s[1] == 0; }
static int fv_is_source(unsigned i)
{
	return gg.node[i] == g_want_src && gg.passive[i] && (g_want_srcport != NULL ? gg.svc[i] == g_want_srcport : fv_zero_port(gg.svc[i]));
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res)
{
	struct addrinfo *a;
	FV_ASSERT(hints != NULL && svc != NULL, "address lookup has hints and a service");
	if (nondet_bool())
		return nondet_bool() ? 1 : -2;
	a = malloc(sizeof(*a));
	FV_ASSUME(a != NULL);
	a->ai_family = hints->ai_family == AF_UNSPEC ? (nondet_bool() ? AF_INET : AF_INET6) : hints->ai_family;
	a->ai_socktype = hints->ai_socktype;
	a->ai_addrlen = nondet_uint();
	FV_ASSUME(a->ai_addrlen <= 128);
	a->ai_addr = nondet_ptr();
	FV_ASSERT(gg.n < 2, "at most two address lookups");
	FV_ASSUME(gg.n == 0 || a->ai_addr != gg.addr[0]);
	gg.res[gg.n] = a;
	gg.addr[gg.n] = a->ai_addr;
	gg.node[gg.n] = node;
	gg.svc[gg.n] = svc;
	gg.passive[gg.n] = (hints->ai_flags & AI_PASSIVE) != 0;
	gg.n++;
	g_gai_left++;
	*res = a;
	return 0;
}
void freeaddrinfo(struct addrinfo *a)
{
	FV_ASSERT(a != NULL, "address list to free");
	g_gai_left--;
	free(a);
}
int g_bind_fd, g_listen_fd, g_connect_fd, g_listens;
int bind(int fd, const struct sockaddr *a, socklen_t l)
{
	FD_USE(fd);
	FV_ASSERT((gg.n > 0 && a == gg.addr[0] && fv_is_source(0)) || (gg.n > 1 && a == gg.addr[1] && fv_is_source(1)),
		  "bound to the configured source address and port");
	if (nondet_bool())
		return fv_fail();
	g_bind_fd = fd;
	return 0;
}
int listen(int fd, int backlog)
{
	FD_USE(fd);
	FV_ASSERT(g_type, "only a stream socket listens");
	if (nondet_bool())
		return fv_fail();
	g_listens++;
	return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
	FD_USE(fd);
	FV_ASSERT((gg.n > 0 && a == gg.addr[0] && gg.node[0] == g_want_dst && gg.svc[0] == g_want_dstport) ||
		  (gg.n > 1 && a == gg.addr[1] && gg.node[1] == g_want_dst && gg.svc[1] == g_want_dstport),
		  "connected to the requested address and port");
	FV_ASSERT(g_bind_fd == fd, "bound to the source address before connecting");
	if (nondet_bool())
		return fv_fail();
	return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
	int r = nondet_int();
	FV_ASSERT(g_held2 == 1, "listener descriptor used under the listener's lock");
	FV_ASSERT(fd == g_p2->sock_fd, "accepts on the listening descriptor");
	FV_ASSERT(*l >= sizeof(struct sockaddr_in6), "room for the peer address");
	FV_ASSUME(r >= -1);
	FV_ASSUME(r != g_w || !g_w_open);
	if (r == -1)
		return fv_fail();
	FV_ASSUME(r != g_p->sock_fd && r != g_p2->sock_fd && r != g_p2->conn_fd);
	if (r == g_w)
		g_w_open = 1;
	return r;
}

#define PEQ(a, b) ((b) == NULL ? (a) == NULL : __CPROVER_pointer_equals(a, (char *)(b)))
/* Opening is done by one thread on a closed connection. */
int conn_listen(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 0 && g_gai_left == 0 && g_listens == 0)
__CPROVER_requires(PRIV(conn)->sock_fd == -1 && PRIV(conn)->conn_fd == -1 && PRIV(conn)->fd == -1)
__CPROVER_requires(conn->source_addr == NULL || __CPROVER_is_fresh(conn->source_addr, 16))
__CPROVER_requires(conn->source_port == NULL || __CPROVER_is_fresh(conn->source_port, 6))
__CPROVER_requires(gg.n == 0 && g_bind_fd == -1 && PEQ(g_want_src, conn->source_addr) && PEQ(g_want_srcport, conn->source_port))
__CPROVER_requires(g_type == (conn->type == CONN_TYPE_TCP))
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(conn), g_gai_left, gg, g_bind_fd, g_listens)
__CPROVER_ensures(IFC_conn_listen(__CPROVER_return_value))
__CPROVER_ensures(g_held == 0 && INV(PRIV(conn)) && g_gai_left == 0)
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (PRIV(conn)->fd >= 0 && PRIV(conn)->fd == PRIV(conn)->sock_fd && g_bind_fd == PRIV(conn)->fd))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> g_listens == (conn->type == CONN_TYPE_TCP ? 1 : 0))
__CPROVER_ensures(__CPROVER_return_value < 0 ==> (PRIV(conn)->fd == -1 && PRIV(conn)->sock_fd == -1))
__CPROVER_ensures(PRIV(conn)->conn_fd == -1)
;
#ifdef FV_OB_h_conn_listen
void h_conn_listen(void)
{
	struct conn_handle *c;
	int r = conn_listen(c);
	FV_CANARY_IF(r == 0 && g_w_open && !g_w_other, "success");
	FV_CANARY_IF(r < 0, "failure");
}
#endif

int conn_connect(struct conn_handle *conn, const char *addr, const char *port)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 0 && g_gai_left == 0)
__CPROVER_requires(PRIV(conn)->sock_fd == -1 && PRIV(conn)->conn_fd == -1 && PRIV(conn)->fd == -1)
__CPROVER_requires(__CPROVER_is_fresh(addr, 16) && __CPROVER_is_fresh(port, 6))
__CPROVER_requires(PEQ(g_want_dst, addr) && PEQ(g_want_dstport, port))
__CPROVER_requires(conn->source_addr == NULL || __CPROVER_is_fresh(conn->source_addr, 16))
__CPROVER_requires(conn->source_port == NULL || __CPROVER_is_fresh(conn->source_port, 6))
__CPROVER_requires(gg.n == 0 && g_bind_fd == -1 && PEQ(g_want_src, conn->source_addr) && PEQ(g_want_srcport, conn->source_port))
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(conn), g_gai_left, gg, g_bind_fd)
__CPROVER_ensures(IFC_conn_connect(__CPROVER_return_value))
__CPROVER_ensures(g_held == 0 && INV(PRIV(conn)) && g_gai_left == 0)
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures(conn->type != CONN_TYPE_TCP ==> __CPROVER_return_value == -EPROTOTYPE)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (PRIV(conn)->fd >= 0 && PRIV(conn)->fd == PRIV(conn)->sock_fd))
__CPROVER_ensures(__CPROVER_return_value < 0 ==> (PRIV(conn)->fd == -1 && PRIV(conn)->sock_fd == -1))
__CPROVER_ensures(PRIV(conn)->conn_fd == -1)
;
#ifdef FV_OB_h_conn_connect
void h_conn_connect(void)
{
	struct conn_handle *c; const char *a, *p;
	int r = conn_connect(c, a, p);
	FV_CANARY_IF(r == 0 && g_w_open && !g_w_other, "success");
	FV_CANARY_IF(r < 0, "failure");
}
#endif

int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
__CPROVER_requires(__CPROVER_is_fresh(conn, sizeof(*conn)) && __CPROVER_is_fresh(conn->priv, sizeof(struct conn_priv)))
__CPROVER_requires(__CPROVER_is_fresh(accepted, sizeof(*accepted)) && __CPROVER_is_fresh(accepted->priv, sizeof(struct conn_priv)))
__CPROVER_requires(__CPROVER_pointer_equals(g_p, accepted->priv) && __CPROVER_pointer_equals(g_p2, conn->priv))
__CPROVER_requires(g_held == 0 && g_held2 == 0 && g_havoc == 0 && INV(PRIV(accepted)) && FD_INV(PRIV(conn)))
__CPROVER_requires((PRIV(conn)->sock_fd == g_w || PRIV(conn)->conn_fd == g_w) ==> (g_w_open && g_w_other))
__CPROVER_requires(PRIV(accepted)->sock_fd == -1 && PRIV(accepted)->conn_fd == -1 && PRIV(accepted)->fd == -1)
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(accepted), PRIV(accepted)->remote_addr, PRIV(accepted)->remote_addr_len)
__CPROVER_ensures(IFC_conn_accept(__CPROVER_return_value))
__CPROVER_ensures(g_held == 0 && g_held2 == 0 && INV(PRIV(accepted)))
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (PRIV(accepted)->fd >= 0 && PRIV(accepted)->fd == PRIV(accepted)->conn_fd))
__CPROVER_ensures(__CPROVER_return_value < 0 ==> (PRIV(accepted)->fd == -1 && PRIV(accepted)->conn_fd == -1))
__CPROVER_ensures(PRIV(accepted)->sock_fd == -1)
;
#ifdef FV_OB_h_conn_accept
void h_conn_accept(void)
{
	struct conn_handle *c, *a;
	int r = conn_accept(c, a);
	FV_CANARY_IF(r == 0 && g_w_open && !g_w_other, "success");
	FV_CANARY_IF(r < 0, "failure");
}
#endif

/* ------------------------------------------- conn_drop / conn_close / others */
void conn_drop(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0 && g_rel_conn == -2)
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(g_held == 0)
/* afterwards nothing can be sent or received, and the accepted descriptor is closed;
 * the listening descriptor stays as it was */
__CPROVER_ensures(g_rel_fd == -1 && g_rel_conn == -1 && g_rel_sock == g_acq_sock && INV(PRIV(conn)))
;
#ifdef FV_OB_h_conn_drop
void h_conn_drop(void)
{
	struct conn_handle *c;
	conn_drop(c);
	FV_CANARY_IF(g_nacq == 2 && g_acq_conn == g_w && !g_w_open, "closed");
	FV_CANARY_IF(g_nacq == 1, "nothing to do");
}
#endif

void conn_close(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(g_rel_fd == -1 && g_rel_conn == -1 && g_rel_sock == -1 && INV(PRIV(conn)))
;
#ifdef FV_OB_h_conn_close
void h_conn_close(void)
{
	struct conn_handle *c;
	conn_close(c);
	FV_CANARY_IF(g_acq_conn == g_w && !g_w_open, "closed accepted");
	FV_CANARY_IF(g_acq_sock == g_w && !g_w_open, "closed socket");
}
#endif

void conn_shutdown(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_assigns(g_errno, LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(g_held == 0)
__CPROVER_ensures(g_rel_fd == g_acq_fd && g_rel_conn == g_acq_conn && g_rel_sock == g_acq_sock && INV(PRIV(conn)))
__CPROVER_ensures((g_acq_conn != -1 ==> g_shut_conn) && (g_acq_sock != -1 ==> g_shut_sock))
;
#ifdef FV_OB_h_conn_shutdown
void h_conn_shutdown(void)
{
	struct conn_handle *c;
	conn_shutdown(c);
	FV_CANARY_IF(g_shut_conn && g_shut_sock, "both");
}
#endif

int conn_set_timeout(struct conn_handle *conn, uint32_t msec)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 0 && g_nacq == 0 && g_rcvtimeo_set == 0)
__CPROVER_requires(PRIV(conn)->sock_fd >= 0)
__CPROVER_assigns(g_errno, LOCK_GHOST, g_rcvtimeo_set, g_to_fd, g_to_sec, g_to_usec)
__CPROVER_ensures(g_held == 0 && __CPROVER_return_value <= 0)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (g_rcvtimeo_set == 1 && g_to_fd == PRIV(conn)->sock_fd && \
	g_to_sec == (long)(msec / 1000) && g_to_usec == (long)((msec % 1000) * 1000)))
;
#ifdef FV_OB_h_conn_set_timeout
void h_conn_set_timeout(void)
{
	struct conn_handle *c; uint32_t m;
	int r = conn_set_timeout(c, m);
	FV_CANARY_IF(r == 0, "ok");
}
#endif

int conn_in_use(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 1 && g_nacq == 0)
__CPROVER_assigns(LOCK_GHOST, FD_FIELDS(conn))
__CPROVER_ensures(g_held == 0 && __CPROVER_return_value == (g_acq_fd != -1))
;
#ifdef FV_OB_h_conn_in_use
void h_conn_in_use(void)
{
	struct conn_handle *c;
	int r = conn_in_use(c);
	FV_CANARY_IF(r == 1, "yes");
}
#endif

/* ------------------------------------------------------ conn_init, conn_free */
int conn_init(struct conn_handle *conn)
__CPROVER_requires(__CPROVER_is_fresh(conn, sizeof(*conn)) && conn->priv == NULL)
__CPROVER_requires(g_mutex_live == 0 && g_p == NULL && g_p2 == NULL)
__CPROVER_assigns(conn->priv, g_mutex_live)
__CPROVER_ensures(IFC_conn_init(__CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value <= 0)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (conn->priv != NULL && PRIV(conn)->fd == -1 && PRIV(conn)->conn_fd == -1 && \
	PRIV(conn)->sock_fd == -1 && g_mutex_live == 1))
__CPROVER_ensures(__CPROVER_return_value < 0 ==> (conn->priv == NULL && g_mutex_live == 0))
;
#ifdef FV_OB_h_conn_init
void h_conn_init(void)
{
	struct conn_handle *c;
	int r = conn_init(c);
	FV_CANARY_IF(r == 0, "ok");
	FV_CANARY_IF(r < 0, "fail");
}
#endif

void conn_free(struct conn_handle *conn)
__CPROVER_requires(CONN_FRESH(conn) && g_havoc == 0 && g_nacq == 0 && g_mutex_live == 1)
__CPROVER_assigns(g_errno, LOCK_GHOST, conn->priv, g_mutex_live, __CPROVER_object_whole(conn->priv))
__CPROVER_frees(conn->priv)
__CPROVER_ensures(conn->priv == NULL && g_mutex_live == 0 && g_w_open == !!g_w_other)
;
#ifdef FV_OB_h_conn_free
void h_conn_free(void)
{
	struct conn_handle *c;
	conn_free(c);
	FV_CANARY_IF(g_acq_sock == g_w && !g_w_open, "closed socket");
}
#endif

/* ------------------------------------------------------------ text forms */
/* decimal digits of v without leading zeros, NUL terminated */
#define DIG(r, i) ((r)[i] >= '0' && (r)[i] <= '9')
#define D(r, i) ((unsigned)((r)[i] - '0'))
#define PORT_TEXT(v, r) ( \
	(v) < 10u ? (DIG(r, 0) && (r)[1] == 0 && (v) == D(r, 0)) : \
	(v) < 100u ? (DIG(r, 0) && DIG(r, 1) && (r)[2] == 0 && (v) == D(r, 0) * 10u + D(r, 1)) : \
	(v) < 1000u ? (DIG(r, 0) && DIG(r, 1) && DIG(r, 2) && (r)[3] == 0 && (v) == D(r, 0) * 100u + D(r, 1) * 10u + D(r, 2)) : \
	(v) < 10000u ? (DIG(r, 0) && DIG(r, 1) && DIG(r, 2) && DIG(r, 3) && (r)[4] == 0 && \
		(v) == D(r, 0) * 1000u + D(r, 1) * 100u + D(r, 2) * 10u + D(r, 3)) : \
	(DIG(r, 0) && DIG(r, 1) && DIG(r, 2) && DIG(r, 3) && DIG(r, 4) && (r)[5] == 0 && \
		(v) == D(r, 0) * 10000u + D(r, 1) * 1000u + D(r, 2) * 100u + D(r, 3) * 10u + D(r, 4)))

void conn_port_to_str(uint16_t port, char result[6])
__CPROVER_requires(__CPROVER_w_ok(result, 6))
__CPROVER_assigns(__CPROVER_object_upto(result, 6))
__CPROVER_ensures(PORT_TEXT((unsigned)port, result))
;
#ifdef FV_OB_h_conn_port_to_str
void h_conn_port_to_str(void)
{
	char buf[6]; uint16_t p;
	conn_port_to_str(p, buf);
	FV_CANARY_IF(p == 60123, "five digits");
	FV_CANARY_IF(p == 0, "zero");
}
#endif

/* external: inet_ntop writes a text of the address, at most 15 (IPv4) or 45
 * (IPv6) characters, NUL terminated */
size_t g_iplen, g_ipk;
char g_ipv;
const void *g_ntop_src;
char *g_ntop_dst;
int g_ntop_af;
const char *inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
	FV_ASSERT(af == AF_INET || af == AF_INET6, "known address family");
	FV_ASSERT(size >= 46, "room for the longest address text");
	FV_ASSERT(__CPROVER_w_ok(dst, size), "address text stays inside the buffer");
	FV_ASSERT(__CPROVER_r_ok(src, af == AF_INET ? 4 : 16), "address readable");
	FV_ASSUME(g_iplen >= 2 && g_iplen <= (af == AF_INET ? 15 : 45) && g_ipk < g_iplen && g_ipv != 0);
	g_ntop_af = af;
	g_ntop_src = src;
	g_ntop_dst = dst;
	dst[g_ipk] = g_ipv;
	dst[g_iplen] = 0;
	return dst;
}
#define RA(c) ((const struct sockaddr_in *)&PRIV(c)->remote_addr)
#define RA6(c) ((const struct sockaddr_in6 *)&PRIV(c)->remote_addr)
#define FV_NTOHS(x) ((unsigned)((((x) & 0xff) << 8) | (((x) >> 8) & 0xff)))
void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
__CPROVER_requires(__CPROVER_r_ok(conn, sizeof(struct conn_handle)) && __CPROVER_r_ok(conn->priv, sizeof(struct conn_priv)))
__CPROVER_requires(__CPROVER_w_ok(dest, 54) && g_ipk < g_iplen && g_iplen <= 45)
__CPROVER_assigns(__CPROVER_object_upto(dest, 54), g_ntop_af, g_ntop_src, g_ntop_dst)
__CPROVER_ensures(PRIV(conn)->remote_addr.ss_family == AF_INET ==> (g_ntop_af == AF_INET && g_ntop_src == (const void *)&RA(conn)->sin_addr && \
	dest[g_ipk] == g_ipv && dest[g_iplen] == ':' && PORT_TEXT(FV_NTOHS(RA(conn)->sin_port), dest + g_iplen + 1)))
__CPROVER_ensures(PRIV(conn)->remote_addr.ss_family == AF_INET6 ==> (g_ntop_af == AF_INET6 && g_ntop_src == (const void *)&RA6(conn)->sin6_addr && \
	dest[0] == '[' && dest[g_ipk + 1] == g_ipv && dest[g_iplen + 1] == ']' && dest[g_iplen + 2] == ':' && \
	PORT_TEXT(FV_NTOHS(RA6(conn)->sin6_port), dest + g_iplen + 3)))
__CPROVER_ensures((PRIV(conn)->remote_addr.ss_family != AF_INET && PRIV(conn)->remote_addr.ss_family != AF_INET6) ==> \
	(dest[0] == '(' && dest[8] == ')' && dest[9] == 0))
;
#ifdef FV_OB_h_conn_get_remote_addr
/* external: strlen on a buffer holding the address text (the text itself has
 * no NUL before its end; what precedes it in the buffer is checked) */
size_t strlen(const char *s)
{
	FV_ASSERT(__CPROVER_same_object(s, g_ntop_dst) && s <= g_ntop_dst && g_ntop_dst - s <= 1 && (s == g_ntop_dst || s[0] != 0), "text is measured from its start");
	return (size_t)(g_ntop_dst - s) + g_iplen;
}
void h_conn_get_remote_addr(void)
{
	struct conn_handle c; struct conn_priv p; char d[54];
	c.priv = &p;
	conn_get_remote_addr(&c, d);
	FV_CANARY_IF(p.remote_addr.ss_family == AF_INET6, "v6");
	FV_CANARY_IF(p.remote_addr.ss_family == AF_INET, "v4");
}
#endif
