/* Ghost state of the byte streams of connections, and the caller-visible part
 * of the contracts of conn.c.  The same text is enforced on the bodies in
 * conn.c (unit conn.c) and assumed at the calls in proxy_conn.c,
 * proxy_client.c and proxy.c.
 *
 *  transmit: g_tx_len bytes have been handed to the network on g_tx_conn so
 *            far; the byte at the (arbitrary, constant) index g_tx_k is g_tx_v
 *            once g_tx_len > g_tx_k.
 *  receive:  g_rx_pos bytes of the incoming stream of g_rx_conn have been
 *            consumed; the byte of that stream at the (arbitrary, constant)
 *            index g_rx_k is g_rx_v.
 *  datagram: on g_dg_conn, g_dg_n datagrams with g_dg_len bytes in total have
 *            been sent; g_dg_v is the byte at index g_dg_k of their
 *            concatenation; g_dg_stray tells whether any of them went
 *            elsewhere than g_dg_addr:g_dg_port.
 * Because the watched index is arbitrary, a statement about the watched byte
 * is a statement about every byte. */
#ifndef CONN_GHOST_H
#define CONN_GHOST_H
#include "conn.h"
const struct conn_handle *g_tx_conn;
size_t g_tx_len, g_tx_k;
uint8_t g_tx_v;
const struct conn_handle *g_rx_conn;
size_t g_rx_pos, g_rx_k;
uint8_t g_rx_v;
const struct conn_handle *g_dg_conn;
size_t g_dg_n, g_dg_len, g_dg_k;
uint8_t g_dg_v;
uint32_t g_dg_addr;
uint16_t g_dg_port;
int g_dg_stray;
/* one transfer is at most this long (callers pass at most a few KiB) */
#ifndef FV_IO_MAX
#define FV_IO_MAX 0x7fff0000u
#endif
#define FV_POS_MAX ((size_t)1 << 40)

/* conn_send: the whole buffer, in order, or an error after a prefix of it */
#define CONN_SEND_POST(conn, buff, len, ret, TXLEN0, TXV0) ( \
	(ret) <= 0 && \
	((conn) != g_tx_conn ==> (g_tx_len == (TXLEN0) && g_tx_v == (TXV0))) && \
	((conn) == g_tx_conn ==> (g_tx_len >= (TXLEN0) && g_tx_len - (TXLEN0) <= (len))) && \
	(((conn) == g_tx_conn && (ret) == 0) ==> g_tx_len - (TXLEN0) == (len)) && \
	(((conn) == g_tx_conn && g_tx_k < (TXLEN0)) ==> g_tx_v == (TXV0)) && \
	(((conn) == g_tx_conn && g_tx_k >= (TXLEN0) && g_tx_k < g_tx_len) ==> g_tx_v == (buff)[g_tx_k - (TXLEN0)]))

/* conn_recv: exactly the requested number of bytes, in order, or an error */
#define CONN_RECV_POST(conn, buff, len, ret, RXPOS0) ( \
	((ret) < 0 || (size_t)(ret) == (len)) && \
	((conn) != g_rx_conn ==> g_rx_pos == (RXPOS0)) && \
	((conn) == g_rx_conn ==> (g_rx_pos >= (RXPOS0) && g_rx_pos - (RXPOS0) <= (len))) && \
	(((conn) == g_rx_conn && (ret) >= 0) ==> g_rx_pos - (RXPOS0) == (len)) && \
	(((conn) == g_rx_conn && (ret) >= 0 && g_rx_k >= (RXPOS0) && g_rx_k < g_rx_pos) ==> \
		(buff)[g_rx_k - (RXPOS0)] == g_rx_v))

/* conn_recv_any: one segment or datagram of 1..len bytes, or an error */
#define CONN_RECV_ANY_POST(conn, buff, len, ret, RXPOS0) ( \
	(ret) != 0 && ((ret) < 0 || (size_t)(ret) <= (len)) && \
	((conn) != g_rx_conn ==> g_rx_pos == (RXPOS0)) && \
	(((conn) == g_rx_conn && (ret) < 0) ==> g_rx_pos == (RXPOS0)) && \
	(((conn) == g_rx_conn && (ret) > 0) ==> g_rx_pos == (RXPOS0) + (size_t)(ret)) && \
	(((conn) == g_rx_conn && (ret) > 0 && g_rx_k >= (RXPOS0) && g_rx_k < g_rx_pos) ==> \
		(buff)[g_rx_k - (RXPOS0)] == g_rx_v))

/* conn_send_to: one datagram with exactly the buffer to exactly the given
 * address, or an error and nothing sent */
#define CONN_SEND_TO_POST(conn, buff, len, addr, port, ret, DGN0, DGLEN0, DGV0, STRAY0) ( \
	(ret) <= 0 && \
	(((conn) != g_dg_conn || (ret) < 0 || (len) == 0) ==> (g_dg_n == (DGN0) && g_dg_len == (DGLEN0) && g_dg_v == (DGV0) && !!g_dg_stray == !!(STRAY0))) && \
	(((conn) == g_dg_conn && (ret) == 0 && (len) > 0) ==> (g_dg_n == (DGN0) + 1 && g_dg_len == (DGLEN0) + (len) && \
		!!g_dg_stray == (!!(STRAY0) || (addr) != g_dg_addr || (port) != g_dg_port))) && \
	(((conn) == g_dg_conn && g_dg_k < (DGLEN0)) ==> g_dg_v == (DGV0)) && \
	(((conn) == g_dg_conn && g_dg_k >= (DGLEN0) && g_dg_k < g_dg_len) ==> g_dg_v == (buff)[g_dg_k - (DGLEN0)]))
#endif
