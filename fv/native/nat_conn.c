/* Replay of the connection contracts: a kernel with random short transfers
 * and errors underneath the real conn.c and mutex_posix.c. */
#include "nat.h"
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include "conn.h"

#define MAXFD 64
#define BASE 1000
static struct { int open, type, listening, connected; } fds[MAXFD];
static uint8_t wire[70000];
static size_t wire_n;
static size_t in_pos;
static uint8_t in_byte(size_t i) { return (uint8_t)(i * 131 + (i >> 8) * 7 + 3); }
static unsigned n_dg;
static struct sockaddr_in dg_to;
static uint32_t src_addr;
static uint16_t src_port;
static unsigned fail_pct;
static int eof_in;

static int F(int fd)
{
	CHECK(fd >= BASE && fd < BASE + MAXFD && fds[fd - BASE].open, "system call on descriptor %d that is not open", fd);
	return fd - BASE;
}
static int err(void)
{
	static const int e[] = { EINTR, EPIPE, ECONNRESET, ENOBUFS, EINVAL, ETIMEDOUT };
	errno = e[nat_rnd(6)];
	return -1;
}
static int newfd(int type)
{
	int i, s = (int)nat_rnd(MAXFD);
	for (i = 0; i < MAXFD; i++)
		if (!fds[(s + i) % MAXFD].open)
			break;
	i = (s + i) % MAXFD;
	memset(&fds[i], 0, sizeof(fds[i]));
	fds[i].open = 1;
	fds[i].type = type;
	return BASE + i;
}
int __wrap_socket(int d, int t, int p) { (void)d; (void)p; if (nat_p(fail_pct)) return err(); return newfd(t); }
int __wrap_setsockopt(int fd, int l, int n, const void *v, socklen_t len)
{ (void)l; (void)n; (void)v; (void)len; F(fd); return nat_p(fail_pct) ? err() : 0; }
static const char *want_sa, *want_sp, *want_da, *want_dp;	/* expected lookups */
static const struct sockaddr *sa_src, *sa_dst;
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { F(fd);
	CHECK((a == sa_src || a == NULL) && (a == NULL || l == sizeof(struct sockaddr_in)), "bound to something else than the source address"); return nat_p(fail_pct) ? err() : 0; }
int __wrap_listen(int fd, int b) { (void)b; CHECK(fds[F(fd)].type == SOCK_STREAM, "listen on a datagram socket");
	if (nat_p(fail_pct)) return err(); fds[F(fd)].listening = 1; return 0; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) { F(fd);
	CHECK(a == sa_dst && l == sizeof(struct sockaddr_in), "connected to something else than the destination looked up"); if (nat_p(fail_pct)) return err();
	fds[F(fd)].connected = 1; return 0; }
static int accept_af;
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	int r;
	CHECK(fds[F(fd)].listening, "accept on a socket that does not listen");
	if (nat_p(fail_pct))
		return err();
	if (accept_af == AF_INET) {
		struct sockaddr_in s;
		memset(&s, 0, sizeof(s));
		s.sin_family = AF_INET; s.sin_port = htons(src_port); s.sin_addr.s_addr = src_addr;
		CHECK(*l >= sizeof(s), "no room for the peer address");
		memcpy(a, &s, sizeof(s)); *l = sizeof(s);
	} else {
		struct sockaddr_in6 s;
		memset(&s, 0, sizeof(s));
		s.sin6_family = AF_INET6; s.sin6_port = htons(src_port); memset(&s.sin6_addr, 0x2a, 16);
		CHECK(*l >= sizeof(s), "no room for the peer address");
		memcpy(a, &s, sizeof(s)); *l = sizeof(s);
	}
	r = newfd(SOCK_STREAM);
	fds[r - BASE].connected = 1;
	return r;
}
int __real_close(int fd);
int __wrap_close(int fd) { if (fd < 500 && fd >= 0) return __real_close(fd); fds[F(fd)].open = 0; return 0; }
int __wrap_shutdown(int fd, int how) { CHECK(how == SHUT_RDWR, "only one direction shut down"); F(fd); return 0; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags)
{
	size_t m;
	F(fd);
	CHECK(flags & MSG_NOSIGNAL, "send without MSG_NOSIGNAL");
	if (nat_p(fail_pct))
		return err();
	m = nat_p(30) ? n : 1 + nat_rnd((unsigned)n);
	memcpy(wire + wire_n, b, m);
	wire_n += m;
	return (ssize_t)m;
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *to, socklen_t tl)
{
	F(fd);
	CHECK(flags & MSG_NOSIGNAL, "sendto without MSG_NOSIGNAL");
	CHECK(tl == sizeof(dg_to), "wrong destination length");
	if (nat_p(fail_pct))
		return err();
	memcpy(&dg_to, to, sizeof(dg_to));
	memcpy(wire + wire_n, b, n);
	wire_n += n;
	n_dg++;
	return (ssize_t)n;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *from, socklen_t *fl)
{
	size_t m, i;
	int f = F(fd);
	CHECK(flags == 0, "receive flags");
	if (nat_p(fail_pct))
		return err();
	if (from != NULL)
		*fl = 0;
	if (eof_in && nat_p(30))
		return 0;
	if (fds[f].type == SOCK_DGRAM && nat_p(15)) {	/* an empty datagram */
		struct sockaddr_in s;
		memset(&s, 0, sizeof(s));
		s.sin_family = AF_INET; s.sin_port = htons(src_port); s.sin_addr.s_addr = src_addr;
		if (from != NULL) {
			memcpy(from, &s, sizeof(s));
			*fl = sizeof(s);
		}
		return 0;
	}
	m = nat_p(30) ? n : 1 + nat_rnd((unsigned)n);
	for (i = 0; i < m; i++)
		((uint8_t *)b)[i] = in_byte(in_pos + i);
	in_pos += m;
	if (from != NULL) {
		if (fds[f].type == SOCK_DGRAM) {
			struct sockaddr_in s;
			memset(&s, 0, sizeof(s));
			s.sin_family = AF_INET; s.sin_port = htons(src_port); s.sin_addr.s_addr = src_addr;
			memcpy(from, &s, sizeof(s));
			*fl = sizeof(s);
		} else
			*fl = 0;
	}
	return (ssize_t)m;
}
static int ngai;
static struct sockaddr_in gai_src, gai_dst;
static int same(const char *a, const char *b) { return (a == NULL) == (b == NULL) && (a == NULL || strcmp(a, b) == 0); }
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	struct addrinfo *a;
	int dst = want_da != NULL && same(n, want_da) && same(s, want_dp);
	CHECK(dst || (same(n, want_sa) && same(s, want_sp)), "looked up %s port %s", n ? n : "(null)", s ? s : "(null)");
	if (nat_p(fail_pct))
		return EAI_NONAME;
	a = calloc(1, sizeof(*a));
	a->ai_family = h->ai_family ? h->ai_family : AF_INET;
	a->ai_socktype = h->ai_socktype;
	a->ai_addr = (struct sockaddr *)(dst ? &gai_dst : &gai_src);
	if (dst) sa_dst = a->ai_addr; else sa_src = a->ai_addr;
	a->ai_addrlen = sizeof(gai_src);
	ngai++;
	*r = a;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { CHECK(a != NULL, "freeaddrinfo(NULL)"); ngai--; free(a); }

static int nopen(void) { int i, n = 0; for (i = 0; i < MAXFD; i++) n += fds[i].open; return n; }

static uint8_t *buf;	/* exact-size heap buffers so that ASan sees overruns */

static void do_io(struct conn_handle *c, int usable)
{
	int op = (int)nat_rnd(4), ret;
	size_t n = nat_p(20) ? nat_rnd(4) : (nat_p(50) ? nat_rnd(30) : nat_rnd(9000)), i;
	buf = malloc(n ? n : 1);
	wire_n = 0; n_dg = 0; in_pos = nat_rnd(1000);
	fail_pct = nat_p(50) ? 0 : 15;
	eof_in = nat_p(30);
	src_addr = (uint32_t)nat_next(); src_port = (uint16_t)nat_next();
	nat_note("op %d len %u type %d usable %d fail%% %u eof %d\n", op, (unsigned)n, c->type, usable, fail_pct, eof_in);
	for (i = 0; i < n; i++)
		buf[i] = (uint8_t)(nat_rnd(256));
	if (op == 0) {
		ret = conn_send(c, buf, n);
		CHECK(wire_n <= n && memcmp(wire, buf, wire_n) == 0, "conn_send put other bytes on the wire than a prefix of the buffer (%u of %u)", (unsigned)wire_n, (unsigned)n);
		CHECK(ret <= 0, "conn_send returned %d", ret);
		if (c->type != CONN_TYPE_TCP) CHECK(ret == -EPROTOTYPE, "conn_send on a datagram connection returned %d", ret);
		else if (!usable) CHECK(ret == -ENOTCONN && wire_n == 0, "conn_send on a closed connection returned %d", ret);
		else {
			CHECK(ret != 0 || wire_n == n, "conn_send reported success after %u of %u bytes", (unsigned)wire_n, (unsigned)n);
			CHECK(ret == 0 || fail_pct, "conn_send failed (%d) without a fault", ret);
		}
	} else if (op == 1) {
		size_t p0 = in_pos;
		ret = conn_recv(c, buf, n);
		if (c->type != CONN_TYPE_TCP) CHECK(ret == -EPROTOTYPE, "conn_recv on a datagram connection returned %d", ret);
		else if (!usable) CHECK(ret == -ENOTCONN, "conn_recv on a closed connection returned %d", ret);
		else {
			CHECK(ret < 0 || (size_t)ret == n, "conn_recv of %u returned %d", (unsigned)n, ret);
			CHECK(in_pos - p0 <= n, "conn_recv consumed %u bytes for %u", (unsigned)(in_pos - p0), (unsigned)n);
			CHECK(ret >= 0 || fail_pct || eof_in, "conn_recv failed (%d) without a fault", ret);
			if (ret >= 0) {
				CHECK(in_pos - p0 == n, "conn_recv consumed %u bytes for %u", (unsigned)(in_pos - p0), (unsigned)n);
				for (i = 0; i < n; i++)
					CHECK(buf[i] == in_byte(p0 + i), "conn_recv: byte %u of %u is wrong", (unsigned)i, (unsigned)n);
			}
		}
	} else if (op == 2) {
		size_t p0 = in_pos;
		uint32_t a = 0x5a5a5a5a; uint16_t p = 0x5a5a;
		int wa = nat_p(70), wp = nat_p(50);
		if (n == 0) { free(buf); fail_pct = 0; eof_in = 0; return; }
		ret = conn_recv_any(c, buf, n, wa ? &a : NULL, wp ? &p : NULL);
		if (!usable) CHECK(ret == -ENOTCONN, "conn_recv_any on a closed connection returned %d", ret);
		else {
			CHECK(ret != 0, "conn_recv_any returned 0");
			CHECK(ret < 0 || (size_t)ret == in_pos - p0, "conn_recv_any returned %d for %u bytes", ret, (unsigned)(in_pos - p0));
			CHECK(ret >= 0 || fail_pct || eof_in, "conn_recv_any failed (%d) without a fault", ret);
			if (ret > 0) {
				for (i = 0; i < (size_t)ret; i++)
					CHECK(buf[i] == in_byte(p0 + i), "conn_recv_any: byte %u is wrong", (unsigned)i);
				if (c->type == CONN_TYPE_UDP) {
					CHECK(!wa || a == src_addr, "source address %08x reported as %08x", src_addr, a);
					CHECK(!wp || p == src_port, "source port %u reported as %u", src_port, p);
				}
			}
		}
	} else {
		uint32_t a = (uint32_t)nat_next(); uint16_t p = (uint16_t)nat_next();
		if (n > 8000) n = 8000;
		ret = conn_send_to(c, buf, n, a, p);
		CHECK(ret <= 0, "conn_send_to returned %d", ret);
		if (c->type != CONN_TYPE_UDP) CHECK(ret == -EPROTOTYPE, "conn_send_to on a stream returned %d", ret);
		else if (!usable) CHECK(ret == -ENOTCONN && n_dg == 0, "conn_send_to on a closed connection returned %d", ret);
		else if (ret == 0 && n > 0) {
			CHECK(n_dg == 1 && wire_n == n && memcmp(wire, buf, n) == 0, "conn_send_to sent %u datagrams, %u bytes of %u, or other bytes", n_dg, (unsigned)wire_n, (unsigned)n);
			CHECK(dg_to.sin_addr.s_addr == a && ntohs(dg_to.sin_port) == p && dg_to.sin_family == AF_INET, "datagram went to the wrong place");
		} else
			CHECK(n_dg == 0 && (ret == 0 || fail_pct), "conn_send_to: ret %d, %u datagrams", ret, n_dg);
	}
	fail_pct = 0; eof_in = 0;
	free(buf);
}

static void scenario(unsigned long index)
{
	struct conn_handle c, a;
	int k, ret;
	memset(fds, 0, sizeof(fds));
	ngai = 0; fail_pct = 0; eof_in = 0;
	want_da = want_dp = NULL;
	want_sa = nat_p(50) ? "192.0.2.9" : NULL;
	want_sp = nat_p(50) ? "5198" : "0";
	sa_src = sa_dst = NULL;
	memset(&c, 0, sizeof(c));
	memset(&a, 0, sizeof(a));
	c.source_addr = want_sa;
	c.source_port = want_sp[0] == '0' ? NULL : want_sp;
	if (index % 4 == 3) {	/* text forms */
		char t[54], want[80], ip[64];
		uint16_t p = index % 8 == 3 ? (uint16_t)(index / 8) : (uint16_t)nat_next();
		char *r = malloc(6);
		nat_note("port %u\n", p);
		conn_port_to_str(p, r);
		sprintf(want, "%u", p);
		CHECK(strcmp(r, want) == 0, "port %u printed as '%s'", p, r);
		free(r);
		c.type = CONN_TYPE_TCP;
		if (conn_init(&c) || conn_init(&a))
			return;
		conn_get_remote_addr(&a, t);
		CHECK(strcmp(t, "(unknown)") == 0, "unknown address printed as '%s'", t);
		CHECK(conn_listen(&c) == 0, "listen failed");
		src_addr = (uint32_t)nat_next(); src_port = p;
		if (nat_p(20)) src_addr = 0xffffffff;
		accept_af = nat_p(50) ? AF_INET : AF_INET6;
		CHECK(conn_accept(&c, &a) == 0, "accept failed");
		conn_get_remote_addr(&a, t);
		if (accept_af == AF_INET) { inet_ntop(AF_INET, &src_addr, ip, sizeof(ip)); sprintf(want, "%s:%u", ip, p); }
		else { uint8_t b6[16]; memset(b6, 0x2a, 16); inet_ntop(AF_INET6, b6, ip, sizeof(ip)); sprintf(want, "[%s]:%u", ip, p); }
		CHECK(strcmp(t, want) == 0, "remote address %s printed as '%s'", want, t);
		conn_free(&a); conn_free(&c);
		return;
	}
	accept_af = AF_INET;
	c.type = nat_p(50) ? CONN_TYPE_TCP : CONN_TYPE_UDP;
	fail_pct = 0;
	CHECK(conn_init(&c) == 0, "conn_init failed");
	CHECK(!conn_in_use(&c), "fresh connection in use");
	for (k = 0; k < 6; k++) {
		int usable = 0;
		fail_pct = nat_p(60) ? 0 : 25;
		do_io(&c, 0);
		fail_pct = nat_p(60) ? 0 : 25;
		if (c.type == CONN_TYPE_TCP && nat_p(50)) {
			want_da = "192.0.2.1"; want_dp = "5200";
			ret = conn_connect(&c, "192.0.2.1", "5200");
			want_da = want_dp = NULL;
			nat_note("connect -> %d\n", ret);
			CHECK(ret == 0 || nopen() == 0, "%d descriptors open after a failed connect", nopen());
			CHECK(ret <= 0 && (ret == 0 || fail_pct), "conn_connect returned %d", ret);
			usable = ret == 0;
			if (usable) CHECK(nopen() == 1, "%d descriptors open after connect", nopen());
		} else {
			unsigned i;
			ret = conn_listen(&c);
			nat_note("listen -> %d\n", ret);
			CHECK(ret <= 0 && (ret == 0 || fail_pct), "conn_listen returned %d", ret);
			CHECK(ret == 0 || nopen() == 0, "%d descriptors open after a failed listen", nopen());
			usable = ret == 0;
			if (usable) CHECK(nopen() == 1, "%d descriptors open after listen", nopen());
			if (usable && c.type == CONN_TYPE_TCP) {
				int lis = -1, j;
				for (i = 0; i < MAXFD; i++) if (fds[i].open) { lis = (int)i; CHECK(fds[i].listening, "not listening"); }
				memset(&a, 0, sizeof(a));
				a.type = CONN_TYPE_TCP;
				CHECK(conn_init(&a) == 0, "init");
				for (j = 0; j < 2; j++) {
					ret = conn_accept(&c, &a);
					nat_note("accept -> %d\n", ret);
					CHECK(ret <= 0 && (ret == 0 || fail_pct), "conn_accept returned %d", ret);
					CHECK(conn_in_use(&a) == (ret == 0), "in_use after accept %d", ret);
					CHECK(nopen() == 1 + (ret == 0), "%d descriptors open after accept -> %d", nopen(), ret);
					fail_pct = 0;
					if (ret == 0) { do_io(&a, 1); do_io(&a, 1); }
					if (nat_p(50)) { conn_drop(&a); nat_note("drop\n"); } else { conn_close(&a); nat_note("close\n"); }
					CHECK(nopen() == 1 && fds[lis].open, "after dropping the accepted connection %d descriptors are open", nopen());
					CHECK(!conn_in_use(&a), "in use after drop");
					do_io(&a, 0);
					fail_pct = nat_p(60) ? 0 : 25;
				}
				conn_free(&a);
				CHECK(a.priv == NULL, "conn_free left its private data");
				if (nat_p(30)) {	/* one handle that both listens and serves */
					ret = conn_accept(&c, &c);
					nat_note("accept on itself -> %d\n", ret);
					CHECK(nopen() == 1 + (ret == 0), "%d descriptors open after accept -> %d", nopen(), ret);
				}
				usable = -1;
			}
		}
		CHECK(ngai == 0, "%d address lists leaked", ngai);
		fail_pct = 0;
		if (usable >= 0) {
			CHECK(conn_in_use(&c) == usable, "in_use is %d", conn_in_use(&c));
			if (usable) { do_io(&c, 1); do_io(&c, 1); }
			if (usable && nat_p(30)) { conn_shutdown(&c); nat_note("shutdown\n"); CHECK(nopen() == 1, "shutdown closed the socket"); }
		}
		if (nat_p(10)) { conn_free(&c); CHECK(c.priv == NULL && nopen() == 0, "conn_free left %d descriptors open", nopen()); CHECK(conn_init(&c) == 0, "reinit"); }
		else { conn_close(&c); nat_note("close\n"); if (nat_p(20)) conn_close(&c); }
		CHECK(nopen() == 0, "%d descriptors open after close", nopen());
		CHECK(!conn_in_use(&c), "in use after close");
	}
	conn_free(&c);
	CHECK(nopen() == 0, "descriptors leaked");
}
NAT_MAIN
