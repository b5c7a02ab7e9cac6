/* Sessions of clients with the real proxy in the simulated world.  The same
 * scenarios serve several properties; each check names the properties it
 * belongs to and is active only in the build for one of them (-DNAT_SEL). */
#include "sim.h"
#include "refmd5.h"
#include "openelp/openelp.h"

enum { A01 = 1, A02 = 2, A03 = 4, R01 = 8, R02 = 16, R03 = 32, R04 = 64, S01 = 128, S02 = 256, P01 = 512 };
#ifndef NAT_SEL
#define NAT_SEL 0xffff
#endif
#define ON(m) (((m) & NAT_SEL) != 0)
#define CK(m, c, ...) do { if (ON(m) && !(c)) nat_fail(__VA_ARGS__); } while (0)

#define MAXCL 40
#define MAXSLOT 4
#define PORT 8100

/* -------------------------------------------------------------- patterns */
static int p_A(const char *s) { return s[0] == 'A'; }
static int p_x(const char *s) { size_t n = strlen(s); return n && s[n - 1] == 'X'; }
static int p_aabb(const char *s) { return !strncmp(s, "AA", 2) || !strncmp(s, "BB", 2); }
static int p_5(const char *s) { return strchr(s, '5') != NULL; }
static int p_am(const char *s) { return s[0] >= 'A' && s[0] <= 'M'; }
static int p_e(const char *s) { return s[0] == 0; }
static int p_all(const char *s) { (void)s; return 1; }
static int p_cc(const char *s) { return !strcmp(s, "CC"); }
static const struct { const char *re; int (*f)(const char *); } pats[] = {
	{ "^A", p_A }, { "X$", p_x }, { "^(AA|BB)", p_aabb }, { "5", p_5 }, { "^[A-M]", p_am }, { "^$", p_e }, { "", p_all }, { "^CC$", p_cc },
};
#define NPAT 8
int __real_pcre2_match_8(void *, void *, size_t, size_t, uint32_t, void *, void *);
static int match_fail_at, match_failed, match_calls;
int __wrap_pcre2_match_8(void *re, void *sub, size_t len, size_t st, uint32_t o, void *md, void *mc)
{
	match_calls++;
	if (match_fail_at && --match_fail_at == 0) {
		match_failed = 1;
		return nat_p(50) ? -47 /* MATCHLIMIT */ : -48 /* NOMEMORY */;
	}
	return __real_pcre2_match_8(re, sub, len, st, o, md, mc);
}
void *__real_pcre2_match_data_create_from_pattern_8(void *, void *);
void *__wrap_pcre2_match_data_create_from_pattern_8(void *re, void *g)
{
	if (match_fail_at && nat_p(30) && --match_fail_at == 0) {
		match_failed = 1;
		return NULL;
	}
	return __real_pcre2_match_data_create_from_pattern_8(re, g);
}

/* ----------------------------------------------------------------- world */
static struct proxy_handle ph;
static int nslot, pol_allow, pol_deny;
static char password[200];
static uint32_t slot_addr[MAXSLOT];
static int racing, unsure;
static int srv_done, srv_ret, faulty, no_match_fail;

struct dgx { int port, len; uint32_t addr; uint8_t *data; };
struct rmsg { uint8_t type; uint32_t addr; uint32_t len; uint8_t *data; };
struct cl {
	struct sim_sock *s;
	int kind, fed_auth, alive, refused, slot, checked, want_admit, pipelined, want_reject;
	char call[16];
	int parse;
	struct dgx out[300];
	int nout;
	struct rmsg ud[300];		/* expected from the control and data sockets, in order of arrival each */
	int nud, ud_seen[300];
	struct sim_sock *tcp;
	int tcp_in_seen, tcp_out_exp, tcp_status, tcp_closes, tcp_last_status, tcp_data_seen;
	uint8_t *tcp_exp;
	int feed_exp;			/* bytes of the stream that belong to complete messages */
	int sendfail, closing;
	struct sim_sock *udp_c, *udp_d;
};
static struct cl cls[MAXCL];
static int ncl;
static char last_call[MAXSLOT][16];
static int assigned_at[MAXSLOT], freed_at[MAXSLOT], used_by[MAXSLOT], tick, order_known;

static uint8_t rb(void) { return (uint8_t)nat_next(); }

static char *dup_(const char *s)
{
	char *p;
	unsigned a = sim_alloc_fail_pct;
	sim_alloc_fail_pct = 0;
	p = __real_malloc(strlen(s) + 1);
	sim_blk_add(p);
	sim_alloc_fail_pct = a;
	strcpy(p, s);
	return p;
}

static int permitted(const char *call)
{
	if (pol_deny >= 0 && pats[pol_deny].f(call))
		return 0;
	if (pol_allow >= 0 && !pats[pol_allow].f(call))
		return 0;
	return 1;
}

static void setup_conf(void)
{
	int i;
	char t[32];
	ph.conf.port = PORT;
	ph.conf.password = dup_(password);
	if (pol_allow >= 0)
		ph.conf.calls_allowed = dup_(pats[pol_allow].re);
	if (pol_deny >= 0)
		ph.conf.calls_denied = dup_(pats[pol_deny].re);
	for (i = 0; i < nslot; i++)
		slot_addr[i] = htonl(0x7f000101u + (uint32_t)i);
	ph.conf.bind_addr_ext = dup_("127.0.1.1");
	if (nslot > 1) {
		ph.conf.bind_addr_ext_add = __real_calloc((size_t)nslot - 1, sizeof(char *));
		sim_blk_add(ph.conf.bind_addr_ext_add);
		for (i = 1; i < nslot; i++) {
			sprintf(t, "127.0.1.%d", i + 1);
			ph.conf.bind_addr_ext_add[i - 1] = dup_(t);
		}
		ph.conf.bind_addr_ext_add_len = (uint16_t)(nslot - 1);
	}
}

static void *server(void *a)
{
	int r;
	(void)a;
	do
		r = proxy_process(&ph);
	while (r >= 0 || (sim_listener(PORT) && !sim_listener(PORT)->shut));
	srv_ret = r;
	srv_done = 1;
	return NULL;
}

static int slot_used(int i) { return sim_udp(slot_addr[i], 5198) != NULL && sim_udp(slot_addr[i], 5199) != NULL; }

/* ------------------------------------------------------------ the client */
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

static void answer(const uint8_t *nonce, uint8_t *resp)
{
	uint8_t t[300];
	size_t i, n = strlen(password);
	for (i = 0; i < n; i++)
		t[i] = password[i] >= 'a' && password[i] <= 'z' ? (uint8_t)(password[i] - 32) : (uint8_t)password[i];
	memcpy(t + n, nonce, 8);
	ref_md5(t, n + 8, resp);
}

enum { GOOD, WRONGBYTE, NONL, EARLYEOF, EMBEDNUL, RESET, OLDNONCE, NKIND };

static void feed_auth(struct cl *c)
{
	uint8_t b[64], resp[16];
	int n = 0, i, cl = (int)strlen(c->call);
	for (i = 0; i < 8; i++)
		CK(A01 | A02, hexval(c->s->out[i]) >= 0, "the nonce is not 8 lower-case hexadecimal digits: %.8s", (char *)c->s->out);
	answer(c->s->out, resp);
	c->want_admit = permitted(c->call);
	c->want_reject = c->want_admit ? 0 : 2;
	memcpy(b, c->call, (size_t)cl);
	n = cl;
	b[n++] = '\n';
	memcpy(b + n, resp, 16);
	n += 16;
	switch (c->kind) {
	case WRONGBYTE: {
		int k = nat_p(30) ? 15 : (int)nat_rnd(16);
		b[cl + 1 + k] ^= (uint8_t)(1u << nat_rnd(8));
		if (nat_p(20))
			for (i = k; i < 16; i++)
				b[cl + 1 + i] = rb() & 0x7f;
		if (memcmp(b + cl + 1, resp, 16) == 0)
			break;
		c->want_admit = 0;
		c->want_reject = 1;
		nat_note("  response differs at byte %d\n", k);
		break;
	}
	case NONL:
		for (i = 0; i < 11; i++)
			b[i] = (uint8_t)('A' + nat_rnd(26));
		if (nat_p(50)) b[11] = '\n';
		memcpy(b + 12, resp, 16);
		n = 28;
		c->want_admit = 0;
		c->want_reject = 0;
		break;
	case EARLYEOF:
		n = (int)nat_rnd((unsigned)n);
		c->want_admit = 0;
		c->want_reject = 0;
		break;
	case RESET:
		n = (int)nat_rnd((unsigned)n);
		c->want_admit = 0;
		c->want_reject = 0;
		break;
	case EMBEDNUL:
		/* the callsign ends at the NUL; the rest of the line is ignored */
		if (cl > 1) {
			int k = (int)nat_rnd((unsigned)cl);
			b[k] = 0;
			c->call[k] = 0;
			c->want_admit = permitted(c->call);
			c->want_reject = c->want_admit ? 0 : 2;
		}
		break;
	}
	nat_note("  client %d answers (kind %d, call '%s', %d bytes), should be %s\n", (int)(c - cls), c->kind, c->call, n,
		 c->want_admit ? "admitted" : c->want_reject ? "rejected with a message" : "dropped");
	if (match_fail_at == 0 && ON(A03) && !no_match_fail && nat_p(30) && (pol_allow >= 0 || pol_deny >= 0)) {
		match_fail_at = 1 + (int)nat_rnd(2);
		match_failed = 0;
		nat_note("  matcher call %d will fail\n", match_fail_at);
	}
	sim_feed(c->s, b, (size_t)n);
	if (c->kind == EARLYEOF)
		c->s->eof = 1;
	if (c->kind == RESET)
		c->s->dead = 1;
	c->feed_exp = n;
	c->fed_auth = 1;
}

static struct cl *connect_client(int kind, const char *call)
{
	struct cl *c = &cls[ncl];
	struct sim_sock *s = sim_client(PORT);
	if (!s)
		return NULL;
	memset(c, 0, sizeof(*c));
	ncl++;
	c->s = s;
	c->kind = kind;
	c->slot = -1;
	strcpy(c->call, call);
	nat_note("client %d connects\n", (int)(c - cls));
	return c;
}

static const char *rnd_call(void)
{
	static const char *calls[] = { "AA1X", "BB5", "CC", "ZX5", "A", "KD7X", "AA1X", "N0CALL-L", "*ECHO*", "", "ABCDEFGHIJ", "K5", "X", "AABBX5", "bb5", "0123456789", "W1AW\r" };
	static char t[16];
	if (nat_p(15)) {	/* any bytes */
		int n = (int)nat_rnd(11), i;
		for (i = 0; i < n; i++)
			do t[i] = (char)rb(); while (t[i] == 0 || t[i] == '\n');
		t[n] = 0;
		return t;
	}
	return calls[nat_rnd(17)];
}

/* ------------------------------------------------------------- messages */
static void put_hdr(uint8_t *h, int type, uint32_t addr, uint32_t size)
{
	h[0] = (uint8_t)type;
	memcpy(h + 1, &addr, 4);
	h[5] = (uint8_t)size; h[6] = (uint8_t)(size >> 8); h[7] = (uint8_t)(size >> 16); h[8] = (uint8_t)(size >> 24);
}
static uint32_t rnd_len(void)
{
	static const uint32_t l[] = { 0, 1, 2, 8, 9, 4086, 4087, 4088, 4095, 4096, 4097, 8191, 8192, 8193, 12288 };
	return nat_p(60) ? l[nat_rnd(15)] : nat_p(80) ? nat_rnd(700) : nat_rnd(20000);
}
static void c_udp(struct cl *c, int type)
{
	uint32_t addr = (uint32_t)nat_next(), n = rnd_len(), o, i;
	uint8_t h[9], *p = sim_get(n + 1);
	put_hdr(h, type, addr, n);
	for (i = 0; i < n; i++)
		p[i] = rb();
	nat_note("client %d sends %s message of %u bytes\n", (int)(c - cls), type == 5 ? "data" : "control", n);
	for (o = 0; o < n && c->nout < 290; o += 4096) {
		struct dgx *d = &c->out[c->nout++];
		d->port = type == 5 ? 5198 : 5199;
		d->addr = addr;
		d->len = n - o > 4096 ? 4096 : (int)(n - o);
		d->data = p + o;
	}
	sim_feed(c->s, h, 9);
	if (nat_p(30))
		sim_some(3);
	sim_feed(c->s, p, n);
	c->feed_exp += 9 + (int)n;
}
static void peer_udp(struct cl *c, int control)
{
	struct sim_sock *u = c->slot >= 0 ? sim_udp(slot_addr[c->slot], control ? 5199 : 5198) : NULL;
	uint32_t n = nat_p(15) ? 0 : nat_p(50) ? nat_rnd(200) : nat_p(20) ? 4087 : nat_rnd(4088), i, addr = (uint32_t)nat_next();
	uint8_t *p = sim_get(n + 1);
	if (!u || c->nud >= 290)
		return;
	for (i = 0; i < n; i++)
		p[i] = rb();
	if (!sim_datagram(u, addr, (uint16_t)nat_next(), p, (int)n))
		return;
	nat_note("peer sends a %s datagram of %u bytes to client %d\n", control ? "control" : "data", n, (int)(c - cls));
	if (n) {
		struct rmsg *r = &c->ud[c->nud++];
		r->type = control ? 6 : 5;
		r->addr = addr;
		r->len = n;
		r->data = p;
	}
}

static uint32_t connect_addr;
static int connect_res;
static int connect_seen;
static int on_connect(uint32_t a, uint16_t p)
{
	connect_seen++;
	CK(R03, a == connect_addr, "the proxy connects to %08x instead of %08x", ntohl(a), ntohl(connect_addr));
	CK(R03, p == 5200, "the proxy connects to port %u", p);
	return connect_res;
}

static void parse_client(struct cl *c)
{
	struct sim_sock *s = c->s;
	int i;
	if (!c->alive)
		return;
	if (c->parse == 0)
		c->parse = 8;
	while (s->out_n - c->parse >= 9) {
		uint8_t *h = s->out + c->parse;
		uint32_t addr, n = h[5] | (uint32_t)h[6] << 8 | (uint32_t)h[7] << 16 | (uint32_t)h[8] << 24;
		memcpy(&addr, h + 1, 4);
		CK(R02 | R03 | A02, h[0] >= 2 && h[0] <= 6, "client %d receives a message of type %u (stream position %d)", (int)(c - cls), h[0], c->parse);
		CK(R02, n <= 4087, "client %d receives a message of %u bytes", (int)(c - cls), n);
		if (s->out_n - c->parse - 9 < (int)n)
			break;
		switch (h[0]) {
		case 5: case 6:
			for (i = 0; i < c->nud; i++)
				if (!c->ud_seen[i] && c->ud[i].type == h[0])
					break;
			CK(R02, i < c->nud, "client %d receives a UDP message nobody sent", (int)(c - cls));
			if (i == c->nud)
				break;
			CK(R02, c->ud[i].len == n, "client %d: message of %u bytes for a datagram of %u", (int)(c - cls), n, c->ud[i].len);
			CK(R02, c->ud[i].addr == addr, "client %d: message from %08x for a datagram from %08x", (int)(c - cls), addr, c->ud[i].addr);
			CK(R02, c->ud[i].len == n && memcmp(c->ud[i].data, h + 9, n) == 0, "client %d: a message has other bytes than its datagram", (int)(c - cls));
			c->ud_seen[i] = 1;
			break;
		case 2:
			CK(R02, n > 0, "an empty TCP data message");
			CK(R02, c->tcp != NULL, "client %d receives TCP data without a connection", (int)(c - cls));
			if (!c->tcp)
				break;
			CK(R02, c->tcp_data_seen + (int)n <= c->tcp->in_n && memcmp(c->tcp->in + c->tcp_data_seen, h + 9, n) == 0,
			   "client %d receives other TCP data than the remote side sent", (int)(c - cls));
			c->tcp_data_seen += (int)n;
			break;
		case 3:
			CK(R03, n == 0, "a TCP close message with %u bytes", n);
			c->tcp_closes++;
			break;
		case 4:
			CK(R03, n == 4, "a TCP status message with %u bytes", n);
			c->tcp_status++;
			if (n == 4)
				c->tcp_last_status = (h[9] | h[10] | h[11] | h[12]) != 0;
			break;
		}
		c->parse += 9 + (int)n;
	}
}

/* which slot serves this client? */
static int probe_slot(struct cl *c)
{
	static uint32_t mark = 0x10203040;
	uint8_t h[9];
	int j, r = -1;
	struct dgx *d = &c->out[c->nout++];
	mark++;
	put_hdr(h, 5, mark, 1);
	sim_feed(c->s, h, 9);
	sim_feed(c->s, (uint8_t *)"!", 1);
	c->feed_exp += 10;
	d->port = 5198; d->addr = mark; d->len = 1; d->data = (uint8_t *)"!";
	sim_settle();
	for (j = 0; j < nslot; j++) {
		struct sim_sock *u = sim_udp(slot_addr[j], 5198);
		if (u && u->o_n && u->o[u->o_n - 1].addr == mark) {
			CK(S01, r < 0, "client %d is served by two slots", (int)(c - cls));
			CK(S01, used_by[j] < 0, "client %d is served by slot %d, which belongs to client %d", (int)(c - cls), j, used_by[j]);
			r = j;
		}
	}
	return used_by[r < 0 ? 0 : r] < 0 ? r : -1;
}

/* a client that should have ended */
static void model_end(struct cl *c)
{
	if (!c->alive)
		return;
	c->alive = 0;
	c->closing = 0;
	if (c->slot >= 0) {
		used_by[c->slot] = -1;
		freed_at[c->slot] = ++tick;
		nat_note("  slot %d is free again\n", c->slot);
		c->slot = -1;
	}
}

static int alive_clients(void)
{
	int i, n = 0;
	for (i = 0; i < ncl; i++)
		n += cls[i].alive;
	return n;
}

/* at rest: judge everything */
static void judge(void)
{
	int i, j, opened = 0;
	/* sessions that ended */
	{
		int ends = 0;
		for (i = 0; i < ncl; i++)
			ends += cls[i].alive && cls[i].closing;
		if (ends > 1)
			order_known = 0;
	}
	for (i = 0; i < ncl; i++) {
		struct cl *c = &cls[i];
		if (!c->alive)
			continue;
		parse_client(c);
		if (c->closing) {
			CK(R04 | S02, !c->s->open, "client %d: the session did not end (%s)", i, c->closing == 2 ? "invalid message" : "connection lost");
			if (!c->s->open)
				model_end(c);
			continue;
		}
		CK(R04 | R01 | R02 | R03 | A01 | S02, faulty || (c->s->open && !c->s->shut), "client %d: the session ended without a reason", i);
		if (!c->s->open)
			model_end(c);
	}
	/* handshakes that finished */
	for (i = 0; i < ncl; i++) {
		struct cl *c = &cls[i];
		uint8_t rej[10] = { 7, 0, 0, 0, 0, 1, 0, 0, 0, 1 };
		if (c->checked || !(c->fed_auth || !c->s->open))
			continue;
		if (!c->fed_auth) {	/* refused before the handshake */
			CK(S02, c->s->closes == 1 || c->s->fd == -1, "client %d is refused but its connection stays open", i);
			c->checked = c->refused = 1;
			continue;
		}
		c->checked = 1;
		if (match_failed && ON(A03)) {
			nat_note("  the matcher failed for client %d\n", i);
			if (c->want_admit) {
				CK(A03, !c->s->open, "client %d is admitted although matching its callsign failed", i);
				c->want_admit = 0;
				c->want_reject = 2;
			}
			match_failed = 0;
		}
		match_fail_at = 0;
		if (c->want_admit) {
			int found = -1;
			for (j = 0; j < nslot; j++)
				if (slot_used(j) && used_by[j] < 0) {
					if (racing)
						continue;
					CK(S01, found < 0, "two slots are taken for one client");
					found = j;
				}
			if (faulty) {
				if (!c->s->open)
					continue;
			}
			CK(A01 | A03 | A02, c->s->open && !c->s->shut, "client %d ('%s') answered correctly but was not admitted", i, c->call);
			CK(A02, c->s->out_n == 8 || c->s->out[8] != 7, "client %d receives a reject message although it is admitted", i);
			if (racing && c->s->open)
				found = probe_slot(c);
			CK(S01 | A01, found >= 0 || !c->s->open, "client %d is admitted but holds no slot", i);
			if (!c->s->open || found < 0)
				continue;
			if (ON(S01) && !racing && !unsure) {
				int want = -1, any = 0;
				for (j = 0; j < nslot; j++)
					if (used_by[j] < 0 && assigned_at[j] && strcmp(last_call[j], c->call) == 0 && (want < 0 || assigned_at[j] > assigned_at[want]))
						want = j, any = 1;
				if (want < 0)
					for (j = 0; j < nslot; j++)
						if (used_by[j] < 0 && (want < 0 || freed_at[j] < freed_at[want]))
							want = j;
				CHECK(want >= 0, "client %d is admitted although every slot is taken", i);
				if (any || order_known)
					CHECK(found == want, "client %d ('%s') gets slot %d instead of %d (%s)", i, c->call, found, want,
					      any ? "the free slot its callsign used last" : "the slot that has been free longest");
			}
			c->alive = 1;
			c->slot = found;
			used_by[found] = i;
			assigned_at[found] = ++tick;
			strcpy(last_call[found], c->call);
			nat_note("  client %d is admitted to slot %d\n", i, found);
			c->udp_c = sim_udp(slot_addr[found], 5199);
			c->udp_d = sim_udp(slot_addr[found], 5198);
			parse_client(c);
		} else {
			CK(A01 | A02 | A03, !c->s->open, "client %d should not have been admitted", i);
			rej[9] = (uint8_t)c->want_reject;
			if (!faulty) {
				if (c->want_reject)
					CK(A02, c->s->out_n == 18 && memcmp(c->s->out + 8, rej, 10) == 0,
					   "client %d does not receive exactly the reject message %d (%d bytes follow the nonce)", i, c->want_reject, c->s->out_n - 8);
				else
					CK(A02, c->s->out_n == 8, "client %d receives %d bytes after the nonce although its handshake was malformed", i, c->s->out_n - 8);
			}
		}
	}
	/* ownership of connections and slots */
	for (i = 0; i < ncl; i++)
		opened += cls[i].s->open;
	for (i = 0; i < ncl; i++)
		if (cls[i].alive || (cls[i].s->open && !cls[i].checked))
			opened--;
	CK(S02, opened == 0, "%d connections of finished clients are still open", opened);
	for (j = 0; j < nslot; j++)
		if (used_by[j] < 0)
			CK(S01 | S02, !sim_udp(slot_addr[j], 5198) && !sim_udp(slot_addr[j], 5199), "slot %d is free but its sockets are open", j);
	/* relayed data */
	for (i = 0; i < ncl; i++) {
		struct cl *c = &cls[i];
		if (!c->alive || c->slot < 0)
			continue;
		if (!c->sendfail) {
			CK(R02, c->parse == c->s->out_n, "client %d received part of a message (%d bytes)", i, c->s->out_n - c->parse);
			for (j = 0; j < c->nud; j++)
				CK(R02, c->ud_seen[j], "client %d never received a datagram of %u bytes", i, c->ud[j].len);
			if (c->tcp && c->tcp->open)
				CK(R02, c->tcp_data_seen == c->tcp->in_n, "client %d received %d of %d bytes from its TCP connection", i, c->tcp_data_seen, c->tcp->in_n);
		}
		CK(R01 | R04 | A01, c->s->in_pos == c->feed_exp, "client %d: %d bytes consumed instead of %d", i, c->s->in_pos, c->feed_exp);
		{
			int kc = 0, kd = 0, ko;
			for (ko = 0; ko < c->nout; ko++) {
				struct dgx *d = &c->out[ko];
				struct sim_sock *u = d->port == 5199 ? c->udp_c : c->udp_d;
				int *k = d->port == 5199 ? &kc : &kd;
				struct sim_dg *g;
				CK(R01, u && *k < u->o_n, "client %d: a datagram of %d bytes was not sent", i, d->len);
				if (!u || *k >= u->o_n)
					break;
				g = &u->o[(*k)++];
				CK(R01, g->addr == d->addr && g->port == d->port, "client %d: a datagram goes to %08x:%u instead of %08x:%d", i, ntohl(g->addr), g->port, ntohl(d->addr), d->port);
				CK(R01, (g->len < 0 ? -1 - g->len : g->len) == d->len, "client %d: a datagram of %d bytes instead of %d", i, g->len, d->len);
				if (g->len >= 0)
					CK(R01, memcmp(g->data, d->data, (size_t)d->len) == 0, "client %d: a datagram carries other bytes than the message", i);
			}
			CK(R01, !c->udp_c || kc == c->udp_c->o_n, "client %d: a control datagram nobody asked for", i);
			CK(R01, !c->udp_d || kd == c->udp_d->o_n, "client %d: a data datagram nobody asked for", i);
		}
		if (c->tcp && c->tcp->kind == K_STREAM && !c->tcp->out_err)
			CK(R01, c->tcp->out_n == c->tcp_out_exp && (c->tcp_out_exp == 0 || memcmp(c->tcp->out, c->tcp_exp, (size_t)c->tcp_out_exp) == 0),
			   "client %d: the remote side received %d bytes instead of %d, or other bytes", i, c->tcp->out_n, c->tcp_out_exp);
	}
}

static void pump(void)
{
	int i;
	for (i = 0; i < ncl; i++)
		if (!cls[i].fed_auth && cls[i].s->open && cls[i].s->out_n >= 8)
			feed_auth(&cls[i]);
}
static void rest(void)
{
	int k;
	for (k = 0; k < 3; k++) {
		sim_settle();
		pump();
	}
	sim_settle();
	judge();
}

/* ------------------------------------------------------------ operations */
static struct cl *rnd_alive(void)
{
	int n = alive_clients(), i, k;
	if (!n)
		return NULL;
	k = (int)nat_rnd((unsigned)n);
	for (i = 0; i < ncl; i++)
		if (cls[i].alive && k-- == 0)
			return cls[i].closing ? NULL : &cls[i];
	return NULL;
}

static void op_tcp_open(struct cl *c)
{
	uint8_t h[9];
	int st = c->tcp_status, seen = connect_seen, again = nat_p(25), old = sim_ns, i;
	struct sim_sock *prev = c->tcp;
	connect_addr = nat_p(20) ? 0 : (uint32_t)nat_next();
	connect_res = nat_p(25) ? ECONNREFUSED : 0;
	put_hdr(h, 1, connect_addr, 0);
	nat_note("client %d opens a TCP connection%s%s\n", (int)(c - cls), connect_res ? " (refused)" : "", again ? ", twice" : "");
	sim_feed(c->s, h, 9);
	c->feed_exp += 9;
	if (again) {
		if (nat_p(50)) {	/* with a close in between */
			put_hdr(h, 3, 0, 0);
			sim_feed(c->s, h, 9);
			c->feed_exp += 9;
			put_hdr(h, 1, connect_addr, 0);
		}
		sim_feed(c->s, h, 9);
		c->feed_exp += 9;
	}
	c->tcp = NULL;
	c->tcp_data_seen = 0;
	c->tcp_out_exp = 0;
	c->tcp_exp = sim_get(80000);
	sim_settle();
	for (i = sim_ns - 1; i >= old; i--)
		if (sim_s[i].kind == K_STREAM && sim_s[i].rp == 5200) {
			c->tcp = &sim_s[i];
			break;
		}
	parse_client(c);
	CK(R03, connect_seen == seen + 1 + again, "client %d: %d connection attempts for %d requests", (int)(c - cls), connect_seen - seen, 1 + again);
	CK(R03, c->tcp_status == st + 1 + again, "client %d: %d status messages for %d open requests", (int)(c - cls), c->tcp_status - st, 1 + again);
	CK(R03, c->tcp_last_status == (connect_res != 0), "client %d: status %s although connecting %s", (int)(c - cls),
	   c->tcp_last_status ? "failure" : "success", connect_res ? "failed" : "succeeded");
	if (prev)
		CK(R03, !prev->open, "client %d: the earlier TCP connection stays open", (int)(c - cls));
	for (i = old; i < sim_ns; i++)
		if (sim_s[i].rp == 5200 && &sim_s[i] != c->tcp)
			CK(R03, !sim_s[i].open, "client %d: a TCP connection of an earlier request stays open", (int)(c - cls));
	if (!connect_res) {
		CK(R03, c->tcp && c->tcp->open && !c->tcp->shut, "client %d: success is reported but the connection is not open", (int)(c - cls));
		CK(R03, !c->tcp || c->tcp->la == slot_addr[c->slot], "client %d: the TCP connection uses another slot's address", (int)(c - cls));
	}
	c->tcp_closes = 0;
	if (connect_res)
		c->tcp = NULL;
	judge();
}
static void op_tcp_remote_data(struct cl *c)
{
	uint32_t n = nat_p(50) ? nat_rnd(300) + 1 : nat_rnd(9000) + 1, i;
	if (!c->tcp || !c->tcp->open || c->tcp->shut || c->tcp->in_n + n > 60000)
		return;
	nat_note("remote side sends %u bytes to client %d\n", n, (int)(c - cls));
	{
		uint8_t *p = sim_get(n);
		for (i = 0; i < n; i++)
			p[i] = rb();
		sim_feed(c->tcp, p, n);
	}
}
static void op_tcp_client_data(struct cl *c)
{
	uint32_t n = rnd_len(), i;
	uint8_t h[9], *p;
	if (!c->tcp || !c->tcp->open || c->tcp_out_exp + n > 70000)
		return;
	p = sim_get(n + 1);
	for (i = 0; i < n; i++)
		p[i] = rb();
	nat_note("client %d sends %u bytes to its TCP connection\n", (int)(c - cls), n);
	put_hdr(h, 2, (uint32_t)nat_next(), n);
	sim_feed(c->s, h, 9);
	sim_feed(c->s, p, n);
	c->feed_exp += 9 + (int)n;
	memcpy(c->tcp_exp + c->tcp_out_exp, p, n);
	c->tcp_out_exp += (int)n;
}
static void op_tcp_end(struct cl *c)
{
	struct sim_sock *t = c->tcp;
	int how = (int)nat_rnd(4), k0 = c->tcp_closes;
	uint8_t h[9];
	if (!t || !t->open)
		return;
	rest();
	if (!c->alive || !t->open)
		return;
	switch (how) {
	case 0: nat_note("remote side of client %d ends\n", (int)(c - cls)); t->eof = 1; break;
	case 1: nat_note("remote side of client %d resets\n", (int)(c - cls)); t->in_err = nat_p(50) ? ECONNRESET : ETIMEDOUT; break;
	case 2:
		nat_note("client %d closes its TCP connection\n", (int)(c - cls));
		put_hdr(h, 3, (uint32_t)nat_next(), 0);
		sim_feed(c->s, h, 9);
		c->feed_exp += 9;
		break;
	case 3: {
		uint32_t n = rnd_len() + 1, i;
		uint8_t *p = sim_get(n);
		for (i = 0; i < n; i++) p[i] = rb();
		nat_note("client %d sends %u bytes to a TCP connection that fails\n", (int)(c - cls), n);
		t->out_err = nat_p(50) ? EPIPE : ETIMEDOUT;
		put_hdr(h, 2, 0, n);
		sim_feed(c->s, h, 9);
		sim_feed(c->s, p, n);
		c->feed_exp += 9 + (int)n;
		break;
	}
	}
	sim_settle();
	parse_client(c);
	CK(R03, !t->open, "client %d: its TCP connection stays open", (int)(c - cls));
	if (how != 2)
		CK(R03, c->tcp_closes >= k0 + 1 && c->tcp_closes <= k0 + 2, "client %d receives %d TCP close messages", (int)(c - cls), c->tcp_closes - k0);
	else
		CK(R03, c->tcp_closes <= k0 + 1, "client %d receives %d TCP close messages", (int)(c - cls), c->tcp_closes - k0);
	c->tcp_closes = 0;
	c->tcp = NULL;
	judge();
}
static void op_end(struct cl *c)
{
	uint8_t h[9];
	rest();
	if (!c->alive)
		return;
	c->closing = 1;
	switch (nat_rnd(faulty ? 6 : 7)) {
	case 0: case 1: case 2: nat_note("client %d disconnects\n", (int)(c - cls)); c->s->eof = 1; break;
	case 3: nat_note("client %d resets its connection\n", (int)(c - cls)); c->s->dead = 1; break;
	case 4:
		h[0] = nat_p(50) ? 0 : (uint8_t)(nat_p(30) ? 4 : 7 + nat_rnd(249));
		put_hdr(h, h[0], 0, nat_p(50) ? 0 : nat_rnd(20));
		nat_note("client %d sends a message of type %u\n", (int)(c - cls), h[0]);
		sim_feed(c->s, h, 9);
		c->closing = 2;
		break;
	case 5:
		nat_note("client %d disconnects within a message\n", (int)(c - cls));
		put_hdr(h, nat_p(50) ? 5 : 2, 0, 500);
		sim_feed(c->s, h, nat_rnd(9) + 1);
		c->s->eof = 1;
		break;
	case 6: {
		int ctl = nat_p(50);
		struct sim_sock *u = ctl ? c->udp_c : c->udp_d;
		static const int e[] = { ENOBUFS, ENOMEM, EBADF, ETIMEDOUT };
		nat_note("receiving on a UDP socket of client %d fails\n", (int)(c - cls));
		u->in_err = e[nat_rnd(4)];
		break;
	}
	}
}

static void op_sendfail(struct cl *c)
{
	uint8_t h[9];
	rest();
	if (!c->alive || c->tcp || faulty)
		return;
	nat_note("client %d cannot be written to\n", (int)(c - cls));
	c->sendfail = 1;
	c->s->out_err = nat_p(50) ? EPIPE : ETIMEDOUT;
	if (nat_p(50)) {	/* the status answer cannot be written: the session ends */
		connect_addr = 5; connect_res = 0;
		put_hdr(h, 1, connect_addr, 0);
		sim_feed(c->s, h, 9);
		c->closing = 1;
	} else {
		int e = c->s->out_err;
		struct sim_sock *u = c->udp_d;
		static const uint8_t x[4];
		sim_datagram(u, 1, 2, x, 4);
		if (e == ETIMEDOUT)
			c->closing = 1;
		else {	/* silent end of one forwarder; the session lives until the client goes */
			sim_settle();
			CK(R04, c->s->open, "client %d: a broken pipe in a forwarder ended the session", (int)(c - cls));
			c->s->eof = 1;
			c->closing = 1;
		}
	}
}

static void finale(void)
{
	int i, j;
	struct cl *c;
	/* everybody leaves, then every slot must be available again */
	for (i = 0; i < ncl; i++)
		if (cls[i].s->open && !cls[i].s->eof) {
			cls[i].s->eof = 1;
			if (cls[i].alive)
				cls[i].closing = 1;
			else if (!cls[i].fed_auth) {
				cls[i].fed_auth = 1;
				cls[i].kind = EARLYEOF;
			}
		}
	faulty = 0;
	sim_net_fail_pct = 0;
	match_fail_at = 0;
	match_failed = 0;
	no_match_fail = 1;
	sim_settle();
	judge();
	for (j = 0; j < nslot; j++)
		CK(S01 | S02, !slot_used(j), "slot %d is still in use after every client has left", j);
	if (!(NAT_SEL & (S01 | S02 | P01)))
		return;
	nat_note("every client has left; filling all %d slots\n", nslot);
	for (i = 0; i < nslot && ncl < MAXCL; i++) {
		const char *call;
		int k = 0;
		do
			call = rnd_call();
		while (!permitted(call) && k++ < 500);
		if (!permitted(call))
			return;
		c = connect_client(GOOD, call);
		CK(S01 | S02, c != NULL, "the proxy does not listen any more");
		if (!c)
			return;
		rest();
		CK(S01 | S02, c->alive, "with %d of %d slots taken, a client is refused", i, nslot);
	}
	if (ncl < MAXCL) {
		c = connect_client(GOOD, "AA1X");
		rest();
		CK(S01 | S02, !c->s->open && !c->alive, "a client is not refused although every slot is taken");
		CK(S02, c->s->out_n == 0, "a client receives %d bytes although it is refused", c->s->out_n);
	}
}

static void scenario(unsigned long index)
{
	int i, steps, r, k;
	pthread_t srv;
	sim_begin();
	memset(&ph, 0, sizeof(ph));
	ncl = 0; srv_done = 0; tick = 0; order_known = 1; match_fail_at = match_failed = 0; connect_seen = 0;
	faulty = no_match_fail = racing = unsure = 0;
	sim_on_connect = on_connect;
	nslot = 1 + (int)nat_rnd(MAXSLOT);
	for (i = 0; i < MAXSLOT; i++) {
		used_by[i] = -1; assigned_at[i] = 0; last_call[i][0] = 0;
		freed_at[i] = i - MAXSLOT;
	}
	k = (int)(nat_p(80) ? 1 + nat_rnd(12) : nat_rnd(150));
	for (i = 0; i < k; i++)
		password[i] = (char)(nat_p(70) ? 'a' + (int)nat_rnd(26) : 1 + (int)nat_rnd(255));
	password[k] = 0;
	pol_allow = nat_p(50) ? -1 : (int)nat_rnd(NPAT);
	pol_deny = nat_p(50) ? -1 : (int)nat_rnd(NPAT);
	if (!(NAT_SEL & (A01 | A02 | A03)) && nat_p(70))
		pol_allow = pol_deny = -1;
	nat_note("%d slots, password of %d bytes, allow %s, deny %s\n", nslot, k, pol_allow < 0 ? "-" : pats[pol_allow].re, pol_deny < 0 ? "-" : pats[pol_deny].re);
	r = proxy_init(&ph);
	CHECK(r == 0, "proxy_init returned %d", r);
	setup_conf();
	if (ON(A03) && nat_p(15)) {	/* a pattern that cannot be compiled */
		static const char *bad[] = { "(", "[", "*", "a{2,1}", "(?<n", "\\" };
		char **f = nat_p(50) ? &ph.conf.calls_allowed : &ph.conf.calls_denied;
		proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/dev/null");
		if (*f) {
			sim_blk_del(*f);
			__real_free(*f);
		}
		*f = dup_(bad[nat_rnd(6)]);
		nat_note("invalid %s pattern %s\n", f == &ph.conf.calls_allowed ? "allow" : "deny", *f);
		r = proxy_open(&ph);
		CHECK(r < 0, "proxy_open returned %d with an invalid pattern", r);
		proxy_free(&ph);
		return;
	}
	proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/dev/null");
	proxy_log_level(&ph, LOG_LEVEL_FATAL);
	r = proxy_open(&ph);
	CHECK(r == 0, "proxy_open returned %d", r);
	r = proxy_start(&ph);
	CHECK(r == 0, "proxy_start returned %d", r);
	sim_spawn(server, NULL, &srv, NULL);
	sim_settle();
	if (ON(A03))	/* the policy on its own */
		for (i = 0; i < 30; i++) {
			const char *call = rnd_call();
			int got, f;
			match_failed = 0;
			match_fail_at = nat_p(30) ? 1 + (int)nat_rnd(2) : 0;
			f = match_fail_at;
			got = proxy_authorize_callsign(&ph, call);
			match_fail_at = 0;
			CHECK((got == 1) == (!match_failed && permitted(call)), "callsign '%s' (matcher failure %d%s): proxy_authorize_callsign returns %d", call, f, match_failed ? " happened" : "", got);
			match_failed = 0;
		}
	steps = 4 + (int)nat_rnd(24);
	for (i = 0; i < steps; i++) {
		struct cl *c = NULL;
		int op = (int)nat_rnd(100), burst;
		if (alive_clients() == 0 || op < 22) {
			if (ncl >= MAXCL - MAXSLOT - 2)
				continue;
			if (ON(S01 | S02) && !faulty && alive_clients() && alive_clients() < nslot && nat_p(40)) {
				/* one leaves while another one, perhaps with its callsign, comes */
				struct cl *d;
				rest();
				d = rnd_alive();
				if (d && alive_clients() < nslot) {
					int q, m = 1 + (int)nat_rnd((unsigned)(nslot - alive_clients()));
					struct cl *n[4];
					int nn = 0;
					for (q = 0; q < m; q++)
						n[nn++] = connect_client(GOOD, nat_p(70) ? d->call : rnd_call());
					sim_settle();
					nat_note("client %d leaves meanwhile\n", (int)(d - cls));
					order_known = 0;
					d->closing = 1;
					d->s->eof = 1;
					sim_some(nat_rnd(12));
					racing = 1;
					unsure = 1;
					for (q = 0; q < nn; q++) {
						if (n[q] && n[q]->s->open && n[q]->s->out_n >= 8)
							feed_auth(n[q]);
						sim_some(nat_rnd(6));
					}
					sim_settle();
					judge();
					racing = 0;
					continue;
				}
			}
			burst = ON(S01 | S02 | P01) && nat_p(20) ? 1 + (int)nat_rnd(4) : 1;
			if (ON(S01 | S02) && !faulty && nat_p(6)) {
				faulty = 1;
				order_known = 0;
				sim_net_fail_pct = 4;
				nat_note("network calls may fail from now on\n");
			}
			while (burst--) {
				c = connect_client(nat_p(60) ? GOOD : (int)nat_rnd(NKIND), rnd_call());
				if (burst) {
					order_known = 0;
					sim_some(nat_rnd(30));
				}
			}
			if (!c)
				break;
			if (ON(S01 | S02) && nat_p(15)) {	/* somebody leaves at the same time */
				struct cl *d = rnd_alive();
				if (d) {
					nat_note("client %d leaves meanwhile\n", (int)(d - cls));
					order_known = 0;
					d->closing = 1;
					d->s->eof = 1;
				}
			}
			/* several clients in one batch: which one gets which slot is open */
			{
				int open_auth = 0, q;
				for (k = 0; k < 4; k++) {
					sim_settle();
					open_auth = 0;
					for (q = 0; q < ncl; q++)
						if (!cls[q].fed_auth && cls[q].s->open && cls[q].s->out_n >= 8) {
							feed_auth(&cls[q]);
							if (!ON(S01 | S02) || nat_p(60)) {
								sim_settle();
								judge();
							} else {	/* let the handshakes race, keep the books by hand */
								sim_settle();
								judge();
							}
							open_auth++;
						}
					if (!open_auth)
						break;
				}
				judge();
			}
			continue;
		}
		c = rnd_alive();
		if (!c)
			continue;
		if (op < 40) c_udp(c, nat_p(50) ? 5 : 6);
		else if (op < 60) peer_udp(c, nat_p(50));
		else if (op < 68) { rest(); if (c->alive) op_tcp_open(c); }
		else if (op < 74) op_tcp_remote_data(c);
		else if (op < 80) op_tcp_client_data(c);
		else if (op < 86) op_tcp_end(c);
		else if (op < 94) op_end(c);
		else if (op < 96) op_sendfail(c);
		else if (op < 98) {
			struct sim_sock *u = nat_p(50) ? c->udp_c : c->udp_d;
			rest();
			if (c->alive) {
				nat_note("sending datagrams of client %d fails for a while\n", (int)(c - cls));
				u->out_err = EPERM;
				c_udp(c, u == c->udp_d ? 5 : 6);
				rest();
				u->out_err = 0;
			}
		}
		if (nat_p(60))
			rest();
		else
			sim_some(nat_rnd(20));
	}
	rest();
	if (nat_p(70))
		finale();
	nat_note("shutdown\n");
	sim_net_fail_pct = 0;
	proxy_shutdown(&ph);
	sim_settle();
	CHECK(srv_done, "the accept loop does not end after a shutdown request");
	pthread_join(srv, NULL);
	proxy_close(&ph);
	for (i = 0; i < ncl; i++)
		CK(S02, !cls[i].s->open || cls[i].s->fd == -1, "client %d: its connection is open after the proxy has been closed", i);
	proxy_free(&ph);
	for (i = 0; i < ncl; i++)
		if (cls[i].s->accepted)
			CK(S02, cls[i].s->closes <= 1, "client %d: its connection was closed %d times", i, cls[i].s->closes);
	CK(S02 | P01, sim_open_fds() == 0, "%d descriptors are open after proxy_free", sim_open_fds());
	CK(S02 | P01, sim_live == 0, "%u memory blocks are not released after proxy_free", sim_live);
	CK(S02 | P01, sim_threads_alive() == 0, "%d threads were never joined", sim_threads_alive());
	CK(S02 | P01, sim_nmx == 0, "%d locks were never destroyed", sim_nmx);
	(void)index;
}
NAT_MAIN
