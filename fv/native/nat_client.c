/* proxy_client_connect of the real code against a simulated proxy. */
#include "sim.h"
#include "refmd5.h"
#include "openelp/openelp.h"
#include "proxy_client.h"

static char nonce[9];
static int nonce_n, eof, out_limit, connects;
static uint32_t to;
static uint16_t to_port;
static int on_connect(uint32_t a, uint16_t p)
{
	connects++;
	to = a;
	to_port = p;
	return 0;
}
static void on_stream(struct sim_sock *s)
{
	sim_feed(s, nonce, (size_t)nonce_n);
	s->eof = eof;
	s->out_limit = 200000;
	if (out_limit >= 0) {
		s->out_limit = out_limit;
		s->out_err = 0;
	}
}
/* somebody closes the other end when nothing moves any more */
static int stop;
static void *reaper(void *a)
{
	int i;
	(void)a;
	while (!stop) {
		sim_settle();
		for (i = 0; i < sim_ns && !stop; i++)
			if (sim_s[i].kind == K_STREAM)
				sim_s[i].dead = 1;
		sim_yield();
	}
	return NULL;
}
static char *dup_(const char *s) { return strcpy(__real_malloc(strlen(s) + 1), s); }
static char *word(size_t n)
{
	char *p = __real_malloc(n + 1);
	size_t i;
	for (i = 0; i < n; i++)
		p[i] = (char)(nat_p(80) ? 'A' + nat_rnd(58) : 1 + nat_rnd(255));
	p[n] = 0;
	return p;
}
static void scenario(unsigned long index)
{
	struct proxy_client_handle ch;
	char host[20], port[8];
	uint8_t want[3000], text[3000];
	int r, wn = 0, i, fds, tn = 0, fault = nat_p(50), rounds = 1 + (int)nat_rnd(3);
	unsigned live;
	pthread_t t;
	(void)index;
	sim_begin();
	sim_on_connect = on_connect;
	sim_on_stream = on_stream;
	memset(&ch, 0, sizeof(ch));
	CHECK(proxy_client_init(&ch) == 0, "init fails");
	ch.host_addr = host;
	ch.host_port = port;
	live = sim_live;
	fds = sim_open_fds();
	while (rounds--) {
		uint32_t h;
		size_t passlen = nat_p(70) ? nat_rnd(20) : nat_rnd(300);
		const char *pw;
		struct sim_sock *s = NULL;
		h = 0x7f000000u + nat_rnd(65536);
		sprintf(host, "127.0.%u.%u", h >> 8 & 255, h & 255);
		sprintf(port, "%u", 1 + nat_rnd(65535));
		sprintf(nonce, "%08x", nat_p(30) ? nat_rnd(256) << (4 * nat_rnd(7)) : (unsigned)nat_next());
		ch.callsign = nat_p(15) ? NULL : word(nat_p(80) ? nat_rnd(12) : nat_rnd(2000));
		ch.password = nat_p(25) ? NULL : word(passlen);
		nonce_n = 8;
		eof = 0;
		out_limit = -1;
		sim_net_fail_at = 0;
		sim_alloc_seen = sim_alloc_fail_at = 0;
		connects = stop = 0;
		if (fault)
			switch (nat_rnd(4)) {
			case 0: nonce_n = (int)nat_rnd(8); eof = 1; break;
			case 1: out_limit = (int)nat_rnd(20); break;
			case 2: sim_net_fail_at = 1 + (int)nat_rnd(14); break;
			default: sim_alloc_fail_at = 1 + nat_rnd(2);
			}
		nat_note("callsign %s%.40s password %.40s nonce %s; nonce bytes %d, accepts %d, network call %d fails, allocation %u fails\n", ch.callsign ? "" : "(none)",
			 ch.callsign ? ch.callsign : "", ch.password ? ch.password : "(none)", nonce, nonce_n, out_limit, sim_net_fail_at, sim_alloc_fail_at);
		wn = tn = 0;
		if (ch.callsign)
			wn = (int)strlen(strcpy((char *)want, ch.callsign));
		want[wn++] = '\n';
		pw = ch.password ? ch.password : "PUBLIC";
		for (; *pw; pw++)
			text[tn++] = (uint8_t)(*pw >= 'a' && *pw <= 'z' ? *pw - 32 : *pw);
		memcpy(text + tn, nonce, 8);
		i = (int)sim_alloc_fail_at;
		sim_alloc_fail_at = 0;
		ref_md5(text, (size_t)tn + 8, want + wn);
		sim_alloc_fail_at = (unsigned)i;
		sim_alloc_seen = 0;
		live = sim_live;
		wn += 16;
		if (out_limit >= 0) {
			sim_spawn(reaper, NULL, &t, NULL);
		}
		i = sim_ns;
		r = proxy_client_connect(&ch);
		stop = 1;
		if (out_limit >= 0)
			pthread_join(t, NULL);
		for (; i < sim_ns; i++)
			if (sim_s[i].kind == K_STREAM)
				s = &sim_s[i];
		if (!fault)
			CHECK(r == 0, "returns %d although nothing failed", r);
		if (s) {
			CHECK(to == htonl(h) && to_port == atoi(port) && connects == 1, "connected to %08x:%u (%d)", ntohl(to), to_port, connects);
			CHECK(s->out_n <= wn && memcmp(s->out, want, (size_t)s->out_n) == 0, "%d bytes are sent which are not the callsign, newline and response (%d)", s->out_n, wn);
			CHECK(s->in_pos <= 8, "%d bytes are received", s->in_pos);
		}
		if (r == 0)
			CHECK(s && s->out_n == wn && s->in_pos == 8 && sim_open_fds() == fds + 1, "returns 0 with %d of %d bytes sent and %d files open", s ? s->out_n : -1, wn, sim_open_fds() - fds);
		else
			CHECK(r < 0 && (!s || s->out_n < wn) && sim_open_fds() == fds, "returns %d with %d of %d bytes sent and %d files open", r, s ? s->out_n : -1, wn, sim_open_fds() - fds);
		if (r == 0)
			proxy_client_disconnect(&ch);
		CHECK(sim_open_fds() == fds, "%d files are open after disconnecting", sim_open_fds() - fds);
		CHECK(sim_live == live, "%d blocks are not released", (int)(sim_live - live));
		__real_free(ch.callsign);
		__real_free(ch.password);
	}
	sim_net_fail_at = sim_alloc_fail_at = 0;
	proxy_client_free(&ch);
	CHECK(ch.priv == NULL && sim_live == 0 && sim_open_fds() == 0 && sim_gai_live == 0 && sim_nmx == 0, "%u blocks, %d files, %d addresses, %d locks are left", sim_live, sim_open_fds(), sim_gai_live, sim_nmx);
	(void)dup_;
	sim_on = 0;
}
NAT_MAIN
