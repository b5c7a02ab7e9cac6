/* The real registration service against a simulated registrar. */
#include "sim.h"
#include "refmd5.h"
#include "openelp/openelp.h"
#include "registration.h"
#define G1 (NAT_SEL & 1)
#define G2 (NAT_SEL & 2)

static struct registration_service_handle rs;
static struct proxy_conf conf;
static uint32_t con_addr;
static uint16_t con_port;
static int refuse, fails;
static int on_connect(uint32_t a, uint16_t p)
{
	con_addr = a;
	con_port = p;
	return refuse ? ECONNREFUSED : 0;
}
static struct { size_t used, total; int status; } hist[64];
static int nh, last_seen;
static char *txt(unsigned max, int weird)
{
	unsigned n = nat_p(10) ? 0 : 1 + nat_rnd(max), i;
	char *p = sim_get(n + 1);
	for (i = 0; i < n; i++)
		p[i] = (char)(weird && nat_p(20) ? "%&=[]/ +"[nat_rnd(8)] : nat_p(50) ? 'A' + nat_rnd(26) : '0' + nat_rnd(10));
	p[n] = 0;
	return p;
}
/* body that has to be sent for an update */
static char *body_of(int k)
{
	static const char *const ph[] = { "", "Ready", "Busy", "Off" };
	static char out[40000], cnt[80], hex[40];
	char in[20000];
	uint8_t d[16];
	int i;
	const char *ad = conf.public_addr ? conf.public_addr : "";
	snprintf(in, sizeof(in), "%s%s#5A!zu", conf.reg_name, ad);
	ref_md5((uint8_t *)in, strlen(in), d);
	for (i = 0; i < 16; i++)
		snprintf(hex + 2 * i, 3, "%02X", d[i]);
	cnt[0] = 0;
	if (hist[k].total != 1)
		snprintf(cnt, sizeof(cnt), " [%lu/%lu]", (unsigned long)hist[k].used, (unsigned long)hist[k].total);
	snprintf(out, sizeof(out), "name=%s&comment=%s%s&public=%c&status=%s&a=%s&d=%s&p=%u&v=1.2.3o", conf.reg_name, conf.reg_comment ? conf.reg_comment : "", cnt,
		 conf.password && !strcmp(conf.password, "PUBLIC") ? 'Y' : 'N', ph[hist[k].status], ad, hex, (unsigned)conf.port);
	return out;
}
static int checked[SIM_MAXS];
static int reports, lastk;
/* one finished (or waiting) report */
static void check_request(struct sim_sock *s)
{
	char *o = (char *)s->out, *e, *l;
	int n = s->out_n, hl, bl, k;
	nat_note("report of %d bytes\n", n);
	if (n == 0)
		return;
	o[n] = 0;
	e = strstr(o, "\r\n\r\n");
	if (fails && e == NULL)
		return;
	if (G1) {
		CHECK(con_addr == htonl(0x01020304) && con_port == 80, "the report goes to another host or port");
		CHECK(e != NULL, "the header of the report has no end: %.200s", o);
	}
	if (e == NULL)
		return;
	hl = (int)(e - o) + 4;
	l = strstr(o, "\r\nContent-Length: ");
	bl = l ? atoi(l + 18) : 0;
	if (fails && n - hl < bl)
		return;		/* the connection failed */
	if (G1) {
		CHECK(l != NULL && l < e, "the request has no length");
		CHECK(!strncmp(o, "POST /proxypost.jsp HTTP/1.1\r\n", 30), "the report is no POST request: %.60s", o);
		CHECK((l = strstr(o, "\r\nHost: www.echolink.org\r\n")) != NULL && l < e, "the request names no host");
		CHECK((l = strstr(o, "\r\nContent-Type: application/x-www-form-urlencoded\r\n")) != NULL && l < e, "the request has no content type");
		CHECK(bl == n - hl, "the body has %d bytes, %d are announced", n - hl, bl);
	}
	for (k = lastk; k < nh; k++)
		if (!strcmp(body_of(k), o + hl))
			break;
	if (G1 && k == nh) {
		/* identity and format, whatever the counts are */
		for (k = 0; k < nh; k++)
			if (!strcmp(body_of(k), o + hl))
				break;
		if (k == nh) {
			char *c = strstr(o + hl, "&public="), *x;
			/* compare all but counts and status */
			int st, any = 0;
			unsigned long u, t;
			for (st = 1; st <= 3 && !any; st++) {
				hist[63].status = st;
				if (c != NULL && c[-1] == ']' && (x = strrchr(strndup(o + hl, (size_t)(c - o - hl)), '[')) != NULL && sscanf(x, "[%lu/%lu]", &u, &t) == 2) {
					hist[63].used = u;
					hist[63].total = t;
				} else
					hist[63].total = 1;
				any = !strcmp(body_of(63), o + hl);
			}
			CHECK(any, "the body is '%.600s' and not like '%.600s'", o + hl, body_of(nh - 1));
		}
	}
	if (G2) {
		CHECK(k < nh, "the report '%.300s' is not any later update; the last one is '%.300s'", o + hl, body_of(nh - 1));
		lastk = k;
	}
	reports++;
}
static void at_stop(struct sim_sock *s) { s->eof = 1; }
static void serve(void)
{
	int i;
	sim_settle();
	for (i = 0; i < sim_ns; i++)
		if (sim_s[i].kind == K_STREAM && !sim_s[i].accepted && !checked[i]) {
			int m = (int)nat_rnd(4);
			checked[i] = 1;
			check_request(&sim_s[i]);
			if (m == 0)
				sim_s[i].eof = 1;
			else if (m == 1)
				sim_feed(&sim_s[i], "HTTP/1.1 404 Not Found\r\n\r\n", 26);
			else
				sim_feed(&sim_s[i], "HTTP/1.1 200 OK\r\n\r\n", 19);
			sim_s[i].eof = 1;
		}
	sim_settle();
}
static void serve_all(void)
{
	int i, b;
	do {
		b = sim_ns;
		serve();
	} while (b != sim_ns);
	(void)i;
}
static void record(size_t u, size_t t, int st)
{
	if (nh >= 62)
		nat_fail("harness: too many updates");
	hist[nh].used = u;
	hist[nh].total = t;
	hist[nh++].status = st;
}
static size_t count(void) { return nat_p(60) ? nat_rnd(4) : nat_p(60) ? nat_rnd(300) : nat_p(50) ? (size_t)nat_next() >> 2 : (size_t)1 << nat_rnd(62); }

static void scenario(unsigned long index)
{
	int r, steps, started, round, before, named;
	(void)index;
	sim_begin();
	memset(&rs, 0, sizeof(rs));
	memset(&conf, 0, sizeof(conf));
	memset(checked, 0, sizeof(checked));
	nh = reports = lastk = 0;
	refuse = 0;
	sim_on_connect = on_connect;
	sim_named_addr = htonl(0x01020304);
	named = nat_p(93);
	conf.reg_name = named ? txt(nat_p(10) ? 3000 : 40, 1) : NULL;
	conf.reg_comment = nat_p(30) ? NULL : txt(nat_p(10) ? 3000 : 60, 1);
	conf.public_addr = nat_p(40) ? NULL : nat_p(50) ? "192.168.100.200" : txt(nat_p(10) ? 3000 : 30, 0);
	conf.password = nat_p(20) ? NULL : nat_p(50) ? "PUBLIC" : nat_p(30) ? "public" : nat_p(30) ? "PUBLICX" : txt(10, 0);
	conf.port = (uint16_t)(nat_p(30) ? 8100 : nat_p(30) ? nat_rnd(10) : nat_next());
	fails = nat_p(30);
	r = registration_service_init(&rs);
	CHECK(r == 0, "registration_service_init returns %d", r);
	for (round = 0; round < 1 + (int)nat_rnd(2); round++) {
		started = 0;
		if (nat_p(70)) {	/* the proxy makes an update first */
			size_t u = count(), t = count();
			registration_service_update(&rs, u, t);
			if (round == 0)
				record(u, t, u >= t ? 2 : 1);
		}
		if (round && nat_p(50)) {
			if (conf.public_addr == NULL)
				conf.public_addr = "10.0.0.1";
			else
				conf.public_addr = NULL;
			conf.port++;
		}
		before = sim_connects;
		r = registration_service_start(&rs, &conf);
		CHECK(r == 0, "registration_service_start returns %d", r);
		started = named;
		nat_note("name %.40s comment %.40s address %.40s password %.20s port %u%s\n", conf.reg_name ? conf.reg_name : "(none)", conf.reg_comment ? conf.reg_comment : "(none)",
			 conf.public_addr ? conf.public_addr : "(none)", conf.password ? conf.password : "(none)", conf.port, fails ? ", network failures" : "");
		steps = 1 + (int)nat_rnd(8);
		while (steps--) {
			size_t u = count(), t = nat_p(30) ? u : nat_p(30) ? 1 : count();
			if (fails) {
				sim_net_fail_pct = nat_p(50) ? 15 : 0;
				refuse = nat_p(10);
			}
			nat_note("update %lu/%lu\n", (unsigned long)u, (unsigned long)t);
			record(u, t, u >= t ? 2 : 1);
			registration_service_update(&rs, u, t);
			if (nat_p(40)) {
				serve_all();
				if (G2 && started && !fails) {
					char *a = strdup(body_of(lastk));
					CHECK(reports > 0 && !strcmp(a, body_of(nh - 1)), "the last update '%.300s' is not reported", body_of(nh - 1));
					free(a);
				}
			} else
				sim_some(nat_rnd(10));
		}
		sim_net_fail_pct = 0;
		refuse = 0;
		serve_all();
		if (nat_p(20)) {
			int rb = reports;
			sim_advance(700000);
			sim_wait_advances = 0;
			sim_some(3);
			serve_all();
			(void)rb;
		}
		/* stop: the registrar answers meanwhile */
		{
			int i;
			size_t u = hist[nh - 1].used, t = hist[nh - 1].total;
			record(u, t, 3);
			nat_note("stop\n");
			sim_net_fail_pct = 0;
			sim_on_stream = at_stop;
			before = sim_connects;
			r = registration_service_stop(&rs);
			sim_on_stream = NULL;
			CHECK(!started || r == 0, "registration_service_stop returns %d", r);
			if (G2 && started)
				CHECK(sim_connects > before, "the proxy is off and this is not reported");
			for (i = 0; i < sim_ns; i++)
				if (sim_s[i].kind == K_STREAM && !checked[i]) {
					checked[i] = 1;
					if (G2)
						lastk = nh - 1;
					check_request(&sim_s[i]);
				}
			before = sim_connects;
			registration_service_update(&rs, 1, 5);
			serve_all();
			CHECK(!G2 || sim_connects == before, "an update is reported after the stop");
		}
		if (!started)
			CHECK(!G1 || sim_connects == 0, "a report is sent without a name");
	}
	registration_service_free(&rs);
	CHECK(sim_open_fds() == 0, "%d descriptors are left", sim_open_fds());
	CHECK(sim_live == 0, "%d allocations are left", sim_live);
}
NAT_MAIN
