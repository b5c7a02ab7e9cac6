/* Slots in use as passed to the registration service by the real proxy, while
 * clients come and go one after the other. */
#include "sim.h"
#include "refmd5.h"
#include "openelp/openelp.h"
#define PORT 8100
static struct proxy_handle ph;
static int nslot, updates, srv_done, in_use;
static size_t last_used, last_total;
int __real_pcre2_match_8(void *, void *, size_t, size_t, uint32_t, void *, void *);
int __wrap_pcre2_match_8(void *re, void *sub, size_t len, size_t st, uint32_t o, void *md, void *mc) { return __real_pcre2_match_8(re, sub, len, st, o, md, mc); }
void *__real_pcre2_match_data_create_from_pattern_8(void *, void *);
void *__wrap_pcre2_match_data_create_from_pattern_8(void *re, void *g) { return __real_pcre2_match_data_create_from_pattern_8(re, g); }
void __wrap_registration_service_update(void *rs, size_t used, size_t total)
{
	(void)rs;
	updates++;
	last_used = used;
	last_total = total;
	CHECK(used <= (size_t)nslot, "%lu of %d slots are in use", (unsigned long)used, nslot);
}
static char *dup_(const char *s)
{
	char *p = __real_malloc(strlen(s) + 1);
	sim_blk_add(p);
	strcpy(p, s);
	return p;
}
static void *server(void *a)
{
	int r;
	(void)a;
	do
		r = proxy_process(&ph);
	while (r >= 0 || (sim_listener(PORT) && !sim_listener(PORT)->shut));
	srv_done = 1;
	return NULL;
}
static void scenario(unsigned long index)
{
	struct sim_sock *cl[8] = { 0 };
	int r, i, steps = 2 + (int)nat_rnd(14);
	pthread_t t;
	(void)index;
	sim_begin();
	memset(&ph, 0, sizeof(ph));
	updates = srv_done = in_use = 0;
	nslot = 1 + (int)nat_rnd(4);
	CHECK(proxy_init(&ph) == 0, "proxy_init fails");
	ph.conf.port = PORT;
	ph.conf.password = dup_("PUBLIC");
	ph.conf.bind_addr_ext = dup_("127.0.1.1");
	if (nslot > 1) {
		ph.conf.bind_addr_ext_add = __real_calloc((size_t)nslot - 1, sizeof(char *));
		sim_blk_add(ph.conf.bind_addr_ext_add);
		for (i = 1; i < nslot; i++)
			ph.conf.bind_addr_ext_add[i - 1] = dup_("127.0.1.2");
		ph.conf.bind_addr_ext_add_len = (uint16_t)(nslot - 1);
	}
	r = proxy_open(&ph);
	CHECK(r == 0, "proxy_open returns %d", r);
	r = proxy_start(&ph);
	CHECK(r == 0, "proxy_start returns %d", r);
	CHECK(updates > 0 && last_used == 0 && last_total == (size_t)nslot, "%d slots, but %lu/%lu is reported at the start", nslot, (unsigned long)last_used, (unsigned long)last_total);
	sim_spawn(server, NULL, &t, NULL);
	while (steps--) {
		int before = updates;
		i = (int)nat_rnd(8);
		sim_settle();
		if (cl[i]) {
			nat_note("client %d leaves\n", i);
			cl[i]->eof = 1;
			cl[i] = NULL;
			in_use--;
			sim_settle();
		} else if (in_use < nslot) {
			uint8_t b[20] = "AA\n", in[14], d[16];
			int ok = nat_p(70);
			struct sim_sock *s = sim_client(PORT);
			nat_note("client %d connects%s\n", i, ok ? "" : " with a wrong password");
			sim_settle();
			if (s->out_n < 8)
				nat_fail("a client gets no nonce although %d of %d slots are in use", in_use, nslot);
			memcpy(in, "PUBLIC", 6);
			memcpy(in + 6, s->out, 8);
			ref_md5(in, 14, d);
			memcpy(b + 3, d, 16);
			if (!ok)
				b[3] ^= 1;
			sim_feed(s, b, 19);
			sim_settle();
			if (!ok)
				continue;
			cl[i] = s;
			in_use++;
		} else
			continue;
		CHECK(updates > before, "no update is made");
		CHECK(last_used == (size_t)in_use && last_total == (size_t)nslot, "%d of %d slots are in use, the update says %lu/%lu", in_use, nslot, (unsigned long)last_used, (unsigned long)last_total);
	}
	sim_settle();
	i = updates;
	proxy_shutdown(&ph);
	CHECK(updates > i && last_total == 0, "after the shutdown %lu slots are usable", (unsigned long)last_total);
	sim_settle();
	CHECK(srv_done, "the server does not end");
	pthread_join(t, NULL);
	proxy_close(&ph);
	proxy_free(&ph);
}
NAT_MAIN
