/* get_password_response against an independent MD5 of the expected text. */
#include "nat.h"
#include "refmd5.h"
#include "openelp/openelp.h"

void *__real_malloc(size_t n);
static int fail_next, live;
void __real_free(void *p);
static void *mine[8];
void *__wrap_malloc(size_t n)
{
	void *p;
	int i;
	if (fail_next)
		return NULL;
	p = __real_malloc(n);
	for (i = 0; i < 8; i++)
		if (!mine[i]) {
			mine[i] = p;
			live++;
			break;
		}
	return p;
}
void __wrap_free(void *p)
{
	int i;
	for (i = 0; p && i < 8; i++)
		if (mine[i] == p) {
			mine[i] = NULL;
			live--;
		}
	__real_free(p);
}

static void scenario(unsigned long index)
{
	size_t n = index < 300 ? index : nat_p(70) ? nat_rnd(40) : nat_rnd(4000), i;
	char *pw = __real_malloc(n + 1), h[9];
	uint8_t *t = __real_malloc(n + 8), want[16], *resp = __real_malloc(16);
	uint32_t nonce = nat_p(30) ? nat_rnd(300) << (4 * nat_rnd(7)) : (uint32_t)nat_next();
	int r;
	sprintf(h, "%08x", nonce);
	for (i = 0; i < n; i++) {
		do pw[i] = (char)(nat_p(50) ? "azAZ`{@[09 "[nat_rnd(11)] : nat_p(50) ? 'a' + (int)nat_rnd(26) : (int)nat_rnd(256)); while (!pw[i]);
		t[i] = (uint8_t)(pw[i] >= 'a' && pw[i] <= 'z' ? pw[i] - 'a' + 'A' : pw[i]);
	}
	pw[n] = 0;
	memcpy(t + n, h, 8);
	ref_md5(t, n + 8, want);
	nat_note("password of %u bytes '%.40s', nonce %s\n", (unsigned)n, pw, h);
	live = 0;
	r = get_password_response(nonce, pw, resp);
	CHECK(r == 0, "returns %d", r);
	CHECK(memcmp(resp, want, 16) == 0, "the response is not the MD5 of the upper-case password and the nonce");
	CHECK(live == 0, "%d blocks are not released", live);
	fail_next = 1;
	nat_note("without memory\n");
	memset(resp, 0, 16);
	r = get_password_response(nonce, pw, resp);
	fail_next = 0;
	CHECK(r < 0 || (r == 0 && memcmp(resp, want, 16) == 0), "returns %d without memory", r);
	nat_note("without a password\n");
	r = get_password_response(nonce, NULL, resp);
	CHECK(r < 0, "returns %d without a password", r);
	CHECK(live == 0, "%d blocks are not released", live);
	__real_free(pw); __real_free(t); __real_free(resp);
}
NAT_MAIN
