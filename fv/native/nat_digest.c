/* Replay of the digest contracts against an independent MD5 (constants from
 * the sine formula of RFC 1321) and independent hexadecimal printing. */
#include "nat.h"
#include "refmd5.h"
#include "digest.h"
#include "md5.h"

static void scenario(unsigned long index)
{
	if (NAT_PART == 1) {
		size_t len = index < 800 ? index : nat_rnd(3000), i, done = 0;
		uint8_t *m = malloc(len ? len : 1), want[16], *got = malloc(16);
		MD5_CTX *c = malloc(sizeof(*c));
		for (i = 0; i < len; i++)
			m[i] = (uint8_t)nat_next();
		nat_note("message of %u random bytes, split:", (unsigned)len);
		ref_md5(m, len, want);
		digest_get(m, (unsigned)len, got);
		CHECK(memcmp(got, want, 16) == 0, "digest_get of %u bytes is not the MD5", (unsigned)len);
		memset(c, 0xa5, sizeof(*c));
		MD5_Init(c);
		do {
			size_t n = nat_p(50) ? nat_rnd(70) : nat_rnd(300);
			uint8_t *part;
			if (n > len - done) n = len - done;
			if (nat_p(20) && ((done + n) & 63)) { n = 64 - (done & 63); if (n > len - done) n = len - done; }
			nat_note(" %u", (unsigned)n);
			part = malloc(n + 1);	/* unaligned and exact */
			memcpy(part + 1, m + done, n);
			MD5_Update(c, part + 1, n);
			free(part);
			done += n;
		} while (done < len);
		MD5_Final(got, c);
		CHECK(memcmp(got, want, 16) == 0, "MD5 of %u bytes in parts is wrong", (unsigned)len);
		free(m); free(got); free(c);
	} else {
		uint32_t v = nat_p(20) ? (uint32_t)nat_rnd(300) : (uint32_t)nat_next();
		char *t = malloc(8), w[40], *s = malloc(33);
		uint8_t *d = malloc(16);
		int i;
		sprintf(w, "%08x", v);
		nat_note("value %s\n", w);
		digest_to_hex32(v, t);
		CHECK(memcmp(t, w, 8) == 0, "digest_to_hex32(%08x) gives %.8s", v, t);
		for (i = 0; i < 8; i++)
			if (nat_p(50) && t[i] >= 'a')
				t[i] = (char)(t[i] - 32);
		CHECK(hex32_to_digest(t) == v, "hex32_to_digest(%.8s) is %08x", t, hex32_to_digest(t));
		for (i = 0; i < 16; i++) {
			d[i] = (uint8_t)nat_next();
			sprintf(w + 2 * i, "%02X", d[i]);
		}
		memset(s, 0x7f, 33);
		digest_to_str(d, s);
		CHECK(memcmp(s, w, 33) == 0, "digest_to_str gives %.33s for %s", s, w);
		free(t); free(s); free(d);
	}
}
NAT_MAIN
