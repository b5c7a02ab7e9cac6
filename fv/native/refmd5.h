/* Independent MD5 (constants from the sine formula of RFC 1321). */
#ifndef REFMD5_H
#define REFMD5_H
#include <math.h>
static void ref_md5(const uint8_t *m, size_t len, uint8_t out[16])
{
	static const int sh[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
	size_t n = ((len + 8) / 64 + 1) * 64, o, i;
	uint8_t *p = calloc(1, n);
	uint32_t s[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
	memcpy(p, m, len);
	p[len] = 0x80;
	for (i = 0; i < 8; i++)
		p[n - 8 + i] = (uint8_t)(((uint64_t)len * 8) >> (8 * i));
	for (o = 0; o < n; o += 64) {
		uint32_t a = s[0], b = s[1], c = s[2], d = s[3], f, k, x, t;
		for (i = 0; i < 64; i++) {
			if (i < 16) { f = (b & c) | (~b & d); k = i; }
			else if (i < 32) { f = (b & d) | (c & ~d); k = (5 * i + 1) & 15; }
			else if (i < 48) { f = b ^ c ^ d; k = (3 * i + 5) & 15; }
			else { f = c ^ (b | ~d); k = (7 * i) & 15; }
			memcpy(&x, p + o + 4 * k, 4);
			t = a + f + x + (uint32_t)(fabs(sin((double)(i + 1))) * 4294967296.0);
			t = b + (t << sh[i / 16][i % 4] | t >> (32 - sh[i / 16][i % 4]));
			a = d; d = c; c = b; b = t;
		}
		s[0] += a; s[1] += b; s[2] += c; s[3] += d;
	}
	for (i = 0; i < 16; i++)
		out[i] = (uint8_t)(s[i / 4] >> (8 * (i % 4)));
	free(p);
}

#endif
