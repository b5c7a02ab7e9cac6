/* RFC 1321 as a function of one block: the specification of md5.c. */
#ifndef MD5_REF_H
#define MD5_REF_H
#include <stdint.h>
/* the four functions of RFC 1321, 3.4; F and G in the forms of which the
 * lemma md5_functions shows that they are the RFC's */
#define RFC_F(x, y, z) (((x) & (y)) | (~(x) & (z)))
#define RFC_G(x, y, z) (((x) & (z)) | ((y) & ~(z)))
#define RFC_H(x, y, z) ((x) ^ (y) ^ (z))
#define RFC_I(x, y, z) ((y) ^ ((x) | ~(z)))
#define REF_F(x, y, z) ((z) ^ ((x) & ((y) ^ (z))))
#define REF_G(x, y, z) ((y) ^ ((z) & ((x) ^ (y))))
/* one operation of RFC 1321, 3.4: a = b + ((a + f(b,c,d) + x + t) <<< s), and the
 * registers move on; little-endian words (lemma md5_functions) */
#define REF_ROT(v, s) (((v) << (s)) | (((v) & 0xffffffff) >> (32 - (s))))
#define REF_X(p, k) (*(const uint32_t *)&(p)[4 * (k)])
#define REF_STEP(f, x, t, s) n = a + ((f) + (x) + (uint32_t)(t)); n = REF_ROT(n, s); n += b; a = d; d = c; c = b; b = n;
/* the 64 operations of RFC 1321, 3.4 (generated from its formulas for the
 * message word and shift of operation i) */
static void ref_block(uint32_t st[4], const unsigned char *p)
{
	uint32_t a = st[0], b = st[1], c = st[2], d = st[3], n;
	uint32_t x0 = REF_X(p, 0);
	uint32_t x1 = REF_X(p, 1);
	uint32_t x2 = REF_X(p, 2);
	uint32_t x3 = REF_X(p, 3);
	uint32_t x4 = REF_X(p, 4);
	uint32_t x5 = REF_X(p, 5);
	uint32_t x6 = REF_X(p, 6);
	uint32_t x7 = REF_X(p, 7);
	uint32_t x8 = REF_X(p, 8);
	uint32_t x9 = REF_X(p, 9);
	uint32_t x10 = REF_X(p, 10);
	uint32_t x11 = REF_X(p, 11);
	uint32_t x12 = REF_X(p, 12);
	uint32_t x13 = REF_X(p, 13);
	uint32_t x14 = REF_X(p, 14);
	uint32_t x15 = REF_X(p, 15);
	REF_STEP(REF_F(b, c, d), x0, 0xd76aa478, 7)
	REF_STEP(REF_F(b, c, d), x1, 0xe8c7b756, 12)
	REF_STEP(REF_F(b, c, d), x2, 0x242070db, 17)
	REF_STEP(REF_F(b, c, d), x3, 0xc1bdceee, 22)
	REF_STEP(REF_F(b, c, d), x4, 0xf57c0faf, 7)
	REF_STEP(REF_F(b, c, d), x5, 0x4787c62a, 12)
	REF_STEP(REF_F(b, c, d), x6, 0xa8304613, 17)
	REF_STEP(REF_F(b, c, d), x7, 0xfd469501, 22)
	REF_STEP(REF_F(b, c, d), x8, 0x698098d8, 7)
	REF_STEP(REF_F(b, c, d), x9, 0x8b44f7af, 12)
	REF_STEP(REF_F(b, c, d), x10, 0xffff5bb1, 17)
	REF_STEP(REF_F(b, c, d), x11, 0x895cd7be, 22)
	REF_STEP(REF_F(b, c, d), x12, 0x6b901122, 7)
	REF_STEP(REF_F(b, c, d), x13, 0xfd987193, 12)
	REF_STEP(REF_F(b, c, d), x14, 0xa679438e, 17)
	REF_STEP(REF_F(b, c, d), x15, 0x49b40821, 22)
	REF_STEP(REF_G(b, c, d), x1, 0xf61e2562, 5)
	REF_STEP(REF_G(b, c, d), x6, 0xc040b340, 9)
	REF_STEP(REF_G(b, c, d), x11, 0x265e5a51, 14)
	REF_STEP(REF_G(b, c, d), x0, 0xe9b6c7aa, 20)
	REF_STEP(REF_G(b, c, d), x5, 0xd62f105d, 5)
	REF_STEP(REF_G(b, c, d), x10, 0x02441453, 9)
	REF_STEP(REF_G(b, c, d), x15, 0xd8a1e681, 14)
	REF_STEP(REF_G(b, c, d), x4, 0xe7d3fbc8, 20)
	REF_STEP(REF_G(b, c, d), x9, 0x21e1cde6, 5)
	REF_STEP(REF_G(b, c, d), x14, 0xc33707d6, 9)
	REF_STEP(REF_G(b, c, d), x3, 0xf4d50d87, 14)
	REF_STEP(REF_G(b, c, d), x8, 0x455a14ed, 20)
	REF_STEP(REF_G(b, c, d), x13, 0xa9e3e905, 5)
	REF_STEP(REF_G(b, c, d), x2, 0xfcefa3f8, 9)
	REF_STEP(REF_G(b, c, d), x7, 0x676f02d9, 14)
	REF_STEP(REF_G(b, c, d), x12, 0x8d2a4c8a, 20)
	REF_STEP(RFC_H(b, c, d), x5, 0xfffa3942, 4)
	REF_STEP(RFC_H(b, c, d), x8, 0x8771f681, 11)
	REF_STEP(RFC_H(b, c, d), x11, 0x6d9d6122, 16)
	REF_STEP(RFC_H(b, c, d), x14, 0xfde5380c, 23)
	REF_STEP(RFC_H(b, c, d), x1, 0xa4beea44, 4)
	REF_STEP(RFC_H(b, c, d), x4, 0x4bdecfa9, 11)
	REF_STEP(RFC_H(b, c, d), x7, 0xf6bb4b60, 16)
	REF_STEP(RFC_H(b, c, d), x10, 0xbebfbc70, 23)
	REF_STEP(RFC_H(b, c, d), x13, 0x289b7ec6, 4)
	REF_STEP(RFC_H(b, c, d), x0, 0xeaa127fa, 11)
	REF_STEP(RFC_H(b, c, d), x3, 0xd4ef3085, 16)
	REF_STEP(RFC_H(b, c, d), x6, 0x04881d05, 23)
	REF_STEP(RFC_H(b, c, d), x9, 0xd9d4d039, 4)
	REF_STEP(RFC_H(b, c, d), x12, 0xe6db99e5, 11)
	REF_STEP(RFC_H(b, c, d), x15, 0x1fa27cf8, 16)
	REF_STEP(RFC_H(b, c, d), x2, 0xc4ac5665, 23)
	REF_STEP(RFC_I(b, c, d), x0, 0xf4292244, 6)
	REF_STEP(RFC_I(b, c, d), x7, 0x432aff97, 10)
	REF_STEP(RFC_I(b, c, d), x14, 0xab9423a7, 15)
	REF_STEP(RFC_I(b, c, d), x5, 0xfc93a039, 21)
	REF_STEP(RFC_I(b, c, d), x12, 0x655b59c3, 6)
	REF_STEP(RFC_I(b, c, d), x3, 0x8f0ccc92, 10)
	REF_STEP(RFC_I(b, c, d), x10, 0xffeff47d, 15)
	REF_STEP(RFC_I(b, c, d), x1, 0x85845dd1, 21)
	REF_STEP(RFC_I(b, c, d), x8, 0x6fa87e4f, 6)
	REF_STEP(RFC_I(b, c, d), x15, 0xfe2ce6e0, 10)
	REF_STEP(RFC_I(b, c, d), x6, 0xa3014314, 15)
	REF_STEP(RFC_I(b, c, d), x13, 0x4e0811a1, 21)
	REF_STEP(RFC_I(b, c, d), x4, 0xf7537e82, 6)
	REF_STEP(RFC_I(b, c, d), x11, 0xbd3af235, 10)
	REF_STEP(RFC_I(b, c, d), x2, 0x2ad7d2bb, 15)
	REF_STEP(RFC_I(b, c, d), x9, 0xeb86d391, 21)
	st[0] += a; st[1] += b; st[2] += c; st[3] += d;
}
#endif
