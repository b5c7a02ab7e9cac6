/* Contracts on md5.c.
 *
 * The message is one stream of bytes; the byte at the arbitrary, constant
 * index gm.k of that stream is gm.w.  Blocks of the stream have to be handed to
 * the block function in order: gm.n is the number of bytes handed over so far,
 * and every hand-over must carry gm.w at index gm.k.  As the index is
 * arbitrary, all bytes are right.  gm.a..gm.d is the state of the hash after
 * those blocks (each block transforms it by RFC 1321: obligation md5_body). */
#include "md5.h"
struct fv_md5_ghost {
	uint64_t n, k;
	uint8_t w;
	uint32_t a, b, c, d;
} gm;
#include "md5_ref.h"
#define PTR_IS(a, b) __CPROVER_pointer_equals(a, (void *)(b))

#ifdef FV_OB_h_md5_body
/* In lock-step with the loop: g_st is what RFC 1321 makes, with block gb.i (at ptr), of
 * the state in which the iteration began. */
const unsigned char *g_p0;
struct { uint64_t i; uint32_t st[4]; } gb;
#define FV_GHOST_body_0 FV_REBASE(ptr, g_p0 + 64 * gb.i) gb.st[0] = a; gb.st[1] = b; gb.st[2] = c; gb.st[3] = d; ref_block(gb.st, ptr); gb.i++;
#define FV_LOOP_body_0 \
	__CPROVER_assigns(ptr, a, b, c, d, saved_a, saved_b, saved_c, saved_d, size, gb) \
	__CPROVER_loop_invariant(gb.i < (__CPROVER_loop_entry(size) >> 6)) \
	__CPROVER_loop_invariant(size == __CPROVER_loop_entry(size) - 64 * gb.i && ptr == g_p0 + 64 * gb.i) \
	__CPROVER_loop_invariant(a == gb.st[0] && b == gb.st[1] && c == gb.st[2] && d == gb.st[3]) \
	__CPROVER_decreases(size)
#endif
#include "fv_loop_defaults.h"
#ifdef FV_OB_h_MD5_Update
#define memcpy fv_memcpy
void *fv_memcpy(void *d, const void *s, size_t n);
#endif
#include "md5.c"
#ifdef FV_DIGEST
#include "digest.c"
#endif

#define LO(n) ((uint32_t)((n) & 0x1fffffff))
#define HI(n) ((uint32_t)((n) >> 29))
/* the context represents a message of len bytes of which the byte at gm.k is gm.w */
uint64_t g_len;		/* length of the message so far */
#define PADDED(len) ((((len) + 8) / 64 + 1) * 64)
#define PAD(len, k) ((k) == (len) ? 0x80 : (k) < PADDED(len) - 8 ? 0 : (uint8_t)(((len) * 8) >> (8 * ((k) - (PADDED(len) - 8)))))
#define ST(ctx) ((ctx)->a == gm.a && (ctx)->b == gm.b && (ctx)->c == gm.c && (ctx)->d == gm.d)
#define REP(ctx, len) (gm.n == ((len) & ~(uint64_t)63) && (ctx)->lo == LO(len) && (ctx)->hi == HI(len) && ST(ctx) && \
	(!(gm.k >= gm.n && gm.k < (len)) || (ctx)->buffer[gm.k - gm.n] == gm.w))

#define LE4(r, o, v) ((r)[o] == (uint8_t)(v) && (r)[(o) + 1] == (uint8_t)((v) >> 8) && (r)[(o) + 2] == (uint8_t)((v) >> 16) && (r)[(o) + 3] == (uint8_t)((v) >> 24))
#define IS_STATE(r) (LE4(r, 0, gm.a) && LE4(r, 4, gm.b) && LE4(r, 8, gm.c) && LE4(r, 12, gm.d))
#define UPD_REQ(ctx, data, size) ((size) < ((uint64_t)1 << 40) && g_len < ((uint64_t)1 << 60) && REP(ctx, g_len) && \
	(!(gm.k >= g_len && gm.k - g_len < (size)) || ((const unsigned char *)(data))[gm.k - g_len] == gm.w))
#define FIN_REQ(ctx) (g_len < ((uint64_t)1 << 60) && REP(ctx, g_len) && \
	(gm.k < g_len || gm.k >= PADDED(g_len) || gm.w == PAD(g_len, gm.k)))
#define FIN_POST(r) (gm.n == PADDED(g_len) && IS_STATE(r))

#if !defined(FV_OB_h_md5_body) && !defined(FV_OB_h_md5_block)
static const void *body(MD5_CTX *ctx, const void *data, unsigned long size)
__CPROVER_requires(size > 0 && (size & 63) == 0 && __CPROVER_r_ok(data, size))
/* the watched byte of the stream is where it belongs */
__CPROVER_requires(!(gm.k >= gm.n && gm.k - gm.n < size) || ((const unsigned char *)data)[gm.k - gm.n] == gm.w)
__CPROVER_requires(ST(ctx))
__CPROVER_assigns(ctx->a, ctx->b, ctx->c, ctx->d, gm.a, gm.b, gm.c, gm.d, gm.n)
__CPROVER_ensures(gm.n == __CPROVER_old(gm.n) + size && ST(ctx))
__CPROVER_ensures(PTR_IS(__CPROVER_return_value, (const unsigned char *)data + size))
;
#endif

/* ------------------------------------------------------------ obligations */
#ifdef FV_OB_h_md5_functions	/* lemma: the bit functions are those of RFC 1321 */
void h_md5_functions(void)
{
	uint32_t x = nondet_uint32_t(), y = nondet_uint32_t(), z = nondet_uint32_t();
	FV_ASSERT(REF_F(x, y, z) == RFC_F(x, y, z), "F is the function of RFC 1321");
	FV_ASSERT(REF_G(x, y, z) == RFC_G(x, y, z), "G is the function of RFC 1321");
	{
		unsigned char p[64];
		FV_ASSERT(REF_X(p, 5) == ((uint32_t)p[20] | (uint32_t)p[21] << 8 | (uint32_t)p[22] << 16 | (uint32_t)p[23] << 24),
			  "message words are little-endian");
	}
	FV_CANARY("md5_functions");
}
#endif

#ifdef FV_OB_h_md5_body
static const void *body(MD5_CTX *ctx, const void *data, unsigned long size)
__CPROVER_requires(__CPROVER_is_fresh(ctx, sizeof(*ctx)))
__CPROVER_requires(size > 0 && (size & 63) == 0 && size < ((uint64_t)1 << 40))
__CPROVER_requires(__CPROVER_is_fresh(data, size))
__CPROVER_requires(__CPROVER_pointer_equals(g_p0, (const unsigned char *)data) && gb.i == 0)
__CPROVER_requires(gb.st[0] == ctx->a && gb.st[1] == ctx->b && gb.st[2] == ctx->c && gb.st[3] == ctx->d)
__CPROVER_assigns(ctx->a, ctx->b, ctx->c, ctx->d, gb)
__CPROVER_ensures(gb.i == size >> 6)
__CPROVER_ensures(ctx->a == gb.st[0] && ctx->b == gb.st[1] && ctx->c == gb.st[2] && ctx->d == gb.st[3])
__CPROVER_ensures(__CPROVER_return_value == (const unsigned char *)data + size)
;
void h_md5_body(void)
{
	MD5_CTX *ctx;
	const void *data;
	unsigned long size;
	body(ctx, data, size);
	FV_CANARY("body returns");
}
#endif

#ifdef FV_OB_h_MD5_Init
void MD5_Init(MD5_CTX *ctx)
__CPROVER_requires(__CPROVER_is_fresh(ctx, sizeof(*ctx)))
__CPROVER_assigns(__CPROVER_object_whole(ctx))
__CPROVER_ensures(ctx->a == 0x67452301 && ctx->b == 0xefcdab89 && ctx->c == 0x98badcfe && ctx->d == 0x10325476)
__CPROVER_ensures(ctx->lo == 0 && ctx->hi == 0)
;
void h_MD5_Init(void)
{
	MD5_CTX *ctx;
	MD5_Init(ctx);
	FV_CANARY("MD5_Init returns");
}
#endif

#ifdef FV_OB_h_MD5_Update
MD5_CTX *g_ctx;
/* memcpy into the block buffer, exact for the watched byte (any other byte of
 * the buffer may become anything, which over-approximates memcpy) */
void *fv_memcpy(void *d, const void *s, size_t n)
{
	size_t at = (size_t)((unsigned char *)d - g_ctx->buffer), w = gm.k & 63;
	unsigned char v = g_ctx->buffer[w];
	struct fv_any64 { unsigned char b[64]; } any;
	FV_ASSERT(__CPROVER_same_object(d, g_ctx) && at <= 64 && n <= 64 - at, "memcpy stays inside the block buffer");
	FV_ASSERT(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads only the given data");
	if (w >= at && w - at < n)
		v = ((const unsigned char *)s)[w - at];
	if (n > 0)
		*(struct fv_any64 *)g_ctx->buffer = any;
	g_ctx->buffer[w] = v;
	return d;
}
void MD5_Update(MD5_CTX *ctx, const void *data, unsigned long size)
__CPROVER_requires(__CPROVER_is_fresh(ctx, sizeof(*ctx)))
__CPROVER_requires(__CPROVER_pointer_equals(g_ctx, ctx))
__CPROVER_requires(size < ((uint64_t)1 << 40))
__CPROVER_requires(__CPROVER_is_fresh(data, size))
__CPROVER_requires(UPD_REQ(ctx, data, size))
__CPROVER_assigns(__CPROVER_object_whole(ctx), gm.a, gm.b, gm.c, gm.d, gm.n)
__CPROVER_ensures(REP(ctx, g_len + size))
;
void h_MD5_Update(void)
{
	MD5_CTX *ctx;
	const void *data;
	unsigned long size;
	MD5_Update(ctx, data, size);
	FV_CANARY("MD5_Update returns");
	FV_CANARY_IF(gm.n > g_len, "MD5_Update processes blocks");
}
#endif

#ifdef FV_OB_h_MD5_Final
void MD5_Final(unsigned char *result, MD5_CTX *ctx)
__CPROVER_requires(__CPROVER_is_fresh(ctx, sizeof(*ctx)) && __CPROVER_is_fresh(result, 16))
/* beyond the message the stream goes on with the padding */
__CPROVER_requires(FIN_REQ(ctx))
__CPROVER_assigns(__CPROVER_object_whole(ctx), __CPROVER_object_upto(result, 16), gm.a, gm.b, gm.c, gm.d, gm.n)
__CPROVER_ensures(FIN_POST(result))
;
void h_MD5_Final(void)
{
	MD5_CTX *ctx;
	unsigned char *result;
	MD5_Final(result, ctx);
	FV_CANARY("MD5_Final returns");
	FV_CANARY_IF((g_len & 63) > 55, "MD5_Final: two blocks");
}
#endif

#ifdef FV_DIGEST
/* the same contracts as assumed at calls; g_len follows the message */
void MD5_Update(MD5_CTX *ctx, const void *data, unsigned long size)
__CPROVER_requires(UPD_REQ(ctx, data, size) && __CPROVER_r_ok(data, size))
__CPROVER_assigns(__CPROVER_object_whole(ctx), gm.a, gm.b, gm.c, gm.d, gm.n, g_len)
__CPROVER_ensures(g_len == __CPROVER_old(g_len) + size && REP(ctx, g_len))
;
void MD5_Final(unsigned char *result, MD5_CTX *ctx)
__CPROVER_requires(FIN_REQ(ctx) && __CPROVER_w_ok(result, 16))
__CPROVER_assigns(__CPROVER_object_whole(ctx), __CPROVER_object_upto(result, 16), gm.a, gm.b, gm.c, gm.d, gm.n)
__CPROVER_ensures(FIN_POST(result))
;
#ifdef FV_OB_h_digest_get
void digest_get(const uint8_t *data, unsigned int len, uint8_t result[DIGEST_LEN])
__CPROVER_requires(__CPROVER_is_fresh(data, len) && __CPROVER_is_fresh(result, DIGEST_LEN))
/* the stream is the data and its padding; nothing hashed yet */
__CPROVER_requires(gm.n == 0 && g_len == 0 && gm.a == 0x67452301 && gm.b == 0xefcdab89 && gm.c == 0x98badcfe && gm.d == 0x10325476)
__CPROVER_requires(gm.k < len ? data[gm.k] == gm.w : (gm.k >= PADDED((uint64_t)len) || gm.w == PAD((uint64_t)len, gm.k)))
__CPROVER_assigns(__CPROVER_object_upto(result, 16), gm.a, gm.b, gm.c, gm.d, gm.n, g_len)
__CPROVER_ensures(g_len == len && FIN_POST(result))
;
void h_digest_get(void)
{
	const uint8_t *data;
	unsigned int len;
	uint8_t *result;
	digest_get(data, len, result);
	FV_CANARY("digest_get returns");
}
#endif
#define HEXL(v) ((v) < 10 ? '0' + (v) : 'a' + (v) - 10)
#define HEXU(v) ((v) < 10 ? '0' + (v) : 'A' + (v) - 10)
#define HEXVAL(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : (c) - 'A' + 10)
#define ISHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
#define NIB(v, i) (((v) >> (28 - 4 * (i))) & 15)
#ifdef FV_OB_h_digest_to_hex32
void digest_to_hex32(uint32_t data, char result[8])
__CPROVER_requires(__CPROVER_is_fresh(result, 8))
__CPROVER_assigns(__CPROVER_object_upto(result, 8))
__CPROVER_ensures(result[0] == HEXL(NIB(data, 0)) && result[1] == HEXL(NIB(data, 1)) && result[2] == HEXL(NIB(data, 2)) && result[3] == HEXL(NIB(data, 3)))
__CPROVER_ensures(result[4] == HEXL(NIB(data, 4)) && result[5] == HEXL(NIB(data, 5)) && result[6] == HEXL(NIB(data, 6)) && result[7] == HEXL(NIB(data, 7)))
;
void h_digest_to_hex32(void) { uint32_t d; char *r; digest_to_hex32(d, r); FV_CANARY("digest_to_hex32 returns"); }
#endif
#ifdef FV_OB_h_hex32_to_digest
uint32_t hex32_to_digest(const char data[8])
__CPROVER_requires(__CPROVER_is_fresh(data, 8))
__CPROVER_assigns()
__CPROVER_ensures(!(ISHEX(data[0]) && ISHEX(data[1]) && ISHEX(data[2]) && ISHEX(data[3]) && ISHEX(data[4]) && ISHEX(data[5]) && ISHEX(data[6]) && ISHEX(data[7])) ||
	(NIB(__CPROVER_return_value, 0) == HEXVAL(data[0]) && NIB(__CPROVER_return_value, 1) == HEXVAL(data[1]) &&
	 NIB(__CPROVER_return_value, 2) == HEXVAL(data[2]) && NIB(__CPROVER_return_value, 3) == HEXVAL(data[3]) &&
	 NIB(__CPROVER_return_value, 4) == HEXVAL(data[4]) && NIB(__CPROVER_return_value, 5) == HEXVAL(data[5]) &&
	 NIB(__CPROVER_return_value, 6) == HEXVAL(data[6]) && NIB(__CPROVER_return_value, 7) == HEXVAL(data[7])))
;
void h_hex32_to_digest(void) { char *d; hex32_to_digest(d); FV_CANARY("hex32_to_digest returns"); }
#endif
#ifdef FV_OB_h_hex32_inverse	/* lemma over the two real functions */
void h_hex32_inverse(void)
{
	uint32_t v = nondet_uint32_t();
	char t[8];
	digest_to_hex32(v, t);
	FV_ASSERT(hex32_to_digest(t) == v, "hex32_to_digest inverts digest_to_hex32");
	FV_CANARY("hex32_inverse");
}
#endif
#ifdef FV_OB_h_digest_to_str
size_t g_i;
void digest_to_str(const uint8_t md5[DIGEST_LEN], char result[2 * DIGEST_LEN + 1])
__CPROVER_requires(__CPROVER_is_fresh(md5, DIGEST_LEN) && __CPROVER_is_fresh(result, 2 * DIGEST_LEN + 1))
__CPROVER_requires(g_i < DIGEST_LEN)
__CPROVER_assigns(__CPROVER_object_upto(result, 2 * DIGEST_LEN + 1))
__CPROVER_ensures(result[2 * g_i] == HEXU(md5[g_i] >> 4) && result[2 * g_i + 1] == HEXU(md5[g_i] & 15))
__CPROVER_ensures(result[2 * DIGEST_LEN] == 0)
;
void h_digest_to_str(void) { uint8_t *d; char *r; digest_to_str(d, r); FV_CANARY("digest_to_str returns"); }
#endif
#endif
