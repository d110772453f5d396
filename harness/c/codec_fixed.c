/* Fixed-width codecs: exact format, round trip, canonical decoding, buffer bounds.
 * KIND: 0 modq (14 bit) 1 modq16 2 trim_i8 3 trim_i16;  LOGN, BITS; DELTA: buffer size minus exact size; MODE: 0 encode side, 1 decode side */
#include "vp.h"
#include "inner.h"
#define N (1u << LOGN)
#if KIND == 0
#define W 14
typedef uint16_t T;
#define ENC(o, l, x) Zf(modq_encode)(o, l, x, LOGN)
#define DEC(x, i, l) Zf(modq_decode)(x, LOGN, i, l)
#define VALID(v) ((v) < 12289)
#define RAND_T vp_u16
#elif KIND == 1
#define W 16
typedef uint16_t T;
#define ENC(o, l, x) Zf(modq_encode16)(o, l, x, LOGN)
#define DEC(x, i, l) Zf(modq_decode16)(x, LOGN, i, l)
#define VALID(v) ((v) < 12289)
#define RAND_T vp_u16
#elif KIND == 2
#define W BITS
typedef int8_t T;
#define ENC(o, l, x) Zf(trim_i8_encode)(o, l, x, LOGN, BITS)
#define DEC(x, i, l) Zf(trim_i8_decode)(x, LOGN, BITS, i, l)
#define VALID(v) ((v) > -(1 << (BITS - 1)) && (v) < (1 << (BITS - 1)))
#define RAND_T vp_i8
#else
#define W BITS
typedef int16_t T;
#define ENC(o, l, x) Zf(trim_i16_encode)(o, l, x, LOGN, BITS)
#define DEC(x, i, l) Zf(trim_i16_decode)(x, LOGN, BITS, i, l)
#define VALID(v) ((v) > -(1 << (BITS - 1)) && (v) < (1 << (BITS - 1)))
#define RAND_T vp_i16
#endif
#ifndef W0
#define W0 0
#define W1 N
#endif
#define LEN ((N * W + 7) / 8)
#define MAXL (LEN + DELTA > 0 ? LEN + DELTA : 1)

static T x[N], y[N];
static uint8_t B[MAXL], B2[MAXL];

/* value of the W-bit big-endian group i of buf */
static uint32_t group(const uint8_t *buf, unsigned i)
{
	uint32_t v = 0; unsigned k = i * W, b, e = (k + W - 1) >> 3;
	for (b = k >> 3; b <= e; b ++) v = (v << 8) | buf[b];
	return (v >> (8 * (e + 1) - (k + W))) & ((1u << W) - 1);
}
static int padding_zero(const uint8_t *buf)
{
	unsigned k;
	for (k = N * W; k < LEN * 8; k ++) if ((buf[k >> 3] >> (7 - (k & 7))) & 1) return 0;
	return 1;
}
static int group_ok(uint32_t g)
{
#if KIND <= 1
	return g < 12289;
#else
	return g != (1u << (W - 1));
#endif
}
static int32_t group_val(uint32_t g)
{
#if KIND <= 1
	return (int32_t)g;
#else
	return (g >> (W - 1)) ? (int32_t)g - (1 << W) : (int32_t)g;
#endif
}

void vp_main(void)
{
	unsigned i;
#if MODE == 0
	int valid = 1, same = 1;
	size_t r, r2, cap = (size_t)(LEN + DELTA);
	uint8_t *o;
	for (i = 0; i < N; i ++) {
		if (i >= W0 && i < W1) { x[i] = RAND_T(); if (!VALID(x[i])) valid = 0; }
		else x[i] = (T)(i % 13);
	}
	o = B + (MAXL - cap);                 /* writes beyond cap leave the object */
	r = ENC(o, cap, x);
	if (!valid || cap < LEN) {
		CHECK(r == 0, "encode must refuse out-of-range values and short buffers");
	}
#if DELTA >= 0
	else {
		CHECK(r == LEN, "encoded length");
		for (i = 0; i < N; i ++) if (group_val(group(o, i)) != (int32_t)x[i]) same = 0;
		CHECK(same, "encoded bits are the specified big-endian groups");
		CHECK(padding_zero(o), "encoder pads with zero bits");
		r2 = DEC(y, o, r);
		CHECK(r2 == LEN, "decoder accepts every encoding");
		same = 1;
		for (i = 0; i < N; i ++) if (x[i] != y[i]) same = 0;
		CHECK(same, "decode(encode(x)) == x");
		r2 = ENC(NULL, 0, x);
		CHECK(r2 == LEN, "length query with a null buffer");
		WITNESS(1, "accepted encoding");
	}
#endif
	WITNESS(!valid || DELTA < 0, "refused encoding");
#else
	int ok = 1, same = 1;
	size_t r, len = (size_t)(LEN + DELTA);
	uint8_t *in;
	in = B + (MAXL - len);
	for (i = 0; i < MAXL; i ++) {
		if (i * 8 >= W0 * W && i * 8 < W1 * W) B[i] = vp_u8();
		else B[i] = (uint8_t)(W % 8 == 0 ? ((i & 1) || W == 8) * (i % 13) : 0x11);
	}
	r = DEC(x, in, len);
#if DELTA < 0
	CHECK(r == 0, "truncated input is refused");
	WITNESS(1, "truncated input");
#else
	{
		for (i = 0; i < N; i ++) if (!group_ok(group(in, i))) ok = 0;
		if (!padding_zero(in)) ok = 0;
		CHECK((r == LEN) == ok && (r == 0) == !ok, "decoder accepts exactly the canonical encodings");
		if (r != 0) {
			for (i = 0; i < N; i ++) if (group_val(group(in, i)) != (int32_t)x[i]) same = 0;
			CHECK(same, "decoded values are those of the encoding");
			r = ENC(B2, LEN, x);
			CHECK(r == LEN, "re-encoding succeeds");
			same = 1;
			for (i = 0; i < LEN; i ++) if (B2[i] != in[i]) same = 0;
			CHECK(same, "encode(decode(b)) == b");
			WITNESS(1, "accepted decoding");
		}
		WITNESS(!ok, "refused decoding");
	}
#endif
#endif
}
