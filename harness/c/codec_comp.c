/* Compressed signature codec against a bit-level reading of the Falcon format.
 * LOGN; MODE 0 encode, 1 decode; PRE: number of concrete leading coefficients; PHASE: bit phase (0..7) reached after them;
 * K: symbolic bytes (decode) / symbolic coefficients (encode); SUF: concrete coefficients fill the rest; CUT: bytes removed
 * from the end of the buffer offered to the decoder / encoder. */
#include "vp.h"
#include "inner.h"
#define N (1u << LOGN)
#define CAP (N * 3 + 16)
static int16_t x[N], y[N], z[N];
static uint8_t B[CAP], B2[CAP], S[CAP];

/* specification: bit writer */
static size_t spec_put(uint8_t *o, size_t bit, int v)
{
	unsigned a = v < 0 ? (unsigned)-v : (unsigned)v, j, hi;
	unsigned lead = (v < 0 ? 128u : 0u) | (a & 127u);
	for (j = 0; j < 8; j ++, bit ++) o[bit >> 3] |= (uint8_t)(((lead >> (7 - j)) & 1) << (7 - (bit & 7)));
	hi = vp_conc(a >> 7);
	bit += hi;
	o[bit >> 3] |= (uint8_t)(1 << (7 - (bit & 7)));
	return bit + 1;
}
/* specification: bit reader; returns the number of bytes used, 0 when not a valid encoding */
static size_t spec_get(const uint8_t *in, size_t len, int16_t *out)
{
	size_t bit = 0, nb = len * 8;
	unsigned u, j, k, a, s;
#define BIT(p) ((in[(p) >> 3] >> (7 - ((p) & 7))) & 1)
	for (u = 0; u < N; u ++) {
		if (bit + 8 > nb) return 0;
		s = BIT(bit); bit ++;
		a = 0;
		for (j = 0; j < 7; j ++, bit ++) a = (a << 1) | BIT(bit);
		for (k = 0;; k ++) {
			if (bit >= nb) return 0;
			if (BIT(bit)) { bit ++; break; }
			bit ++;
			if (k == 15) return 0;
		}
		a += k << 7;
		if (s && a == 0) return 0;
		out[u] = (int16_t)(s ? -(int)a : (int)a);
	}
	while (bit & 7) { if (BIT(bit)) return 0; bit ++; }
	return bit >> 3;
}
static int filler(unsigned i) { int v = (int)((i * 37u) & 127) + 1; return (i & 1) ? -v : v; }   /* 9 bits each */

/* concrete leading coefficients; the last one is stretched to reach the phase */
static size_t prefix(int16_t *c)
{
	size_t bit = 0; unsigned i;
	for (i = 0; i < PRE; i ++) { c[i] = (int16_t)filler(i); if (i + 1 < PRE) bit += 9; }
#if PRE > 0
	c[PRE - 1] = (int16_t)(((PHASE + 16u - ((bit + 9) & 7)) & 7) * 128 + 5);
	bit += 9 + (c[PRE - 1] >> 7);
#endif
	return bit;
}

void vp_main(void)
{
	unsigned i;
#if MODE == 0
	size_t want, bit = 0, r, cap;
	int valid = 1, same = 1;
	uint8_t *o;
	prefix(x);
	for (i = PRE; i < N; i ++) {
		if (i < PRE + K) {
#ifdef POS
			x[i] = (int16_t)((vp_conc(vp_u8() & 15) << 7) | (vp_u8() & 127));
#else
			x[i] = vp_i16();
			if (x[i] < -2047 || x[i] > 2047) valid = 0;
#endif
		} else x[i] = (int16_t)filler(i);
	}
	if (!valid) {
		CHECK(Zf(comp_encode)(B, CAP, x, LOGN) == 0, "out-of-range coefficients are refused");
		CHECK(Zf(comp_encode)(NULL, 0, x, LOGN) == 0, "out-of-range coefficients are refused (length query)");
		WITNESS(1, "refused value");
		return;
	}
	for (i = PRE; i < PRE + K; i ++) { vp_conc(x[i] < 0); vp_conc((uint32_t)(x[i] < 0 ? -x[i] : x[i]) >> 7); }
	for (i = 0; i < N; i ++) bit = spec_put(S, bit, x[i]);
	want = (bit + 7) >> 3;
	cap = want - CUT;
	o = B + (CAP - cap);
	r = Zf(comp_encode)(o, cap, x, LOGN);
#if CUT > 0
	CHECK(r == 0, "an encoding that does not fit is refused");
	WITNESS(1, "short buffer");
#else
	CHECK(r == want, "encoded length");
	for (i = 0; i < want; i ++) if (o[i] != S[i]) same = 0;
	CHECK(same, "encoding is the specified bit string");
	CHECK(Zf(comp_encode)(NULL, 0, x, LOGN) == want, "length query");
	CHECK(Zf(comp_decode)(y, LOGN, o, want) == want, "every encoding decodes");
	for (i = 0; i < N; i ++) if (x[i] != y[i]) same = 0;
	CHECK(same, "decode(encode(x)) == x");
	WITNESS(1, "accepted encoding");
#endif
#else
	size_t bit = 0, len, r, rs, k;
	int same = 1;
	uint8_t *in;
	prefix(x);
	for (i = 0; i < PRE; i ++) bit = spec_put(S, bit, x[i]);
	k = bit >> 3;
	for (i = 0; i < K; i ++) {
		uint8_t v = vp_u8();
		if (i == 0 && (bit & 7)) v = (uint8_t)((S[k] & (0xff00u >> (bit & 7))) | (v & (0xffu >> (bit & 7))));
		S[k + i] = v;
	}
	bit = (k + K) * 8;
	for (i = 0; i < SUF; i ++) bit = spec_put(S, bit, filler(i));
	len = (bit + 7) >> 3;
	len -= CUT;
	in = B + (CAP - len);
	memcpy(in, S, len);
	rs = vp_conc64(spec_get(in, len, z));
	r = vp_conc64(Zf(comp_decode)(y, LOGN, in, len));
	CHECK(r == rs, "accepts exactly the canonical encodings and returns their length");
	if (r != 0 && r == rs) {
		for (i = 0; i < N; i ++) if (y[i] != z[i]) same = 0;
		CHECK(same, "decoded values are those of the encoding");
		CHECK(Zf(comp_encode)(B2, r, y, LOGN) == r, "decoded values re-encode to the same length");
		for (i = 0; i < r; i ++) if (B2[i] != in[i]) same = 0;
		CHECK(same, "encode(decode(b)) == b");
		WITNESS(1, "accepted");
	} else
		WITNESS(1, "refused");
#endif
}
