/* 16-bit signature codec: MODE 0 encode / 1 decode; LOGN; W0..W1 symbolic window; CUT bytes missing */
#include "vp.h"
#include "inner.h"
#define N (1u << LOGN)
#define LEN (2 * N)
static int16_t x[N], y[N];
static uint8_t B[LEN + 8], B2[LEN];
void vp_main(void)
{
	unsigned i; int ok = 1, same = 1; size_t r, len = LEN - CUT; uint8_t *b = B + (LEN + 8 - len);
#if MODE == 0
	for (i = 0; i < N; i ++) {
		if (i >= W0 && i < W1) { x[i] = vp_i16(); ok &= (x[i] > -12289) & (x[i] < 12289); }
		else x[i] = (int16_t)((i & 1) ? -(int)(i % 29) : (int)(i % 31));
	}
	r = Zf(comp_encode16)(b, len, x, LOGN);
	if (!ok || CUT > 0) { CHECK(r == 0, "out-of-range values and short buffers are refused"); WITNESS(1, "refused"); return; }
	CHECK(r == LEN, "encoded length");
	for (i = 0; i < N; i ++) {
		int v = x[i] < 0 ? x[i] + 12289 : x[i];
		same &= (b[2 * i] == (uint8_t)(v >> 8)) & (b[2 * i + 1] == (uint8_t)v);
	}
	CHECK(same, "each coefficient is the big-endian residue modulo q");
	CHECK(Zf(comp_encode16)(NULL, 0, x, LOGN) == LEN, "length query");
	r = Zf(comp_decode16)(y, LOGN, b, LEN);
	CHECK(r == LEN, "every encoding decodes");
	for (i = 0; i < N; i ++) same &= !((x[i] >= -6144) & (x[i] <= 6144) & (y[i] != x[i]));
	CHECK(same, "decode(encode(x)) == x on centred coefficients");
	WITNESS(1, "encoded");
#else
	for (i = 0; i < len; i ++) {
		if (i >= 2 * W0 && i < 2 * W1) b[i] = vp_u8();
		else b[i] = (uint8_t)((i & 1) ? i % 31 : i % 7);
	}
	for (i = 0; 2 * i + 1 < len; i ++) if (((unsigned)b[2 * i] << 8 | b[2 * i + 1]) >= 12289) ok = 0;
	r = Zf(comp_decode16)(x, LOGN, b, len);
	if (CUT > 0) { CHECK(r == 0, "truncated input is refused"); WITNESS(1, "truncated"); return; }
	CHECK((r == LEN) == ok && (r == 0) == !ok, "accepts exactly the strings whose groups are all below q");
	if (r == 0) { WITNESS(1, "refused"); return; }
	for (i = 0; i < N; i ++) {
		int w = (int)b[2 * i] << 8 | b[2 * i + 1];
		same &= (x[i] == w) | (x[i] == w - 12289);
		same &= (x[i] <= 6144) & (x[i] >= -6144);
	}
	CHECK(same, "decoded value is the centred residue");
	r = Zf(comp_encode16)(B2, LEN, x, LOGN);
	CHECK(r == LEN, "re-encodes");
	for (i = 0; i < LEN; i ++) if (B2[i] != b[i]) same = 0;
	CHECK(same, "encode(decode(b)) == b");
	WITNESS(1, "accepted");
#endif
}
