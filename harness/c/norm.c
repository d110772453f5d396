/* is_short / is_short_half: exact squared-norm comparison.  HALF: is_short_half.  W0 (first vector), W1,W2
 * (second vector): symbolic coefficient positions; the others hold the constant FILL. */
#include "vp.h"
#include "inner.h"
#ifndef FILL1
#define FILL1 FILL
#endif
#define N (1 << LOGN)
static const uint32_t BOUND[] = { 0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242 };
static int16_t S1[N], S2[N];
void vp_main(void)
{
	int i, r; uint64_t sum = 0; uint32_t sqn = 0;
	if (HALF) { sqn = vp_u32(); sum = sqn; if (SATUR) ASSUME(sqn == 0xffffffffu); else ASSUME(sqn <= 0x7fffffffu); }
	for (i = 0; i < N; i ++) {
				S1[i] = HALF ? 0 : (i == W0) ? vp_i16() : (i == (W0 ? 0 : N - 1)) ? EX : (int16_t)((i & 1) ? -FILL1 : FILL1);
		S2[i] = (i == W1 || i == W2) ? vp_i16() : (int16_t)((i & 1) ? FILL : -FILL);
		if (!HALF) { int32_t z = S1[i]; sum += (uint32_t)(z * z); }
		{ int32_t z = S2[i]; sum += (uint32_t)(z * z); }
	}
	r = HALF ? Zf(is_short_half)(sqn, S2, LOGN) : Zf(is_short)(S1, S2, LOGN);
	if (SATUR) CHECK(r == 0, "a saturated partial norm is never short");
	else CHECK((r != 0) == (sum <= BOUND[LOGN]), "accepted exactly when the squared norm is within the bound");
	#if !SATUR
	if (FILL < 1000 & FILL1 < 1000) WITNESS(r != 0, "short");
#endif
	WITNESS(r == 0, "long");
}
