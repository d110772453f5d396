/* Ring arithmetic of vrfy.c, whole functions: every operand coefficient is symbolic (the algebraic domain of lib/alg.py).
 * The LL build hands the produced arrays to vp_alg (checks/C11.py compares polynomials); the native build checks the same
 * relations by schoolbook arithmetic modulo x^n+1 and q. */
#include "vp.h"
#include "inner.h"
#define N (1 << LOGN)
#define QQ 12289
enum { VERIFY = 1, PUBLIC, PRIVATE, RECOVER, RECOVER_EP, COUNT, HINT, NTT, INVERT };
static uint64_t TMP[N * 8 + 16];
static int sh;
static uint16_t A0[N], A1[N], A2[N], A3[N], OUT[N];
static int8_t B0[N], B1[N], B2[N], B3[N];
#ifdef VP_LL
extern void vp_alg(int id, const void *p, int v);
#else
static uint32_t md(int64_t x) { x %= QQ; return (uint32_t)(x < 0 ? x + QQ : x); }
static uint32_t pw(uint32_t b, uint32_t e) { uint64_t r = 1, x = b; while (e) { if (e & 1) r = r * x % QQ; x = x * x % QQ; e >>= 1; } return (uint32_t)r; }
static uint32_t root(int u)        /* the n roots of x^n+1 */
{ uint32_t g = pw(11, (QQ - 1) / (2 * N)); return pw(g, 2 * u + 1); }
static uint32_t ev(const int64_t *a, uint32_t x) { uint64_t r = 0; int i; for (i = N - 1; i >= 0; i --) r = (r * x + md(a[i])) % QQ; return (uint32_t)r; }
static int64_t X[4][N];
static const int16_t *S16(const void *p) { return p; }
static void vp_alg(int id, const void *p, int v)
{
	int i, j, u;
	switch (id) {
	case 10: for (i = 0; i < N; i ++) X[0][i] = S16(A0)[i], X[1][i] = A1[i], X[2][i] = A2[i]; return;
	case 11: {
		const int16_t *s1 = p; int64_t t[N] = { 0 };
		for (i = 0; i < N; i ++) for (j = 0; j < N; j ++) { int64_t z = X[0][i] * X[1][j]; if (i + j < N) t[i + j] += z; else t[i + j - N] -= z; }
		int okp = 1, okn = 1;
		for (i = 0; i < N; i ++) { int64_t z = t[i] - X[2][i]; okp &= md(z) == md(s1[i]); okn &= md(-z) == md(s1[i]); CHECK(s1[i] <= QQ / 2 && s1[i] >= -(QQ / 2), "first half of the vector is reduced to the centred range"); }
		CHECK(okp || okn, "first half of the vector is the hashed message minus s2*h");
		return; }
	case 12: for (i = 0, j = 1; i < N; i ++) j &= S16(p)[i] == X[0][i]; CHECK(j, "second half of the vector is s2"); return;
	case 20: case 30: case 40: case 50: {
		int zero = 0;
		for (u = 0; u < N; u ++) {
			uint32_t r = root(u), d, num, k;
			int64_t o[N], a[N], b[N];
			if (id == 20) { for (i = 0; i < N; i ++) a[i] = B0[i], b[i] = B1[i]; num = ev(b, r); }
			else if (id == 30) { int64_t c[N]; for (i = 0; i < N; i ++) a[i] = B0[i], b[i] = B1[i], c[i] = B2[i]; num = (uint64_t)ev(b, r) * ev(c, r) % QQ; }
			else { for (i = 0; i < N; i ++) a[i] = S16(A0)[i], b[i] = (int64_t)A2[i] - S16(A1)[i]; num = ev(b, r); }
			d = ev(a, r);
			zero |= d == 0;
			if (v && id != 50) {
				for (i = 0; i < N; i ++) o[i] = id == 30 ? ((const int8_t *)p)[i] : ((const uint16_t *)p)[i];
				if (d != 0) CHECK((uint64_t)ev(o, r) * d % QQ == num, "result satisfies its defining equation in the ring");
			} else if (v && d != 0) {
				/* NTT order: identified through the transform of A3 */
				uint16_t t[N]; int hit = 0; memcpy(t, A3, sizeof t); for (i = 0; i < N; i ++) o[i] = A3[i];
				Zf(to_ntt)(t, LOGN); k = ev(o, r);
				for (i = 0; i < N; i ++) hit |= t[i] == k && (uint64_t)((const uint16_t *)p)[i] * d % QQ == num;
				CHECK(hit, "result satisfies its defining equation in the ring");
			}
		}
		if (id == 30) {
			int64_t f[N], t[N] = { 0 }; int big = 0;
			if (!zero && !v) {
				/* recompute G mod q and see whether it fits */
				for (i = 0; i < N; i ++) { uint64_t acc = 0; for (u = 0; u < N; u ++) {
					uint32_t r = root(u); int64_t a[N], b[N], c[N]; for (j = 0; j < N; j ++) a[j] = B0[j], b[j] = B1[j], c[j] = B2[j];
					acc += (uint64_t)ev(b, r) * ev(c, r) % QQ * pw(ev(a, r), QQ - 2) % QQ * pw(pw(r, QQ - 2), i) % QQ; }
					f[i] = acc % QQ * pw(N, QQ - 2) % QQ; if (f[i] > QQ / 2) f[i] -= QQ; big |= f[i] > 127 || f[i] < -127; }
				CHECK(big, "refused exactly when f is not invertible or G does not fit");
			}
			if (v) for (i = 0; i < N; i ++) big |= ((const int8_t *)p)[i] == -128;
			if (v) CHECK((!zero) & (!big), "refused exactly when f is not invertible or G does not fit");
			(void)t;
		} else CHECK(!v == ((zero != 0) || (id >= 40 && !(sh & 1))), "refused exactly when the divisor is not invertible (or the vector is not short)");
		return; }
	case 60: case 90: { int64_t a[N]; int z = 0; for (i = 0; i < N; i ++) a[i] = S16(A0)[i]; for (u = 0; u < N; u ++) z += ev(a, root(u)) == 0;
		CHECK(id == 60 ? v == z : !v == (z > 0), "zero count of the transform"); return; }
	case 70: { int64_t a[N]; uint64_t z = 1; for (i = 0; i < N; i ++) a[i] = S16(A0)[i]; for (u = 0; u < N; u ++) z = z * ev(a, root(u)) % QQ;
		CHECK(z == 0 ? v == 0 : z * v % QQ == 1, "hint is the inverse of the product of the transform"); return; }
	case 80: case 81: { int64_t a[N]; uint32_t seen[N]; int ok = 1; const uint16_t *o = p; uint64_t r0 = id == 81 ? 4091 : 1;
		/* multiset of values */
		for (i = 0; i < N; i ++) a[i] = A0[i], seen[i] = 0;
		for (u = 0; u < N; u ++) { uint32_t k = ev(a, root(u)) * r0 % QQ; for (i = 0; i < N && (seen[i] || o[i] != k); i ++); if (i < N) seen[i] = 1; else ok = 0; }
		CHECK(ok, "transform is the evaluation at the roots of x^n+1"); return; }
	case 51: return;
	}
}
#endif
#if OP == 1 || OP == 4 || OP == 5
int Zf(is_short)(const int16_t *s1, const int16_t *s2, unsigned logn)
{
	CHECK(logn == LOGN, "norm degree");
#if OP == 1
	vp_alg(11, s1, 0); vp_alg(12, s2, 0);
#else
	int i, ok = 1;
	for (i = 0; i < N; i ++) ok &= (s1[i] == ((int16_t *)A1)[i]) & (s2[i] == ((int16_t *)A0)[i]);
	CHECK(ok, "norm is taken over (s1, s2)");
#endif
	return sh & 1;
}
#endif
static void rd(uint16_t *a, int sgn)
{
	int i;
	for (i = 0; i < N; i ++) { a[i] = vp_u16(); if (sgn) { ASSUME(((int16_t)a[i] <= 6144) & ((int16_t)a[i] >= -6144)); } else ASSUME(a[i] < QQ); }
}
static void rd8(int8_t *a) { int i; for (i = 0; i < N; i ++) { a[i] = vp_i8(); ASSUME(a[i] != -128); } }
void vp_main(void)
{
	int r; uint8_t *tmp = (uint8_t *)TMP;
#if OP == 1
	rd(A0, 1); rd(A1, 0); rd(A2, 0); sh = vp_u8();
	vp_alg(10, 0, 0);
	Zf(to_ntt_monty)(A1, LOGN);
	r = Zf(verify_raw)(A2, (int16_t *)A0, A1, LOGN, tmp);
	CHECK((r != 0) == (sh & 1), "accepted exactly when the vector is short");
	WITNESS(r != 0, "accepted"); WITNESS(r == 0, "refused");
#elif OP == 2
	rd8(B0); rd8(B1);
	r = Zf(compute_public)(OUT, B0, B1, LOGN, tmp);
	vp_alg(20, OUT, r);
	WITNESS(r, "computed");
#elif OP == 3
	rd8(B0); rd8(B1); rd8(B2);
	r = Zf(complete_private)(B3, B0, B1, B2, LOGN, tmp);
	vp_alg(30, B3, r);
	WITNESS(!r, "refused");
#elif OP == 4
	rd(A0, 1); rd(A1, 1); rd(A2, 0); sh = vp_u8();
	r = Zf(verify_recover)(OUT, A2, (int16_t *)A1, (int16_t *)A0, LOGN, tmp);
	vp_alg(40, OUT, r);
	WITNESS(r == 0, "refused");
#elif OP == 5
	rd(A0, 1); rd(A1, 1); rd(A2, 0); rd(A3, 0); sh = vp_u8();
	{ static uint16_t T[N]; memcpy(T, A3, sizeof T); Zf(to_ntt)(T, LOGN); vp_alg(51, T, 0); }
	r = Zf(verify_recover_epervier)(OUT, A2, (int16_t *)A1, (int16_t *)A0, LOGN, tmp);
	vp_alg(50, OUT, r);
	WITNESS(r == 0, "refused");
#elif OP == 6
	rd(A0, 1);
	r = Zf(count_nttzero)((int16_t *)A0, LOGN, tmp);
	vp_alg(60, 0, r);
	WITNESS(1, "counted");
#elif OP == 7
	rd(A0, 1);
	r = Zf(hint_epervier)((int16_t *)A0, LOGN);
	vp_alg(70, 0, r);
	WITNESS(1, "hint");
#elif OP == 8
	rd(A0, 0);
	memcpy(OUT, A0, sizeof OUT); Zf(to_ntt)(OUT, LOGN); vp_alg(80, OUT, 0);
	memcpy(OUT, A0, sizeof OUT); Zf(to_ntt_monty)(OUT, LOGN); vp_alg(81, OUT, 0);
	WITNESS(1, "transformed");
#elif OP == 9
	rd(A0, 1);
	r = Zf(is_invertible)((int16_t *)A0, LOGN, tmp);
	vp_alg(90, 0, r);
	WITNESS(r, "invertible");
#endif
}
