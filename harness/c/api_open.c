/* crypto_sign_open and variants: framing decisions with the heavy callees replaced by contract stubs.
 * VARIANT 0 nist.c, 1 nist16.c, 2 epervier16.c; ETHFALCON selects the Keccak PRNG hash. LMIN..LMAX: signed-message lengths.
 * Stub contracts: modq decoders return in_len or 0; comp_decode returns 0..max_in_len; comp_decode16 1024 or 0;
 * hash inject may fail (Keccak PRNG only); verify returns 0/1.  The stubs check what they are given. */
#include "vp.h"
#include "inner.h"
#include "api.h"
#define PKL (VARIANT == 0 ? CRYPTO_PUBLICKEYBYTES : ZKNOX_CRYPTO_PUBLICKEYBYTES)
static uint8_t SM[LMAX + 1], M[LMAX + 1], PK[PKL], TR[LMAX + 64];
static const uint8_t *sm; static uint8_t *pk;
static size_t smlen, tr_len;
static int st_modq, st_monty, st_dec, st_init, st_flip, st_hash, st_ver;
static uint8_t c_modq, c_inj, c_ver; static uint16_t c_dec; static uint8_t c_dec2;
static size_t want_sig, want_msg;
static unsigned long long mlen;

static size_t st_modq_decode(uint16_t *x, unsigned logn, const void *in, size_t max)
{
	unsigned i;
	CHECK(logn == 9 && in == (const void *)(pk + 1) && max == PKL - 1, "public key decoder gets the key body");
	if (!c_modq) return 0;
	for (i = 0; i < 512; i ++) x[i] = (uint16_t)(100 + i);
	st_modq ++;
	return max;
}
size_t Zf(modq_decode)(uint16_t *x, unsigned logn, const void *in, size_t max)
{ CHECK(VARIANT == 0, "14-bit key decoder"); return st_modq_decode(x, logn, in, max); }
size_t Zf(modq_decode16)(uint16_t *x, unsigned logn, const void *in, size_t max)
{ CHECK(VARIANT != 0, "16-bit key decoder"); return st_modq_decode(x, logn, in, max); }
void Zf(to_ntt_monty)(uint16_t *h, unsigned logn)
{
	unsigned i;
	CHECK(VARIANT == 0 && st_modq == 1 && logn == 9 && h[0] == 100 && h[511] == 611, "the decoded key is converted");
	for (i = 0; i < 512; i ++) h[i] = (uint16_t)(2000 + i);
	st_monty ++;
}
size_t Zf(comp_decode)(int16_t *x, unsigned logn, const void *in, size_t max)
{
	unsigned i; size_t k;
	CHECK(VARIANT == 0 && logn == 9, "compressed decoder");
	k = vp_conc64((size_t)((const uint8_t *)in - sm));
	max = vp_conc64(max);
	CHECK(k + max == smlen && k == 42 + want_msg + 1, "the signature decoder gets the whole signature body");
	if (max > 0) { uint8_t a = ((const uint8_t *)in)[0], b = ((const uint8_t *)in)[max - 1]; CHECK(a == sm[k] && b == sm[smlen - 1], "signature bytes"); }
	if (c_dec == 0 || c_dec > max) return 0;
	for (i = 0; i < 512; i ++) x[i] = (int16_t)(5000 + i);
	st_dec ++;
	return max - (c_dec - 1);
}
size_t Zf(comp_decode16)(int16_t *x, unsigned logn, const void *in, size_t max)
{
	unsigned i; size_t k; int second;
	CHECK(VARIANT != 0 && logn == 9, "16-bit decoder");
	if (max < 1024) return 0;
	if (max != 1024) return c_dec & 1 ? 1024 : 0;
	k = vp_conc64((size_t)((const uint8_t *)in - sm));
	second = VARIANT == 2 && k != 42 + want_msg + 1;
	CHECK(k == 42 + want_msg + 1 + (second ? 1025 : 0), "the signature decoder gets the signature body");
	{ uint8_t a = ((const uint8_t *)in)[0], b = ((const uint8_t *)in)[1023]; CHECK(a == sm[k] && b == sm[k + 1023], "signature bytes"); }
	if (second ? !c_dec2 : !(c_dec & 1)) return 0;
	for (i = 0; i < 512; i ++) x[i] = (int16_t)((second ? 5000 : 4000) + i);
	st_dec ++;
	return 1024;
}
static void inj(const void *in, size_t len)
{
	size_t i;
	len = vp_conc64(len);
	CHECK(st_init == 1 && !st_flip && tr_len + len <= sizeof TR, "hash state is fresh while absorbing");
	for (i = 0; i < len; i ++) TR[tr_len + i] = ((const uint8_t *)in)[i];
	tr_len += len;
}
static void h2p(uint16_t *x, unsigned logn)
{
	unsigned i;
	CHECK(st_flip == 1 && logn == 9, "hash-to-point reads a finalised state");
	for (i = 0; i < 512; i ++) x[i] = (uint16_t)(7000 + i);
	st_hash ++;
}
void Zf(i_shake256_init)(inner_shake256_context *sc) { st_init ++; }
void Zf(i_shake256_inject)(inner_shake256_context *sc, const uint8_t *in, size_t len) { inj(in, len); }
void Zf(i_shake256_flip)(inner_shake256_context *sc) { st_flip ++; }
void Zf(hash_to_point_vartime)(inner_shake256_context *sc, uint16_t *x, unsigned logn) { h2p(x, logn); }
void Zf(hash_to_point_ct)(inner_shake256_context *sc, uint16_t *x, unsigned logn, uint8_t *tmp) { h2p(x, logn); }
int Zf(i_keccak256_init)(inner_keccak256_prng_ctx *sc) { st_init ++; return 0; }
int Zf(i_keccak256_inject)(inner_keccak256_prng_ctx *sc, const uint8_t *in, size_t len) { if (c_inj) return -3; inj(in, len); return 0; }
int Zf(i_keccak256_flip)(inner_keccak256_prng_ctx *sc) { st_flip ++; return 0; }
void Zf(keccak_hash_to_point_vartime)(inner_keccak256_prng_ctx *sc, uint16_t *x, unsigned logn) { h2p(x, logn); }
static void ver_common(const uint16_t *c0, const int16_t *s2, unsigned logn)
{
	size_t i; int ok = 1;
	CHECK(logn == 9 && st_hash == 1 && st_dec == (VARIANT == 2 ? 2 : 1), "verification runs after hashing and decoding");
	CHECK(c0[0] == 7000 && c0[511] == 7511, "verification gets the hashed message");
	CHECK(s2[0] == 5000 - (VARIANT == 1) * 1000 && s2[511] == 5511 - (VARIANT == 1) * 1000, "verification gets the decoded signature");
	CHECK(tr_len == 40 + want_msg, "hash input is nonce || message");
	for (i = 0; i < tr_len; i ++) ok &= TR[i] == sm[2 + i];
	CHECK(ok, "hash input is nonce || message");
	st_ver ++;
}
int Zf(verify_raw)(const uint16_t *c0, const int16_t *s2, const uint16_t *h, unsigned logn, uint8_t *tmp)
{
	ver_common(c0, s2, logn);
	if (VARIANT == 0) CHECK(st_monty == 1 && h[0] == 2000 && h[511] == 2511, "verification gets the converted key");
	else CHECK(h[0] == 100 * 4091 % 12289 && h[511] == 611 * 4091 % 12289, "verification gets the key in Montgomery form");
	return c_ver & 1;
}
int Zf(verify_recover_epervier)(uint16_t *h, const uint16_t *c0, const int16_t *s1, const int16_t *s2, unsigned logn, uint8_t *tmp)
{
	unsigned i;
	CHECK(VARIANT == 2, "recovery");
	ver_common(c0, s2, logn);
	CHECK(s1[0] == 4000 && s1[511] == 4511, "recovery gets the first decoded polynomial");
	for (i = 0; i < 512; i ++) h[i] = (uint16_t)(100 + i);
	if (c_ver & 2) {            /* recovered key differs from the given one */
		static const uint16_t pos[4] = { 0, 1, 255, 511 };
		h[pos[vp_conc((c_ver >> 2) & 3)]] ^= 1 + (c_ver >> 4) * 16;
	}
	return c_ver & 1;
}

void vp_main(void)
{
	size_t i; int r, acc; uint8_t *m; 
	c_modq = vp_u8() & 1; c_inj = vp_u8() & 1; c_ver = vp_u8(); c_dec = vp_u16(); c_dec2 = vp_u8() & 1;
	smlen = (size_t)LMIN + vp_u8();
	ASSUME(smlen <= LMAX);
	smlen = vp_conc64(smlen);
	for (i = 0; i < LMAX + 1; i ++) SM[i] = (VARIANT == 2 && i == LMAX + 1 - 1027) || (VARIANT == 1 && i == LMAX + 1 - 1025) || (i < 8 || i >= LMAX + 1 - smlen) && (i < LMAX + 1 - smlen + SYMLO || i + SYMHI > LMAX + 1) ? vp_u8() : (uint8_t)(i * 7);
	sm = SM + (LMAX + 1 - smlen);
#ifdef SIGMAX
	i = vp_conc64(SIGMAX - (vp_u8() & 1));
	SM[LMAX + 1 - smlen] = (uint8_t)(i >> 8); SM[LMAX + 2 - smlen] = (uint8_t)i;
#endif
	for (i = 0; i < PKL; i ++) PK[i] = (uint8_t)(i & 15);
	PK[0] = vp_u8();
	pk = PK;
	want_sig = want_msg = 0;
	acc = (PK[0] == 9) & c_modq;
	if (smlen < 42) acc = 0;
	else {
		want_sig = ((size_t)sm[0] << 8) | sm[1];
		if (want_sig > smlen - 42) { acc = 0; want_sig = 0; }
		else if (VARIANT == 0) {
			want_sig = vp_conc64(want_sig);
			want_msg = smlen - 42 - want_sig;
			acc = acc & (want_sig >= 2) & (sm[smlen - want_sig - (want_sig == 0)] == 0x29) & (c_dec == 1);
		} else if (VARIANT == 1) {
			acc &= (smlen >= 1067) & (want_sig == 1025);
			if (smlen >= 1067) { want_msg = smlen - 42 - 1025; acc = acc & (sm[42 + want_msg] == 0x29) & (c_dec & 1); }
		} else {
			acc &= (smlen >= 2094) & (want_sig == 2052);
			if (smlen >= 2094) { want_msg = smlen - 42 - 2052; acc = acc & (sm[42 + want_msg] == 0x29) & (sm[42 + want_msg + 1025] == 0x29) & (c_dec & 1) & c_dec2; }
		}
	}
#ifdef ETHFALCON
	acc &= !c_inj;
#endif
	acc &= c_ver & 1;
	if (VARIANT == 2) acc &= !(c_ver & 2);
	m = M + (sizeof M - smlen);
	mlen = 0xdead;
	r = SIGN_OPEN(m, &mlen, sm, smlen, pk);
	CHECK((r == 0) == (acc != 0), "accepted exactly when every framing and verification condition holds");
	if (r == 0) {
		int ok = 1;
		CHECK(st_ver == 1, "acceptance comes from the verifier");
		CHECK(mlen == want_msg, "returned message length");
		for (i = 0; i < want_msg; i ++) ok &= m[i] == sm[42 + i];
		CHECK(ok, "returned message is the signed message");
		WITNESS(1, "accepted");
	} else {
		uint8_t any = 0;
		for (i = 0; i < smlen; i ++) any |= m[i];
		CHECK(any == 0, "nothing is released on refusal");
		WITNESS(1, "refused");
	}
}
