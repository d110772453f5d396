From 839a2f7fd95b299d8e3bfb397a77e9abda6c1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 01/11] fix: 16-bit signature decoding: reject groups >= q
 above 0x7fff and decode to centred representatives

---
 falcon/nistfalcon/src/codec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..43b1cae 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
-			w = (acc >> acc_len) & 0xFFFF;
+			w = (int32_t)((acc >> acc_len) & 0xFFFF);
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// centered representative, in -6144..+6144
+			w -= 12289 & ~((w - 6145) >> 31);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From 3457ef6abcdea5fcf01b09bb2da5d444ef9e4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 02/11] fix: crypto_sign_open: refuse a signature that has a
 header byte but no body

---
 falcon/nistfalcon/src/nist.c   | 2 +-
 falcon/nistfalcon/src/nist16.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..85c5b9c 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -337,7 +337,7 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..5f9daf5 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -352,7 +352,7 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
-- 
2.43.0


From 97a89650f7783e8af3b5c528e29f61cad20f3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 03/11] fix: epervier sign_open: check the signature length
 before reading it

---
 falcon/nistfalcon/src/epervier16.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..035207f 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -228,7 +228,9 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != ZKNOX_CRYPTO_BYTES_EPERVIER - 2 - NONCELEN
+		|| esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9)
+	{
 		return -1;
 	}
 
-- 
2.43.0


From ef5804185b653fb7acbf08c952f36339612395ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 04/11] fix: zknox_pk_epervier: do not apply the NTT to a key
 that is already in NTT form

---
 falcon/nistfalcon/src/epervier16.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 035207f..94b438f 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,7 +26,8 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
+	// The public key of zknox_crypto_sign_keypair is already in NTT
+	// form, which is what epervier recovers: it is only checked here.
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
 	size_t v;
@@ -41,9 +42,6 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
-
 	/*
 	 * Re-encode public key.
 	 */
-- 
2.43.0


From be229d3b609a6b08dc3db73c2be567ee02731381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 05/11] fix: ETHFALCON: refuse messages that do not fit the
 Keccak PRNG input buffer instead of ignoring them

---
 falcon/nistfalcon/src/nist.c   | 12 +++++++++---
 falcon/nistfalcon/src/nist16.c | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 85c5b9c..5df413e 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -238,8 +238,11 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +356,10 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 5f9daf5..a30bbd5 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -243,8 +243,11 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0))
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +369,10 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From cd69399bb8d2a32932375764afe8b0d8cfa81f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 06/11] fix: encoding.decompress: refuse empty, truncated and
 non-zero-padded encodings instead of raising or accepting them

---
 pythonref/encoding.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..0962aeb 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -70,12 +69,14 @@ def decompress(x, slen, n):
             # Store intermediate results
             v += [coef]
             u = u[i + 1:]
-        # In this case, the encoding is invalid
-        if (len(v) != n):
+        # In this case, the encoding is invalid: too few coefficients, or
+        # non-zero bits after the last one
+        if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds, and
+    # ValueError if the encoding stops right after a sign bit
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From 41aadb9ae53626f04535eef5400b296cea966132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 07/11] fix: KeccaXOF.read: return the requested number of
 bytes, not always two

---
 pythonref/keccaxof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..5599322 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -17,8 +17,8 @@ class KeccaXOF:
             raise ValueError('KeccaXOF.update() called after digest()')
         self.input.append(data)
 
-    def read(self, bytes):
-        to_slice = bytes * 2
+    def read(self, length):
+        to_slice = length * 2
         if self.last is None:
             keccak_hash = keccak.new(digest_bits=256)
             keccak_hash.update(encode_packed(
@@ -34,7 +34,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return bytes.fromhex(buff)
 
     def flip(self):
         return
-- 
2.43.0


From 868e3b6b92966a1c72f9ddb79341d07c0ea25fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 08/11] fix: PublicKey.from_bytes: require the key length that
 belongs to the header (1793 bytes for Falcon-1024)

---
 pythonref/falcon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..c1d1a14 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,14 +240,14 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 (or 1792) bytes: 512 (or 1024) coefficients, each 14 bits
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,9 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        if len(pk_bytes) != HEAD_LEN + (n * 14) // 8:
+            raise ValueError("Public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From 3ce131551c2418e7a01acd007be300a7224f0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 09/11] fix: recovery modes: a signature from which no key is
 recovered does not verify for address 0

---
 pythonref/falcon_epervier.py | 3 ++-
 pythonref/falcon_recovery.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..55e14b6 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -70,7 +70,8 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # a failed recovery is False, which equals the integer 0
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..d87d1b4 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -74,7 +74,8 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # a failed recovery is False, which equals the integer 0
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From 79370d45bc06521884686d9bd40cb80bbc759657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 10/11] fix: recovery modes: refuse hints that are not reduced
 modulo q

---
 pythonref/falcon_epervier.py | 3 +++
 pythonref/falcon_recovery.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index 55e14b6..9cdb8a5 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -42,6 +42,9 @@ class EpervierPublicKey:
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
         T = ntt(q)
+        # the encoding of the hint is unique
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
         for elt in mul_s1_s1inv:
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index d87d1b4..e093f57 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -43,6 +43,9 @@ class RecoveryModePublicKey:
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
+        # the encoding of the hint is unique
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
         for elt in mul_s1_s1inv:
-- 
2.43.0


From 356e22b217678ebe1019d7d880f740c8f853fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 11/11] fix: ChaCha20 generator: the 64-bit block counter wraps

---
 pythonref/rng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index 88655b7..d861c20 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -96,7 +96,7 @@ class ChaCha20:
             self.qround(3, 4, 9, 14)
         for i in range(16):
             self.state[i] = (self.state[i] + state[i]) & 0xffffffff
-        self.ctr += 1
+        self.ctr = (self.ctr + 1) & 0xffffffffffffffff
         return self.state
 
     def block_update(self):
-- 
2.43.0

