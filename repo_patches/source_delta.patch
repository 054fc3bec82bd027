From 2d016a06531116161fac8aee6dfa6398e7ff9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:39 +0000
Subject: [PATCH 1/8] fix: size the shake128x4 tail buffers for the SHAKE128
 rate

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 0c680eb86d08e27ab47c2b3e7fd49054393391d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:39 +0000
Subject: [PATCH 2/8] fix: use unaligned vector accesses on caller buffers in
 SaberX4

---
 Variants/SaberX4_avx2/pack_unpack.c | 48 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..a3cb93e 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -21,16 +21,16 @@ void avx_load_16bit_8bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<SABER_K*SABER_N*16/(128*2);i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); 
-		l1 = _mm_load_ps(cfbs1+p*4); 
-		l2 = _mm_load_ps(cfbs2+p*4); 
-		l3 = _mm_load_ps(cfbs3+p*4); 
+		l0 = _mm_loadu_ps(cfbs0+p*4); 
+		l1 = _mm_loadu_ps(cfbs1+p*4); 
+		l2 = _mm_loadu_ps(cfbs2+p*4); 
+		l3 = _mm_loadu_ps(cfbs3+p*4); 
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); 
-		l5 = _mm_load_ps(cfbs5+p*4); 
-		l6 = _mm_load_ps(cfbs6+p*4); 
-		l7 = _mm_load_ps(cfbs7+p*4); 
+		l4 = _mm_loadu_ps(cfbs4+p*4); 
+		l5 = _mm_loadu_ps(cfbs5+p*4); 
+		l6 = _mm_loadu_ps(cfbs6+p*4); 
+		l7 = _mm_loadu_ps(cfbs7+p*4); 
 		
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From c6ffd861e119cd0d12f32c2e44729790e941848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 3/8] fix: Cortex-M0 decryption packs the message instead of
 overflowing the byte buffer

---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..97d0453 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -332,6 +332,8 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	uint16_t v[SABER_N];
 
+	uint16_t message_dec_unpacked[SABER_KEYBYTES*8];
+
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
 	// vector-vector scalar multiplication with mod p
@@ -346,11 +348,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From 69c52559ef04d4a016c50835508f04609dcd99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 4/8] fix: Cortex-M0 randombytes uses both bytes of each PRNG
 word

---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..f27e4da 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[4];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From 1699701a8fa06ab47d5cd7646efcaebcf0efa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 5/8] fix: carry of the AES-CTR block counter when a group ends
 exactly at the 64-bit wrap

When the low half of the counter reaches 2^64 exactly after a group of N
blocks, the carry into the high half was lost, so that the next group did
not continue the counter.
---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..9c0e143 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0


From 245b5a149f49b4c51459584f02278a590c741c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 6/8] fix: SaberX4 old_POLVECq2BSX4 packed only the first eight
 coefficients of each polynomial

---
 Variants/SaberX4_avx2/pack_unpack.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index a3cb93e..8582c7b 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -953,29 +953,29 @@ void old_POLVECq2BSX4(uint8_t *bytes0, uint8_t *bytes1, uint8_t *bytes2, uint8_t
 			offset_data=8*j;
 			avx_bytes[offset_byte + 0]= _mm256_and_si256(avx_data[SABER_N *i + offset_data + 0 ],(avx_epi64_ff));
 
-			avx_bytes[offset_byte + 1]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 0 ],8),avx_epi64_1f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 1 ],avx_epi64_07),5));
+			avx_bytes[offset_byte + 1]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 0 ],8),avx_epi64_1f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 1 ],avx_epi64_07),5));
 
-			avx_bytes[offset_byte + 2]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 1 ],3),avx_epi64_ff ));
+			avx_bytes[offset_byte + 2]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 1 ],3),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 3]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 1 ],11),avx_epi64_03 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 2 ],avx_epi64_3f),2));
+			avx_bytes[offset_byte + 3]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 1 ],11),avx_epi64_03 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 2 ],avx_epi64_3f),2));
 
-			avx_bytes[offset_byte + 4]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 2 ],6),avx_epi64_7f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 3 ],avx_epi64_01),7));
+			avx_bytes[offset_byte + 4]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 2 ],6),avx_epi64_7f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 3 ],avx_epi64_01),7));
 
-			avx_bytes[offset_byte + 5]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 3 ],1),avx_epi64_ff ));
+			avx_bytes[offset_byte + 5]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 3 ],1),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 6]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 3 ],9),avx_epi64_0f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 4 ],avx_epi64_0f),4));
+			avx_bytes[offset_byte + 6]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 3 ],9),avx_epi64_0f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 4 ],avx_epi64_0f),4));
 
-			avx_bytes[offset_byte + 7]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 4],4),avx_epi64_ff ));
+			avx_bytes[offset_byte + 7]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 4],4),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 8]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 4 ],12),avx_epi64_01 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 5 ],avx_epi64_7f),1));
+			avx_bytes[offset_byte + 8]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 4 ],12),avx_epi64_01 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 5 ],avx_epi64_7f),1));
 
-			avx_bytes[offset_byte + 9]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 5 ],7),avx_epi64_3f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 6 ],avx_epi64_03),6));
+			avx_bytes[offset_byte + 9]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 5 ],7),avx_epi64_3f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 6 ],avx_epi64_03),6));
 
-			avx_bytes[offset_byte + 10]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 6 ],2),avx_epi64_ff ));
+			avx_bytes[offset_byte + 10]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 6 ],2),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 11]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 6 ],10),avx_epi64_07 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 7 ],avx_epi64_1f),3));
+			avx_bytes[offset_byte + 11]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 6 ],10),avx_epi64_07 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 7 ],avx_epi64_1f),3));
 
-			avx_bytes[offset_byte + 12]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 7 ],5),avx_epi64_ff));
+			avx_bytes[offset_byte + 12]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 7 ],5),avx_epi64_ff));
 
 		}
 	}
-- 
2.43.0


From 1b526c22062ec788a3b1fdf88fb7b798c01a4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:47 +0000
Subject: [PATCH 7/8] fix: Cortex-M0 SABER_pack_3bit lost the low bit of every
 sixth coefficient

---
 .../Cortex-M0/saber-ref-mem/src/pack_unpack.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
index ff27aa4..2462cf0 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
@@ -10,7 +10,7 @@ void SABER_pack_3bit(uint8_t *bytes, uint16_t *data){
 		offset_byte=3*j;
 		offset_data=8*j;
 		bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | ( (data[offset_data + 1] & 0x7)<<3 ) | ((data[offset_data + 2] & 0x3)<<6);
-		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5] >> 2 ) & 0x01)<<7);
+		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | ((data[offset_data + 5] & 0x01)<<7);
 		bytes[offset_byte + 2]= ((data[offset_data + 5] >> 1 ) & 0x03) | ( (data[offset_data + 6] & 0x7)<<2 ) | ( (data[offset_data + 7] & 0x7)<<5 );
 	}
 }
-- 
2.43.0


From 987889d06af93b330ff7e37e40b124f5d82cdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:16 +0000
Subject: [PATCH 8/8] fix: Cortex-M0 cSHAKE no longer discards the
 customisation block

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 49 ++++++++++++-------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..743d4ab 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -53,19 +53,8 @@ static void store64(uint8_t *x, uint64_t u)
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
 
 
-/*************************************************
-* Name:        keccak_absorb
-*
-* Description: Absorb step of Keccak;
-*              non-incremental, starts by zeroeing the state.
-*
-* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
-*              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
-*              - const unsigned char *m:  pointer to input to be absorbed into s
-*              - unsigned long long mlen: length of input in bytes
-*              - unsigned char p:         domain-separation byte for different Keccak-derived functions
-**************************************************/
-void keccak_absorb(uint64_t *s,
+// Absorbs into the given state, which is not zeroed first
+static void keccak_absorb_into(uint64_t *s,
                           unsigned int r,
                           const unsigned char *m, unsigned long long int mlen,
                           unsigned char p)
@@ -73,10 +62,6 @@ void keccak_absorb(uint64_t *s,
   unsigned long long i;
   unsigned char t[200];
 
-  // Zero state
-  for (i = 0; i < 25; ++i)
-    s[i] = 0;
-
   while (mlen >= r)
   {
     for (i = 0; i < r / 8; ++i)
@@ -97,6 +82,32 @@ void keccak_absorb(uint64_t *s,
     s[i] ^= load64(t + 8 * i);
 }
 
+/*************************************************
+* Name:        keccak_absorb
+*
+* Description: Absorb step of Keccak;
+*              non-incremental, starts by zeroeing the state.
+*
+* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
+*              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
+*              - const unsigned char *m:  pointer to input to be absorbed into s
+*              - unsigned long long mlen: length of input in bytes
+*              - unsigned char p:         domain-separation byte for different Keccak-derived functions
+**************************************************/
+void keccak_absorb(uint64_t *s,
+                          unsigned int r,
+                          const unsigned char *m, unsigned long long int mlen,
+                          unsigned char p)
+{
+  unsigned int i;
+
+  // Zero state
+  for (i = 0; i < 25; ++i)
+    s[i] = 0;
+
+  keccak_absorb_into(s, r, m, mlen, p);
+}
+
 
 /*************************************************
 * Name:        keccak_squeezeblocks
@@ -150,7 +161,7 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  keccak_absorb_into(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -357,7 +368,7 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  keccak_absorb_into(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0

