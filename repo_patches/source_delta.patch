From 257e029bc93a64f5b10d049f26163842ef678fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 1/9] fix: batch verification returns an error on a weight
 count mismatch and accepts an empty batch instead of panicking

---
 src/encryption.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..ea51e30 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -255,7 +255,12 @@ impl<E: Pairing> Encryption<E> {
         ek: impl Into<PreparedEncryptionKey<E>>,
         gens: impl Into<PreparedEncryptionGens<E>>,
     ) -> crate::Result<()> {
-        assert_eq!(r_powers.len(), ciphertexts.len());
+        if r_powers.len() != ciphertexts.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                ciphertexts.len(),
+                r_powers.len(),
+            ));
+        }
         let ek = ek.into();
         let gens = gens.into();
         let expected_count = ek.supported_chunks_count()? as usize;
@@ -267,6 +272,9 @@ impl<E: Pairing> Encryption<E> {
                 ));
             }
         }
+        if ciphertexts.is_empty() {
+            return Ok(());
+        }
 
         let a =
             Self::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(ciphertexts, r_powers);
-- 
2.43.0


From 8711aa9555d971272e6013712121afb93c16aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 2/9] fix: too small pairing power tables are reported instead
 of panicking

---
 src/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index ea51e30..3cc6f34 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -556,12 +556,12 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
+            if pairing_powers[chunk_index].len() <= j {
                 return Err(SaverError::InvalidPairingPowers);
             }
             if pairing_powers[chunk_index][j] == p {
-- 
2.43.0


From 634d13cf32ce9caa4f8f9c70331c2fe6e19ad4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 3/9] fix: re-encryption and ciphertext addition return an
 error on mismatched lengths instead of panicking or truncating

---
 src/encryption.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 3cc6f34..0822cc4 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -407,6 +407,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if sk.s.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, sk.s.len()));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
@@ -429,6 +432,9 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(w1.len(), w2.len()));
+        }
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
@@ -449,6 +455,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if w.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, w.len()));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
@@ -467,6 +476,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if ct2.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, ct2.len()));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From d1c2c79d4a987e6d8cfefcfcf840e37b67db79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 4/9] fix: pairing_powers returns an error when given too few
 bases instead of panicking

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..6c94a42 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
+        }
         let chunk_max_val = (1 << chunk_bit_size) - 1;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From a0a0611d19ff6b173004d8c043643fd017fffa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 5/9] fix: supported_chunks_count no longer truncates the count
 of an oversized key

---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 6c94a42..54ec77b 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From fe5de760c47d8deecb7aa2b26d97aae29fc0bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 6/9] fix: verifying keys that do not fit the ciphertext are
 reported as malformed

---
 src/saver_groth16.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index f8cb1c4..6d13e1e 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -40,7 +40,7 @@ pub struct ProvingKey<E: Pairing> {
 
 /// These parameters are needed for setting up keys for encryption/decryption
 pub fn get_gs_for_encryption<E: Pairing>(vk: &VerifyingKey<E>) -> &[E::G1Affine] {
-    &vk.gamma_abc_g1[1..]
+    vk.gamma_abc_g1.get(1..).unwrap_or(&[])
 }
 
 /// Generate Groth16 SRS
@@ -117,6 +117,9 @@ pub fn calculate_d<E: Pairing>(
     pvk: &PreparedVerifyingKey<E>,
     ciphertext: &Ciphertext<E>,
 ) -> Result<E::G1Affine, SaverError> {
+    if pvk.vk.gamma_abc_g1.len() != ciphertext.enc_chunks.len() + 1 {
+        return Err(SynthesisError::MalformedVerifyingKey.into());
+    }
     let mut d = ciphertext.X_r.into_group();
     for c in ciphertext.enc_chunks.iter() {
         d.add_assign(c.into_group())
-- 
2.43.0


From fc6f5583d66036fb7c7aefc17dfad0d50206bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 7/9] fix: secret key shares are erased from memory when
 dropped

---
 src/keygen.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 54ec77b..5ac2f3b 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -41,7 +41,16 @@ pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);
 /// sercret key for party i. Used during key generation and re-encryption. 
 #[serde_as]
 #[derive(
-    Clone, PartialEq, Eq, Debug, CanonicalSerialize, CanonicalDeserialize, Serialize, Deserialize,
+    Clone,
+    PartialEq,
+    Eq,
+    Debug,
+    CanonicalSerialize,
+    CanonicalDeserialize,
+    Serialize,
+    Deserialize,
+    Zeroize,
+    ZeroizeOnDrop,
 )]
 pub struct SecretKeyST<E: Pairing>{
     /// `s`
-- 
2.43.0


From e87c4cc91f0b75c2fab753a2a5d6a0fc79a80a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 8/9] fix: chunks_count agrees with the number of chunks
 decompose produces for every field

decompose breaks the full big integer representation into chunks, while
chunks_count went by the bit size of the modulus. For fields whose modulus
is much shorter than its representation (e.g. the scalar field of BW6-761,
377 bits in 6 limbs, with 4 bit chunks) the two differ and no message can be
encrypted with keys of the advertised size.
---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index ffd5d31..404e92b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,9 +15,10 @@ use digest::Digest;
 #[cfg(feature = "parallel")]
 use {ark_std::cfg_into_iter, rayon::prelude::*};
 
-/// Return number of chunks given the bit size of chunk. Considers the size of the field.
+/// Return number of chunks given the bit size of chunk. Considers the size of the field's representation,
+/// as that is what `decompose` breaks into chunks.
 pub fn chunks_count<F: PrimeField>(chunk_bit_size: u8) -> u8 {
-    let scalar_size = F::MODULUS_BIT_SIZE as usize;
+    let scalar_size = F::BigInt::NUM_LIMBS * 64;
     let bit_size = chunk_bit_size as usize;
     // ceil(scalar_size / bit_size)
     ((scalar_size + bit_size - 1) / bit_size) as u8
-- 
2.43.0


From 6ace2d1b7683ff189c94e572b22919130d9be94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 9/9] fix: commitment key of the wrong length is refused when
 committing with it

---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..50a42d0 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                decomposed.len(),
+                comm_key.len(),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0

