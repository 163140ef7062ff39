From 75cd8220aae049d61a351ec419f4889e4842c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 1/7] fix: DirectHasher::crh returns DomainTooLarge instead of
 panicking for a domain over 8 bytes

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From 77adf401db48b77c54d9c75bf1bea9d5682fe0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 2/7] fix: batch_verify_strict rejects batches with unequal
 numbers of keys and signatures

---
 crates/bls-snark-sys/src/signatures.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..6f17290 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -382,12 +382,15 @@ pub extern "C" fn batch_verify_strict(
                     context.add(pk.clone(), sig.clone());
                 });
 
-            let result = match (should_use_composite, should_use_cip22) {
-                (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
-                (false, true) => false, // bad hash to curve configuration
-                (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
-                (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
-            };
+            // zip stops at the shorter list, so lists of different lengths are not a batch
+            let same_length = public_keys.len() == signatures.len();
+            let result = same_length
+                && match (should_use_composite, should_use_cip22) {
+                    (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
+                    (false, true) => false, // bad hash to curve configuration
+                    (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
+                    (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
+                };
 
             if !result {
                 all_valid = false;
-- 
2.43.0


From 3117ce5076b66f716045fc15d9ffca806bb0e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 3/7] fix: Buffer::from does not panic on an empty slice

---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..265f65f 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -84,7 +84,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From ae4cbd3e146f778f51f0791a5bd85c8145021470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 4/7] fix: count bitmap occurrences without overflowing past
 255

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From ca69a19542de0d6d1a0ca1a43163f2e7dec5f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 5/7] fix: compress_signature and compress_pubkey report
 malformed input instead of panicking

---
 crates/bls-snark-sys/src/serialization.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..453aec5 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -171,9 +171,10 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut signature =
+            unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
+        let x = Fq::read(&mut signature)?;
+        let y = Fq::read(&mut signature)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -196,9 +197,9 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
+        let x = Fq2::read(&mut pubkey)?;
+        let y = Fq2::read(&mut pubkey)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From f39a42b2fa0f9ef0e5bbe9be5eba4005525798c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 6/7] fix: circuit batch verification refuses lists of
 different lengths

enforce_bls_equation documents that it fails when the two slices have
different lengths, but the pairing gadget zips them, so surplus public keys
or message hashes were ignored.
---
 crates/bls-gadgets/src/bls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bls-gadgets/src/bls.rs b/crates/bls-gadgets/src/bls.rs
index c38a6b1..f5f7c63 100644
--- a/crates/bls-gadgets/src/bls.rs
+++ b/crates/bls-gadgets/src/bls.rs
@@ -224,6 +224,10 @@ where
         g2: &[P::G2PreparedVar],
     ) -> Result<(), SynthesisError> {
         trace!("enforcing BLS equation");
+        // the pairing gadget would silently drop the surplus of the longer list
+        if g1.len() != g2.len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
         let bls_equation = P::product_of_pairings(g1, g2)?;
         let gt_one = &P::GTVar::one();
         bls_equation.enforce_equal(gt_one)?;
-- 
2.43.0


From 1209f32c6ddf9595ff4715b737e92c8b5b3cdd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 7/7] fix: give dummy epochs the last transition's bitmap

The circuit refuses a set bit at a padding key, and checks every dummy's
bitmap against the keys in force. An all-ones bitmap therefore made padded
proofs impossible whenever the epoch before the last one has padding keys.
---
 crates/epoch-snark/src/api/prover.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..b90ead3 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -43,7 +43,7 @@ pub fn prove(
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, &epochs[num_epochs - 1].signed_bitmap))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -143,7 +143,9 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+/// The dummies are inserted right before the last transition, so the circuit checks their bitmap
+/// against the same validators as the last transition's: reusing it keeps padding keys unsigned.
+fn to_dummy_update(num_validators: u32, signed_bitmap: &[Option<bool>]) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -155,6 +157,6 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap: signed_bitmap.to_vec(),
     }
 }
-- 
2.43.0

