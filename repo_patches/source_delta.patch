From 2c8be1017142cba50f00d75583763d0b3e350329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 1/8] fix: return DomainTooLarge from the direct hasher's CRH
 instead of panicking

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From 063eb45a2dc9b108e7e46adf59f5d601b81e40f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 2/8] fix: report the size of uncompressed public keys and
 signatures

---
 crates/bls-crypto/src/bls/public.rs    | 4 ++++
 crates/bls-crypto/src/bls/signature.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/bls-crypto/src/bls/public.rs b/crates/bls-crypto/src/bls/public.rs
index e5706dc..869cb40 100644
--- a/crates/bls-crypto/src/bls/public.rs
+++ b/crates/bls-crypto/src/bls/public.rs
@@ -132,6 +132,10 @@ impl CanonicalSerialize for PublicKey {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for PublicKey {
diff --git a/crates/bls-crypto/src/bls/signature.rs b/crates/bls-crypto/src/bls/signature.rs
index 46aa7b3..0a37762 100644
--- a/crates/bls-crypto/src/bls/signature.rs
+++ b/crates/bls-crypto/src/bls/signature.rs
@@ -40,6 +40,10 @@ impl CanonicalSerialize for Signature {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for Signature {
-- 
2.43.0


From 123b1616a15dd31d22a6cb66372eed86cea2a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 3/8] fix: count bitmap occurrences in 64 bits

The prover's count was a u8, so a bitmap with more than 255 matching bits
overflowed: a panic with overflow checks, a wrong witness without.
---
 crates/bls-gadgets/src/bitmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..66ab806 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From d524a86465453e489b83f604d90fc42ddb9a3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 4/8] fix: buffers of empty slices

Buffer::from indexed the first byte, which panics for an empty message or
empty extra data.
---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..265f65f 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -84,7 +84,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From 459b45a37c6e327fa33cb287303504f46480be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 5/8] fix: compressing malformed coordinates fails instead of
 panicking

compress_signature and compress_pubkey sliced and unwrapped their input, so
that a short buffer or a coordinate that is no field element aborted the
caller.
---
 crates/bls-snark-sys/src/serialization.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..453aec5 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -171,9 +171,10 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut signature =
+            unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
+        let x = Fq::read(&mut signature)?;
+        let y = Fq::read(&mut signature)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -196,9 +197,9 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
+        let x = Fq2::read(&mut pubkey)?;
+        let y = Fq2::read(&mut pubkey)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From 6967a41d7d16b731ff6d12d4dd02884cfb1d901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 6/8] fix: strict batches with uneven lists are not accepted

batch_verify_strict zipped the keys with the signatures, so that surplus keys
or signatures went unchecked and the batch was still reported as valid.
---
 crates/bls-snark-sys/src/signatures.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..75b1b3c 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -382,12 +382,14 @@ pub extern "C" fn batch_verify_strict(
                     context.add(pk.clone(), sig.clone());
                 });
 
-            let result = match (should_use_composite, should_use_cip22) {
-                (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
-                (false, true) => false, // bad hash to curve configuration
-                (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
-                (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
-            };
+            // every key needs a signature and the other way round
+            let result = public_keys.len() == signatures.len()
+                && match (should_use_composite, should_use_cip22) {
+                    (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
+                    (false, true) => false, // bad hash to curve configuration
+                    (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
+                    (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
+                };
 
             if !result {
                 all_valid = false;
-- 
2.43.0


From c5a421eff80702aa2f705dbd028eb02a5ee53f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 7/8] fix: prove refuses transitions that do not fit the
 circuit instead of panicking

---
 crates/epoch-snark/src/api/prover.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..3a650c1 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -36,6 +36,18 @@ pub fn prove(
     let span = span!(Level::TRACE, "prove");
     let _enter = span.enter();
 
+    // What does not fit the circuit cannot be proven
+    let fits = |block: &EpochBlock| block.new_public_keys.len() == num_validators as usize;
+    if transitions.is_empty()
+        || transitions.len() > max_transitions
+        || !fits(initial_epoch)
+        || !transitions
+            .iter()
+            .all(|t| fits(&t.block) && t.bitmap.len() == num_validators as usize)
+    {
+        return Err(SynthesisError::Unsatisfiable);
+    }
+
     let mut epochs = transitions.iter().map(to_update).collect::<Vec<_>>();
 
     let num_epochs = epochs.len();
-- 
2.43.0


From c819f73ab4183d0d0ed890336c817460112c849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:53 +0000
Subject: [PATCH 8/8] fix: dummy epochs of a proof reuse the next transition's
 bitmap so that padding keys stay provable

---
 crates/epoch-snark/src/api/prover.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 3a650c1..aa75499 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -55,7 +55,9 @@ pub fn prove(
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| {
+                    to_dummy_update(num_validators, &epochs[num_epochs - 1].signed_bitmap)
+                })
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -155,7 +157,12 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+// The bitmap of a dummy update is checked against the same keys and bound as that of the
+// transition which follows it, so that one's is always acceptable
+fn to_dummy_update(
+    num_validators: u32,
+    signed_bitmap: &[Option<bool>],
+) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -167,6 +174,6 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap: signed_bitmap.to_vec(),
     }
 }
-- 
2.43.0

