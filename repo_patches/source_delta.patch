From 43817390da75f73896298fad5103d750e6621f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:30 +0000
Subject: [PATCH 01/10] verif hook: observe batch verification weights under
 --cfg eth_kzg_verif

---
 cryptography/kzg_multi_open/src/fk20/verifier.rs |  3 +++
 cryptography/kzg_multi_open/src/lib.rs           |  4 ++++
 cryptography/kzg_multi_open/src/verif.rs         | 13 +++++++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 cryptography/kzg_multi_open/src/verif.rs

diff --git a/cryptography/kzg_multi_open/src/fk20/verifier.rs b/cryptography/kzg_multi_open/src/fk20/verifier.rs
index 434a7ef..680b3d2 100644
--- a/cryptography/kzg_multi_open/src/fk20/verifier.rs
+++ b/cryptography/kzg_multi_open/src/fk20/verifier.rs
@@ -155,6 +155,9 @@ impl FK20Verifier {
             bit_reversed_proofs,
         );
         let r_powers = compute_powers(r, batch_size);
+        #[allow(unexpected_cfgs)]
+        #[cfg(eth_kzg_verif)]
+        crate::verif::observe_batch_weights(&r_powers);
         let num_unique_commitments = deduplicated_commitments.len();
 
         // 2. Compute a random linear combination of the proofs
diff --git a/cryptography/kzg_multi_open/src/lib.rs b/cryptography/kzg_multi_open/src/lib.rs
index be80867..00b3960 100644
--- a/cryptography/kzg_multi_open/src/lib.rs
+++ b/cryptography/kzg_multi_open/src/lib.rs
@@ -2,6 +2,10 @@ pub mod commit_key;
 mod fk20;
 pub mod verification_key;
 
+#[allow(unexpected_cfgs)]
+#[cfg(eth_kzg_verif)]
+pub mod verif;
+
 pub use fk20::{
     recover_evaluations_in_domain_order, CommitmentIndex, CosetIndex, Prover, ProverInput,
     Verifier, VerifierError,
diff --git a/cryptography/kzg_multi_open/src/verif.rs b/cryptography/kzg_multi_open/src/verif.rs
new file mode 100644
index 0000000..1216d01
--- /dev/null
+++ b/cryptography/kzg_multi_open/src/verif.rs
@@ -0,0 +1,13 @@
+//! Verification hook, compiled only with `--cfg eth_kzg_verif`: an observer of the random weights that
+//! batch verification gives to the openings of a batch.
+use bls12_381::Scalar;
+use std::sync::Mutex;
+
+/// `None`: not observing. `Some(log)`: the weights of every batch verified since, in order.
+pub static BATCH_WEIGHTS: Mutex<Option<Vec<Vec<Scalar>>>> = Mutex::new(None);
+
+pub(crate) fn observe_batch_weights(weights: &[Scalar]) {
+    if let Some(log) = BATCH_WEIGHTS.lock().unwrap().as_mut() {
+        log.push(weights.to_vec());
+    }
+}
-- 
2.43.0


From 1c47de552497a0d259d592a0f3ddfe396294d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 02/10] fix: ifft_g1_take_n accepts taking every point of the
 domain

Asking for exactly as many points as there are in the domain panicked,
although it is the same as passing None.
---
 cryptography/polynomial/src/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptography/polynomial/src/domain.rs b/cryptography/polynomial/src/domain.rs
index 167b4b0..2f24a01 100644
--- a/cryptography/polynomial/src/domain.rs
+++ b/cryptography/polynomial/src/domain.rs
@@ -171,7 +171,7 @@ impl Domain {
         // Truncate the result if a value of `n` was supplied.
         let mut ifft_g1 = match n {
             Some(num_to_take) => {
-                assert!(num_to_take < points.len());
+                assert!(num_to_take <= points.len());
                 points[0..num_to_take].to_vec()
             }
             None => points,
-- 
2.43.0


From 5568f8c23a12528defcc12d92eaac7b805385e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 03/10] fix: poly_mul of two polynomials without coefficients
 is the zero polynomial

The length of the result underflowed when both inputs were empty.
---
 cryptography/polynomial/src/poly_coeff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptography/polynomial/src/poly_coeff.rs b/cryptography/polynomial/src/poly_coeff.rs
index e0cf8b5..86f6616 100644
--- a/cryptography/polynomial/src/poly_coeff.rs
+++ b/cryptography/polynomial/src/poly_coeff.rs
@@ -52,6 +52,10 @@ pub fn poly_eval(poly: &PolyCoeff, value: &Scalar) -> Scalar {
 /// For two polynomials, `f(x)` and `g(x)`, this method computes
 /// the result of `f(x) * g(x)` and returns the result.
 pub fn poly_mul(a: PolyCoeff, b: PolyCoeff) -> PolyCoeff {
+    // The product with the zero polynomial, which may have no coefficients, is zero.
+    if a.is_empty() || b.is_empty() {
+        return Vec::new();
+    }
     let mut result = vec![Scalar::ZERO; a.len() + b.len() - 1];
     for (i, a_coeff) in a.iter().enumerate() {
         for (j, b_coeff) in b.iter().enumerate() {
-- 
2.43.0


From 58e0e022a777e2783f5e39b69e68be2654d74d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 04/10] fix: forward transforms evaluate polynomials that are
 longer than the domain

Coefficients beyond the size of the domain were silently dropped, so the
result was not the evaluation of the polynomial. They now wrap around, as
X^n is 1 on a domain of size n.
---
 cryptography/polynomial/src/domain.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cryptography/polynomial/src/domain.rs b/cryptography/polynomial/src/domain.rs
index 2f24a01..309c034 100644
--- a/cryptography/polynomial/src/domain.rs
+++ b/cryptography/polynomial/src/domain.rs
@@ -6,6 +6,7 @@ use bls12_381::{
     group::Group,
     {G1Projective, Scalar},
 };
+use std::ops::AddAssign;
 
 /// A struct representing a set of points that are roots of unity,
 /// which allows us to efficiently evaluate and interpolate polynomial
@@ -105,9 +106,9 @@ impl Domain {
 
     /// Evaluates a polynomial at the points in the domain
     pub fn fft_scalars(&self, mut polynomial: PolyCoeff) -> Vec<Scalar> {
-        // Pad the polynomial with zeroes, so that it is the same size as the
+        // Reduce or pad the polynomial, so that it is the same size as the
         // domain.
-        polynomial.resize(self.size(), Scalar::ZERO);
+        reduce_to_size(&mut polynomial, self.size(), Scalar::ZERO);
 
         fft_scalar_inplace(&self.twiddle_factors, &mut polynomial);
 
@@ -117,15 +118,15 @@ impl Domain {
     /// Evaluates a polynomial at the points in the domain multiplied by a coset
     /// generator `g`.
     pub fn coset_fft_scalars(&self, mut points: PolyCoeff, coset: &CosetFFT) -> Vec<Scalar> {
-        // Pad the polynomial with zeroes, so that it is the same size as the
-        // domain.
-        points.resize(self.size(), Scalar::ZERO);
-
         let mut coset_scale = Scalar::ONE;
         for point in points.iter_mut() {
             *point *= coset_scale;
             coset_scale *= coset.generator;
         }
+        // Reduce or pad the polynomial, so that it is the same size as the
+        // domain.
+        reduce_to_size(&mut points, self.size(), Scalar::ZERO);
+
         fft_scalar_inplace(&self.twiddle_factors, &mut points);
 
         points
@@ -136,9 +137,9 @@ impl Domain {
     /// Note: Thinking about an FFT as multiple inner products between powers of the elements
     /// in the domain and the input polynomial makes this easier to visualize.
     pub fn fft_g1(&self, mut points: Vec<G1Projective>) -> Vec<G1Projective> {
-        // Pad the vector of points with zeroes, so that it is the same size as the
+        // Reduce or pad the vector of points, so that it is the same size as the
         // domain.
-        points.resize(self.size(), G1Projective::identity());
+        reduce_to_size(&mut points, self.size(), G1Projective::identity());
 
         fft_g1_inplace(&self.twiddle_factors, &mut points);
 
@@ -213,6 +214,16 @@ impl Domain {
     }
 }
 
+/// Reduces a polynomial modulo `X^size - 1`, which does not change its values on a
+/// domain of that size, and pads it to `size` coefficients.
+fn reduce_to_size<T: Copy + AddAssign>(coefficients: &mut Vec<T>, size: usize, zero: T) {
+    for i in size..coefficients.len() {
+        let coefficient = coefficients[i];
+        coefficients[i % size] += coefficient;
+    }
+    coefficients.resize(size, zero);
+}
+
 #[cfg(test)]
 mod tests {
     use crate::poly_coeff::poly_eval;
-- 
2.43.0


From d3c4e2bdcf7340ada4389191fb1283f96e54d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 05/10] fix: g1_lincomb and g2_lincomb return None when the
 lengths differ

As documented. The longer input was silently truncated instead, because the
filter for identity points pairs the inputs up before their lengths are
compared.
---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From 3c145c62ecaad671be013c93a218347904ba1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 06/10] fix: FK20Prover accepts commitment keys longer than the
 polynomial bound

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 1158112..fa8ee9a 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -76,6 +76,9 @@ impl FK20Prover {
 
         // 1. Compute the SRS vectors that we will multiply the toeplitz matrices by.
         //
+        // The commitment key may be longer than the polynomials that we open, only the first
+        // `polynomial_bound` points are needed to create the proofs.
+        //
         // Skip the last `coset_size` points in the srs
         //
         // To intuitively understand why this normal, note that the conventional
@@ -86,6 +89,7 @@ impl FK20Prover {
             .g1s
             .clone()
             .into_iter()
+            .take(polynomial_bound)
             .rev()
             .skip(points_per_proof)
             .collect();
-- 
2.43.0


From 1f379abea8666e6f4d3371dbce773c40daed65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 07/10] fix: FK20Prover opens polynomials that are shorter than
 the polynomial bound

---
 .../kzg_multi_open/src/fk20/prover.rs         | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index fa8ee9a..987592f 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -3,6 +3,7 @@ use crate::fk20::batch_toeplitz::BatchToeplitzMatrixVecMul;
 use crate::fk20::cosets::reverse_bit_order;
 use crate::fk20::h_poly::take_every_nth;
 use bls12_381::fixed_base_msm::UsePrecomp;
+use bls12_381::ff::Field;
 use bls12_381::group::prime::PrimeCurveAffine;
 use bls12_381::{g1_batch_normalize, G1Point, Scalar};
 use polynomial::{domain::Domain, poly_coeff::PolyCoeff};
@@ -95,13 +96,13 @@ impl FK20Prover {
             .collect();
         let mut srs_vectors = take_every_nth(&srs_truncated, points_per_proof);
 
-        // Pad srs vectors to the next power of two
+        // Pad srs vectors to the number of columns in a toeplitz matrix.
         //
-        // This is not strictly needed since our FFT implementation
-        // will pad these.
+        // Polynomials have `padded_bound` coefficients when we compute proofs and each
+        // toeplitz matrix holds every `points_per_proof`-th one of them.
+        let toeplitz_size = padded_bound(polynomial_bound, points_per_proof) / points_per_proof;
         for srs_vector in &mut srs_vectors {
-            let pad_by = srs_vector.len().next_power_of_two();
-            srs_vector.resize(pad_by, G1Point::identity());
+            srs_vector.resize(toeplitz_size, G1Point::identity());
         }
 
         // Initialize structure that will allow us to do efficient sum of multiple toeplitz matrix
@@ -194,10 +195,23 @@ impl FK20Prover {
         &self,
         polynomial: PolyCoeff,
     ) -> (Vec<G1Point>, Vec<Vec<Scalar>>) {
+        let polynomial_bound = self.poly_domain.roots.len();
+        assert!(
+            polynomial.len() <= polynomial_bound,
+            "expected at most {} coefficients, found {}",
+            polynomial_bound,
+            polynomial.len()
+        );
+
+        // The toeplitz matrices are built from the coefficients of the highest degrees first, so
+        // shorter polynomials need their leading zero coefficients.
+        let mut padded_polynomial = polynomial.clone();
+        padded_polynomial.resize(padded_bound(polynomial_bound, self.coset_size), Scalar::ZERO);
+
         // Compute opening proofs for the polynomial
         //
         let h_poly_commitments =
-            compute_h_poly_commitments(&self.batch_toeplitz, polynomial.clone(), self.coset_size);
+            compute_h_poly_commitments(&self.batch_toeplitz, padded_polynomial, self.coset_size);
         let mut proofs = self.proof_domain.fft_g1(h_poly_commitments);
 
         // Reverse bit order the set of proofs, so that the proofs line up with the
@@ -216,6 +230,13 @@ impl FK20Prover {
     }
 }
 
+/// The number of coefficients, including leading zeroes, that proofs are computed from.
+///
+/// There is at least one coefficient for each point that a proof attests to.
+fn padded_bound(polynomial_bound: usize, points_per_proof: usize) -> usize {
+    polynomial_bound.max(points_per_proof)
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::HashSet;
-- 
2.43.0


From 78ac5961a8230fb191bd860dccfeead1b5444df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 08/10] fix: FK20Prover with precomputation when the polynomial
 bound is at most the points per proof

---
 cryptography/kzg_multi_open/src/fk20/prover.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cryptography/kzg_multi_open/src/fk20/prover.rs b/cryptography/kzg_multi_open/src/fk20/prover.rs
index 987592f..7fed3e4 100644
--- a/cryptography/kzg_multi_open/src/fk20/prover.rs
+++ b/cryptography/kzg_multi_open/src/fk20/prover.rs
@@ -107,6 +107,14 @@ impl FK20Prover {
 
         // Initialize structure that will allow us to do efficient sum of multiple toeplitz matrix
         // vector multiplication, where the vector is fixed.
+        //
+        // If a proof attests to at least as many points as there are coefficients, the quotients are
+        // zero and all srs vectors consist of identity points, which precomputed tables do not support.
+        let use_precomp = if polynomial_bound > points_per_proof {
+            use_precomp
+        } else {
+            UsePrecomp::No
+        };
         let batch_toeplitz = BatchToeplitzMatrixVecMul::new(srs_vectors, use_precomp);
 
         // 2. Compute the domains needed to produce the proofs and the evaluations
-- 
2.43.0


From 7c3230ca4f637536e17c871365f4d02d02d13f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 09/10] fix: Node.js: reject indices that are not unsigned
 64-bit integers

A negative BigInt aborted the process (the asynchronous variants never
settled) and a BigInt of 2^64 or more was reduced modulo 2^64.
---
 bindings/node/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..fe9ff88 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_, _>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,14 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  let (_, value_u64, lossless) = value.get_u64();
+  if !lossless {
+    return Err(Error::from_reason(
+      "value should be an unsigned 64-bit integer",
+    ));
+  }
+  Ok(value_u64)
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 8e20a31ded40683c89cf700772b87fd36e1bc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:36 +0000
Subject: [PATCH 10/10] fix: Go: report failures of BlobToKZGCommitment, keep
 the context alive during calls

---
 bindings/golang/prover.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..7302507 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,10 +60,24 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	result := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer must not free the context while the call above is still using it.
+	runtime.KeepAlive(prover)
+	if err := toError(result); err != nil {
+		return nil, err
+	}
 	return out, nil
 }
 
+// toError converts the result of a call into an error, and frees the error message.
+func toError(result C.CResult) error {
+	if result.status == C.Ok {
+		return nil
+	}
+	defer C.eth_kzg_free_error_message(result.error_msg)
+	return errors.New(C.GoString(result.error_msg))
+}
+
 func (prover *DASContext) inner() *C.DASContext {
 	return prover._inner
 }
-- 
2.43.0

