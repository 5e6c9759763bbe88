From 9e68f997e515b8beae911697604a2ad879112ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 01/41] fix: unpack bytes from field elements for every modulus
 size

bytes_from_field_elements dropped exactly one byte of each prime field
element. Fields whose limbs exceed the modulus by more than one byte made
it panic, although bytes_to_field_elements accepts these fields.
---
 utilities/src/conversion.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/utilities/src/conversion.rs b/utilities/src/conversion.rs
index 84fa176..f43bf4c 100644
--- a/utilities/src/conversion.rs
+++ b/utilities/src/conversion.rs
@@ -224,22 +224,17 @@ where
 
     // for each base prime field element:
     // - convert to bytes
-    // - drop the trailing byte
+    // - keep only the leading bytes that can hold data
     // - append bytes to result
     let mut result = Vec::with_capacity(result_capacity);
     for elem in elems {
         for primefield_elem in elem.to_base_prime_field_elements() {
+            // The limbs of a prime field element can exceed its modulus by more than
+            // one byte, so keep the low-order bytes instead of dropping the final one.
             let primefield_bytes = primefield_elem.into_bigint().to_bytes_le();
-            let (_, primefield_bytes) = primefield_bytes
-                .split_last() // ignore the final byte of primefield_elem
-                .expect("prime field elem bytes should be non-empty");
-            assert_eq!(
-                primefield_bytes.len(),
-                primefield_bytes_len,
-                "invalid prime field elem bytes len, expect {}, found {}",
-                primefield_bytes_len,
-                primefield_bytes.len()
-            );
+            let primefield_bytes = primefield_bytes
+                .get(..primefield_bytes_len)
+                .expect("prime field elem bytes should not be shorter than its modulus");
             result.extend_from_slice(primefield_bytes);
         }
     }
-- 
2.43.0


From e3d62c4b447ae45d051bde3a9272a4400b94ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 02/41] fix: forgetting an empty position returns a full-length
 absence proof

---
 merkle_tree/src/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 8a1a0b5..4faa3f0 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -460,7 +460,7 @@ where
         match self {
             MerkleNode::Empty => (
                 Arc::new(self.clone()),
-                LookupResult::NotFound(MerkleTreeProof(vec![])),
+                LookupResult::NotFound(MerkleTreeProof(vec![vec![]; height])),
             ),
             MerkleNode::Branch { value, children } => {
                 let mut children = children.clone();
-- 
2.43.0


From 33168f8b1141ad40e6590ce1768477883790731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 03/41] fix: refuse to remember from a proof of another tree
 height

---
 merkle_tree/src/macros.rs                | 5 +++++
 merkle_tree/src/universal_merkle_tree.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/merkle_tree/src/macros.rs b/merkle_tree/src/macros.rs
index 85f102b..e31ed6b 100644
--- a/merkle_tree/src/macros.rs
+++ b/merkle_tree/src/macros.rs
@@ -245,6 +245,11 @@ macro_rules! impl_forgetable_merkle_tree_scheme {
                 let pos = pos.borrow();
                 let element = element.borrow();
                 let proof = proof.borrow();
+                if proof.height() != self.height {
+                    return Err(MerkleTreeError::InconsistentStructureError(
+                        "Proof height does not match the tree".to_string(),
+                    ));
+                }
                 if Self::verify(&self.commitment(), pos, element, proof)?.is_err() {
                     Err(MerkleTreeError::InconsistentStructureError(
                         "Wrong proof".to_string(),
diff --git a/merkle_tree/src/universal_merkle_tree.rs b/merkle_tree/src/universal_merkle_tree.rs
index 68d5806..65bd931 100644
--- a/merkle_tree/src/universal_merkle_tree.rs
+++ b/merkle_tree/src/universal_merkle_tree.rs
@@ -169,6 +169,11 @@ where
     ) -> Result<(), MerkleTreeError> {
         let pos = pos.borrow();
         let proof = proof.borrow();
+        if proof.height() != self.height {
+            return Err(MerkleTreeError::InconsistentStructureError(
+                "Proof height does not match the tree".to_string(),
+            ));
+        }
         if Self::non_membership_verify(&self.commitment(), pos, proof)?.is_err() {
             Err(MerkleTreeError::InconsistentStructureError(
                 "Wrong proof".to_string(),
-- 
2.43.0


From af8732417ef8669b9298c277e34c7d6c3a559aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 04/41] fix: restore empty subtrees as empty when remembering a
 leaf

---
 merkle_tree/src/internal.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 4faa3f0..5c7c969 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -585,13 +585,25 @@ where
                 } else {
                     MerkleNode::Empty
                 }
+            } else if proof[height - 1].is_empty() {
+                // The proof shows that nothing is stored below this node.
+                MerkleNode::Empty
             } else {
                 let branch = traversal_path[height - 1];
                 let mut values = proof[height - 1].clone();
                 values.insert(branch, *value);
+                // An empty sibling must stay empty rather than forgotten, or later
+                // insertions and removals would not behave as on the full tree.
                 let mut children = values
                     .iter()
-                    .map(|&value| Arc::new(MerkleNode::ForgottenSubtree { value }))
+                    .enumerate()
+                    .map(|(i, &value)| {
+                        Arc::new(if i != branch && value == T::default() {
+                            MerkleNode::Empty
+                        } else {
+                            MerkleNode::ForgottenSubtree { value }
+                        })
+                    })
                     .collect::<Vec<_>>();
                 children[branch] = children[branch].remember_internal::<H, ARITY>(
                     height - 1,
-- 
2.43.0


From 75bfb8af673d1c92914b18543d4e65648c8e9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:09 +0000
Subject: [PATCH 05/41] fix: bind range proofs to their positions

---
 merkle_tree/src/internal.rs | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/merkle_tree/src/internal.rs b/merkle_tree/src/internal.rs
index 5c7c969..fdabbfa 100644
--- a/merkle_tree/src/internal.rs
+++ b/merkle_tree/src/internal.rs
@@ -216,6 +216,46 @@ where
             "Indices and elements must have the same length".to_string(),
         ));
     }
+    let height = proof.lbound.len();
+    if proof.rbound.len() != height {
+        return Err(MerkleTreeError::InconsistentStructureError(
+            "Malformed proof".to_string(),
+        ));
+    }
+    // The positions must be consecutive and be those that the proof is about.
+    // This doesn't follow from the digests alone, since not every leaf digest
+    // depends on the position.
+    let paths = indices
+        .iter()
+        .map(|index| index.borrow().to_traversal_path(height))
+        .collect::<Vec<_>>();
+    let (first, last) = match (paths.first(), paths.last()) {
+        (Some(first), Some(last)) => (first, last),
+        _ => {
+            return Err(MerkleTreeError::ParametersError(
+                "A range must not be empty".to_string(),
+            ))
+        },
+    };
+    let consecutive = paths.windows(2).all(|pair| {
+        let mut next = pair[0].clone();
+        let carry = next.iter_mut().all(|digit| {
+            *digit = (*digit + 1) % ARITY;
+            *digit == 0
+        });
+        !carry && next == pair[1]
+    });
+    let bounded = proof.lbound.iter().zip(first).all(|(l, d)| l.len() == *d)
+        && proof
+            .rbound
+            .iter()
+            .zip(last)
+            .all(|(r, d)| r.len() == ARITY - 1 - *d);
+    if !consecutive || !bounded {
+        return Err(MerkleTreeError::InconsistentStructureError(
+            "Malformed proof".to_string(),
+        ));
+    }
     let mut values = indices
         .iter()
         .zip(elements.iter())
-- 
2.43.0


From 3980bfb18b0b0f4f22a72c4ca1e958443d678aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:57 +0000
Subject: [PATCH 06/41] fix: report the supported degree of univariate
 parameters

The number of powers was returned, one more than the largest degree for
which keys can be extracted.
---
 pcs/src/univariate_kzg/srs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcs/src/univariate_kzg/srs.rs b/pcs/src/univariate_kzg/srs.rs
index 38a9bf0..8edaf2c 100644
--- a/pcs/src/univariate_kzg/srs.rs
+++ b/pcs/src/univariate_kzg/srs.rs
@@ -32,7 +32,7 @@ pub struct UnivariateUniversalParams<E: Pairing> {
 impl<E: Pairing> UnivariateUniversalParams<E> {
     /// Returns the maximum supported degree
     pub fn max_degree(&self) -> usize {
-        self.powers_of_g.len()
+        self.powers_of_g.len().saturating_sub(1)
     }
 }
 
-- 
2.43.0


From 874690c2a5c4bcf4ba15c90c9c848a730944d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 07/41] fix: refuse polynomials of too high degree in
 univariate openings

The commit check was off by one and the openings had none, so that proofs
were computed from a truncated sum or the prover panicked.
---
 pcs/src/univariate_kzg/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 7a60194..c7b0343 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -97,13 +97,7 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let commit_time =
             start_timer!(|| format!("Committing to polynomial of degree {} ", poly.degree()));
 
-        if poly.degree() > prover_param.powers_of_g.len() {
-            return Err(PCSError::InvalidParameters(format!(
-                "poly degree {} is larger than allowed {}",
-                poly.degree(),
-                prover_param.powers_of_g.len()
-            )));
-        }
+        check_degree(prover_param, poly)?;
 
         let (num_leading_zeros, plain_coeffs) = skip_leading_zeros_and_convert_to_bigints(poly);
 
@@ -150,6 +144,8 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let open_time =
             start_timer!(|| format!("Opening polynomial of degree {}", polynomial.degree()));
 
+        check_degree(prover_param.borrow(), polynomial)?;
+
         let divisor = Self::Polynomial::from_coefficients_vec(vec![-*point, E::ScalarField::one()]);
 
         #[cfg(feature = "kzg-print-trace")]
@@ -333,6 +329,8 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
     ) -> Result<Vec<Self::Proof>, PCSError> {
         #[cfg(not(feature = "seq-fk-23"))]
         {
+            check_degree(prover_param.borrow(), polynomial)?;
+
             let h_poly_timer = start_timer!(|| "compute h_poly");
             let h_poly = Self::compute_h_poly_parallel(prover_param, &polynomial.coeffs)?;
             end_timer!(h_poly_timer);
@@ -423,6 +421,8 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
                 "no point to evaluate and open".to_string(),
             ));
         }
+        check_degree(prover_param.borrow(), polynomial)?;
+
         let open_time = start_timer!(|| format!(
             "Opening polynomial of degree {} at {} points",
             polynomial.degree(),
@@ -1041,6 +1041,21 @@ pub(crate) mod icicle {
     }
 }
 
+/// Check that the prover parameters support the degree of the polynomial.
+fn check_degree<E: Pairing>(
+    prover_param: &UnivariateProverParam<E>,
+    poly: &DensePolynomial<E::ScalarField>,
+) -> Result<(), PCSError> {
+    if poly.degree() >= prover_param.powers_of_g.len() {
+        return Err(PCSError::InvalidParameters(format!(
+            "poly degree {} is larger than allowed {}",
+            poly.degree(),
+            prover_param.powers_of_g.len().saturating_sub(1)
+        )));
+    }
+    Ok(())
+}
+
 fn skip_leading_zeros_and_convert_to_bigints<F: PrimeField, P: DenseUVPolynomial<F>>(
     p: &P,
 ) -> (usize, Vec<F::BigInt>) {
-- 
2.43.0


From dc381388094baa451c0cc47c8c0fb89d9c91649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 08/41] fix: refuse lists of different lengths in univariate
 batch verification

The lists were cut to the shortest one, so that claims without a proof
were accepted unchecked.
---
 pcs/src/univariate_kzg/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index c7b0343..3577b21 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -248,6 +248,19 @@ impl<E: Pairing> PolynomialCommitmentScheme for UnivariateKzgPCS<E> {
         let check_time =
             start_timer!(|| format!("Checking {} evaluation proofs", multi_commitment.len()));
 
+        if points.len() != multi_commitment.len()
+            || values.len() != multi_commitment.len()
+            || batch_proof.len() != multi_commitment.len()
+        {
+            return Err(PCSError::InvalidParameters(format!(
+                "mismatched lengths: {} commitments, {} points, {} values, {} proofs",
+                multi_commitment.len(),
+                points.len(),
+                values.len(),
+                batch_proof.len()
+            )));
+        }
+
         let mut total_c = <E::G1>::zero();
         let mut total_w = <E::G1>::zero();
 
-- 
2.43.0


From 639bc324b0b532c7579a876dede8cb4f7896f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 09/41] fix: return an error for repeated points in multi-point
 verification

The verifier panicked on inverting zero.
---
 pcs/src/univariate_kzg/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pcs/src/univariate_kzg/mod.rs b/pcs/src/univariate_kzg/mod.rs
index 3577b21..eb3a50c 100644
--- a/pcs/src/univariate_kzg/mod.rs
+++ b/pcs/src/univariate_kzg/mod.rs
@@ -503,6 +503,11 @@ impl<E: Pairing> UnivariatePCS for UnivariateKzgPCS<E> {
                 values.len(),
             )));
         }
+        if (1..points.len()).any(|i| points[..i].contains(&points[i])) {
+            return Err(PCSError::InvalidParameters(
+                "the evaluation points are not distinct".to_string(),
+            ));
+        }
         if verifier_param.borrow().powers_of_h.len() < points.len() + 1 {
             return Err(PCSError::InvalidParameters(format!(
                 "the number of powers of beta times h {} in SRS <= the number of evaluation points {}",
-- 
2.43.0


From 61e45dfef90fb39cbb3bccb013786ff4ac76b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 10/41] fix: return an error for multilinear proofs of the
 wrong length

The verifier panicked on them.
---
 pcs/src/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index 652d37e..b1251f0 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -381,6 +381,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if num_var != proof.proofs.len() {
+        return Err(PCSError::InvalidProof(format!(
+            "proof length ({}) does not match point length ({})",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let h_mul = verifier_param.h.into_group().batch_mul(point);
-- 
2.43.0


From 905520a9186a0888d6e65c6993923b5ec1fb9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 11/41] fix: batch commit with multilinear keys for any number
 of variables

With more variables than needed the commitment could not be opened, with
fewer a part of the polynomials was left out.
---
 pcs/src/multilinear_kzg/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pcs/src/multilinear_kzg/mod.rs b/pcs/src/multilinear_kzg/mod.rs
index b1251f0..1dff5d4 100644
--- a/pcs/src/multilinear_kzg/mod.rs
+++ b/pcs/src/multilinear_kzg/mod.rs
@@ -156,22 +156,12 @@ impl<E: Pairing> PolynomialCommitmentScheme for MultilinearKzgPCS<E> {
         prover_param: impl Borrow<ProverParam<E>>,
         polys: &[Self::Polynomial],
     ) -> Result<Self::Commitment, PCSError> {
-        let prover_param = prover_param.borrow();
         let commit_timer = start_timer!(|| "multi commit");
         let poly = merge_polynomials(polys)?;
-
-        let scalars: Vec<_> = poly
-            .to_evaluations()
-            .iter()
-            .map(|x| x.into_bigint())
-            .collect();
-
-        let commitment =
-            E::G1::msm_bigint(&prover_param.0.powers_of_g[0].evals, scalars.as_slice())
-                .into_affine();
+        let commitment = Self::commit(prover_param, &poly.into())?;
 
         end_timer!(commit_timer);
-        Ok(Commitment(commitment))
+        Ok(commitment)
     }
 
     /// On input a polynomial `p` and a point `point`, outputs a proof for the
-- 
2.43.0


From 89bbad40d5d76e5590858f804e028d2c9c817ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 12/41] fix: bound the degree in multilinear batch openings

The bound was too small for some numbers of polynomials and variables, for
which opening failed.
---
 pcs/src/multilinear_kzg/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcs/src/multilinear_kzg/util.rs b/pcs/src/multilinear_kzg/util.rs
index 7d79b3e..32a6625 100644
--- a/pcs/src/multilinear_kzg/util.rs
+++ b/pcs/src/multilinear_kzg/util.rs
@@ -97,11 +97,11 @@ pub(crate) fn compute_w_circ_l<F: PrimeField>(
     let mut res_eval: Vec<F> = vec![];
 
     // TODO: consider to pass this in from caller
-    // uni_degree is (product of each prefix's) + (2 * MLEs)
-    // = (l.len() - (num_vars - log(l.len())) + 2) * l[0].degree
-    let uni_degree = (l.len() - w.num_vars + log2(l.len()) as usize + 2) * l[0].degree();
+    // w has degree one in each variable, so that the degree of the composition is
+    // at most the sum of the degrees
+    let uni_degree = l.iter().map(|x| x.degree()).sum::<usize>();
 
-    let domain = match Radix2EvaluationDomain::<F>::new(uni_degree) {
+    let domain = match Radix2EvaluationDomain::<F>::new(uni_degree + 1) {
         Some(p) => p,
         None => {
             return Err(PCSError::InvalidParameters(
-- 
2.43.0


From 4ce2d52a4136af46b63cb7b58e5760c28807dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 13/41] fix: evaluate polynomials at any number of points

The function was unimplemented for about a thousand points and more.
---
 pcs/src/poly.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pcs/src/poly.rs b/pcs/src/poly.rs
index f2e04d4..59c0604 100644
--- a/pcs/src/poly.rs
+++ b/pcs/src/poly.rs
@@ -121,17 +121,9 @@ where
     /// Evaluate `self` at a list of arbitrary `points`.
     pub fn batch_evaluate(&self, points: &[F]) -> Vec<T> {
         // Horner: n * d
-        // FFT: ~ d*log^2(d)  (independent of n, as long as n<=d)
-        // naive cutoff-point, not taking parallelism into consideration:
-        let cutoff_size = <F as FftField>::TWO_ADICITY.pow(2);
-
-        if points.is_empty() {
-            Vec::new()
-        } else if points.len() < cutoff_size as usize {
-            points.iter().map(|x| self.evaluate(x)).collect()
-        } else {
-            unimplemented!("TODO: (alex) implements Appendix A of FK23");
-        }
+        // TODO: (alex) implements Appendix A of FK23, with cost ~ d*log^2(d)
+        // (independent of n, as long as n<=d)
+        points.iter().map(|x| self.evaluate(x)).collect()
     }
 
     /// Similar task as [`Self::batch_evaluate()`], except the points are
-- 
2.43.0


From a93a856abd5ec856622d880c0f85f072e2d340d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:25 +0000
Subject: [PATCH 14/41] fix: check the verifier degree against both lists of
 powers

Trimming panicked if the parameters have fewer powers in the first group
than the verifier needs.
---
 pcs/src/univariate_kzg/srs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pcs/src/univariate_kzg/srs.rs b/pcs/src/univariate_kzg/srs.rs
index 8edaf2c..4c03c2e 100644
--- a/pcs/src/univariate_kzg/srs.rs
+++ b/pcs/src/univariate_kzg/srs.rs
@@ -97,14 +97,15 @@ impl<E: Pairing> StructuredReferenceString for UnivariateUniversalParams<E> {
         if self.powers_of_g.len() <= prover_supported_degree {
             return Err(PCSError::InvalidParameters(ark_std::format!(
                 "Largest supported prover degree by the SRS is: {}, but requested: {}",
-                self.powers_of_g.len() - 1,
+                self.powers_of_g.len().saturating_sub(1),
                 prover_supported_degree,
             )));
         }
-        if self.powers_of_h.len() <= verifier_supported_degree {
+        let verifier_len = self.powers_of_h.len().min(self.powers_of_g.len());
+        if verifier_len <= verifier_supported_degree {
             return Err(PCSError::InvalidParameters(ark_std::format!(
                 "Largest supported verifier degree by the SRS is: {}, but requested: {}",
-                self.powers_of_h.len() - 1,
+                verifier_len.saturating_sub(1),
                 verifier_supported_degree,
             )));
         }
-- 
2.43.0


From ee5319c46cce2e207506e0c6989f61345e317b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:43 +0000
Subject: [PATCH 15/41] fix: report the written size of BLS12-381 keys and
 signatures

Their canonical encoding starts with a length, and the size announced
for uncompressed keys was the compressed one.
---
 signature/src/bls_over_bls12381.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/signature/src/bls_over_bls12381.rs b/signature/src/bls_over_bls12381.rs
index 26c7892..e34aae7 100644
--- a/signature/src/bls_over_bls12381.rs
+++ b/signature/src/bls_over_bls12381.rs
@@ -185,12 +185,13 @@ impl CanonicalSerialize for BLSVerKey {
         }
     }
 
-    fn serialized_size(&self, _compress: Compress) -> usize {
-        BLS_SIG_COMPRESSED_PK_SIZE
-    }
-
-    fn uncompressed_size(&self) -> usize {
-        BLS_SIG_PK_SIZE
+    // the bytes are written as a slice, i.e. after their length
+    fn serialized_size(&self, compress: Compress) -> usize {
+        if compress == Compress::Yes {
+            self.compress()[..].compressed_size()
+        } else {
+            self.serialize()[..].compressed_size()
+        }
     }
 }
 
@@ -267,10 +268,11 @@ impl CanonicalSerialize for BLSSignature {
     }
 
     fn serialized_size(&self, compress: Compress) -> usize {
+        // the bytes are written as a slice, i.e. after their length
         if compress == Compress::Yes {
-            BLS_SIG_COMPRESSED_SIGNATURE_SIZE
+            self.compress()[..].compressed_size()
         } else {
-            BLS_SIG_SIGNATURE_SIZE
+            self.serialize()[..].compressed_size()
         }
     }
 }
-- 
2.43.0


From 168677d1d2dac7c6873de9cd691ee155202ed2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:07 +0000
Subject: [PATCH 16/41] fix: reject verification keys off the curve

Keys read from text or serde forms are not validated. The all-zero key
made Schnorr verification accept any signature, and BN254 verification
panic.
---
 signature/src/bls_over_bn254.rs | 2 +-
 signature/src/schnorr.rs        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/signature/src/bls_over_bn254.rs b/signature/src/bls_over_bn254.rs
index 5e14040..4dd27e8 100644
--- a/signature/src/bls_over_bn254.rs
+++ b/signature/src/bls_over_bn254.rs
@@ -612,7 +612,7 @@ impl VerKey {
     ) -> Result<(), SignatureError> {
         // NOTE: for BN curve, we don't need subgroup check, since co-factor is 1,
         // thus only conducting on_curve check
-        if !sig.sigma.into_affine().is_on_curve() {
+        if !sig.sigma.into_affine().is_on_curve() || !self.0.into_affine().is_on_curve() {
             return Err(SignatureError::FailedOnCurveCheck);
         }
         self.verify_internal(msg, sig, csid)
diff --git a/signature/src/schnorr.rs b/signature/src/schnorr.rs
index c69d3c5..be20498 100644
--- a/signature/src/schnorr.rs
+++ b/signature/src/schnorr.rs
@@ -454,6 +454,10 @@ where
         sig: &Signature<P>,
         csid: B,
     ) -> Result<(), SignatureError> {
+        // Serialized keys and signatures may have been read without validation
+        if !self.0.into_affine().is_on_curve() || !sig.R.into_affine().is_on_curve() {
+            return Err(SignatureError::FailedOnCurveCheck);
+        }
         // Reject if public key is of small order
         if (self.0 * P::ScalarField::from(curve_cofactor::<P>())) == Projective::<P>::default() {
             return Err(SignatureError::VerificationError(
-- 
2.43.0


From b48d7312fa99dce50679e7eccd3316c42f004a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:28 +0000
Subject: [PATCH 17/41] fix: read AEAD nonces from text formats and refuse
 wrong lengths

---
 aead/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aead/src/lib.rs b/aead/src/lib.rs
index 106a0d2..4956694 100644
--- a/aead/src/lib.rs
+++ b/aead/src/lib.rs
@@ -226,17 +226,28 @@ impl<'de> Deserialize<'de> for Nonce {
             where
                 E: serde::de::Error,
             {
-                Ok(Nonce(*XNonce::from_slice(&v)))
+                self.visit_bytes(&v)
+            }
+
+            fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
+            where
+                E: serde::de::Error,
+            {
+                let bytes: [u8; 24] = v
+                    .try_into()
+                    .map_err(|_| E::invalid_length(v.len(), &"24 bytes"))?;
+                Ok(Nonce(XNonce::from(bytes)))
             }
 
             fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
             where
                 A: serde::de::SeqAccess<'de>,
             {
-                let bytes: Vec<u8> = seq
-                    .next_element()?
-                    .ok_or_else(|| serde::de::Error::invalid_length(0, &self))?;
-                Ok(Nonce(*XNonce::from_slice(&bytes)))
+                let mut bytes: Vec<u8> = Vec::new();
+                while let Some(byte) = seq.next_element()? {
+                    bytes.push(byte);
+                }
+                self.visit_bytes(&bytes)
             }
         }
 
-- 
2.43.0


From 4a5c71dbe3ca0d7e625be47b68e1ec6f97d9f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:28 +0000
Subject: [PATCH 18/41] fix: refuse ciphertext scalars that are not a valid
 ephemeral key

---
 elgamal/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgamal/src/lib.rs b/elgamal/src/lib.rs
index ab5f34c..d2621e6 100644
--- a/elgamal/src/lib.rs
+++ b/elgamal/src/lib.rs
@@ -146,7 +146,12 @@ where
                 "At least 2 scalars in length for ciphertext".to_string(),
             ));
         }
-        let key = Affine::new(scalars[0], scalars[1]);
+        let key = Affine::new_unchecked(scalars[0], scalars[1]);
+        if !key.is_on_curve() || !key.is_in_correct_subgroup_assuming_on_curve() {
+            return Err(ParameterError(
+                "The first 2 scalars are not a valid ephemeral public key".to_string(),
+            ));
+        }
 
         let ephemeral = EncKey {
             key: key.into_group(),
-- 
2.43.0


From 21794e3f48253f9c046ab1c453c08eec36b99b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:28 +0000
Subject: [PATCH 19/41] fix: pad an empty input to the fixed-length Poseidon2
 hash

---
 poseidon2/src/crhf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon2/src/crhf.rs b/poseidon2/src/crhf.rs
index fead56d..d659207 100644
--- a/poseidon2/src/crhf.rs
+++ b/poseidon2/src/crhf.rs
@@ -44,7 +44,7 @@ where
         }
 
         let mut padded = Vec::from(input);
-        zero_padding(&mut padded, IN);
+        padded.resize(IN, F::zero());
 
         let mut sponge = DuplexSponge::<S>::default();
         sponge.absorb_unchecked(&padded);
-- 
2.43.0


From 8531538c1d0ae2b1a097cdf3ba4580f9925ddae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 20/41] fix: return an error from is_in_range for bit lengths
 beyond the field

A bit length above the field's bit size made the slice of upper bits start
past its end and panic.
---
 relation/src/gadgets/range.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index e3d0fc9..633798e 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -27,6 +27,13 @@ impl<F: PrimeField> PlonkCircuit<F> {
     /// range [0, 2^`bit_len`). Return error if the variable is invalid.
     /// TODO: optimize the gate for UltraPlonk.
     pub fn is_in_range(&mut self, a: Variable, bit_len: usize) -> Result<BoolVar, CircuitError> {
+        if bit_len >= F::MODULUS_BIT_SIZE as usize {
+            return Err(CircuitError::ParameterError(format!(
+                "Field bit size: {}, requested range upper bound bit len: {}",
+                F::MODULUS_BIT_SIZE,
+                bit_len
+            )));
+        }
         let a_bit_le: Vec<BoolVar> = self.unpack(a, F::MODULUS_BIT_SIZE as usize)?;
         let a_bit_le: Vec<Variable> = a_bit_le.into_iter().map(|b| b.into()).collect();
         // a is in range if and only if the bits in `a_bit_le[bit_len..]` are all
-- 
2.43.0


From f8f2785c6d9cf47dd056e18ff39192adf2eda405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 21/41] fix: refuse lookup tables in circuits without lookup
 support

A TurboPlonk circuit accepted lookup tables although nothing ever checks
them, so the looked-up variables were left unconstrained.
---
 relation/src/gadgets/ultraplonk/lookup_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relation/src/gadgets/ultraplonk/lookup_table.rs b/relation/src/gadgets/ultraplonk/lookup_table.rs
index 7210d53..22919e1 100644
--- a/relation/src/gadgets/ultraplonk/lookup_table.rs
+++ b/relation/src/gadgets/ultraplonk/lookup_table.rs
@@ -23,6 +23,9 @@ impl<F: PrimeField> PlonkCircuit<F> {
         lookup_vars: &[(Variable, Variable, Variable)],
         table_vars: &[(Variable, Variable)],
     ) -> Result<(), CircuitError> {
+        if !self.support_lookup() {
+            return Err(CircuitError::LookupUnsupported);
+        }
         for lookup_var in lookup_vars.iter() {
             self.check_var_bound(lookup_var.0)?;
             self.check_var_bound(lookup_var.1)?;
-- 
2.43.0


From 8fbee8f480042bf5571cbc79b5c2f388cfd4f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 22/41] fix: check the variable bound in set_variable_public

An unknown variable was accepted and only caused a panic later, when the
circuit was checked or finalised.
---
 relation/src/constraint_system.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index e9aa8a4..4e37095 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -671,6 +671,7 @@ impl<F: FftField> Circuit<F> for PlonkCircuit<F> {
 
     fn set_variable_public(&mut self, var: Variable) -> Result<(), CircuitError> {
         self.check_finalize_flag(false)?;
+        self.check_var_bound(var)?;
         self.pub_input_gate_ids.push(self.num_gates());
 
         // Create an io gate that forces `witness[var] = public_input`.
-- 
2.43.0


From 6917d288649323435afdea30c2b94b824df3edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 23/41] fix: do not panic when merging circuits without public
 inputs

---
 relation/src/constraint_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index 4e37095..b85dfe5 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -1272,12 +1272,12 @@ impl<F: PrimeField> PlonkCircuit<F> {
                 other.num_inputs()
             )));
         }
-        if self.pub_input_gate_ids[0] != 0 {
+        if self.pub_input_gate_ids.first() != Some(&0) {
             return Err(ParameterError(
                 "the first circuit is not type A".to_string(),
             ));
         }
-        if other.pub_input_gate_ids[0] != other.eval_domain_size()? - 1 {
+        if other.pub_input_gate_ids.first() != Some(&(other.eval_domain_size()? - 1)) {
             return Err(ParameterError(
                 "the second circuit is not type B".to_string(),
             ));
-- 
2.43.0


From 052a82d336c0a69aa71f8e5c55b1e64ea391b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 24/41] fix: keep every lookup gate and public input in place
 on finalisation

Public inputs added after a lookup table shifted the recorded table
positions: an input gate was then moved to the rear instead of a lookup gate.
A table ending in the last row also stayed there, where lookups are not
checked. Find the lookup gates by their selector after the input gates have
been moved, and free the last row first.
---
 relation/src/constraint_system.rs | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/relation/src/constraint_system.rs b/relation/src/constraint_system.rs
index b85dfe5..562fd59 100644
--- a/relation/src/constraint_system.rs
+++ b/relation/src/constraint_system.rs
@@ -844,27 +844,36 @@ impl<F: FftField> PlonkCircuit<F> {
             }
         }
         if self.support_lookup() {
-            // move lookup gates to the rear, the relative order of the lookup gates
-            // should not change
+            // move lookup gates to the rear
             let n = self.eval_domain.size();
             // be careful that we can't put a lookup gates at the very last slot.
+            if self.is_lookup_gate(n - 1) {
+                let gate_id = (0..n)
+                    .rev()
+                    .find(|&gate_id| !self.is_lookup_gate(gate_id))
+                    .ok_or(IndexError)?;
+                self.swap_gates(gate_id, n - 1);
+            }
             let mut cur_gate_id = n - 2;
-            for &(table_gate_id, table_size) in self.table_gate_ids.iter().rev() {
-                for gate_id in (table_gate_id..table_gate_id + table_size).rev() {
-                    if gate_id < cur_gate_id {
-                        // Swap gate types
-                        self.gates.swap(gate_id, cur_gate_id);
-                        // Swap wire variables
-                        for j in 0..GATE_WIDTH + 1 {
-                            self.wire_variables[j].swap(gate_id, cur_gate_id);
-                        }
-                        cur_gate_id -= 1;
-                    }
+            for gate_id in (0..n - 1).rev() {
+                if self.is_lookup_gate(gate_id) {
+                    self.swap_gates(gate_id, cur_gate_id);
+                    cur_gate_id -= 1;
                 }
             }
         }
         Ok(())
     }
+    // swap the types and the wire variables of two gates
+    fn swap_gates(&mut self, i: GateId, j: GateId) {
+        self.gates.swap(i, j);
+        for wire_vars in self.wire_variables.iter_mut().take(GATE_WIDTH + 1) {
+            wire_vars.swap(i, j);
+        }
+    }
+    fn is_lookup_gate(&self, gate_id: GateId) -> bool {
+        self.gates[gate_id].q_lookup() != F::zero()
+    }
     // use downcast to check whether a gate is of IoGate type
     fn is_io_gate(&self, gate_id: GateId) -> bool {
         self.gates[gate_id].as_any().is::<IoGate>()
-- 
2.43.0


From f5b68f66d3533952e7810685281be2c2b4b3646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:24 +0000
Subject: [PATCH 25/41] fix: reject proofs with missing or surplus parts
 instead of panicking

The Plonk verifier indexed into the proof's lists without checking their
lengths, so a malformed proof made verification panic. Check the shape of
the proof first and return a parameter error.
---
 plonk/src/proof_system/verifier.rs | 41 +++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/plonk/src/proof_system/verifier.rs b/plonk/src/proof_system/verifier.rs
index 7d1b3cb..addfb68 100644
--- a/plonk/src/proof_system/verifier.rs
+++ b/plonk/src/proof_system/verifier.rs
@@ -20,7 +20,7 @@ use ark_ec::{
 };
 use ark_ff::{Field, One, Zero};
 use ark_poly::{EvaluationDomain, Radix2EvaluationDomain};
-use ark_std::{format, vec, vec::Vec};
+use ark_std::{format, string::ToString, vec, vec::Vec};
 use core::ops::Neg;
 use jf_pcs::prelude::Commitment;
 use jf_relation::{constants::GATE_WIDTH, gadgets::ecc::SWToTEConParam};
@@ -89,6 +89,7 @@ where
             ))
             .into());
         }
+        Self::check_proof_shape(batch_proof)?;
         for (i, (&pub_input, &vk)) in public_inputs.iter().zip(verify_keys.iter()).enumerate() {
             if pub_input.len() != vk.num_inputs {
                 return Err(ParameterError(
@@ -188,6 +189,44 @@ where
         })
     }
 
+    /// Check that every list in the proof has the length that an honest prover
+    /// would produce, so that the rest of the verification neither indexes out
+    /// of bounds nor ignores a part of the proof.
+    fn check_proof_shape(batch_proof: &BatchProof<E>) -> Result<(), PlonkError> {
+        let num_instances = batch_proof.len();
+        if batch_proof.wires_poly_comms_vec.len() != num_instances
+            || batch_proof.poly_evals_vec.len() != num_instances
+            || batch_proof.plookup_proofs_vec.len() != num_instances
+        {
+            return Err(ParameterError(
+                "inconsistent number of instances in the proof".to_string(),
+            )
+            .into());
+        }
+        for ((comms, evals), plookup_proof) in batch_proof
+            .wires_poly_comms_vec
+            .iter()
+            .zip(batch_proof.poly_evals_vec.iter())
+            .zip(batch_proof.plookup_proofs_vec.iter())
+        {
+            let num_wire_types = GATE_WIDTH + 1 + usize::from(plookup_proof.is_some());
+            if comms.len() != num_wire_types
+                || evals.wires_evals.len() != num_wire_types
+                || evals.wire_sigma_evals.len() != num_wire_types - 1
+                || batch_proof.split_quot_poly_comms.len() != num_wire_types
+                || plookup_proof
+                    .as_ref()
+                    .is_some_and(|proof| proof.h_poly_comms.len() != 2)
+            {
+                return Err(ParameterError(
+                    "wrong number of commitments or evaluations in the proof".to_string(),
+                )
+                .into());
+            }
+        }
+        Ok(())
+    }
+
     /// Batchly verify multiple (aggregated) PCS opening proofs.
     ///
     /// We need to verify that:
-- 
2.43.0


From 6c7911b8042d5f13d848f0e7be4c2845f7a63453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:24 +0000
Subject: [PATCH 26/41] fix: return an error for proof coordinates that are not
 group elements

Rebuilding a Plonk proof from base field elements panicked when a pair of
coordinates was not on the curve, and could not read back a commitment at
infinity.
---
 plonk/src/proof_system/structs.rs | 48 ++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/plonk/src/proof_system/structs.rs b/plonk/src/proof_system/structs.rs
index edb33f7..f465c1b 100644
--- a/plonk/src/proof_system/structs.rs
+++ b/plonk/src/proof_system/structs.rs
@@ -92,37 +92,25 @@ where
         if value.len() == TURBO_PLONK_LEN {
             // NOTE: for convenience, we slightly reordered our fields in Proof.
             let mut ptr = 0;
-            let wires_poly_comms: Vec<Commitment<E>> = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
+            let wires_poly_comms = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
                 .chunks_exact(2)
-                .map(|chunk| {
-                    if chunk.len() == 2 {
-                        Commitment(Affine::new(chunk[0], chunk[1]))
-                    } else {
-                        unreachable!("Internal error");
-                    }
-                })
-                .collect();
+                .map(fields_to_commitment)
+                .collect::<Result<Vec<_>, _>>()?;
             ptr += (GATE_WIDTH + 1) * 2;
 
             let split_quot_poly_comms = value[ptr..ptr + (GATE_WIDTH + 1) * 2]
                 .chunks_exact(2)
-                .map(|chunk| {
-                    if chunk.len() == 2 {
-                        Commitment(Affine::new(chunk[0], chunk[1]))
-                    } else {
-                        unreachable!("Internal error");
-                    }
-                })
-                .collect();
+                .map(fields_to_commitment)
+                .collect::<Result<Vec<_>, _>>()?;
             ptr += (GATE_WIDTH + 1) * 2;
 
-            let prod_perm_poly_comm = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let prod_perm_poly_comm = fields_to_commitment(&value[ptr..ptr + 2])?;
             ptr += 2;
 
-            let opening_proof = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let opening_proof = fields_to_commitment(&value[ptr..ptr + 2])?;
             ptr += 2;
 
-            let shifted_opening_proof = Commitment(Affine::new(value[ptr], value[ptr + 1]));
+            let shifted_opening_proof = fields_to_commitment(&value[ptr..ptr + 2])?;
             ptr += 2;
 
             let poly_evals_scalars: Vec<E::ScalarField> = value[ptr..]
@@ -148,6 +136,26 @@ where
     }
 }
 
+// helper function to convert two base fields into a commitment, the inverse of
+// `group1_to_fields`
+fn fields_to_commitment<E, P>(xy: &[E::BaseField]) -> Result<Commitment<E>, SnarkError>
+where
+    E: Pairing<G1Affine = Affine<P>>,
+    P: SWCurveConfig<BaseField = E::BaseField, ScalarField = E::ScalarField>,
+{
+    let infinity = Affine::<P>::identity();
+    if xy == [infinity.x, infinity.y] {
+        return Ok(Commitment(infinity));
+    }
+    let point = Affine::<P>::new_unchecked(xy[0], xy[1]);
+    if !point.is_on_curve() || !point.is_in_correct_subgroup_assuming_on_curve() {
+        return Err(SnarkError::ParameterError(
+            "a commitment in the proof is not a group element".to_string(),
+        ));
+    }
+    Ok(Commitment(point))
+}
+
 // helper function to convert a G1Affine or G2Affine into two base fields
 fn group1_to_fields<E, P>(p: Affine<P>) -> Vec<E::BaseField>
 where
-- 
2.43.0


From 204fee85a300248310b15033b476966f6770bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:24 +0000
Subject: [PATCH 27/41] fix: refuse to batch verify keys from different
 universal parameters

Only the first opening key was used in the final pairing, so a key with
another opening key was verified against the wrong parameters.
---
 plonk/src/proof_system/snark.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/plonk/src/proof_system/snark.rs b/plonk/src/proof_system/snark.rs
index 8545a02..025bbff 100644
--- a/plonk/src/proof_system/snark.rs
+++ b/plonk/src/proof_system/snark.rs
@@ -85,6 +85,7 @@ where
         if verify_keys.is_empty() {
             return Err(ParameterError("empty verification keys".to_string()).into());
         }
+        Self::check_same_open_key(verify_keys)?;
         let verifier = Verifier::new(verify_keys[0].domain_size)?;
         let pcs_info =
             verifier.prepare_pcs_info::<T>(verify_keys, public_inputs, batch_proof, &None)?;
@@ -127,6 +128,8 @@ where
             );
         }
 
+        Self::check_same_open_key(verify_keys)?;
+
         let pcs_infos = parallelizable_slice_iter(verify_keys)
             .zip(parallelizable_slice_iter(proofs))
             .zip(parallelizable_slice_iter(public_inputs))
@@ -151,6 +154,22 @@ where
         Ok(())
     }
 
+    /// Check that all the verification keys were derived from the same universal
+    /// parameters, as the final pairing only uses the opening key of the first.
+    fn check_same_open_key(verify_keys: &[&VerifyingKey<E>]) -> Result<(), PlonkError> {
+        let pairing_key = |vk: &VerifyingKey<E>| (vk.open_key.g, vk.open_key.h, vk.open_key.beta_h);
+        if verify_keys
+            .iter()
+            .any(|vk| pairing_key(vk) != pairing_key(verify_keys[0]))
+        {
+            return Err(ParameterError(
+                "the verification keys have different opening keys".to_string(),
+            )
+            .into());
+        }
+        Ok(())
+    }
+
     /// An internal private API for ease of testing
     ///
     /// Batchly compute a Plonk proof for multiple instances. Return the batch
-- 
2.43.0


From 9b485d9d314d9c32744f4b2525f1a7d36de8c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:26 +0000
Subject: [PATCH 28/41] fix: prove circuits with an evaluation domain of two
 points

The leading terms of the permutation argument cancel out there, so the
quotient polynomial has a lower degree and proving always failed.
---
 plonk/src/proof_system/prover.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plonk/src/proof_system/prover.rs b/plonk/src/proof_system/prover.rs
index 34f3c42..a021b94 100644
--- a/plonk/src/proof_system/prover.rs
+++ b/plonk/src/proof_system/prover.rs
@@ -1101,7 +1101,14 @@ impl<E: Pairing> Prover<E> {
 
 #[inline]
 fn quotient_polynomial_degree(domain_size: usize, num_wire_types: usize) -> usize {
-    num_wire_types * (domain_size + 1) + 2
+    let degree = num_wire_types * (domain_size + 1) + 2;
+    if domain_size > 2 {
+        degree
+    } else {
+        // The leading terms of `z(X)` and `z(g * X)` are the same as `g^2 = 1`, thus they
+        // cancel out in the permutation argument.
+        degree - 1
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 186a0b7ddf2e43e44ca426b6c3cbb248c3db4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:47 +0000
Subject: [PATCH 29/41] fix: reject invalid points in the rescue transcript

A commitment outside the prime order subgroup may have no twisted Edwards
form. Converting it divided by zero, so verifying such a proof panicked.
---
 plonk/src/transcript/rescue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plonk/src/transcript/rescue.rs b/plonk/src/transcript/rescue.rs
index a2928b8..fd245b3 100644
--- a/plonk/src/transcript/rescue.rs
+++ b/plonk/src/transcript/rescue.rs
@@ -14,7 +14,7 @@ use ark_ec::{
     pairing::Pairing,
     short_weierstrass::{Affine, SWCurveConfig as SWParam},
 };
-use ark_std::vec::Vec;
+use ark_std::{string::ToString, vec::Vec};
 use jf_crhf::CRHF;
 use jf_pcs::prelude::Commitment;
 use jf_relation::gadgets::ecc::{SWToTEConParam, TEPoint};
@@ -113,6 +113,12 @@ where
         E: Pairing<BaseField = F, G1Affine = Affine<P>>,
         P: SWParam<BaseField = F>,
     {
+        // points outside the prime order subgroup may not have a TE form
+        if !comm.0.is_on_curve() || !comm.0.is_in_correct_subgroup_assuming_on_curve() {
+            return Err(PlonkError::InvalidParameters(
+                "the commitment is not a valid group element".to_string(),
+            ));
+        }
         // convert the SW form commitments into TE form
         let te_point: TEPoint<F> = comm.0.into();
         // push the x and y coordinate of comm (in twisted
-- 
2.43.0


From d5588757e88dda46206f22873185463649654a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 30/41] fix: keep the shape of non-membership circuits
 independent of the proof

Levels without siblings reused the constant zero instead of fresh
variables, so the wiring depended on the witness and proofs made with
another proof's keys were refused.
---
 merkle_tree/src/gadgets/universal_merkle_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkle_tree/src/gadgets/universal_merkle_tree.rs b/merkle_tree/src/gadgets/universal_merkle_tree.rs
index b80f413..e0dc3b0 100644
--- a/merkle_tree/src/gadgets/universal_merkle_tree.rs
+++ b/merkle_tree/src/gadgets/universal_merkle_tree.rs
@@ -98,12 +98,12 @@ where
                 let is_empty = siblings.is_empty();
                 Ok(Merkle3AryNodeVar {
                     sibling1: if is_empty {
-                        self.zero()
+                        self.create_variable(F::zero())?
                     } else {
                         self.create_variable(siblings[0])?
                     },
                     sibling2: if is_empty {
-                        self.zero()
+                        self.create_variable(F::zero())?
                     } else {
                         self.create_variable(siblings[1])?
                     },
-- 
2.43.0


From cb49560a16e66281390b52a09d34602280d6c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 31/41] fix: allow and enforce infinity as the sum of opposite
 points

The emulated short Weierstrass addition could not be satisfied for
P + (-P), and did not tie the infinity flag of the sum to its inputs.
---
 .../src/gadgets/ecc/emulated/short_weierstrass.rs  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
index da6c337..c15d141 100644
--- a/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
+++ b/relation/src/gadgets/ecc/emulated/short_weierstrass.rs
@@ -169,19 +169,20 @@ impl<F: PrimeField> PlonkCircuit<F> {
     ///
     /// The first case is equivalent to the following:
     ///
-    /// - inf0 == 1 || inf1 == 1 || x0 != x1 || y0 != y1 || y0 != 0 || inf2 == 0
+    /// - inf0 == 1 || inf1 == 1 || x0 != x1 || y0 != y1 || (inf2 == 1) == (y0 == 0)
     /// - (x0 + x1 + x2) * (y0 + y0)^2 == (3 * x0^2 + a)^2
     /// - (y2 + y0) * (y0 + y0) == (3 * x0^2 + a) (x0 - x2)
     ///
     /// The second case is equivalent to the following:
     ///
-    /// - inf0 == 1 || inf1 == 1 || x0 != x1 || y0 == y1 || inf2 == 0
+    /// - inf0 == 1 || inf1 == 1 || y0 == y1 || (inf2 == 1) == (x0 == x1)
     /// - (x0 - x1)^2 (x0 + x1 + x2) == (y0 - y1)^2
     /// - (x0 - x2) (y0 - y1) == (y0 + y2) (x0 - x1)
     ///
     /// First check in both cases can be combined into the following:
     ///
-    /// inf0 == 1 || inf1 == 1 || inf2 == 0 || x0 != x1 || (y0 == y1 && y0 != 0)
+    /// inf0 == 1 || inf1 == 1 ||
+    /// (inf2 == 0) == (x0 != x1 || (y0 == y1 && y0 != 0))
     ///
     /// For the rest equality checks,
     ///   - Both LHS and RHS must be multiplied with an indicator variable
@@ -211,8 +212,9 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // is 1 iff both p0 and p1 are not infinity
         let non_infinity_mark = self.logic_neg(infinity_mark)?;
 
-        // Case 2: p2 is infinity, while p0 and p1 are not.
-        // inf0 == 1 || inf1 == 1 || inf2 == 0 || x0 != x1 || (y0 == y1 && y0 != 0)
+        // Case 2: p0 and p1 are not infinity, then so is p2 unless they cancel out.
+        // inf0 == 1 || inf1 == 1 ||
+        // (inf2 == 0) == (x0 != x1 || (y0 == y1 && y0 != 0))
         let non_inf_p2 = self.logic_neg(p2.2)?;
         let eq_x0_x1 = self.is_emulated_var_equal(&p0.0, &p1.0)?;
         let neq_x0_x1 = self.logic_neg(eq_x0_x1)?;
@@ -221,7 +223,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let not_y0_zero = self.logic_neg(is_y0_zero)?;
         let t = self.logic_and(eq_y0_y1, not_y0_zero)?;
         let t = self.logic_or(neq_x0_x1, t)?;
-        let t = self.logic_or(non_inf_p2, t)?;
+        let t = self.is_equal(non_inf_p2.0, t.0)?;
         self.logic_or_gate(infinity_mark, t)?;
 
         // Case 3: point doubling
-- 
2.43.0


From 9eb0f8b0ce6ed57d50bdb3ac5f26546efb9a8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 32/41] fix: bound results of modular additions by the modulus

Sums and negations were range checked against the circuit's own field,
which is no bound at all, so a result that wraps around was accepted.
---
 relation/src/gadgets/ultraplonk/mod_arith.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/relation/src/gadgets/ultraplonk/mod_arith.rs b/relation/src/gadgets/ultraplonk/mod_arith.rs
index 166d3f2..5702a6e 100644
--- a/relation/src/gadgets/ultraplonk/mod_arith.rs
+++ b/relation/src/gadgets/ultraplonk/mod_arith.rs
@@ -12,7 +12,7 @@ use crate::{
     CircuitError::{self, ParameterError},
     PlonkCircuit, Variable,
 };
-use ark_ff::PrimeField;
+use ark_ff::{BigInteger, PrimeField};
 use ark_std::{format, string::ToString, vec, vec::Vec};
 use num_bigint::BigUint;
 
@@ -238,6 +238,11 @@ impl<F: PrimeField> FpElemVar<F> {
 }
 
 impl<F: PrimeField> PlonkCircuit<F> {
+    /// The number of range blocks that cover the residues modulo `p`.
+    fn num_range_blocks_for(&self, p: &F) -> Result<usize, CircuitError> {
+        Ok((p.into_bigint().num_bits() as usize).div_ceil(self.range_bit_len()?))
+    }
+
     /// Modular arithmetic gates
     ///
     /// Modular addition gate: compute y = var_1 + ... var_k mod p,
@@ -339,7 +344,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let x_var = x.convert_to_var(self)?;
         let y_var = y.convert_to_var(self)?;
 
-        let num_range_blocks = self.num_range_blocks()?;
+        let num_range_blocks = self.num_range_blocks_for(&p.field_elem())?;
         let res = self.mod_add_internal(&[x_var, y_var], p.field_elem(), num_range_blocks)?;
 
         FpElemVar::new_unchecked(self, res, x.m, Some(p.two_power_m))
@@ -420,7 +425,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         // range check remainder \in [0, range_size^l_p)
         let remainder_var = self.create_variable(remainder)?;
-        let num_range_blocks = self.num_range_blocks()?;
+        let num_range_blocks = self.num_range_blocks_for(&p.field_elem())?;
         self.range_gate_with_lookup(remainder_var, range_bit_len * num_range_blocks)?;
 
         // add constraint: x - remainder - p * divisor  + y = 0
@@ -471,7 +476,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             .map(|y| y.convert_to_var(self))
             .collect::<Result<Vec<Variable>, _>>()?;
 
-        let num_range_blocks = self.num_range_blocks()?;
+        let num_range_blocks = self.num_range_blocks_for(&p.field_elem())?;
         let res = self.mod_add_internal(x_vars.as_ref(), p.field_elem(), num_range_blocks)?;
 
         FpElemVar::new_unchecked(self, res, p.m, Some(p.two_power_m))
@@ -858,6 +863,9 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // variables
         let x_var = x.convert_to_var(self)?;
         let x_neg_var = self.create_variable(x_negate)?;
+        // range check so that p - x does not wrap around
+        let num_range_blocks = self.num_range_blocks_for(p)?;
+        self.range_gate_with_lookup(x_neg_var, range_bit_len * num_range_blocks)?;
 
         let wires = [x_var, x_neg_var, self.one(), self.zero(), self.zero()];
         let coeffs = [F::one(), F::one(), -*p, F::zero()];
-- 
2.43.0


From 85415fa25957d4424c9b635591c17625f644f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 33/41] fix: include the incoming carry in emulated additions

The carry out of a limb ignored the carry into it, so sums with a limb
of all ones could not be satisfied.
---
 relation/src/gadgets/emulated.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index 10486ba..dea1bb0 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -449,8 +449,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether a + b = add_no_mod_limbs
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, &b.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + self.witness(*b)?) / &b_pow);
+            let sum = self.witness(*a)? + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -465,8 +465,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(modulus_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let sum = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -532,8 +532,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether a + b = add_no_mod_limbs
         let mut carry_out = self.zero();
         for (a, b, c) in izip!(&a.0, b_limbs, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(self.witness(*a)? + b) / &b_pow);
+            let sum = self.witness(*a)? + b + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
@@ -548,8 +548,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
         for (a, b, c) in izip!(q_limbs, &c.0, &add_no_mod_limbs) {
-            let next_carry_out =
-                F::from(<F as Into<BigUint>>::into(a * F::from(k) + self.witness(*b)?) / &b_pow);
+            let sum = a * F::from(k) + self.witness(*b)? + self.witness(carry_out)?;
+            let next_carry_out = F::from(<F as Into<BigUint>>::into(sum) / &b_pow);
             let next_carry_out = self.create_variable(next_carry_out)?;
             self.enforce_bool(next_carry_out)?;
 
-- 
2.43.0


From 24329cd55dd67975a64428cf874b7dcd07c25be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 34/41] fix: reject a carry out of the last limb in emulated
 additions

A carry lost at the top let a prover add the modulus to the sum of a
smaller number and wrap it around the limbs.
---
 relation/src/gadgets/emulated.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index dea1bb0..5eb0b37 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -461,6 +461,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * E::MODULUS + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -475,7 +476,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
-        Ok(())
+        self.enforce_constant(carry_out, F::zero())
     }
 
     /// Return an [`EmulatedVariable`] which equals to a+b.
@@ -544,6 +545,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
             self.enforce_in_range(*c, E::B)?;
         }
+        self.enforce_constant(carry_out, F::zero())?;
 
         // Checking whether k * q + c = add_no_mod_limbs
         carry_out = self.zero();
@@ -558,7 +560,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
             self.lc_gate(&wires, &coeffs)?;
             carry_out = next_carry_out;
         }
-        Ok(())
+        self.enforce_constant(carry_out, F::zero())
     }
 
     /// Return an [`EmulatedVariable`] which equals to a + b where b is a
-- 
2.43.0


From 4edebb0bf014733584a0d7ba55659a707c948605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:02 +0000
Subject: [PATCH 35/41] fix: keep emulated variables below the modulus up to
 the leading limb

Products of emulated elements are checked modulo 2^T * p, which is only just
above the square of the emulated modulus. The quotient and the result were
only known to fit their limbs, so a prover could add a multiple of 2^T * p
and have a wrong product accepted.
---
 relation/src/gadgets/emulated.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/relation/src/gadgets/emulated.rs b/relation/src/gadgets/emulated.rs
index 5eb0b37..9f8ccd8 100644
--- a/relation/src/gadgets/emulated.rs
+++ b/relation/src/gadgets/emulated.rs
@@ -107,8 +107,24 @@ impl<F: PrimeField> PlonkCircuit<F> {
         val: E,
     ) -> Result<EmulatedVariable<E>, CircuitError> {
         let var = self.create_emulated_variable_unchecked(val)?;
-        for &v in &var.0 {
-            self.enforce_in_range(v, E::B)?;
+        let modulus_bits = E::MODULUS_BIT_SIZE as usize;
+        for (i, &v) in var.0.iter().enumerate() {
+            let bit_len = E::B.min(modulus_bits.saturating_sub(i * E::B));
+            if bit_len == 0 {
+                self.enforce_constant(v, F::zero())?;
+                continue;
+            }
+            self.enforce_in_range(v, bit_len)?;
+            if modulus_bits <= (i + 1) * E::B {
+                // The leading limb must not exceed that of the modulus: products are only
+                // checked modulo 2^T * p, which is just above the square of the modulus.
+                let top = F::from(E::MODULUS.into() >> (i * E::B));
+                let gap = self.lc(
+                    &[v, self.one(), self.zero(), self.zero()],
+                    &[-F::one(), top, F::zero(), F::zero()],
+                )?;
+                self.enforce_in_range(gap, bit_len)?;
+            }
         }
         Ok(var)
     }
-- 
2.43.0


From cfeeb826f052dc3bbe0e6e6d09ba87d8ab263fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:27 +0000
Subject: [PATCH 36/41] fix: range check the halves of modular sums and
 verifier challenges

Results of modular additions and negations, and the challenges of the
verifier circuit, were split into two halves without bounding either.
A prover could pick halves of any size that add up to the same value and
so pass a wrong product of a later modular multiplication.
---
 plonk/src/circuit/plonk_verifier/structs.rs  | 12 +++++-----
 relation/src/gadgets/ultraplonk/mod_arith.rs | 23 ++++++++++++++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/plonk/src/circuit/plonk_verifier/structs.rs b/plonk/src/circuit/plonk_verifier/structs.rs
index 19eea3d..6c81711 100644
--- a/plonk/src/circuit/plonk_verifier/structs.rs
+++ b/plonk/src/circuit/plonk_verifier/structs.rs
@@ -41,7 +41,7 @@ pub(crate) fn challenge_var_to_fp_elem_var<F: PrimeField>(
     challenge_var: &ChallengesVar,
     non_native_field_info: &NonNativeFieldInfo<F>,
 ) -> Result<ChallengesFpElemVar<F>, CircuitError> {
-    let alpha_fp_elem_var = FpElemVar::new_unchecked(
+    let alpha_fp_elem_var = FpElemVar::new_from_var(
         circuit,
         challenge_var.alpha,
         non_native_field_info.m,
@@ -60,31 +60,31 @@ pub(crate) fn challenge_var_to_fp_elem_var<F: PrimeField>(
 
     Ok(ChallengesFpElemVar {
         alphas: [alpha_fp_elem_var, alpha_2_fp_elem_var, alpha_3_fp_elem_var],
-        beta: FpElemVar::new_unchecked(
+        beta: FpElemVar::new_from_var(
             circuit,
             challenge_var.beta,
             non_native_field_info.m,
             non_native_field_info.two_power_m,
         )?,
-        gamma: FpElemVar::new_unchecked(
+        gamma: FpElemVar::new_from_var(
             circuit,
             challenge_var.gamma,
             non_native_field_info.m,
             non_native_field_info.two_power_m,
         )?,
-        zeta: FpElemVar::new_unchecked(
+        zeta: FpElemVar::new_from_var(
             circuit,
             challenge_var.zeta,
             non_native_field_info.m,
             non_native_field_info.two_power_m,
         )?,
-        u: FpElemVar::new_unchecked(
+        u: FpElemVar::new_from_var(
             circuit,
             challenge_var.u,
             non_native_field_info.m,
             non_native_field_info.two_power_m,
         )?,
-        v: FpElemVar::new_unchecked(
+        v: FpElemVar::new_from_var(
             circuit,
             challenge_var.v,
             non_native_field_info.m,
diff --git a/relation/src/gadgets/ultraplonk/mod_arith.rs b/relation/src/gadgets/ultraplonk/mod_arith.rs
index 5702a6e..7721be4 100644
--- a/relation/src/gadgets/ultraplonk/mod_arith.rs
+++ b/relation/src/gadgets/ultraplonk/mod_arith.rs
@@ -121,6 +121,21 @@ impl<F: PrimeField> FpElemVar<F> {
         })
     }
 
+    /// Create an FpElemVar from Fp element variable `var` and split parameter
+    /// `m`, with range checks on the resulting variables.
+    /// requires lookup table.
+    pub fn new_from_var(
+        cs: &mut PlonkCircuit<F>,
+        var: Variable,
+        m: usize,
+        two_power_m: Option<F>,
+    ) -> Result<Self, CircuitError> {
+        let fp_elem_var = Self::new_unchecked(cs, var, m, two_power_m)?;
+        cs.range_gate_with_lookup(fp_elem_var.vars.0, m)?;
+        cs.range_gate_with_lookup(fp_elem_var.vars.1, m)?;
+        Ok(fp_elem_var)
+    }
+
     /// Convert into a single variable with value `witness[vars.0] + 2^m *
     /// witness[vars.1]`
     pub fn convert_to_var(&self, cs: &mut PlonkCircuit<F>) -> Result<Variable, CircuitError> {
@@ -347,7 +362,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let num_range_blocks = self.num_range_blocks_for(&p.field_elem())?;
         let res = self.mod_add_internal(&[x_var, y_var], p.field_elem(), num_range_blocks)?;
 
-        FpElemVar::new_unchecked(self, res, x.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, res, x.m, Some(p.two_power_m))
     }
 
     /// Modular addition gate:
@@ -437,7 +452,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         self.quad_poly_gate(&wires, &q_lc, &q_mul, q_o, q_c)?;
 
-        FpElemVar::new_unchecked(self, remainder_var, x.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, remainder_var, x.m, Some(p.two_power_m))
     }
 
     /// Modular addition gate:
@@ -479,7 +494,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
         let num_range_blocks = self.num_range_blocks_for(&p.field_elem())?;
         let res = self.mod_add_internal(x_vars.as_ref(), p.field_elem(), num_range_blocks)?;
 
-        FpElemVar::new_unchecked(self, res, p.m, Some(p.two_power_m))
+        FpElemVar::new_from_var(self, res, p.m, Some(p.two_power_m))
     }
 
     /// Modular multiplication gate:
@@ -872,7 +887,7 @@ impl<F: PrimeField> PlonkCircuit<F> {
 
         self.lc_gate(&wires, &coeffs)?;
 
-        FpElemVar::new_unchecked(self, x_neg_var, x.m, Some(x.two_power_m))
+        FpElemVar::new_from_var(self, x_neg_var, x.m, Some(x.two_power_m))
     }
 }
 
-- 
2.43.0


From ff853d8f68e34b1e602e7326982a023ea1ec84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:37 +0000
Subject: [PATCH 37/41] fix: reject non-canonical bits when unpacking to more
 bits than the field has

Unpacking to more bits than the size of the modulus skipped the check for
canonical bits, so the bits of the value plus the modulus were also accepted.
---
 relation/src/gadgets/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation/src/gadgets/range.rs b/relation/src/gadgets/range.rs
index 633798e..ce34809 100644
--- a/relation/src/gadgets/range.rs
+++ b/relation/src/gadgets/range.rs
@@ -131,11 +131,11 @@ impl<F: PrimeField> PlonkCircuit<F> {
             })
             .collect::<Result<Vec<_>, CircuitError>>()?;
 
-        // edge case: when decomposing a field to exactly MODULUS_BIT_SIZE,
+        // edge case: when decomposing a field to MODULUS_BIT_SIZE or more bits,
         // and when MODULUS < 2^MODULUS_BIT_SIZE (e.g. p=17, log2(p) = 5), then we need
         // to rule out non-canonical representation of field elements (e.g.
         // avoid bit-wise 18 to represent 1 mod 17) by making sure its always < MODULUS
-        if bit_len == F::MODULUS_BIT_SIZE as usize {
+        if bit_len >= F::MODULUS_BIT_SIZE as usize {
             self.binary_decomposition_gate_with_canonical_check(a_bits_le.clone(), a)?;
         } else {
             self.binary_decomposition_gate(a_bits_le.clone(), a)?;
-- 
2.43.0


From 6f1ec4eb003de0624dd8a0920833d1caa7b6ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:37 +0000
Subject: [PATCH 38/41] fix: make truncation unambiguous

The halves of a truncated value were only bounded by the bit length of the
modulus, so the value plus the modulus could be truncated instead. The bits
are now those of the canonical representation. A wrong claim larger than the
value no longer panics.
---
 relation/src/gadgets/arithmetic.rs | 130 ++---------------------------
 1 file changed, 6 insertions(+), 124 deletions(-)

diff --git a/relation/src/gadgets/arithmetic.rs b/relation/src/gadgets/arithmetic.rs
index 8ce3c99..08565cf 100644
--- a/relation/src/gadgets/arithmetic.rs
+++ b/relation/src/gadgets/arithmetic.rs
@@ -356,10 +356,8 @@ impl<F: PrimeField> PlonkCircuit<F> {
         self.check_var_bound(a)?;
         self.check_var_bound(b)?;
 
-        let a_val = self.witness(a)?;
         let b_val = self.witness(b)?;
         let modulus = F::from(2u8).pow([bit_length as u64]);
-        let modulus_uint: BigUint = modulus.into();
 
         if b_val >= modulus {
             return Err(CircuitError::ParameterError(
@@ -374,128 +372,12 @@ impl<F: PrimeField> PlonkCircuit<F> {
             ));
         }
 
-        let bit_length_non_lookup_range = bit_length % self.range_bit_len()?;
-        let bit_length_lookup_component = bit_length - bit_length_non_lookup_range;
-
-        // we need to show that a and b satisfy the following
-        // relationship:
-        // (1) b = a mod modulus
-        // where
-        // * a is native_field_bit_length bits
-        // * b is bit_length bits
-        //
-        // which is
-        // (2) a = b + z * modulus
-        // for some z, where
-        // * z < 2^(native_field_bit_length - bit_length)
-        //
-        // So we set delta_length = native_field_bit_length - bit_length
-
-        let delta_length = native_field_bit_length - bit_length;
-        let delta_length_non_lookup_range = delta_length % self.range_bit_len()?;
-        let delta_length_lookup_component = delta_length - delta_length_non_lookup_range;
-
-        // Now (2) becomes
-        // (3) a = b1 + b2 * 2^bit_length_lookup_component
-        //       + modulus * (z1 + 2^delta_length_lookup_component * z2)
-        // with
-        //   b1 < 2^bit_length_lookup_component
-        //   b2 < 2^bit_length_non_lookup_range
-        //   z1 < 2^delta_length_lookup_component
-        //   z2 < 2^delta_length_non_lookup_range
-
-        // The concrete statements we need to prove becomes
-        // (4) b = b1 + b2 * 2^bit_length_lookup_component
-        // (5) a = b + modulus * z1
-        //       + modulus * 2^delta_length_lookup_component * z2
-        // (6) b1 < 2^bit_length_lookup_component
-        // (7) b2 < 2^bit_length_non_lookup_range
-        // (8) z1 < 2^delta_length_lookup_component
-        // (9) z2 < 2^delta_length_non_lookup_range
-
-        // step 1. setup the constants
-        let two_to_bit_length_lookup_component =
-            F::from(2u8).pow([bit_length_lookup_component as u64]);
-        let two_to_bit_length_lookup_component_uint: BigUint =
-            two_to_bit_length_lookup_component.into();
-
-        let two_to_delta_length_lookup_component =
-            F::from(2u8).pow([delta_length_lookup_component as u64]);
-        let two_to_delta_length_lookup_component_uint: BigUint =
-            two_to_delta_length_lookup_component.into();
-
-        let modulus_mul_two_to_delta_length_lookup_component_uint =
-            &two_to_delta_length_lookup_component_uint * &modulus_uint;
-        let modulus_mul_two_to_delta_length_lookup_component =
-            F::from(modulus_mul_two_to_delta_length_lookup_component_uint);
-
-        // step 2. get the intermediate data in the clear
-        let a_uint: BigUint = a_val.into();
-        let b_uint: BigUint = b_val.into();
-        let b1_uint = &b_uint % &two_to_bit_length_lookup_component_uint;
-        let b2_uint = &b_uint / &two_to_bit_length_lookup_component_uint;
-
-        let z_uint = (&a_uint - &b_uint) / &modulus_uint;
-        let z1_uint = &z_uint % &two_to_delta_length_lookup_component_uint;
-        let z2_uint = &z_uint / &two_to_delta_length_lookup_component_uint;
-
-        // step 3. create intermediate variables
-        let b1_var = self.create_variable(F::from(b1_uint))?;
-        let b2_var = self.create_variable(F::from(b2_uint))?;
-        let z1_var = self.create_variable(F::from(z1_uint))?;
-        let z2_var = self.create_variable(F::from(z2_uint))?;
-
-        // step 4. prove equations (4) - (9)
-        // (4) b = b1 + b2 * 2^bit_length_lookup_component
-        let wires = [b1_var, b2_var, self.zero(), self.zero(), b];
-        let coeffs = [
-            F::one(),
-            two_to_bit_length_lookup_component,
-            F::zero(),
-            F::zero(),
-        ];
-        self.lc_gate(&wires, &coeffs)?;
-
-        // (5) a = b + modulus * z1
-        //       + modulus * 2^delta_length_lookup_component * z2
-        let wires = [b, z1_var, z2_var, self.zero(), a];
-        let coeffs = [
-            F::one(),
-            modulus,
-            modulus_mul_two_to_delta_length_lookup_component,
-            F::zero(),
-        ];
-        self.lc_gate(&wires, &coeffs)?;
-
-        // (6) b1 < 2^bit_length_lookup_component
-        // note that bit_length_lookup_component is public information
-        // so we don't need to add a selection gate here
-        if bit_length_lookup_component != 0 {
-            self.range_gate_with_lookup(b1_var, bit_length_lookup_component)?;
-        }
-
-        // (7) b2 < 2^bit_length_non_lookup_range
-        // note that bit_length_non_lookup_range is public information
-        // so we don't need to add a selection gate here
-        if bit_length_non_lookup_range != 0 {
-            self.enforce_in_range(b2_var, bit_length_non_lookup_range)?;
-        }
-
-        // (8) z1 < 2^delta_length_lookup_component
-        // note that delta_length_lookup_component is public information
-        // so we don't need to add a selection gate here
-        if delta_length_lookup_component != 0 {
-            self.range_gate_with_lookup(z1_var, delta_length_lookup_component)?;
-        }
-
-        // (9) z2 < 2^delta_length_non_lookup_range
-        // note that delta_length_non_lookup_range is public information
-        // so we don't need to add a selection gate here
-        if delta_length_non_lookup_range != 0 {
-            self.enforce_in_range(z2_var, delta_length_non_lookup_range)?;
-        }
-
-        Ok(())
+        // The bits are those of the canonical representation of `a`, so there is
+        // only one value of `b` that satisfies the circuit: `a` plus the field's
+        // order may also fit in `native_field_bit_length` bits.
+        let a_bits_le = self.unpack(a, native_field_bit_length)?;
+        let b_bits_le: Vec<Variable> = a_bits_le[..bit_length].iter().map(|&x| x.into()).collect();
+        self.decomposition_gate(b_bits_le, b, F::from(2u8))
     }
 }
 
-- 
2.43.0


From 9dfed4b96942bff4ec1725f6585cab761ef39f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:22 +0000
Subject: [PATCH 39/41] fix: keep the last window of scalars within their
 length

The windows of a scalar could spell the scalar plus the order of the
circuit's field, so a multiplication by another scalar was accepted.
---
 relation/src/gadgets/ecc/msm.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/relation/src/gadgets/ecc/msm.rs b/relation/src/gadgets/ecc/msm.rs
index a21a1b6..d497e52 100644
--- a/relation/src/gadgets/ecc/msm.rs
+++ b/relation/src/gadgets/ecc/msm.rs
@@ -316,6 +316,21 @@ fn decompose_scalar_var<F>(
 where
     F: PrimeField,
 {
+    if scalar_bit_length >= F::MODULUS_BIT_SIZE as usize {
+        // the windows have room for `s` plus the modulus: take the canonical bits
+        let zero = circuit.zero();
+        let coeffs = [F::from(2u64), F::one(), F::zero(), F::zero()];
+        return circuit
+            .unpack(scalar_var, scalar_bit_length)?
+            .chunks(c)
+            .map(|window| {
+                window.iter().rev().try_fold(zero, |acc, &bit| {
+                    circuit.lc(&[acc, bit.into(), zero, zero], &coeffs)
+                })
+            })
+            .collect();
+    }
+
     // create witness
     let m = (scalar_bit_length - 1) / c + 1;
     let mut scalar_val = circuit.witness(scalar_var)?.into_bigint();
@@ -333,6 +348,11 @@ where
     // create circuit
     let range_size = F::from((1 << c) as u32);
     circuit.decomposition_gate(decomposed_scalar_vars.clone(), scalar_var, range_size)?;
+    // the last window may be shorter, `s` could wrap around the modulus otherwise
+    let leftover = scalar_bit_length - (m - 1) * c;
+    if leftover < c {
+        circuit.enforce_in_range(decomposed_scalar_vars[m - 1], leftover)?;
+    }
 
     Ok(decomposed_scalar_vars)
 }
-- 
2.43.0


From 5d1c68aa6fab368c48c69b8513ab68d7f415a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:40 +0000
Subject: [PATCH 40/41] fix: map the neutral point by the endomorphism

Multiplying the neutral point panicked on a division by zero while the
circuit was built.
---
 relation/src/gadgets/ecc/glv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relation/src/gadgets/ecc/glv.rs b/relation/src/gadgets/ecc/glv.rs
index 686201e..c4724c9 100644
--- a/relation/src/gadgets/ecc/glv.rs
+++ b/relation/src/gadgets/ecc/glv.rs
@@ -134,6 +134,10 @@ where
 {
     let x = base.get_x();
     let y = base.get_y();
+    if x.is_zero() {
+        // the map below is not defined at the neutral point
+        return Projective::<P>::zero().into_affine().into();
+    }
     let b = F::from_le_bytes_mod_order(COEFF_B.as_ref());
     let c = F::from_le_bytes_mod_order(COEFF_C.as_ref());
 
@@ -196,6 +200,8 @@ where
     circuit.mul_gate(endo_point_var.get_x(), xy_var, f_y_var)?;
     // res_y = g(y) / h(y)
     circuit.mul_gate(endo_point_var.get_y(), h_y_var, g_y_var)?;
+    // res_x is not determined yet if point_var is neutral
+    circuit.enforce_on_curve::<P>(&endo_point_var)?;
 
     Ok(endo_point_var)
 }
-- 
2.43.0


From 77d62c168790028b36e334baf12469b69b114c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:40 +0000
Subject: [PATCH 41/41] fix: make the endomorphism's scalar decomposition sound
 and complete

The quotient was not bounded, so decompositions of other scalars were
accepted.  A middle term could be negative, so about one honest scalar in
fifty of small size was refused.
---
 relation/src/gadgets/ecc/glv.rs | 337 ++++++++------------------------
 1 file changed, 77 insertions(+), 260 deletions(-)

diff --git a/relation/src/gadgets/ecc/glv.rs b/relation/src/gadgets/ecc/glv.rs
index c4724c9..be0f735 100644
--- a/relation/src/gadgets/ecc/glv.rs
+++ b/relation/src/gadgets/ecc/glv.rs
@@ -12,7 +12,8 @@ use ark_ec::{
     twisted_edwards::{Projective, TECurveConfig},
     CurveGroup,
 };
-use ark_ff::{PrimeField, Zero};
+use ark_ff::{BigInteger, PrimeField, Zero};
+use ark_std::{string::ToString, vec::Vec};
 use jf_utils::field_switching;
 use num_bigint::{BigInt, BigUint};
 
@@ -35,29 +36,6 @@ const LAMBDA: [u8; 32] = [
     5, 223, 131, 135, 64, 33, 61, 209, 110, 5, 165, 112, 185, 157, 196, 207, 43, 199, 56, 43, 86,
     73, 248, 237, 147, 164, 57, 74, 220, 243, 180, 19,
 ];
-/// Lower bits of Lambda, s.t. LAMBDA = LAMBDA_1 + 2^128 LAMBDA_2
-const LAMBDA_1: [u8; 32] = [
-    5, 223, 131, 135, 64, 33, 61, 209, 110, 5, 165, 112, 185, 157, 196, 207, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 0, 0, 0, 0, 0, 0, 0,
-];
-/// Higher bits of Lambda, s.t.
-// LAMBDA = LAMBDA_1 + 2^128 LAMBDA_2
-const LAMBDA_2: [u8; 32] = [
-    43, 199, 56, 43, 86, 73, 248, 237, 147, 164, 57, 74, 220, 243, 180, 19, 0, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 0, 0, 0, 0, 0, 0,
-];
-/// Lower bits of r, s.t. r = r1 +
-// 2^128 r2
-const R1: [u8; 32] = [
-    225, 231, 118, 40, 181, 6, 253, 116, 113, 4, 25, 116, 0, 135, 143, 255, 0, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 0, 0, 0, 0, 0, 0,
-];
-/// Higher bits of r, s.t. r = r1
-// + 2^128 r2
-const R2: [u8; 32] = [
-    0, 118, 104, 2, 2, 118, 206, 12, 82, 95, 103, 202, 212, 105, 251, 28, 0, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 0, 0, 0, 0, 0, 0,
-];
 
 const COEFF_N11: [u8; 32] = [
     31, 24, 137, 151, 74, 249, 2, 75, 142, 146, 230, 75, 0, 226, 95, 85, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -282,278 +260,117 @@ where
     // r = 13108968793781547619861935127046491459309155893440570251786403306729687672801 < 2^253
     // q = 52435875175126190479447740508185965837690552500527637822603658699938581184513 < 2^255
 
-    // for an input scalar s,
+    // for an input scalar s < 2^253,
     // we need to prove the following statement over ZZ
     //
-    // (0) lambda * k2_sign * k2 + s = t * Fr::modulus + k1
+    // (0) lambda * k + s = t * Fr::modulus + k1, where k = k2_sign * k2
     //
     // for some t, where
-    // * t < (k2 + 1) < 2^128
-    // * k1, k2 < sqrt{2r} < 2^128
-    // * lambda, s, modulus are ~253 bits
+    // * k1, k2 < 2^128
+    // * -2^127 <= t < 2^127
     //
-    // which becomes
-    // (1) lambda_1 * k2_sign * k2 + 2^128 lambda_2 * k2_sign * k2 + s
-    //        - t * r1 - t *2^128 r2 - k1 = 0
-    // where
-    // (2) lambda = lambda_1 + 2^128 lambda_2   <- public info
-    // (3) Fr::modulus = r1 + 2^128 r2          <- public info
-    // with
-    //  lambda_1 and r1 < 2^128
-    //  lambda_2 and r2 < 2^125
+    // Both sides exceed q, so we write lambda and Fr::modulus in limbs of 88 bits
+    // and prove
+    // (1) lambda_0 * k + s - t * r_0 - k1 = 2^88 * c_0
+    // (2) lambda_1 * k     - t * r_1 + c_0 = 2^88 * c_1
+    // (3) lambda_2 * k     - t * r_2 + c_1 = 0
+    // for some carries c_0 and c_1, where
+    // * -2^131 <= c_0 < 2^166 - 2^131
+    // * -2^131 <= c_1 < 2^131
     //
-    // reorganizing (1) gives us
-    // (4)          lambda_1 * k2_sign * k2 + s - t * r1 - k1
-    //     + 2^128 (lambda_2 * k2_sign * k2 - t * r2)
-    //     = 0
-    //
-    // Now set
-    // (5) tmp = lambda_1 * k2_sign * k2 + s - t * r1 - k1
-    // with
-    // (6) tmp = tmp1 + 2^128 tmp2
-    // for tmp1 < 2^128 and tmp2 < 2^128
-    //
-    // that is
-    // tmp1 will be the lower 128 bits of
-    //     lambda * k2_sign * k2 + s - t * Fr::modulus + k1
-    // which will be 0 due to (0).
-    // (7) tmp1 =  (lambda_1 * k2_sign * k2 + s - t * r1 - k1) % 2^128 = 0
-    // note that t * r1 < 2^254
-    //
-    // i.e. tmp2 will be the carrier overflowing 2^128,
-    // and on the 2^128 term, we have
-    // (8) tmp2 + lambda_2 * k2_sign * k2 - t * r2 = 0
-    // also due to (0).
-    //
-    // the concrete statements that we need to prove (0) are
-    //  (a) k1 < 2^128
-    //  (b) k2 < 2^128
-    //  (c) tmp1 = 0
-    //  (d) tmp2 < 2^128
-    //  (e) tmp = tmp1 + 2^128 tmp2
-    //  (f) tmp =  lambda_1 * k2_sign * k2 + s - t * r1 - k1
-    //  (g) tmp2 + lambda_2 * k2_sign * k2   = t * r2
-    // which can all be evaluated over Fq without overflow
+    // Within these bounds the two sides of each equation differ by less than q, so
+    // that the equations hold over ZZ if they hold over Fq; together they give (0).
 
     // ============================================
     // step 1: build integers
     // ============================================
-    // 2^128
-    let two_to_128 = BigInt::from(2u64).pow(128);
-
     // s
     let s = circuit.witness(*s_var)?;
     let s_int = fq_to_big_int!(s);
     let s_fr = field_switching::<_, S>(&s);
 
-    // lambda = lambda_1 + 2^128 lambda_2
-    let lambda = F::from_le_bytes_mod_order(LAMBDA.as_ref());
-    let lambda_1 = F::from_le_bytes_mod_order(LAMBDA_1.as_ref());
-
-    let lambda_int = fq_to_big_int!(lambda);
-    let lambda_1_int = fq_to_big_int!(lambda_1);
-    let lambda_2 = F::from_le_bytes_mod_order(LAMBDA_2.as_ref());
-
     // s = k1 - lambda * k2 * k2_sign
     let (k1, k2, is_k2_positive) = scalar_decomposition(&s_fr);
     let k1_int = fq_to_big_int!(k1);
     let k2_int = fq_to_big_int!(k2);
-    let k2_sign = if is_k2_positive {
-        BigInt::from(1)
+    let k_int = if is_k2_positive {
+        k2_int.clone()
     } else {
-        BigInt::from(-1)
+        -k2_int.clone()
     };
-    let k2_with_sign = &k2_int * &k2_sign;
 
-    // fr_order = r1 + 2^128 r2
+    // t = (lambda * k2 * k2_sign + s - k1) / fr_order
+    let lambda_int = BigInt::from(BigUint::from_bytes_le(&LAMBDA));
     let fr_order_uint: BigUint = S::MODULUS.into();
-    let fr_order_int: BigInt = fr_order_uint.into();
-    let r1 = F::from_le_bytes_mod_order(R1.as_ref());
-    let r1_int = fq_to_big_int!(r1);
-    let r2 = F::from_le_bytes_mod_order(R2.as_ref());
-
-    // t * t_sign = (lambda * k2 * k2_sign + s - k1) / fr_order
-    let mut t_int = (&lambda_int * &k2_with_sign + &s_int - &k1_int) / &fr_order_int;
-    let t_int_sign = if t_int < BigInt::zero() {
-        t_int = -t_int;
-        BigInt::from(-1)
-    } else {
-        BigInt::from(1)
-    };
-    let t_int_with_sign = &t_int * &t_int_sign;
-
-    // tmp = tmp1 + 2^128 tmp2 =  lambda_1 * k2 * k2_sign + s - t * t_sign * r1 - k1
-    let tmp_int = &lambda_1_int * &k2_with_sign + &s_int - &t_int_with_sign * &r1_int - &k1_int;
-    let tmp2_int = &tmp_int / &two_to_128;
-
-    #[cfg(test)]
-    {
-        use ark_ff::BigInteger;
-
-        let fq_uint: BigUint = F::MODULUS.into();
-        let fq_int: BigInt = fq_uint.into();
-
-        let tmp1_int = &tmp_int % &two_to_128;
-
-        let lambda_2_int = fq_to_big_int!(lambda_2);
-        let r2_int = fq_to_big_int!(r2);
-        // sanity checks
-        // equation (0): lambda * k2_sign * k2 + s = t * t_sign * Fr::modulus + k1
-        assert_eq!(
-            &s_int + &lambda_int * &k2_with_sign,
-            &k1_int + &t_int_with_sign * &fr_order_int
-        );
-
-        // equation (4)
-        //              lambda_1 * k2_sign * k2 + s - t * t_sign * r1 - k1
-        //     + 2^128 (lambda_2 * k2_sign * k2 - t * r2)
-        //     = 0
-        assert_eq!(
-            &lambda_1_int * &k2_with_sign + &s_int - &t_int_with_sign * &r1_int - &k1_int
-                + &two_to_128 * (&lambda_2_int * &k2_with_sign - &t_int_with_sign * &r2_int),
-            BigInt::zero()
-        );
-
-        //  (a) k1 < 2^128
-        //  (b) k2 < 2^128
-        let k1_bits = get_bits(&k1.into_bigint().to_bits_le());
-        let k2_bits = get_bits(&k1.into_bigint().to_bits_le());
-
-        assert!(k1_bits < 128, "k1 bits {}", k1_bits);
-        assert!(k2_bits < 128, "k2 bits {}", k1_bits);
-
-        //  (c) tmp1 = 0
-        //  (d) tmp2 < 2^128
-        //  (e) tmp = tmp1 + 2^128 tmp2
-        assert!(tmp1_int == BigInt::from(0));
-        let tmp2_fq = F::from_le_bytes_mod_order(&tmp2_int.to_bytes_le().1);
-        let tmp2_bits = get_bits(&tmp2_fq.into_bigint().to_bits_le());
-        assert!(tmp1_int == BigInt::from(0));
-        assert!(tmp2_bits < 128, "tmp2 bits {}", tmp2_bits);
-
-        // equation (f): tmp1 + 2^128 tmp2 =  lambda_1 * k2_sign * k2 + s - t * t_sign *
-        // r1 - k1
-        assert_eq!(
-            &tmp1_int + &two_to_128 * &tmp2_int,
-            &lambda_1_int * &k2_with_sign + &s_int - &t_int_with_sign * &r1_int - &k1_int
-        );
-        assert!(&tmp_int + &t_int_with_sign * &r1_int + &k1_int < fq_int);
-
-        assert!(&lambda_1_int * &k2_int + &s_int < fq_int);
-
-        // equation (g) tmp2 + lambda_2 * k2_sign * k2 + s2  = t * t_sign * r2
-        assert_eq!(
-            &tmp2_int + &lambda_2_int * &k2_with_sign,
-            &t_int_with_sign * &r2_int
-        );
-
-        // all intermediate data are positive
-        assert!(k1_int >= BigInt::zero());
-        assert!(k2_int >= BigInt::zero());
-        assert!(t_int >= BigInt::zero());
-        assert!(tmp_int >= BigInt::zero());
-        assert!(tmp2_int >= BigInt::zero());
-
-        // t and k2 has a same sign
-        assert_eq!(t_int_sign, k2_sign);
-    }
+    let t_int = (lambda_int * k_int + s_int - &k1_int) / BigInt::from(fr_order_uint);
 
     // ============================================
     // step 2. build the variables
     // ============================================
-    let two_to_128 = F::from(BigUint::from(2u64).pow(128));
-
     let k1_var = circuit.create_variable(int_to_fq!(k1_int))?;
     let k2_var = circuit.create_variable(int_to_fq!(k2_int))?;
     let k2_sign_var = circuit.create_boolean_variable(is_k2_positive)?;
-
-    let t_var = circuit.create_variable(int_to_fq!(t_int))?;
-
-    let tmp_var = circuit.create_variable(int_to_fq!(tmp_int))?;
-
-    let tmp2_var = circuit.create_variable(int_to_fq!(tmp2_int))?;
+    let t = if t_int < BigInt::zero() {
+        -int_to_fq!(t_int)
+    } else {
+        int_to_fq!(t_int)
+    };
+    let t_var = circuit.create_variable(t)?;
 
     // ============================================
-    // step 3. range proofs
+    // step 3. equality proofs
     // ============================================
-    //  (a) k1 < 2^128
-    //  (b) k2 < 2^128
-    circuit.enforce_in_range(k1_var, 128)?;
-    circuit.enforce_in_range(k2_var, 128)?;
-
-    //  (c) tmp1 = 0        <- implied by tmp = 2^128 * tmp2
-    //  (d) tmp2 < 2^128
-    //  (e) tmp = tmp1 + 2^128 tmp2
-    circuit.mul_constant_gate(tmp2_var, two_to_128, tmp_var)?;
-    circuit.enforce_in_range(tmp2_var, 128)?;
+    let zero_var = circuit.zero();
+    let two_to = |n: u64| F::from(2u64).pow([n]);
+    let limb_inv = two_to(88).inverse().ok_or(CircuitError::FieldAlgebraError(
+        "2^88 has no inverse".to_string(),
+    ))?;
+    let limbs = |bytes: &[u8]| -> Vec<F> {
+        bytes
+            .chunks(11)
+            .map(|limb| F::from_le_bytes_mod_order(limb))
+            .collect()
+    };
+    let lambda = limbs(&LAMBDA);
+    let r = limbs(&S::MODULUS.to_bytes_le());
+
+    // k = (2 * k2_sign - 1) * k2
+    let k_var = circuit.gen_quad_poly(
+        &[k2_var, k2_sign_var.into(), zero_var, zero_var],
+        &[-F::one(), F::zero(), F::zero(), F::zero()],
+        &[F::from(2u64), F::zero()],
+        F::zero(),
+    )?;
+    // (1)
+    let c_0_var = circuit.lc(
+        &[k_var, *s_var, t_var, k1_var],
+        &[lambda[0] * limb_inv, limb_inv, -r[0] * limb_inv, -limb_inv],
+    )?;
+    // (2)
+    let c_1_var = circuit.lc(
+        &[k_var, t_var, c_0_var, zero_var],
+        &[lambda[1] * limb_inv, -r[1] * limb_inv, limb_inv, F::zero()],
+    )?;
+    // (3)
+    circuit.lc_gate(
+        &[k_var, t_var, c_1_var, zero_var, zero_var],
+        &[lambda[2], -r[2], F::one(), F::zero()],
+    )?;
 
     // ============================================
-    // step 4. equality proofs
+    // step 4. range proofs
     // ============================================
-    //  (f) tmp + t * k2_sign * r1 + k1 =  lambda_1 * k2_sign * k2 + s
-    //  (note that we cannot do subtraction because subtraction is over Fq)
-    let k2_is_pos_sat = {
-        //  (f.1) if k2_sign = 1, then, we prove over Z
-        //      tmp + t * r1 + k1 =  lambda_1 * k2 + s
-        let left_wire = [tmp_var, t_var, k1_var, circuit.zero()];
-        let left_coeff = [F::one(), r1, F::one(), F::zero()];
-        let left_var = circuit.lc(&left_wire, &left_coeff)?;
-
-        let right_wire = [k2_var, *s_var, circuit.zero(), circuit.zero()];
-        let right_coeff = [lambda_1, F::one(), F::zero(), F::zero()];
-        let right_var = circuit.lc(&right_wire, &right_coeff)?;
-
-        circuit.is_equal(left_var, right_var)?
-    };
-
-    let k2_is_neg_sat = {
-        //  (f.2) if k2_sign = -1, then, we prove over Z
-        //    lambda_1 * k2 +  tmp + k1 =   s  + t * r1
-        let left_wire = [k2_var, tmp_var, k1_var, circuit.zero()];
-        let left_coeff = [lambda_1, F::one(), F::one(), F::zero()];
-        let left_var = circuit.lc(&left_wire, &left_coeff)?;
-
-        let right_wire = [*s_var, t_var, circuit.zero(), circuit.zero()];
-        let right_coeff = [F::one(), r1, F::zero(), F::zero()];
-        let right_var = circuit.lc(&right_wire, &right_coeff)?;
-        circuit.is_equal(left_var, right_var)?
-    };
-
-    //  (f.3) either f.1 or f.2 is satisfied
-    let sat =
-        circuit.conditional_select(k2_sign_var, k2_is_neg_sat.into(), k2_is_pos_sat.into())?;
-    circuit.enforce_true(sat)?;
-
-    //  (g) tmp2 + lambda_2 * k2_sign * k2 + s2  = t * t_sign * r2
-
-    let k2_is_pos_sat = {
-        //  (g.1) if k2_sign = 1 then
-        //      tmp2 + lambda_2 * k_2_var = t * r2
-        let left_wire = [tmp2_var, k2_var, circuit.zero(), circuit.zero()];
-        let left_coeff = [F::one(), lambda_2, F::zero(), F::zero()];
-        let left_var = circuit.lc(&left_wire, &left_coeff)?;
-
-        let right_var = circuit.mul_constant(t_var, &r2)?;
-
-        circuit.is_equal(left_var, right_var)?
-    };
-
-    let k2_is_neg_sat = {
-        //  (g.2) if k2_sign = -1 then
-        //      tmp2  + t * r2 = lambda_2 * k_2_var
-        let left_wire = [tmp2_var, t_var, circuit.zero(), circuit.zero()];
-        let left_coeff = [F::one(), r2, F::zero(), F::zero()];
-        let left_var = circuit.lc(&left_wire, &left_coeff)?;
-
-        let right_var = circuit.mul_constant(k2_var, &lambda_2)?;
-
-        circuit.is_equal(left_var, right_var)?
-    };
-
-    //  (g.3) either g.1 or g.2 is satisfied
-    let sat =
-        circuit.conditional_select(k2_sign_var, k2_is_neg_sat.into(), k2_is_pos_sat.into())?;
-    circuit.enforce_true(sat)?;
+    circuit.enforce_in_range(*s_var, 253)?;
+    circuit.enforce_in_range(k1_var, 128)?;
+    circuit.enforce_in_range(k2_var, 128)?;
+    for (var, shift, bit_len) in [
+        (t_var, two_to(127), 128),
+        (c_0_var, two_to(131), 166),
+        (c_1_var, two_to(131), 132),
+    ] {
+        let shifted_var = circuit.add_constant(var, &shift)?;
+        circuit.enforce_in_range(shifted_var, bit_len)?;
+    }
 
     // extract the output
     Ok((k1_var, k2_var, k2_sign_var))
-- 
2.43.0

